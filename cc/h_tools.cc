// C16: the command-line programs against the documented grouping of their
// input files.  VERIF_WHICH is not used; every program has its own group.
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>

#include <algorithm>
#include <fstream>

#include "scene.h"
#include "waymo_open_dataset/dataset.pb.h"
#include "waymo_open_dataset/metrics/config_util.h"
#include "waymo_open_dataset/metrics/detection_metrics.h"
#include "waymo_open_dataset/metrics/iou.h"
#include "waymo_open_dataset/metrics/tracking_metrics.h"
#include "waymo_open_dataset/protos/segmentation.pb.h"
#include "waymo_open_dataset/protos/segmentation_metrics.pb.h"
#include "waymo_open_dataset/protos/submission.pb.h"
#include "google/protobuf/text_format.h"
#include "zlib.h"

int tool_det_main(int, char**);
int tool_let_main(int, char**);
int tool_seg_main(int, char**);
int tool_trk_main(int, char**);
int tool_sub_main(int, char**);
int tool_cmp_main(int, char**);

namespace waymo {
namespace open_dataset {
namespace {

// A scratch directory of this process, removed at exit by main().
std::string& Dir() {
  static auto* d = new std::string();
  return *d;
}

void Write(const std::string& name, const std::string& s) {
  std::ofstream o(Dir() + "/" + name, std::ios::binary | std::ios::trunc);
  o << s;
}
std::string Read(const std::string& name) {
  std::ifstream s(Dir() + "/" + name, std::ios::binary);
  return std::string((std::istreambuf_iterator<char>(s)), std::istreambuf_iterator<char>());
}

struct Run {
  bool exited = false;
  int code = -1;
  std::string out, err;
};

// Runs a program's main() in a child process with its output in files.
Run RunTool(int (*tool)(int, char**), std::vector<std::string> args) {
  args.insert(args.begin(), "tool");
  fflush(stdout);
  const pid_t pid = fork();
  if (pid == 0) {
    const int o = open((Dir() + "/out").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    const int e = open((Dir() + "/err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(o, 1);
    dup2(e, 2);
    signal(SIGABRT, SIG_DFL);
    std::vector<char*> argv;
    for (auto& a : args) argv.push_back(&a[0]);
    argv.push_back(nullptr);
    const int rc = tool(static_cast<int>(args.size()), argv.data());
    std::cout.flush();
    fflush(stdout);
    _exit(rc);
  }
  Run r;
  int st = 0;
  waitpid(pid, &st, 0);
  r.exited = WIFEXITED(st);
  r.code = r.exited ? WEXITSTATUS(st) : -WTERMSIG(st);
  r.out = Read("out");
  r.err = Read("err");
  vh::Count("programs_run");
  return r;
}

// Lines "NAME: [A x] [B y]" or "NAME:x".
std::vector<std::string> Lines(const std::string& s) {
  std::vector<std::string> v;
  std::istringstream i(s);
  std::string l;
  while (std::getline(i, l)) v.push_back(l);
  return v;
}
std::vector<std::pair<std::string, std::map<std::string, double>>> Table(const std::string& s) {
  std::vector<std::pair<std::string, std::map<std::string, double>>> t;
  for (const std::string& l : Lines(s)) {
    const size_t c = l.find("LEVEL_");
    const size_t e = l.find(": [", c == std::string::npos ? 0 : c);
    if (c == std::string::npos || e == std::string::npos) continue;
    std::map<std::string, double> m;
    size_t p = e + 2;
    while ((p = l.find('[', p)) != std::string::npos) {
      const size_t q = l.find(']', p);
      const size_t sp = l.find(' ', p);
      if (q == std::string::npos || sp == std::string::npos) break;
      m[l.substr(p + 1, sp - p - 1)] = atof(l.substr(sp + 1, q - sp - 1).c_str());
      p = q;
    }
    t.push_back({l.substr(0, e), m});
  }
  return t;
}

// The configuration of the challenges (README and the programs' comments).
Config ChallengeConfig(bool let) {
  Config c;
  std::vector<Breakdown::GeneratorId> ids = {Breakdown::OBJECT_TYPE, Breakdown::RANGE};
  if (let) ids.push_back(Breakdown::CAMERA);
  for (auto id : ids) {
    c.add_breakdown_generator_ids(id);
    auto* d = c.add_difficulties();
    if (!let) d->add_levels(Label::LEVEL_1);
    d->add_levels(Label::LEVEL_2);
  }
  c.set_matcher_type(MatcherProto::TYPE_HUNGARIAN);
  for (float t : let ? std::vector<float>{0, 0.5, 0.3, 0.3, 0.3} : std::vector<float>{0, 0.7, 0.5, 0.5, 0.5}) c.add_iou_thresholds(t);
  c.set_box_type(Label::Box::TYPE_3D);
  for (int i = 0; i <= 100; ++i) c.add_score_cutoffs(i == 100 ? 1.0 : i * 0.01);
  if (let) {
    auto* l = c.mutable_let_metric_config();
    l->set_enabled(true);
    l->set_align_type(Config::LongitudinalErrorTolerantConfig::TYPE_RANGE_ALIGNED);
    l->set_longitudinal_tolerance_percentage(0.1);
    l->set_min_longitudinal_tolerance_meter(0.5);
    l->mutable_sensor_location()->set_x(1.43);
    l->mutable_sensor_location()->set_y(0);
    l->mutable_sensor_location()->set_z(2.18);
  }
  return c;
}

// Files with the objects of several runs, frames and cameras in random order.
struct Files {
  std::vector<Object> pds, gts;
};
Files RandFiles(vh::Rng* r, bool let, bool tracking) {
  Files f;
  const int nseg = r->range(1, 3);
  const int64_t step = r->pick<int64_t>({100000, 100000, 1ll << 16, 1ll << 32});
  for (int s = 0; s < nseg; ++s) {
    auto frames = scene::RandFrames(r, Label::Box::TYPE_3D, tracking ? 6 : 3, 6, /*images=*/false);
    for (size_t k = 0; k < frames.size(); ++k) {
      auto key = [&](Object* o) {
        // Timestamps are shared between runs; names are prefixes of each other.
        o->set_context_name(std::string("run_1").substr(0, 3 + s));
        o->set_frame_timestamp_micros(1000000 + step * static_cast<int64_t>(k) + (k > 1 ? 5000000000000ll : 0));
      };
      for (auto& p : frames[k].pds) {
        key(&p);
        if (!tracking && !let && r->chance(0.1)) p.set_camera_name(CameraName::FRONT);
        if (tracking) p.mutable_object()->set_id("t" + std::to_string(r->range(0, 5)));
        f.pds.push_back(p);
      }
      for (auto& g : frames[k].gts) {
        key(&g);
        Label* l = g.mutable_object();
        if (!tracking) {
          const int n = r->pick<int>({0, 0, 1, 4, 5, 6, 50, 50});
          const int m = r->pick<int>({0, 1, 4, 5, 6, 50, 50});
          if (r->chance(0.95)) l->set_num_lidar_points_in_box(n);
          if (r->chance(0.95)) l->set_num_top_lidar_points_in_box(m);
          if (let) {
            *l->mutable_camera_synced_box() = gen::Jitter(r, l->box(), 0.3);
            if (r->chance(0.15)) {  // Heading 0 need not be written.
              l->mutable_camera_synced_box()->clear_heading();
            }
            *l->mutable_box() = gen::RandBox(r, 40);
            l->set_most_visible_camera_name(r->pick<std::string>({"FRONT", "FRONT_LEFT", "FRONT_RIGHT", "SIDE_LEFT", "SIDE_RIGHT", ""}));
            if (r->chance(0.1)) l->clear_most_visible_camera_name();
          } else if (r->chance(0.1)) {
            g.set_camera_name(CameraName::FRONT);
          }
        }
        f.gts.push_back(g);
      }
    }
  }
  if (r->chance(0.4)) {  // A run without predictions, or without labels.
    const std::string run = std::string("run_1").substr(0, 3 + r->range(0, 2));
    auto& v = r->chance(0.7) ? f.pds : f.gts;
    v.erase(std::remove_if(v.begin(), v.end(), [&](const Object& o) { return o.context_name() == run; }), v.end());
  }
  if (tracking) {  // No two predictions of a frame share an id.
    std::set<std::string> seen;
    int extra = 100;
    for (auto& p : f.pds)
      if (!seen.insert(p.context_name() + "@" + std::to_string(p.frame_timestamp_micros()) + "@" + p.object().id()).second)
        p.mutable_object()->set_id("x" + std::to_string(extra++));
  }
  std::vector<float> scores;
  for (size_t i = 0; i < f.pds.size(); ++i) scores.push_back((i + 1) / (f.pds.size() + 1.0f));
  r->shuffle(&scores);
  for (size_t i = 0; i < f.pds.size(); ++i) f.pds[i].set_score(scores[i]);
  r->shuffle(&f.pds);
  r->shuffle(&f.gts);
  if (f.gts.empty()) {
    Object o;
    o.mutable_object()->set_type(Label::TYPE_SIGN);
    o.set_context_name("only");
    o.mutable_object()->set_num_lidar_points_in_box(0);
    o.mutable_object()->set_id("z");
    *o.mutable_object()->mutable_box() = gen::RandBox(r, 5);
    f.gts.push_back(o);
  }
  return f;
}

std::string Ser(const std::vector<Object>& v) {
  Objects o;
  for (auto& x : v) *o.add_objects() = x;
  return o.SerializeAsString();
}
std::string Text(const Files& f) {
  std::ostringstream o;
  o << "pds";
  for (auto& p : f.pds) o << " {" << p.ShortDebugString() << "}";
  o << " gts";
  for (auto& p : f.gts) o << " {" << p.ShortDebugString() << "}";
  return o.str();
}

void CheckTable(const Run& run, const std::vector<std::string>& names, const std::vector<std::map<std::string, double>>& want,
                const std::string& key, const std::string& d) {
  VH_EXPECT(run.exited && run.code == 0, key + "_status", "status " << run.code << " stderr " << run.err.substr(0, 1500) << " on " << d);
  if (!run.exited || run.code != 0) return;
  const auto t = Table(run.out);
  VH_EXPECT(t.size() == names.size(), key + "_rows", t.size() << " rows, want " << names.size() << " on " << d);
  for (size_t i = 0; i < t.size() && i < names.size(); ++i) {
    VH_EXPECT(t[i].first == names[i], key + "_names", "row " << t[i].first << " want " << names[i]);
    for (const auto& kv : want[i]) {
      auto it = t[i].second.find(kv.first);
      VH_EXPECT(it != t[i].second.end(), key + "_columns", "no " << kv.first << " in row " << names[i]);
      if (it == t[i].second.end()) continue;
      // The programs print six digits.
      VH_EXPECT(vh::Near(it->second, kv.second, 2e-5), key + "_values", names[i] << " " << kv.first << " printed " << it->second << " want " << kv.second << " on " << d);
      if (kv.second > 0 && kv.second < 1) vh::Count(key + "_inside");
    }
  }
}

void DetCase(vh::Rng* r, bool let) {
  const std::string key = let ? "let" : "det";
  Files f = RandFiles(r, let, false);
  const std::string d = Text(f);
  vh::Crumb(d);
  vh::Sample(d);
  vh::Nontrivial(vh::Hash(d));
  Write("pd", Ser(f.pds));
  Write("gt", Ser(f.gts));
  const Run run = RunTool(let ? tool_let_main : tool_det_main, {Dir() + "/pd", Dir() + "/gt"});

  typedef std::tuple<std::string, int64_t, int> Key;
  std::map<Key, std::pair<std::vector<Object>, std::vector<Object>>> frames;
  auto k = [](const Object& o) { return Key(o.context_name(), o.frame_timestamp_micros(), o.camera_name()); };
  for (auto& p : f.pds) frames[k(p)].first.push_back(p);
  for (Object g : f.gts) {
    Label* l = g.mutable_object();
    const int n = let ? l->num_top_lidar_points_in_box() : l->num_lidar_points_in_box();
    if (n <= 0) {
      vh::Count("gts_without_points");
      continue;
    }
    if (l->detection_difficulty_level() == Label::UNKNOWN) {
      l->set_detection_difficulty_level(n <= 5 ? Label::LEVEL_2 : Label::LEVEL_1);
      vh::Count("levels_from_points");
    }
    if (let) {
      if (l->most_visible_camera_name().empty()) {
        vh::Count("gts_without_camera");
        continue;
      }
      *l->mutable_box() = l->camera_synced_box();
    }
    frames[k(g)].second.push_back(g);
  }
  if (frames.empty()) return;  // Nothing is evaluated and no table is printed.
  if (frames.size() > 1) vh::Count("files_of_several_frames");
  std::vector<std::vector<Object>> pds, gts;
  for (auto& kv : frames) {
    pds.push_back(kv.second.first);
    gts.push_back(kv.second.second);
  }
  const Config cfg = ChallengeConfig(let);
  const auto names = GetBreakdownNamesFromConfig(cfg);
  const auto ms = ComputeDetectionMetrics(cfg, pds, gts);
  std::vector<std::map<std::string, double>> want;
  for (auto& m : ms) {
    if (let)
      want.push_back({{"LET-mAPL", m.mean_average_precision_longitudinal_affinity_weighted()}, {"LET-mAP", m.mean_average_precision()}, {"LET-mAPH", m.mean_average_precision_ha_weighted()}});
    else
      want.push_back({{"mAP", m.mean_average_precision()}, {"mAPH", m.mean_average_precision_ha_weighted()}});
  }
  CheckTable(run, names, want, key, d);
}

void TrkCase(vh::Rng* r) {
  Files f = RandFiles(r, false, true);
  const std::string d = Text(f);
  vh::Crumb(d);
  vh::Nontrivial(vh::Hash(d));
  Write("pd", Ser(f.pds));
  Write("gt", Ser(f.gts));
  const Run run = RunTool(tool_trk_main, {Dir() + "/pd", Dir() + "/gt"});
  std::map<std::string, std::map<int64_t, std::pair<std::vector<Object>, std::vector<Object>>>> scenes;
  for (auto& p : f.pds) scenes[p.context_name()][p.frame_timestamp_micros()].first.push_back(p);
  for (auto& p : f.gts) scenes[p.context_name()][p.frame_timestamp_micros()].second.push_back(p);
  std::vector<std::vector<std::vector<Object>>> pds, gts;
  for (auto& s : scenes) {
    pds.emplace_back();
    gts.emplace_back();
    for (auto& kv : s.second) {
      pds.back().push_back(kv.second.first);
      gts.back().push_back(kv.second.second);
    }
  }
  const Config cfg = ChallengeConfig(false);
  const auto ms = ComputeTrackingMetrics(cfg, pds, gts);
  std::vector<std::map<std::string, double>> want;
  for (auto& m : ms) want.push_back({{"MOTA", m.mota()}, {"MOTP", m.motp()}, {"Miss", m.miss()}, {"Mismatch", m.mismatch()}, {"FP", m.fp()}});
  CheckTable(run, GetBreakdownNamesFromConfig(cfg), want, "trk", d);
}

std::string Deflate(const std::string& s) {
  uLongf n = compressBound(s.size());
  std::string o(n, 0);
  compress(reinterpret_cast<Bytef*>(&o[0]), &n, reinterpret_cast<const Bytef*>(s.data()), s.size());
  o.resize(n);
  return o;
}

void SegCase(vh::Rng* r) {
  SegmentationFrameList pd, gt;
  std::vector<int> all;
  for (int i = 0; i < Segmentation::Type_descriptor()->value_count(); ++i) all.push_back(Segmentation::Type_descriptor()->value(i)->number());
  std::map<int, std::pair<int64_t, int64_t>> iou;  // class: intersection, union
  std::ostringstream os;
  std::vector<SegmentationFrame> pdf, gtf;
  const int n = r->range(1, 4);
  const int64_t step = r->pick<int64_t>({1000003, 1000003, 1, 1ll << 32});
  for (int f = 0; f < n; ++f) {
    SegmentationFrame p, g;
    const std::string ctx = r->chance(0.5) ? "a" : "ab";
    for (SegmentationFrame* x : {&p, &g}) {
      x->set_context_name(ctx);
      x->set_frame_timestamp_micros(f * step);
    }
    const bool have_pd = r->chance(0.85), have_gt = r->chance(0.9), good_pd = r->chance(0.85), second = r->chance(0.9);
    os << " frame pd" << have_pd << " gt" << have_gt << " good" << good_pd << " second" << second;
    Laser *lp = p.add_segmentation_labels(), *lg = g.add_segmentation_labels();
    lp->set_name(LaserName::TOP);
    lg->set_name(LaserName::TOP);
    for (int ret = 0; ret < 2; ++ret) {
      if (ret == 1 && !second) continue;  // No second return was labelled.
      MatrixInt32 mp, mg;
      const int h = r->range(1, 3), w = r->range(1, 20);
      const int pool = r->range(1, static_cast<int>(all.size()));
      const double agree = r->u();
      for (int i = 0; i < h * w; ++i) {
        const int gv = all[r->range(0, pool - 1)], pv = r->chance(agree) ? gv : all[r->range(0, pool - 1)];
        mg.add_data(gv);
        mp.add_data(pv);
        os << " " << gv << "/" << pv;
        if (!have_gt) continue;
        const int seen = have_pd && good_pd ? pv : 0;
        if (gv == 0) continue;
        if (gv == seen) ++iou[gv].first;
        ++iou[gv].second;
        if (seen != gv && seen != 0) ++iou[seen].second;
      }
      for (auto* m : {&mp, &mg}) {
        m->mutable_shape()->add_dims(h);
        m->mutable_shape()->add_dims(w);
      }
      (ret ? lp->mutable_ri_return2() : lp->mutable_ri_return1())->set_segmentation_label_compressed(Deflate(mp.SerializeAsString()));
      (ret ? lg->mutable_ri_return2() : lg->mutable_ri_return1())->set_segmentation_label_compressed(Deflate(mg.SerializeAsString()));
    }
    if (!good_pd) {
      if (r->chance(0.5)) lp->set_name(LaserName::FRONT);
      else *p.add_segmentation_labels() = p.segmentation_labels(0);
    }
    if (have_pd) pdf.push_back(p);
    if (have_gt) gtf.push_back(g);
    else if (r->chance(0.5)) {
      g.clear_segmentation_labels();
      gtf.push_back(g);
    }
    if (have_gt && !second) vh::Count("frames_without_second_return");
    if (have_gt && !(have_pd && good_pd)) vh::Count("frames_without_prediction");
  }
  if (gtf.empty()) return;
  r->shuffle(&pdf);
  r->shuffle(&gtf);
  for (auto& x : pdf) *pd.add_frames() = x;
  for (auto& x : gtf) *gt.add_frames() = x;
  const std::string d = os.str();
  vh::Crumb(d);
  vh::Nontrivial(vh::Hash(d));
  Write("pd", pd.SerializeAsString());
  Write("gt", gt.SerializeAsString());
  const Run run = RunTool(tool_seg_main, {Dir() + "/pd", Dir() + "/gt"});
  VH_EXPECT(run.exited && run.code == 0, "seg_status", "status " << run.code << " stderr " << run.err.substr(0, 1500) << " on " << d);
  if (!run.exited || run.code) return;
  std::map<std::string, double> got;
  for (const auto& l : Lines(run.out)) {
    const size_t c = l.find_first_of(":=");
    if (c != std::string::npos) got[l.substr(0, c)] = atof(l.c_str() + c + 1);
  }
  double mean = 0;
  for (int c : all) {
    if (c == 0) continue;
    const double want = iou[c].second ? static_cast<double>(iou[c].first) / iou[c].second : 1.0;
    mean += want / (all.size() - 1);
    const std::string name = Segmentation::Type_Name(static_cast<Segmentation::Type>(c));
    VH_EXPECT(got.count(name) && vh::Near(got[name], want, 2e-5), "seg_iou", name << " printed " << (got.count(name) ? got[name] : -1) << " want " << want << " on " << d);
    if (want > 0 && want < 1) vh::Count("seg_inside");
  }
  VH_EXPECT(got.count("miou") && vh::Near(got["miou"], mean, 2e-5), "seg_miou", " printed " << got["miou"] << " want " << mean << " on " << d);
}

Object RandPrediction(vh::Rng* r, int id) {
  Object o;
  o.mutable_object()->set_id("obj" + std::to_string(id));
  *o.mutable_object()->mutable_box() = gen::RandBox(r, 40);
  o.mutable_object()->set_type(scene::RandType(r, 4, false));
  o.set_score(r->pick<float>({0.0f, 0.01f, 0.029f, 0.031f, 0.5f, 1.0f, static_cast<float>(r->u())}));
  o.set_context_name("ctx" + std::to_string(r->range(0, 2)));
  o.set_frame_timestamp_micros(r->range(0, 5) * 100000ll + 1550000000000000ll);
  if (r->chance(0.05)) o.set_frame_timestamp_micros(10);
  return o;
}

void SubCase(vh::Rng* r) {
  std::vector<std::string> names;
  const int nf = r->range(1, 3), shards = r->range(1, 6);
  std::map<std::string, Object> want;
  std::ostringstream os;
  int id = 0;
  os << shards << " shards";
  for (int f = 0; f < nf; ++f) {
    Objects objs;
    const int n = r->chance(0.15) ? 0 : r->range(1, 25);
    os << "; file of " << n;
    for (int i = 0; i < n; ++i) {
      Object o = RandPrediction(r, id++);
      auto* b = o.mutable_object()->mutable_box();
      if (r->chance(0.08)) {
        const double nan = std::numeric_limits<double>::quiet_NaN();
        switch (r->range(0, 6)) {
          case 0: b->set_center_x(nan); break;
          case 1: b->set_center_y(nan); break;
          case 2: b->set_center_z(nan); break;
          case 3: b->set_length(nan); break;
          case 4: b->set_width(nan); break;
          case 5: b->set_height(nan); break;
          case 6: b->set_heading(nan); break;
        }
        if (o.score() >= 0.03f) vh::Count("nan_boxes");
      }
      if (r->chance(0.08)) b->set_length(r->pick<double>({0, -1, 1e-9}));
      if (r->chance(0.08)) b->set_width(r->pick<double>({0, -1, 1e-9}));
      if (r->chance(0.08)) b->set_height(r->pick<double>({0, -1, 1e-9}));
      *objs.add_objects() = o;
      const bool nan = std::isnan(b->center_x() + b->center_y() + b->center_z() + b->length() + b->width() + b->height() + b->heading());
      if (o.score() < 0.03 || nan) {
        vh::Count("dropped_predictions");
        continue;
      }
      b->set_length(std::max(b->length(), 1e-6));
      b->set_width(std::max(b->width(), 1e-6));
      b->set_height(std::max(b->height(), 1e-6));
      want[o.object().id()] = o;
    }
    const std::string s = objs.SerializeAsString();
    if (s.empty()) vh::Count("empty_files");
    if (!s.empty() && s.back() == '\n') vh::Count("files_ending_in_newline_byte");
    const bool nl = n > 0 && r->chance(0.1);
    if (nl) os << " (newline appended)";
    Write("in" + std::to_string(f), nl ? s + "\n" : s);
    names.push_back(Dir() + "/in" + std::to_string(f));
  }
  Submission sub;
  sub.set_account_name("me@x.org");
  sub.set_unique_method_name("m" + std::to_string(r->range(0, 9)));
  sub.add_authors("a");
  sub.set_task(Submission::DETECTION_3D);
  if (r->chance(0.5)) sub.add_object_types(Label::TYPE_VEHICLE);
  std::string txt;
  google::protobuf::TextFormat::PrintToString(sub, &txt);
  Write("sub.txtpb", txt);
  std::string list;
  for (auto& n : names) list += (list.empty() ? "" : ",") + n;
  const std::string d = os.str();
  vh::Crumb(d);
  vh::Nontrivial(vh::Hash(d + std::to_string(r->next())));
  for (int i = 0; i < 8; ++i) unlink((Dir() + "/shard" + std::to_string(i)).c_str());
  const Run run = RunTool(tool_sub_main, {"--input_filenames=" + list, "--output_filename=" + Dir() + "/shard", "--num_shards=" + std::to_string(shards),
                                          "--submission_filename=" + Dir() + "/sub.txtpb"});
  VH_EXPECT(run.exited && run.code == 0, "sub_status", "status " << run.code << " stderr " << run.err.substr(0, 1500) << " on " << d);
  if (!run.exited || run.code) return;
  std::map<std::string, int> seen;
  for (int i = 0; i < 8; ++i) {
    const std::string path = Dir() + "/shard" + std::to_string(i);
    struct stat st;
    const bool there = stat(path.c_str(), &st) == 0;
    VH_EXPECT(there == (i < shards), "sub_shards", "shard " << i << " exists " << there << " on " << d);
    if (!there) continue;
    Submission got;
    VH_EXPECT(got.ParseFromString(Read("shard" + std::to_string(i))), "sub_parse", "shard " << i << " on " << d);
    Submission head = got;
    head.clear_inference_results();
    VH_EXPECT(head.SerializeAsString() == sub.SerializeAsString(), "sub_header", head.ShortDebugString() << " want " << sub.ShortDebugString());
    for (const auto& o : got.inference_results().objects()) {
      ++seen[o.object().id()];
      VH_EXPECT(want.count(o.object().id()) && want[o.object().id()].SerializeAsString() == o.SerializeAsString(), "sub_object", o.ShortDebugString() << " on " << d);
      vh::Count("submitted");
    }
  }
  for (auto& kv : want) VH_EXPECT(seen[kv.first] == 1, "sub_exactly_once", kv.second.ShortDebugString() << " appears " << seen[kv.first] << " times on " << d);
}

void CmpCase(vh::Rng* r) {
  // Well separated boxes, so that the matching is not in question.
  const bool is_3d = r->chance(0.6);
  Objects full, lat;
  const double min_score = r->pick<double>({0.0, 0.0, 0.3});
  std::vector<Object> all;
  const int nf = r->range(1, 3);
  const bool by_name = r->chance(0.3);  // Frames of several runs at the same time.
  const int64_t step = r->pick<int64_t>({1, 1, 1ll << 32});
  int perturbed_frames = 0;
  std::ostringstream os;
  os << (is_3d ? "3d" : "2d") << " min score " << min_score;
  std::vector<Object> fv, lv;
  for (int f = 0; f < nf; ++f) {
    const int n = r->range(1, 45);
    const bool in_lat = f == 0 || r->chance(0.7);
    int bad = 0, counted = 0, full_counted = 0;
    const int kind = r->chance(0.5) ? r->range(1, 4) : 0;
    const int want_bad = kind ? r->range(1, 5) : 0;
    int done = 0;
    for (int i = 0; i < n; ++i) {
      Object o = RandPrediction(r, i);
      o.set_context_name(by_name ? std::string("c_1_2").substr(0, 1 + 2 * f) : "c");
      o.set_frame_timestamp_micros(by_name ? 7 : f * step);
      if (!is_3d) o.set_camera_name(CameraName::FRONT);
      o.set_score(r->uni(0.32, 0.93));
      auto* b = o.mutable_object()->mutable_box();
      b->set_center_x(i * 30);
      if (!is_3d) {
        b->clear_heading();
        b->clear_center_z();
        b->clear_height();
      }
      bool low = false;
      if (min_score > 0 && r->chance(0.1)) low = true, o.set_score(0.1);
      Object l = o;
      b = l.mutable_object()->mutable_box();
      if (!low && done < want_bad) {
        ++done;
        switch (kind) {
          case 1:  // Not in the latency results.
            fv.push_back(o);
            ++full_counted;
            continue;
          case 2:  // Another score.
            l.set_score(o.score() + (r->chance(0.5) && o.score() - 0.06 > min_score + 0.001 ? -0.06 : 0.06));
            ++bad;
            break;
          case 3:  // Another box.
            b->set_center_y(b->center_y() + 0.3 * std::max(b->width(), b->length()));
            ++bad;
            break;
          case 4:  // Only in the latency results.
            if (in_lat) lv.push_back(l);
            ++counted;
            ++bad;
            continue;
        }
      } else if (!low && r->chance(0.5)) {  // A difference that is allowed.
        l.set_score(o.score() + (r->chance(0.5) && o.score() - 0.045 > min_score + 0.001 ? r->pick<double>({-0.02, -0.045}) : r->pick<double>({0.02, 0.045})));
        b->set_center_x(b->center_x() + 1e-4);
      }
      fv.push_back(o);
      if (in_lat) lv.push_back(l);
      if (!low) ++counted, ++full_counted;
    }
    os << "; frame of " << n << " kind " << kind << " x" << done << " in latency results " << in_lat << " counted " << counted << "/" << full_counted;
    if (!in_lat || counted == 0) continue;
    const int unmatched = bad + std::max(0, full_counted - counted);
    if (full_counted == 0 || unmatched > 0.05 * counted) ++perturbed_frames;
    else if (unmatched) vh::Count("tolerated_differences");
  }
  r->shuffle(&fv);
  r->shuffle(&lv);
  std::string list;
  const int shards = r->range(1, 3);
  for (int s = 0; s < shards; ++s) {
    Submission sub;
    Objects part;
    for (size_t i = s; i < fv.size(); i += shards) *part.add_objects() = fv[i];
    *sub.mutable_inference_results() = part;
    sub.set_account_name("me");
    if (r->chance(0.8)) sub.set_unique_method_name(r->pick<std::string>({"Your unique method name.", "YABCDEFGH", "m", "net", "\x10\x10"}));
    const bool as_sub = r->chance(0.6);
    Write("full" + std::to_string(s), as_sub ? sub.SerializeAsString() : part.SerializeAsString());
    list += (s ? "," : "") + Dir() + "/full" + std::to_string(s);
  }
  Write("lat", Ser(lv));
  const std::string d = os.str();
  vh::Crumb(d);
  vh::Nontrivial(vh::Hash(d));
  const Run run = RunTool(tool_cmp_main, {"--latency_result_filename=" + Dir() + "/lat", "--full_result_filenames=" + list, "--minimum_score=" + std::to_string(min_score)});
  const bool same = run.exited && run.code == 0;
  const bool memory_error = run.err.find("Sanitizer") != std::string::npos || run.err.find("runtime error") != std::string::npos;
  VH_EXPECT(!memory_error, "cmp_memory", run.err.substr(0, 1500) << " on " << d);
  VH_EXPECT(same == (perturbed_frames == 0), "cmp_verdict", "said " << (same ? "same" : "different") << ", " << perturbed_frames << " frames differ; " << run.err.substr(0, 500) << " on " << d);
  vh::Count(same ? "compared_same" : "compared_different");
}

}  // namespace
}  // namespace open_dataset
}  // namespace waymo

int main(int argc, char** argv) {
  using namespace waymo::open_dataset;
  char tmpl[] = "/tmp/verif-tools-XXXXXX";
  Dir() = mkdtemp(tmpl);
  const int rc = vh::Main(argc, argv, {{"detection", 0.4, [](vh::Rng* r) { DetCase(r, false); }},
                                       {"let", 0.4, [](vh::Rng* r) { DetCase(r, true); }},
                                       {"tracking", 0.4, TrkCase},
                                       {"segmentation", 0.7, SegCase},
                                       {"submission", 1.0, SubCase},
                                       {"compare", 1.0, CmpCase}});
  for (const char* n : {"pd", "gt", "out", "err", "in0", "in1", "in2", "sub.txtpb", "full0", "full1", "full2", "lat", "shard0", "shard1", "shard2", "shard3",
                        "shard4", "shard5", "shard6", "shard7"})
    unlink((Dir() + "/" + n).c_str());
  rmdir(Dir().c_str());
  return rc;
}
