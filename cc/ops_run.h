// Runs the registered kernels of the TensorFlow operations.
#ifndef VERIF_OPS_RUN_H_
#define VERIF_OPS_RUN_H_
#include "tensorflow/core/framework/allocator.h"
#include "tensorflow/core/framework/device_base.h"
#include "tensorflow/core/framework/node_def_builder.h"
#include "tensorflow/core/framework/op.h"
#include "tensorflow/core/framework/op_kernel.h"
#include "tensorflow/core/framework/shape_inference.h"
#include "tensorflow/core/framework/tensor.h"
#include "tensorflow/core/framework/tensor_util.h"
#include "tensorflow/core/public/version.h"
#include "vh.h"

namespace ops {
namespace tf = tensorflow;
using tf::Tensor;
using tf::TensorShape;

class Device : public tf::DeviceBase {
 public:
  Device() : tf::DeviceBase(tf::Env::Default()) {}
  tf::Allocator* GetAllocator(tf::AllocatorAttributes) override { return tf::cpu_allocator(); }
};

struct Attrs {
  std::string config;
  bool has_config = false;
  int type = 0;  // DataType of T.
  int depth = -1;
};
struct Result {
  bool ok = false;
  std::string error;
  std::vector<Tensor> out;
};

inline tf::NodeDef Node(const std::string& op, const std::vector<Tensor>& in, const Attrs& a, tf::Status* st) {
  tf::NodeDefBuilder b("node", op);
  for (size_t i = 0; i < in.size(); ++i) b.Input("in", i, in[i].dtype());
  if (a.has_config) b.Attr("config", a.config);
  if (a.type) b.Attr("T", static_cast<tf::DataType>(a.type));
  if (a.depth >= 0) b.Attr("return_depth", a.depth == 1);
  tf::NodeDef def;
  *st = b.Finalize(&def);
  return def;
}

inline Result Run(const std::string& op, const std::vector<Tensor>& in, const Attrs& a) {
  static Device* device = new Device();
  Result r;
  tf::Status st;
  const tf::NodeDef def = Node(op, in, a, &st);
  if (!st.ok()) {
    r.error = "node: " + st.ToString();
    return r;
  }
  std::unique_ptr<tf::OpKernel> k = tf::CreateOpKernel(tf::DeviceType(tf::DEVICE_CPU), device, tf::cpu_allocator(), def, TF_GRAPH_DEF_VERSION, &st);
  if (!st.ok()) {
    r.error = "kernel: " + st.ToString();
    return r;
  }
  std::vector<Tensor> copies = in;
  tf::gtl::InlinedVector<tf::TensorValue, 4> values;
  for (Tensor& t : copies) values.push_back(tf::TensorValue(&t));
  tf::OpKernelContext::Params p;
  p.device = device;
  p.op_kernel = k.get();
  p.inputs = values;
  p.frame_iter = tf::FrameAndIter(0, 0);
  std::vector<tf::AllocatorAttributes> attrs(k->num_outputs());
  p.output_attr_array = attrs.data();
  tf::OpKernelContext ctx(&p);
  k->Compute(&ctx);
  r.ok = ctx.status().ok();
  r.error = ctx.status().ToString();
  if (r.ok)
    for (int i = 0; i < k->num_outputs(); ++i) {
      Tensor* t = ctx.mutable_output(i);
      r.out.push_back(t ? *t : Tensor());
    }
  return r;
}

// Shapes that the operation declares for its outputs.
inline std::vector<tf::PartialTensorShape> Shapes(const std::string& op, const std::vector<Tensor>& in, const Attrs& a, std::string* error) {
  std::vector<tf::PartialTensorShape> out;
  tf::Status st;
  const tf::NodeDef def = Node(op, in, a, &st);
  const tf::OpRegistrationData* reg = nullptr;
  if (st.ok()) st = tf::OpRegistry::Global()->LookUp(op, &reg);
  if (!st.ok()) {
    *error = st.ToString();
    return out;
  }
  std::vector<tf::PartialTensorShape> shapes;
  for (const Tensor& t : in) shapes.push_back(tf::PartialTensorShape(t.shape().dim_sizes()));
  tf::shape_inference::InferenceContext c(TF_GRAPH_DEF_VERSION, def, reg->op_def, shapes, {}, {}, {});
  st = c.Run(reg->shape_inference_fn);
  if (!st.ok()) {
    *error = st.ToString();
    return out;
  }
  for (int i = 0; i < c.num_outputs(); ++i) {
    auto h = c.output(i);
    if (!c.RankKnown(h)) {
      out.push_back(tf::PartialTensorShape());
      continue;
    }
    std::vector<int64_t> d;
    for (int k = 0; k < c.Rank(h); ++k) d.push_back(c.ValueKnown(c.Dim(h, k)) ? c.Value(c.Dim(h, k)) : -1);
    out.push_back(tf::PartialTensorShape(d));
  }
  return out;
}

template <class T>
Tensor Vec(tf::DataType dt, const std::vector<T>& v) {
  Tensor t(dt, TensorShape({static_cast<int64_t>(v.size())}));
  for (size_t i = 0; i < v.size(); ++i) t.vec<T>()(i) = v[i];
  return t;
}
inline Tensor Mat(const std::vector<std::vector<float>>& v, int cols) {
  Tensor t(tf::DT_FLOAT, TensorShape({static_cast<int64_t>(v.size()), cols}));
  for (size_t i = 0; i < v.size(); ++i)
    for (int j = 0; j < cols; ++j) t.matrix<float>()(i, j) = v[i][j];
  return t;
}
}  // namespace ops
#endif
