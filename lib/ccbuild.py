"""Builds harness binaries from /repo's working tree, outside /repo.

The BUILD files of the repository say which sources belong to a label, so a
change that adds a source or a dependency is followed.  Objects are kept in a
content-addressed cache (key: command, source text, text of every header and
proto of the repository, harness headers), so a stale object is never used.
"""
import concurrent.futures as cf
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src"
TF = "/opt/wod/tf/tensorflow"
ANDROID = "/usr/lib/x86_64-linux-gnu/android"
CACHE = os.environ.get("VERIF_CACHE", VERIF + "/.cache")
KINDS = ("cc_library", "cc_binary", "cc_test", "all_proto_library")
EXT = {
    "@com_google_googletest//:gtest_main": ("", "-lgtest_main -lgmock -lgtest"),
    "@com_google_googletest//:gtest": ("", "-lgmock -lgtest"),
    "@com_google_glog//:glog": ("", "-lglog"),
    "@zlib": ("", "-lz"),
    "@boringssl//:crypto": (
        "-isystem /usr/include/android",
        "-L{0} -Wl,-rpath,{0} -l:libcrypto.so.0".format(ANDROID)),
}
BASE = ("-std=c++17 -fPIC -pthread -w -D_GLIBCXX_USE_CXX11_ABI=1 "
        "-DEIGEN_MAX_ALIGN_BYTES=64")
SAN = {
    # The repository's code and the harness; protos are built plain.
    # __SANITIZE_*__ is hidden from absl: its containers would change their
    # layout, and the TensorFlow library they are shared with is built without.
    # NDEBUG is left out so that DCHECKs and protobuf's bounds checks are on.
    "asan": "-O1 -g1 -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS "
            "-fsanitize=address,undefined -fno-sanitize=vptr "
            "-fno-sanitize-recover=undefined -U__SANITIZE_ADDRESS__",
    "tsan": "-O1 -g1 -fno-omit-frame-pointer -DNDEBUG -fsanitize=thread -U__SANITIZE_THREAD__ -DVH_TSAN=1",
    "plain": "-O2 -DNDEBUG",
    "asandbg": "-O0 -g -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined -fno-sanitize=vptr",
}


class BuildError(Exception):
    pass


class _Env(dict):
    def __missing__(self, name):
        return {"True": True, "False": False, "None": None}.get(
            name, lambda *a, **k: [])


def _label(pkg, s):
    if s.startswith("@"):
        return s
    if s.startswith(":"):
        return "//" + pkg + s
    if s.startswith("//"):
        return s if ":" in s else s + ":" + s.rsplit("/", 1)[1]
    return "//" + pkg + ":" + s


def read_targets(src=SRC):
    targets = {}

    def rule(kind, pkg):
        def add(name=None, src=None, srcs=(), hdrs=(), deps=(), copts=(), **kw):
            deps = [_label(pkg, d) for d in deps or ()]
            if kind == "all_proto_library":
                base = "//%s:%s" % (pkg, src[:-len(".proto")])
                targets[base + "_proto"] = dict(
                    kind="proto", src=pkg + "/" + src, deps=deps)
                return
            targets["//%s:%s" % (pkg, name)] = dict(
                kind=kind, pkg=pkg, name=name, deps=deps, copts=list(copts),
                srcs=[pkg + "/" + s for s in srcs if s.endswith(".cc")],
                shared=bool(kw.get("linkshared")))
        return add

    for d, dirs, files in os.walk(src + "/waymo_open_dataset"):
        dirs.sort()
        if "BUILD" in files:
            pkg = os.path.relpath(d, src)
            env = _Env((k, rule(k, pkg)) for k in KINDS)
            with open(d + "/BUILD") as f:
                exec(compile(f.read(), d + "/BUILD", "exec"), env)
    return targets


def closure(targets, name, seen):
    if name in seen:
        return seen
    seen.append(name)
    if name.startswith("@"):
        return seen
    t = targets.get(name)
    if t is None and name.endswith("_cc_proto"):
        closure(targets, name[:-len("_cc_proto")] + "_proto", seen)
    elif t is None:
        raise BuildError("no such target: " + name)
    else:
        for dep in t["deps"]:
            closure(targets, dep, seen)
    return seen


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()


class Builder:
    def __init__(self, src=SRC):
        self.src = src
        self.targets = read_targets(src)
        self.out = tempfile.mkdtemp(prefix="verif-build-")
        self.gen = self.out + "/gen"
        os.makedirs(self.gen)
        os.makedirs(CACHE, exist_ok=True)
        hdrs, protos = [], []
        for d, dirs, files in os.walk(src + "/waymo_open_dataset"):
            dirs.sort()
            for f in sorted(files):
                p = d + "/" + f
                if f.endswith(".h"):
                    hdrs.append(p)
                elif f.endswith(".proto"):
                    protos.append(p)
        self.proto_hash = _sha(*sum(([os.path.relpath(p, src), _read(p)] for p in protos), []))
        self.header_hash = _sha(*sum(([os.path.relpath(p, src), _read(p)] for p in hdrs), []))
        r = subprocess.run(["/usr/bin/protoc", "-I" + src, "--cpp_out=" + self.gen] +
                           [os.path.relpath(p, src) for p in protos], cwd=src,
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError("protoc: " + r.stderr)

    def close(self):
        shutil.rmtree(self.out, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _compile(self, path, flags, key_extra):
        # The key holds no absolute scratch path; the command does.
        rel = path.replace(self.src, "SRC").replace(self.gen, "GEN").replace(VERIF, "V")
        text = _read(path)
        # A harness may include a program's source to run its main().
        inc = [_read(self.src + "/" + i.decode()) for i in
               re.findall(rb'#include "(waymo_open_dataset/[^"]*\.cc)"', text)]
        key = _sha(rel, flags, text, key_extra, *inc)
        obj = CACHE + "/" + key + ".o"
        if os.path.exists(obj):
            return obj
        tmp = tempfile.mktemp(dir=self.out, suffix=".o")
        cmd = ("g++ %s %s -I%s -I%s -I%s/cc -isystem %s/include -c %s -o %s" % (
            BASE, flags, self.src, self.gen, VERIF, TF, path, tmp))
        r = subprocess.run(cmd, shell=True, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("%s\n%s" % (cmd, r.stderr[-6000:]))
        shutil.move(tmp, obj + ".%d" % os.getpid())
        os.replace(obj + ".%d" % os.getpid(), obj)
        return obj

    def build(self, name, main, labels, san="asan", shared=False, extra_srcs=(), link=""):
        """Compiles `main` (a file of /verif/cc, or None for the target's own)."""
        seen = []
        for l in labels:
            closure(self.targets, l, seen)
        jobs, libs = [], []
        for x in seen:
            if x in EXT:
                c, l = EXT[x]
                if l and l not in libs:
                    libs.append(l)
        copts_all = " ".join(dict.fromkeys(EXT[x][0] for x in seen if x in EXT and EXT[x][0]))
        vh = _sha(*[_read(VERIF + "/cc/" + f) for f in sorted(os.listdir(VERIF + "/cc"))
                    if f.endswith(".h")])
        flags = SAN[san] + " " + copts_all
        done = set()
        for x in seen:
            t = self.targets.get(x)
            if t is None:
                continue
            if t["kind"] == "proto":
                p = "%s/%s.pb.cc" % (self.gen, t["src"].rsplit(".", 1)[0])
                if p not in done:
                    done.add(p)
                    jobs.append((p, "-O0 -g0 -DNDEBUG" if san != "tsan" else SAN["tsan"] + " -O0",
                                 self.proto_hash))
            else:
                for s in t["srcs"]:
                    p = self.src + "/" + s
                    if p not in done:
                        done.add(p)
                        jobs.append((p, flags + " " + " ".join(t["copts"]),
                                     self.proto_hash + self.header_hash))
        for m in ([main] if main else []) + list(extra_srcs):
            jobs.append((VERIF + "/cc/" + m, flags,
                         self.proto_hash + self.header_hash + vh))
        # Largest first keeps the pool busy.
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        with cf.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda j: self._compile(*j), jobs))
        out = self.out + "/" + name
        sanl = {"asan": "-fsanitize=address,undefined", "asandbg": "-fsanitize=address,undefined",
                "tsan": "-fsanitize=thread", "plain": ""}[san]
        if "-lglog" not in libs:
            libs.append("-lglog")
        cmd = "g++ -pthread %s %s -o %s %s %s %s -L%s -Wl,-rpath,%s -l:libtensorflow_framework.so.2 -lrt -lm -lpthread" % (
            "-shared" if shared else "", sanl, out, " ".join(objs), link, " ".join(libs), TF, TF)
        r = subprocess.run(cmd, shell=True, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("%s\n%s" % (cmd[:2000], r.stderr[-6000:]))
        return out


if __name__ == "__main__":
    ts = read_targets()
    for k in sorted(ts):
        print(k, ts[k].get("srcs"), ts[k]["kind"])
