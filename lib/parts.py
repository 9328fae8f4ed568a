"""Building blocks of the checks: native and Python harness runs."""
import os
import shutil
import subprocess
import tempfile

import ccbuild
import runner

VERIF = runner.VERIF
W = "//waymo_open_dataset/"


def cc(main, labels, env=None, cases=200, ms=40000, thorough=8, shards=8, san="asan", args=(),
       extra_srcs=(), link=""):
    """A C++ harness, `shards` processes with different seeds."""
    def run(chk):
        with ccbuild.Builder() as b:
            exe = b.build(main[:-3], main, [W + l for l in labels], san=san,
                          extra_srcs=extra_srcs, link=link)
            k = thorough if runner.THOROUGH else 1
            cap = min(ms * k, 600000)
            cmds = [[exe, "--seed", str(runner.SEED * 1000 + i), "--cases", str(cases * k),
                     "--ms", str(cap)] + list(args) for i in range(shards)]
            chk.run_procs(cmds, timeout=cap / 1000.0 + 120, env=env)
    return run


class PyTree:
    """A scratch package tree: /repo's sources by symlink, fresh *_pb2.py."""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-py-")
        src = runner.REPO + "/src"
        protos = []
        for d, dirs, files in os.walk(src + "/waymo_open_dataset"):
            rel = os.path.relpath(d, src)
            os.makedirs(self.dir + "/" + rel, exist_ok=True)
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if f.endswith("_pb2.py") or f.endswith(".pyc"):
                    continue
                if f.endswith(".proto"):
                    protos.append(rel + "/" + f)
                os.symlink(d + "/" + f, self.dir + "/" + rel + "/" + f)
        r = subprocess.run(["/usr/bin/protoc", "-I" + src, "--python_out=" + self.dir] + protos,
                           capture_output=True, text=True, cwd=src)
        if r.returncode:
            raise ccbuild.BuildError("protoc: " + r.stderr)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def env(self, extra=()):
        return {"PYTHONPATH": ":".join([self.dir, VERIF + "/py"] + list(extra)),
                "PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION": "python",
                "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
                "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}


def py(script, cases=200, ms=60000, thorough=8, shards=8, args=(), shim=False, env=None):
    """A Python harness (py/<script>), `shards` processes with different seeds."""
    def run(chk):
        t = PyTree()
        try:
            e = t.env([VERIF + "/tfshim"] if shim else [])
            e.update(env or {})
            k = thorough if runner.THOROUGH else 1
            cap = min(ms * k, 600000)
            cmds = [[runner.PY, "-X", "faulthandler", VERIF + "/py/" + script,
                     "--seed", str(runner.SEED * 1000 + i), "--cases", str(cases * k),
                     "--ms", str(cap)] + list(args) for i in range(shards)]
            chk.run_procs(cmds, timeout=cap / 1000.0 + 120, env=e)
        finally:
            t.close()
    return run
