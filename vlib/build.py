"""Builds what a check needs from /repo's current working tree, in /verif/.build (ignored by git).

C++: /opt/wod/gen.py turns the repository's BUILD files into a build.ninja; a harness is an
extra object linked against the link closure of some of the repository's own cc_test targets.
Python: a shadow package tree (copies of the .py files + protoc output), so /repo is not written to.
"""
import fcntl
import os
import re
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", VERIF + "/.build")
CC = BUILD + "/cc"
PYROOT = BUILD + "/py"
VENV_PY = "/opt/venv/bin/python"


class MachineryError(Exception):
    pass


class _Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = "%s/.%s.lock" % (BUILD, name)

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise MachineryError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


SHIM = "-I%s/harness/cpp/shim" % VERIF
# harness name -> (sources, cc_test targets whose link closure it needs, extra copts)
M = "waymo_open_dataset/metrics/"
HARNESSES = {
    "h_metrics": (["h_metrics.cc"],
                  [M + "mot_test", M + "detection_metrics_test", M + "tracking_metrics_test",
                   M + "matcher_test", M + "breakdown_generator_test",
                   M + "metrics_utils_test", M + "tools/compute_detection_metrics_main"], ""),
    "h_geom": (["h_geom.cc"], [M + "iou_test", "waymo_open_dataset/math/polygon2d_test"], ""),
    "h_seg": (["h_seg.cc"], [M + "segmentation_metrics_test"], ""),
    "h_motion": (["h_motion.cc"], [M + "motion_metrics_test", M + "motion_metrics_utils_test"], ""),
    "h_scenario": (["h_scenario.cc"],
                   ["waymo_open_dataset/data_conversion/scenario_conversion_test"], ""),
    "h_ops": (["h_ops.cc"], [M + "ops/metrics_ops.so"], ""),
    "h_submit": (["h_submit.cc"], [M + "matcher_test"], SHIM),
    "h_compare": (["h_compare.cc"], [M + "matcher_test"], SHIM),
    "h_camera": (["h_camera.cc"], ["waymo_open_dataset/wdl_limited/camera/camera_model_test"], ""),
}


# further objects a harness needs
MORE = {k: ["waymo_open_dataset/protos/submission.pb.o"] for k in ("h_submit", "h_compare")}


def _parse(ninja_text):
    links = {}
    for m in re.finditer(r"^build (\S+): link ([^\n]*)\n  flags = ([^\n]*)\n  libs = ([^\n]*)",
                         ninja_text, re.M):
        links[m.group(1)] = (m.group(2).split("||")[0].split(), m.group(4))
    return links


def ninja_file(cc=None):
    cc = cc or CC
    os.makedirs(cc, exist_ok=True)
    _run(["/usr/bin/python3", "/opt/wod/gen.py", SRC, cc])
    path = cc + "/build.ninja"
    text = open(path).read()
    text = text.replace("-O2 -DNDEBUG", "-O1 -DNDEBUG -D_GLIBCXX_ASSERTIONS").replace("-Wall", "-w")
    links = _parse(text)
    extra = []
    for name, (srcs, tests, copts) in sorted(HARNESSES.items()):
        if not all(os.path.exists("%s/harness/cpp/%s" % (VERIF, s)) for s in srcs):
            continue
        objs, libs = [], []
        for t in tests:
            key = "%s/bin/%s" % (cc, t)
            if key not in links:
                raise MachineryError("no link rule for %s" % t)
            for o in links[key][0]:
                if not o.endswith(("_test.o", "_main.o")) and o not in objs:
                    objs.append(o)
            for l in links[key][1].split():
                if l not in libs and not re.match(r"-lg(test|mock|test_main)$", l):
                    libs.append(l)
        for o in MORE.get(name, ()):
            objs.append("%s/obj/%s" % (cc, o))
        heads = [re.sub(r"/obj/(.*)\.pb\.o$", r"/gen/\1.pb.h", o) for o in objs if o.endswith(".pb.o")]
        mine = []
        for s in srcs:
            o = "%s/hobj/%s.o" % (cc, s[:-3])
            mine.append(o)
            extra.append("build %s: cxx %s/harness/cpp/%s || %s\n  copts = -I%s/harness/cpp %s" % (
                o, VERIF, s, " ".join(heads), VERIF, copts))
        extra.append("build %s/hbin/%s: link %s\n  flags = \n  libs = %s -lz" % (
            cc, name, " ".join(mine + objs), " ".join(libs)))
    open(path, "w").write(text + "\n".join(extra) + "\n")
    return links


def cc(*names):
    """Builds the named harnesses; returns their paths."""
    with _Lock("cc"):
        ninja_file()
        outs = ["%s/hbin/%s" % (CC, n) for n in names]
        _run(["ninja", "--quiet", "-C", CC] + outs)
    return outs[0] if len(outs) == 1 else outs


def cc_targets(*targets):
    """Builds repository targets (paths relative to the ninja output dir)."""
    with _Lock("cc"):
        ninja_file()
        outs = ["%s/%s" % (CC, t) for t in targets]
        _run(["ninja", "--quiet", "-C", CC] + outs)
    return outs


def py():
    """Fills PYROOT with the repository's Python files and protoc output; returns PYROOT."""
    with _Lock("py"):
        tmp = "%s.%d" % (PYROOT, os.getpid())
        os.makedirs(tmp)
        protos = []
        for d, _, files in os.walk(SRC + "/waymo_open_dataset"):
            rel = os.path.relpath(d, SRC)
            for f in files:
                if f.endswith(".py") and not f.endswith("_pb2.py"):
                    os.makedirs(tmp + "/" + rel, exist_ok=True)
                    shutil.copyfile(d + "/" + f, "%s/%s/%s" % (tmp, rel, f))
                elif f.endswith(".proto"):
                    protos.append(rel + "/" + f)
        _run(["/usr/bin/protoc", "-I" + SRC, "--python_out=" + tmp] + sorted(protos))
        if os.path.isdir(PYROOT):
            shutil.rmtree(PYROOT)
        os.rename(tmp, PYROOT)
    return PYROOT
