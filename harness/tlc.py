"""Running TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception):
    """The check itself failed (no verdict)."""


def ensure_build():
    """Compile the evaluation classes if needed (setup does it as well)."""
    src = [os.path.join(VERIF, "java", f) for f in sorted(os.listdir(os.path.join(VERIF, "java")))]
    mark = os.path.join(BUILD, "bp", "Ovs.class")
    if os.path.exists(mark) and all(os.path.getmtime(s) <= os.path.getmtime(mark) for s in src):
        return
    os.makedirs(BUILD, exist_ok=True)
    subprocess.run(["javac", "-cp", TLA, "-d", BUILD] + src, check=True)


def run(module, cfg=None, env=None, workers=4, timeout=850, args=(), heap="6g", metadir=None):
    """Run TLC on spec/<module>.tla; returns (exit code, output)."""
    ensure_build()
    tmp = tempfile.mkdtemp(prefix="tlc_")
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC",
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:bp.Ovs",
               "-Djava.io.tmpdir=" + tmp,
               "-cp", ":".join([BUILD, TLA, CM]), "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(tmp, "meta"), "-noGenerateSpecTE",
               "-config", os.path.join(SPEC, (cfg or module) + ".cfg")] + list(args) + \
              [os.path.join(SPEC, module + ".tla")]
        p = subprocess.run(cmd, env=e, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True)
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


_TUP = re.compile(r'^<<"(BAD|DONE)", (.*)>>$')


def verdicts(out):
    """(bad, done): lists of tuples printed by the trace specifications."""
    bad, done = [], []
    # TLC breaks long tuples over lines
    text = re.sub(r"\n\s+", " ", out)
    text = text.replace("<< ", "<<").replace(" >>", ">>")
    for line in text.splitlines():
        m = _TUP.match(line.strip())
        if m:
            vals = [a if a else b for a, b in re.findall(r'"((?:[^"\\]|\\.)*)"|(-?\d+)', m.group(2))]
            (bad if m.group(1) == "BAD" else done).append(tuple(vals))
    return bad, done


def _follow(module, traces, workers, timeout, env):
    fd, path = tempfile.mkstemp(prefix="traces_", suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(traces, f, default=int)
        e = {"TRACES": path}
        e.update(env or {})
        rc, out = run(module, env=e, workers=workers, timeout=timeout)
        bad, done = verdicts(out)
        ids = {d[0] for d in done}
        return bad, [t for t in traces if t["id"] not in ids], rc, out
    finally:
        os.unlink(path)


def check_traces(module, traces, workers=4, timeout=850, env=None):
    """Validate traces; returns (bad, stats).

    TLC stops when a recorded state has values which the specification cannot
    interpret at all (say, an array of the wrong length).  The traces which it
    did not finish are followed again in smaller groups; a trace which cannot
    be followed even alone, while a well-formed one can, is a failure of the
    library.  Raises Machinery if TLC does not work at all."""
    bad, missing, rc, out = _follow(module, traces, workers, timeout, env)
    st = stats(out)
    if not missing and rc == 0:
        return bad, st
    if len(missing) == len(traces) and len(traces) > 1 and not _control(module, traces, env):
        raise Machinery("TLC did not work (exit %d):\n%s" % (rc, out[-6000:]))
    left = {t["id"] for t in missing}
    bad = [b for b in bad if b[0] not in left]
    groups, alone, runs = [missing], [], 0
    while groups and runs < 60 and len(alone) < 6:
        g = groups.pop(0)
        runs += 1
        b, miss, rc, out = _follow(module, g, workers, timeout, env)
        s2 = stats(out)
        st = (st[0] + s2[0], st[1] + s2[1])
        left = {t["id"] for t in miss}
        bad += [x for x in b if x[0] not in left]
        if len(g) == 1 and miss:
            alone.append(g[0])
            bad.append((g[0]["id"], "0", "trace", "state unreadable: " + _why(out), ""))
        elif miss:
            h = (len(miss) + 1) // 2
            groups = [x for x in (miss[:h], miss[h:]) if x] + groups
    if groups and not alone:
        raise Machinery("TLC did not finish %d traces (exit %d): %s" % (sum(map(len, groups)), rc, out[-6000:]))
    if alone and not _control(module, traces, env):
        raise Machinery("TLC did not work (exit %d):\n%s" % (rc, out[-6000:]))
    return bad, st


def _why(out):
    m = re.search(r"Error: (.*)", out)
    return re.sub(r"\s+", " ", m.group(1))[:120] if m else "TLC stopped"


def _control(module, traces, env):
    """Does TLC follow a stored trace of the same module?"""
    path = os.path.join(VERIF, "harness", "control_%s.json" % module)
    if not os.path.exists(path):
        return True
    with open(path) as f:
        c = json.load(f)
    bad, missing, rc, out = _follow(module, c, 1, 300, env)
    return rc == 0 and not missing
