"""Builds and runs the concrete harnesses (replay search and bounded stand-ins) against /repo's current sources."""
import os, re, subprocess, tempfile, shutil, time, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("DV_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HDIR = os.path.join(HERE, "harness")
BASE = ["g++", "-std=c++20", "-O1", "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
        "-ffunction-sections", "-fdata-sections",
        "-isystem", "/usr/include/lua5.4", "-isystem", "/usr/include/jsoncpp"]


def sources(name):
    s, fl, libs = [], [], []
    for l in open(os.path.join(HDIR, name + ".cpp")):
        m = re.match(r"//\s*SOURCES:\s*(.*)", l)
        if m:
            s += m.group(1).split()
        m = re.match(r"//\s*LIBS:\s*(.*)", l)
        if m:
            libs += m.group(1).split()
        m = re.match(r"//\s*FLAGS:\s*(.*)", l)
        if m:
            fl += m.group(1).split()
    return s, libs, [f.replace("$H", HDIR).replace("$R", REPO) for f in fl]


GROUPS = {"common": ["src/util/common"], "serialization": ["src/util/serialization"], "crypto": ["3rdparty/crypto"],
          "network": ["src/util/network"], "secp": []}


class BuildError(Exception):
    pass


def build(name, out, repo=None):
    repo = repo or REPO
    srcs, lnames, fl = sources(name)
    libs = [f for f in fl if f.startswith("-l")]
    cfl = [f for f in fl if not f.startswith("-l")]
    inc = ["-I" + HDIR, "-I" + repo + "/3rdparty/crypto", "-I" + repo + "/3rdparty/crypto/..", "-I" + repo + "/src", "-I" + repo + "/3rdparty", "-I" + repo + "/src/parsec"]
    jobs = []
    for i, s in enumerate([os.path.join(HDIR, name + ".cpp")] + [os.path.join(repo, x) for x in srcs]):
        o = os.path.join(out, "%s_%d.o" % (name, i))
        jobs.append((BASE + cfl + inc + ["-c", s, "-o", o], o, s))

    nmain = len(jobs)
    lsrc = []
    for g in lnames:
        for d in GROUPS[g]:
            lsrc += sorted(os.path.join(repo, d, f) for f in os.listdir(os.path.join(repo, d)) if f.endswith(".cpp"))
    for i, s in enumerate(lsrc):
        o = os.path.join(out, "%s_lib%d.o" % (name, i))
        jobs.append((BASE + cfl + inc + ["-c", s, "-o", o], o, s))

    def comp(j):
        p = subprocess.run(j[0], capture_output=True, text=True, timeout=600)
        return p.returncode, p.stderr, j
    with ThreadPoolExecutor(8) as ex:
        for rc, errs, j in ex.map(comp, jobs):
            if rc != 0 and jobs.index(j) < nmain:
                raise BuildError("%s does not compile: %s" % (j[2], errs[:3000]))
    exe = os.path.join(out, name)
    lobjs = [j[1] for j in jobs[nmain:] if os.path.exists(j[1])]
    ar = []
    if lobjs:
        a = os.path.join(out, name + "_lib.a")
        subprocess.run(["ar", "qcs", a] + lobjs, check=True)
        ar = [a]
    jobs = jobs[:nmain]
    p = subprocess.run(["g++", "-fsanitize=address,undefined", "-Wl,--gc-sections"] + [j[1] for j in jobs] + ar + ["-o", exe] + libs + ["-lpthread"], capture_output=True, text=True, timeout=600)
    if p.returncode != 0:
        raise BuildError("link: " + p.stderr[:3000])
    return exe


def run(exe, seed, secs, extra=()):
    """-> (status 'pass'|'fail'|'error', stdout+stderr tail, info)"""
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:quarantine_size_mb=16"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    d = tempfile.mkdtemp(prefix="verif_h_")
    try:
        p = subprocess.run([exe, "--seed", str(seed), "--secs", str(secs)] + list(extra), capture_output=True, text=True,
                           timeout=secs * 3 + 60, env=env, cwd=d, errors="replace")
        rc, out, er = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        rc = -99
        out = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        er = "HANG: the harness did not finish: a call into the code under test does not return"
    finally:
        shutil.rmtree(d, ignore_errors=True)
    info = {}
    m = re.search(r"CASES (\d+) DISTINCT (\d+) EVALS (\d+)", out)
    if m:
        info = dict(cases=int(m.group(1)), distinct=int(m.group(2)), evals=int(m.group(3)))
    m = re.search(r"^SAMPLE (.*)$", out, re.M)
    if m:
        info["sample"] = m.group(1)
    if rc == 0 and "PASS" in out:
        return "pass", out, info
    return "fail", out[-20000:] + "\n--- stderr ---\n" + er[-12000:] + "\nexit status %d\n" % rc, info


if __name__ == "__main__":
    d = tempfile.mkdtemp(prefix="verif_hb_")
    try:
        t = time.time()
        exe = build(sys.argv[1], d)
        print("built in %.1fs" % (time.time() - t))
        st, out, info = run(exe, int(os.environ.get("VERIF_SEED", "1")), float(sys.argv[2]) if len(sys.argv) > 2 else 5, sys.argv[3:])
        print(out[:6000])
        print(st, info)
    finally:
        shutil.rmtree(d, ignore_errors=True)
