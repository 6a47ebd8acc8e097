"""mkseed.mk(name, prop, needs, breaks, edits=[(file, old, new)], srcs, demo): writes seeded/<name>/ from edits against /repo's working tree."""
import os, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("DV_REPO", "/repo")
SH = '''#!/bin/bash
# Builds the demonstration against the sources in the current directory (/repo) and runs it in a scratch directory.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
B=_build
g++ -std=c++20 -O1 -w -ffunction-sections -Isrc -I3rdparty -I3rdparty/crypto %s "$here/demo.cpp" %s \\
  $B/src/util/common/libcommon.a $B/src/util/serialization/libserialization.a $B/src/util/common/libcommon.a $B/3rdparty/crypto/libcrypto.a -Wl,--gc-sections %s -lpthread -o "$t/demo"
cd "$t" && timeout 60 ./demo
'''


def mk(name, prop, needs, breaks, edits, srcs, demo, flags="", libs="", extra=None):
    d = os.path.join(V, "seeded", name)
    os.makedirs(d, exist_ok=True)
    for f, a, b in edits:
        p = os.path.join(R, f)
        s = open(p).read()
        assert s.count(a) == 1, (name, f, s.count(a))
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(SH % (flags, " ".join(srcs), libs))
    open(os.path.join(d, "demo.cpp"), "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"))
    for n, t in (extra or {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        open(os.path.join(d, n), "w").write(t)
