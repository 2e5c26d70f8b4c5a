"""Helper to write planted bugs: seed(id, property, needs, breaks, [(file, old, new)...], demo_cc, libs).
Makes /verif/seeded/<id>/{patch.diff,demo.sh,demo.cc,meta.json}; the patch is made in a scratch copy of /repo."""
import json, os, shutil, subprocess, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO = '''#!/bin/bash
# Run in /repo after a build: exit 0 if the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -w -DLIBDCP_LINUX -D_FILE_OFFSET_BITS=64 -Isrc -pthread "$d/demo.cc" "$d/except.cc" _build/src/libdcp-1.0.so \\
	-Wl,-rpath,"$PWD/_build/src" -Wl,--allow-shlib-undefined -Wl,-z,lazy -lboost_filesystem -lboost_system -lboost_date_time -ldl %s -o "$t/demo" || exit 99
cd "$t" && timeout 100 ./demo
'''

# The library as built here lacks the constructors of its exceptions
EXCEPT = '''#include "exceptions.h"
dcp::FileError::FileError(std::string m, boost::filesystem::path f, int n) : runtime_error(m), _filename(f), _number(n) {}
dcp::TimeFormatError::TimeFormatError(std::string m) : runtime_error(m) {}
dcp::BadContentKindError::BadContentKindError(std::string m) : ReadError(m) {}
dcp::ProgrammingError::ProgrammingError(std::string m, int) : runtime_error(m) {}
'''

# what most demonstrations begin with
W = '''#include <iostream>
#include <fstream>
#include <sstream>
#include <cstring>
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#define WANT(x) if (!(x)) { std::cerr << "wrong: " #x "\\n"; return 1; }
static std::string slurp(std::string p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spit(std::string p, std::string t) { std::ofstream f(p); f << t; }
'''


def seed(id, prop, needs, breaks, edits, demo, libs="", demo_sh=None, extra=None):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed.")
    try:
        r = os.path.join(w, "repo")
        subprocess.run(["git", "clone", "-q", os.environ.get("VERIF_REPO", "/repo"), r], check=True)
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", r, "diff"], check=True, capture_output=True, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        shutil.rmtree(w)
    if demo:
        open(os.path.join(d, "demo.cc"), "w").write(demo)
    if not demo_sh or "except.cc" in demo_sh:
        open(os.path.join(d, "except.cc"), "w").write(EXCEPT)
    for n, t in (extra or {}).items():
        open(os.path.join(d, n), "w").write(t)
    open(os.path.join(d, "demo.sh"), "w").write(demo_sh or DEMO % libs)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


FULL = '''#!/bin/bash
# Run in /repo: exit 0 if the behaviour is right.  Builds the whole library on the stand-ins in shim/.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/o"
libs="libxml++-2.6 libxml-2.0 openssl xmlsec1 xmlsec1-openssl libopenjp2 fmt gnutls"
have=""
for l in $libs; do pkg-config --exists $l && have="$have $l"; done
flags="-D_FILE_OFFSET_BITS=64 -D__STDC_FORMAT_MACROS -std=c++11 -w -DLIBDCP_VERSION=\\\\\\"devel\\\\\\" -DLIBDCP_LINUX -DLIBDCP_MPEG2_TRANSCODE -DLIBDCP_HAVE_NO_CHECK_TIME=1 -DLIBDCP_HAVE_WEAKLY_CANONICAL=1 -DLIBDCP_HAVE_COPY_OPTIONS=1 -DLIBDCP_HAVE_REPLACE_EXTENSION=1 -DLIBDCP_HAVE_HARU=1 -O0 -fPIC -pthread -I$d/shim -Isrc -I$d @CFLAGS@"
names=$(sed 's/#.*//' src/wscript | grep -o '[a-zA-Z0-9_]*\\.cc' | sort -u | grep -v '^version\\.cc$')
for n in $names; do [ -e src/$n ] && echo "$PWD/src/$n"; done > "$t/list"
echo "$d/shim/impl/asdcp.cc
$d/shim/impl/cxml.cc
$d/demo.cc" >> "$t/list"
export flags t
xargs -P 8 -n 1 sh -c 'eval g++ $flags -c "$0" -o "$t/o/$(basename "$0" .cc).o"' < "$t/list" || exit 99
g++ -pthread "$t"/o/*.o -o "$t/demo" -lboost_filesystem -lboost_system -lboost_date_time -lhpdf -ldl @LIBS@ || exit 99
export LIBDCP_RESOURCES="$PWD"
cd "$t" && timeout 100 ./demo
'''


def full(id, prop, needs, breaks, edits, demo, harness=("common.h", "world.h", "xmlview.h")):
    """A planted bug in a part of the library that the ordinary build leaves out"""
    import sys
    sys.path.insert(0, V)
    from lib import vf
    sh = FULL.replace("@CFLAGS@", " ".join(vf.pkg("--cflags"))).replace("@LIBS@", " ".join(vf.pkg("--libs")))
    sh = sh[:sh.index("libs=")] + sh[sh.index("flags="):]
    seed(id, prop, needs, breaks, edits, demo, demo_sh=sh)
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(os.path.join(d, "shim"), ignore_errors=True)
    shutil.copytree(os.path.join(V, "shim"), os.path.join(d, "shim"))
    for h in harness:
        shutil.copy(os.path.join(V, "harness", h), d)
