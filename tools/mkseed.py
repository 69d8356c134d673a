"""mkseed: seed(id, prop, [(file, old, new)...], needs, what, demo_body, headers) writes /verif/seeded/<id>/ from a scratch copy"""
import json, os, subprocess
WT = "/tmp/wt"
DEMO_SH = '''#!/bin/bash
# compiles demo.cpp against the library that build.sh made and runs it
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
T=/repo/extern/pytorch/torch; [ -d $T/include ] || T=/opt/vp/torch-site/torch
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
F="-std=gnu++17 -O1 -w -D_GLIBCXX_USE_CXX11_ABI=0 -I/repo/include -I/repo/extern/boost -I/repo/extern/doctest"
# the library registers its test cases when it is loaded: it needs doctest's implementation
printf '#define DOCTEST_CONFIG_IMPLEMENT\\n#include "doctest/doctest_proxy.h"\\n' > $W/dt.cpp
g++ $F -c $W/dt.cpp -o $W/dt.o &
g++ $F -DFMT_HEADER_ONLY=1 -DFMT_DEPRECATED_OSTREAM -DDOCTEST_CONFIG_DISABLE \\
  -isystem $T/include -isystem $T/include/torch/csrc/api/include -c "$D/demo.cpp" -o $W/demo.o || { wait; rm -rf "$W"; exit 3; }
wait
g++ $W/demo.o $W/dt.o -o $W/demo -L/repo/_build/sources -lQuantiT -L$T/lib -Wl,--no-as-needed -ltorch -ltorch_cpu -lc10 \\
  -Wl,-rpath,/repo/_build/sources -Wl,-rpath,$(realpath $T)/lib || { rm -rf "$W"; exit 3; }
timeout 200 $W/demo; rc=$?
rm -rf "$W"
exit $rc
'''
def seed(id, prop, edits, needs, what, body, headers=("blockTensor/btensor.h",), pre=""):
    subprocess.check_call("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=WT)
    for f, old, new in edits:
        p = os.path.join(WT, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "diff"], cwd=WT, text=True)
    open(d + "/patch.diff", "w").write(diff)
    subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=WT)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write("".join('#include "%s"\n' % h for h in headers) + '''#include <cstdio>
#include <cstdlib>
using namespace quantit;
using namespace quantit::conserved;
#define CHECK(x) do { if (!(x)) { printf("demo: %s does not hold (line %d)\\n", #x, __LINE__); exit(1); } } while (0)
''' + pre + "\nint main()\n{\n" + body + "\n\treturn 0;\n}\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
