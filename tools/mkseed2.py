#!/usr/bin/env python3
"""Create a seeded bug whose demonstration is the counterexample its check finds.
python spec on stdin: ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS.
Runs the check on a mutated copy (/tmp/sr) with the build in /tmp/sb; prints MISSED if the check is quiet.
The demonstration is the harness compiled natively with the recorded inputs."""
import glob, json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(sys.stdin.read(), ns)
ID, PROP = ns["ID"], ns["PROP"]
d = f"{V}/seeded/{ID}"
subprocess.check_call(["rsync", "-a", "--delete", "--exclude", "/_build", "--exclude", "/build", "/repo/", "/tmp/sr/"])
for f, a, b in ns["EDITS"]:
    p = "/tmp/sr/" + f
    s = open(p).read()
    assert s.count(a) == 1, (f, a, s.count(a))
    open(p, "w").write(s.replace(a, b))
patch = subprocess.check_output(["git", "-C", "/tmp/sr", "diff"])
assert patch
r = subprocess.run([sys.executable, f"{V}/check.py", PROP, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                   env=dict(os.environ, VP_REPO="/tmp/sr", VP_BUILD="/tmp/sb"))
reps = re.findall(r"VIOLATION property=\S+ replay=(\S+)", r.stdout)
best = None
for rep in reps:
    j = json.load(open(rep))
    if best is None or (j["native_rc"] == 42 and best["native_rc"] != 42):
        best = j
if not best:
    print("MISSED", ID, r.returncode, r.stdout[-1500:])
    open(f"/tmp/missed-{ID}.diff", "wb").write(patch)
    sys.exit(1)
shutil.rmtree(d, ignore_errors=True)
os.makedirs(f"{d}/h")
open(f"{d}/patch.diff", "wb").write(patch)
h = best["harness"]
shutil.copy(h, f"{d}/h/case.cc")
shutil.copytree(f"{V}/harness/common", f"{d}/h/common")
shutil.copytree(f"{V}/shim", f"{d}/h/shim")
for f in ("sym.h", "replay.cc"):
    shutil.copy(f"{V}/rt/{f}", f"{d}/h/{f}")
shutil.copytree("/tmp/sb/stl", f"{d}/h/stl")
open(f"{d}/h/input", "w").write(" ".join(map(str, best["inputs"])) + "\n")
src, inc, libs = [], [], []
for line in open(h):
    m = re.match(r"//\s*@(sources|include|libs)\s+(.*)", line)
    if m:
        {"sources": src, "include": inc, "libs": libs}[m[1]].extend(m[2].split())
flags = " ".join(f"-I{i}" for i in inc)
open(f"{d}/demo.sh", "w").write(f"""#!/bin/bash
# exit 0: the property holds for the demonstrated case ({best['entry']} with h/input); nonzero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)" || exit 2
trap 'rm -rf "$out"' EXIT
export here out
one() {{
  clang++ -std=gnu++2b -O1 -w --gcc-install-dir=/usr/lib/gcc/x86_64-linux-gnu/12 -isystem "$here/h/stl" -D__cpp_concepts=202002L \\
    -include "$here/h/shim/prelude.h" -DNDEBUG -DSTD -DCEREAL_SERIALIZE_FUNCTION_NAME=cereal_serialize \\
    -ffp-contract=off -fsanitize=address -Iinclude {flags} -I"$here/h/shim" -I"$here/h" -c "$1" -o "$out/$(echo "$1" | tr / _).o"
}}
export -f one
all() {{ xargs -P 8 -I{{}} bash -c 'test ! -e {{}} || one {{}}'; }}
link() {{ clang++ -fsanitize=address -rdynamic -Wl,-z,muldefs "$out"/*_h_case.cc.o $(ls "$out"/*.o | grep -v _h_case.cc.o) -o "$out/demo" {' '.join(libs)} -ldl -lpthread -Wl,--unresolved-symbols=ignore-all; }}
src="{' '.join(src)}"
printf '%s\\n' "$here/h/case.cc" "$here/h/replay.cc" $src | all || exit 2
link || exit 2
if nm -u "$out/demo" | grep -v _ZT | grep -q 4soro; then  # code in other files
  find src -name '*.cc' | grep -v parse_station_coords | while read -r f; do
    [ -e "$out/$(echo "$f" | tr / _).o" ] || echo "$f"
  done | all || exit 2
  link || exit 2
fi
cd "$out" && ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=0 timeout 60 ./demo {best['entry']} "$here/h/input"
""")
json.dump({"property": PROP, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
def demo(repo):
    t = "/tmp/sdemo"
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t)
    for f in ("patch.diff", "meta.json"):
        os.unlink(f"{t}/{f}")
    x = subprocess.run(["bash", f"{t}/demo.sh"], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(t)
    return x.returncode, x.stdout[-600:]
a, b = demo("/repo"), demo("/tmp/sr")
print("CAUGHT", ID, PROP, best["entry"], best["msg"], "native:", best["native"], "demo unchanged", a[0], "patched", b[0])
if a[0] or not b[0]:
    print(a, b)
