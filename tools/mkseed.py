#!/usr/bin/env python3
"""Create seeded/<id> from a python spec on stdin:
ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (C++ main program), SRCS (repo sources to link), SHIM (bool)"""
import json, os, subprocess, sys, shutil
ns = {}
exec(sys.stdin.read(), ns)
d = f"/verif/seeded/{ns['ID']}"
os.makedirs(d, exist_ok=True)
assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"])
for f, a, b in ns["EDITS"]:
    p = "/repo/" + f
    s = open(p).read()
    assert s.count(a) == 1, (f, s.count(a))
    open(p, "w").write(s.replace(a, b))
open(f"{d}/patch.diff", "wb").write(subprocess.check_output(["git", "-C", "/repo", "diff"]))
subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
open(f"{d}/demo.cc", "w").write(ns["DEMO"])
inc = ""
if ns.get("SHIM"):
    shutil.rmtree(f"{d}/shim", ignore_errors=True)
    shutil.copytree("/verif/shim", f"{d}/shim")
    inc = '-include "$here/shim/prelude.h" -I"$here/shim"'
srcs = " ".join(ns.get("SRCS", []))
open(f"{d}/demo.sh", "w").write(f"""#!/bin/bash
# exit 0: the property holds for the demonstrated case; nonzero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)" || exit 2
trap 'rm -rf "$out"' EXIT
g++-12 -std=gnu++23 -O1 -w -fcoroutines -DNDEBUG -DSTD -DCEREAL_SERIALIZE_FUNCTION_NAME=cereal_serialize \\
  {inc} -Iinclude "$here/demo.cc" {srcs} {ns.get('LIBS','')} -o "$out/demo" || exit 2
timeout 60 "$out/demo"
""")
json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
