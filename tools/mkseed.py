"""mkseed.py: helper to write /verif/seeded/<id>/ from (file, old, new) edits and a demo body."""
import os, subprocess, json, sys
def seed(id, prop, edits, needs, breaks, demo_cpp, sources=None, libs="", flags="", beside=()):
    """sources None: link the libraries which build.sh made"""
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(["git", "-C", os.environ.get("SEEDREPO", "/repo"), "diff", "--quiet"]).returncode == 0, "repo dirty"
    try:
        for f, old, new in edits:
            p = os.environ.get("SEEDREPO", "/repo") + "/" + f
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", os.environ.get("SEEDREPO", "/repo"), "diff"], stdout=subprocess.PIPE).stdout
    finally:
        subprocess.run(["git", "-C", os.environ.get("SEEDREPO", "/repo"), "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "wb").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cpp", "w").write(demo_cpp)
    import shutil
    for b in beside: shutil.copy(("/verif/tools/" if b == "echosvc.h" or b in ("inputsvc.h", "historysvc.h") else "/verif/replay/") + b, d)
    if sources is None:
        src = ""
        L = ["graphqljson", "graphqlclient", "graphqlservice", "graphqlintrospection", "graphqlservice", "graphqlresponse", "graphqlpeg"]
        libs = " ".join("_build/src/lib%s.a" % l for l in L) + " " + libs
        flags += " -DRAPIDJSON_NAMESPACE=graphql::rapidjson -DTAO_PEGTL_NAMESPACE=tao::graphqlpeg"
    else: src = " ".join("src/" + s for s in sources)
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# cwd: /repo (built). Exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
g++ -std=c++17 -O0 -w -Iinclude -Isrc -I"$here" %s "$here/demo.cpp" %s -o "$w/demo" %s -lpthread || exit 4
cd "$w" && timeout 120 ./demo
''' % (flags, src, libs))
    os.chmod(d + "/demo.sh", 0o755)
