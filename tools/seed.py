#!/usr/bin/env python3
"""seed.py FILE.py ...: (re)creates /verif/seeded/<id>/ from a description and validates it on /repo.

A description defines SEEDS: list of dicts id, property, needs, breaks, edits [(file, old, new)], demo (C++ body or
full text), optional env (lines for demo.sh), files {name: text}.
"""
import json, os, subprocess, sys, shutil, runpy
V = "/verif"; R = "/repo"
DEMO = V + "/tools/demo"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def make(s):
    d = "%s/seeded/%s" % (V, s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    try:
        for f, o, n in s["edits"]:
            p = os.path.join(R, f)
            t = open(p).read()
            assert t.count(o) == 1, "%s: %s matches %d times: %s" % (s["id"], f, t.count(o), o)
            open(p, "w").write(t.replace(o, n))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    finally:
        sh("git -C /repo checkout -- .")
    env = s.get("env", "ENGINE=1")
    open(d + "/demo.sh", "w").write("#!/bin/bash\n%s\nset -- demo\n. \"$(dirname \"$0\")/build.inc\"\n" % env)
    os.chmod(d + "/demo.sh", 0o755)
    shutil.copy(DEMO + "/build.inc", d)
    body = s["demo"]
    if "int main" not in body:
        body = '#include "eng.h"\nint main() {\n%s\n  return failures != 0;\n}\n' % body
    open(d + "/demo.cc", "w").write(body)
    if "eng.h" in body:
        shutil.copy(DEMO + "/eng.h", d)
    for n, t in s.get("files", {}).items():
        open(os.path.join(d, n), "w").write(t)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)


def base():
    import json as j
    b = j.load(open("/opt/vp/BASELINE.json"))
    return b


def validate(sid, checks=True):
    d = "%s/seeded/%s" % (V, sid)
    prop = json.load(open(d + "/meta.json"))["property"]
    out = {}
    b = sh("bash /opt/vp/build.sh")
    r = sh("bash %s/demo.sh" % d, cwd=R)
    out["clean"] = r.returncode
    if r.returncode:
        print(r.stdout[-1500:])
    try:
        a = sh("git -C /repo apply %s/patch.diff" % d)
        assert a.returncode == 0, a.stdout
        b = sh("bash /opt/vp/build.sh")
        out["build"] = b.returncode
        if b.returncode:
            print(b.stdout[-1500:])
        t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        out["tests"] = t.returncode
        try:
            res = json.load(open("/tmp/seedtest.json"))
            bl = base()
            want = set(bl.get("stable") or [])
            got = set(res.get("pass") or res.get("passed") or [])
            out["lost"] = len(want - got) if want else "?"
        except Exception as e:
            out["lost"] = repr(e)
        r = sh("bash %s/demo.sh" % d, cwd=R)
        out["demo"] = r.returncode
        if r.returncode == 0 or "--show" in sys.argv:
            print(r.stdout[-1500:])
        if checks and os.path.exists("%s/checks/%s.py" % (V, prop.lower())):
            c = sh("python3 run.py " + prop, cwd=V)
            out["check"] = c.returncode
            l = [x for x in c.stdout.splitlines() if x.startswith(prop + ":")]
            print("   ", "\n    ".join(x[:220] for x in l[:3]) if c.returncode in (0, 1) else c.stdout[-1200:])
    finally:
        sh("git -C /repo checkout -- .")
    ok = out["clean"] == 0 and out["build"] == 0 and out["demo"] != 0 and out["lost"] == 0
    print(sid, prop, "VALID" if ok else "INVALID", "CAUGHT" if out.get("check") == 1 else "missed(%s)" % out.get("check"), out, flush=True)


if __name__ == "__main__":
    ids = []
    only = [a for a in sys.argv[1:] if not a.endswith(".py") and not a.startswith("--")]
    for a in sys.argv[1:]:
        if a.endswith(".py"):
            for s in runpy.run_path(a)["SEEDS"]:
                if only and s["id"] not in only:
                    continue
                make(s)
                ids.append(s["id"])
    for i in ids or only:
        validate(i, "--nocheck" not in sys.argv)
    sh("bash /opt/vp/build.sh")
