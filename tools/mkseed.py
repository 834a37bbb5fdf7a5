#!/usr/bin/env python3
"""mkseed.py SEEDFILE [id...]: builds planted bugs from tools/seeds/*.py descriptions, verifies them in
/repo (which must be clean) and writes /verif/seeded/<id>.  A description is a dict:
id, prop, edits [(file, old, new)], demo (scheme text), needs, breaks, [expect], [tier]."""
import importlib.util, json, os, subprocess, sys
V = "/verif"; R = "/repo"
DEMO = '''#!/bin/bash
# Runs the program beside this file and compares what it prints with what it should print.
d=$(cd "$(dirname "$0")" && pwd); b=$PWD/_build/pscm_cc
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp "$d/demo.scm" "$t/demo.scm" && cd "$t" || exit 2
timeout 60 "$b" --test demo.scm > out.txt 2> err.txt < /dev/null || exit 1
diff "$d/expected.txt" out.txt
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def build():
    p = sh("bash /opt/vp/build.sh")
    return p.returncode == 0, p.stdout[-1500:] + p.stderr[-500:]


def main():
    spec = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for s in m.SEEDS:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
            continue
        assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
        d = os.path.join(V, "seeded", s["id"])
        msg = []
        os.makedirs("/tmp/w/sd", exist_ok=True)
        build()
        for f, o, n in s["edits"]:
            p = os.path.join(R, f); t = open(p).read()
            if t.count(o) != 1:
                print(s["id"], "EDIT MATCHES", t.count(o), f, o[:60]); break
            open(p, "w").write(t.replace(o, n))
        else:
            diff = sh("git -C /repo diff").stdout
            blame_bad = []
            for f, o, n in s["edits"]:
                pass
            ok, out = build()
            if not ok:
                print(s["id"], "BUILD FAILS", out)
            else:
                sh("bash /opt/vp/test.sh /tmp/w/sd/t.json")
                t = json.load(open("/tmp/w/sd/t.json"))
                miss = sorted(set(base) - set(t["passed"]))
                if miss:
                    print(s["id"], "TESTS FAIL", miss[:3])
                else:
                    os.makedirs(d, exist_ok=True)
                    open(d + "/patch.diff", "w").write(diff)
                    if "files" in s:
                        for fn, tx in s["files"].items():
                            open(os.path.join(d, fn), "w").write(tx); 
                            if fn.endswith(".sh"): os.chmod(os.path.join(d, fn), 0o755)
                    else:
                        open(d + "/demo.scm", "w").write(s["demo"])
                        open(d + "/demo.sh", "w").write(DEMO)
                        os.chmod(d + "/demo.sh", 0o755)
                    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
                    sh("git -C /repo checkout -- ."); build()
                    if "files" not in s:
                        p = sh("cd /tmp/w/sd && cp %s/demo.scm . && timeout 60 /repo/_build/pscm_cc --test demo.scm" % d)
                        open(d + "/expected.txt", "w").write(p.stdout)
                    c = sh("bash %s/demo.sh" % d, cwd=R)
                    sh("git -C /repo apply %s/patch.diff" % d); build()
                    q = sh("bash %s/demo.sh" % d, cwd=R)
                    chk = sh("bin/check %s quick" % s["prop"], cwd=V)
                    print(s["id"], s["prop"], "demo clean", c.returncode, "patched", q.returncode, "CHECK", chk.returncode, chk.stdout.strip().split("\n")[-1][:150] if chk.returncode != 1 else "")
                    if c.returncode or not q.returncode:
                        print("   DEMO BAD", c.stdout[-300:], q.stdout[-300:])
        sh("git -C /repo checkout -- .")
    build()


main()
