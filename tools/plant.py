"""python3 tools/plant.py SPECFILE [ID...]: tries planted bugs and keeps those that build, pass the tests and have a working demo.

SPECFILE defines BUGS = {id: dict(property=, file=, subs=[(old, new)...], demo=, needs=, breaks=)}.
Works in /repo's working tree and restores it."""
import json, os, subprocess, sys
REPO = "/repo"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '#!/bin/sh\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def tests():
    if sh("bash", "/opt/vp/build.sh").returncode:
        return "does not build"
    sh("bash", "/opt/vp/test.sh", "/tmp/pl/o.json")
    o = json.load(open("/tmp/pl/o.json"))
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    missing = want - set(o["passed"])
    return "tests fail: %s" % sorted(missing)[:3] if missing else None


def demo(d):
    return sh("sh", os.path.join(d, "demo.sh"), cwd=REPO)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    assert not sh("git", "-C", REPO, "status", "--porcelain").stdout
    for i, b in ns["BUGS"].items():
        if only and i not in only:
            continue
        d = os.path.join(HERE, "seeded", i)
        files = b["file"] if isinstance(b["file"], list) else [b["file"]]
        subs = b["subs"] if isinstance(b["file"], list) else [b["subs"]]
        os.makedirs("/tmp/pl/" + i, exist_ok=True)
        t = "/tmp/pl/" + i
        open(t + "/demo.sh", "w").write(SH)
        open(t + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        r0 = demo(t)
        if r0.returncode:
            print(i, "REJECTED: demo fails on the unchanged tree:", (r0.stdout + r0.stderr)[-400:])
            continue
        try:
            for f, ss in zip(files, subs):
                p = os.path.join(REPO, f)
                s = open(p).read()
                for x in ss:
                    old, new = x[0], x[1]
                    n = s.count(old)
                    if n != 1 and len(x) < 3:
                        print("%s: %d matches of %r in %s" % (i, n, old, f)); raise KeyError
                    if len(x) == 3:
                        parts = s.split(old)
                        k = x[2]
                        s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
                    else:
                        s = s.replace(old, new)
                open(p, "w").write(s)
            why = tests()
            if why is None:
                r1 = demo(t)
                if r1.returncode == 0:
                    why = "demo passes with the change"
                elif r1.returncode == 124:
                    why = None
            if why:
                print(i, "REJECTED:", why)
                continue
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(sh("git", "-C", REPO, "diff").stdout)
        except KeyError:
            continue
        finally:
            sh("git", "-C", REPO, "checkout", "--", ".")
        for f in ("demo.sh", "demo.py"):
            open(os.path.join(d, f), "w").write(open(os.path.join(t, f)).read())
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        open(d + "/meta.json", "a").write("\n")
        print(i, "kept; demo says:", (r1.stdout + r1.stderr).strip().splitlines()[-1:])


main()
