#!/usr/bin/env python3
"""Development aid (no check uses it): validates planted bugs in scratch copies.

seed.py make ID FILE OLD NEW [FILE OLD NEW ...]   writes seeded/ID/patch.diff
seed.py test [ID ...]     applies, builds, runs stable tests, demo both ways
seed.py check [ID ...]    runs the property's check (or all: --all) on the patched copy
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(cmd, cwd=None, env=None, timeout=900):
    r = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace")


def scratch():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    sh("git -C /repo archive HEAD | tar -x -C %s" % d)
    sh("git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x", cwd=d)
    return d


def make(args):
    sid = args[0]
    d = scratch()
    rest = args[1:]
    while rest:
        f, old, new = rest[:3]
        rest = rest[3:]
        p = os.path.join(d, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    os.makedirs(os.path.join(S, sid), exist_ok=True)
    rc, out = sh("git diff", cwd=d)
    open(os.path.join(S, sid, "patch.diff"), "w").write(out)
    shutil.rmtree(d)


def test_one(sid):
    """The build and test scripts name /repo, so a private copy is bind-free:
    the commands of build.sh/test.sh are repeated with the copy's path."""
    d = scratch()
    res = {}
    try:
        cm = open("/opt/vp/arpc/CMakeLists.txt").read().replace("set(REPO /repo)", "set(REPO %s)" % d)
        os.makedirs(d + "/_cm")
        open(d + "/_cm/CMakeLists.txt", "w").write(cm)
        sh("cp -a /opt/vp/arpc/include %s/_cm/" % d)
        # the test includes name /opt/vp; that path stays valid
        def build():
            return sh("cmake -S %s/_cm -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug >/dev/null && ninja -C %s/_build core" % (d, d, d))
        def demo():
            t = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
            for f in os.listdir(os.path.join(S, sid)):
                if f not in ("patch.diff", "meta.json"):
                    (shutil.copytree if os.path.isdir(os.path.join(S, sid, f)) else shutil.copy)(os.path.join(S, sid, f), os.path.join(t, f))
            rc, out = sh("bash %s/demo.sh" % t, cwd=d, timeout=300)
            shutil.rmtree(t)
            return rc, out
        rc, out = build()
        assert rc == 0, out[-2000:]
        rc, out = demo()
        res["demo_clean"] = rc
        if rc:
            print(out[-1500:])
        rc, out = sh(["git", "apply", os.path.join(S, sid, "patch.diff")], cwd=d)
        assert rc == 0, out
        rc, out = build()
        res["build"] = rc
        if rc:
            print(out[-1500:])
            return res
        rc, out = sh("ninja -k 0 -C %s/_build tests" % d)
        res["tests_build"] = rc
        fails = []
        bins = os.path.join(d, "_build", "bin")
        for b in sorted(os.listdir(bins)):
            rc, out = sh([os.path.join(bins, b)])
            if rc:
                fails.append(b)
        res["tests_failed"] = fails
        rc, out = demo()
        res["demo_patched"] = rc
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res["OK"] = res.get("demo_clean") == 0 and res.get("build") == 0 and res.get("tests_build") == 0 and not res.get("tests_failed") and res.get("demo_patched", 0) != 0
    return res


def check_one(sid, pids):
    d = scratch()
    try:
        rc, out = sh(["git", "apply", os.path.join(S, sid, "patch.diff")], cwd=d)
        assert rc == 0, out
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE="/tmp/seed-evidence")
        for p in pids:
            rc, out = sh([sys.executable, os.path.join(V, "check.py"), p], env=env, cwd=V)
            line = [l for l in out.splitlines() if "violated [" in l or "ANALYSIS" in l]
            note(sid, p, rc)
            print("%-10s %s exit %d %s" % (sid, p, rc, (line or [""])[0][:260]), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def note(sid, pid, rc):
    """Keeps tools/caught.json (used by gen.py for DESIGN.md)."""
    p = os.path.join(V, "tools", "caught.json")
    c = json.load(open(p)) if os.path.exists(p) else {}
    l = set(c.get(sid, [])) - {pid}
    if rc == 1:
        l.add(pid)
    c[sid] = sorted(l)
    with open(p, "w") as f:
        json.dump(c, f, indent=0, sort_keys=True)
        f.write("\n")


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        return make(args)
    allp = "--all" in args
    args = [a for a in args if a != "--all"]
    ids = args or sorted(os.listdir(S))
    if cmd == "test":
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            for sid, r in zip(ids, ex.map(test_one, ids)):
                print(sid, json.dumps(r), flush=True)
    else:
        for sid in ids:
            meta = json.load(open(os.path.join(S, sid, "meta.json")))
            pids = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]] if allp else [meta["property"]]
            check_one(sid, pids)


main()
