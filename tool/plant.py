"""Make, confirm and keep one planted bug: plant.py SPEC.py   (SPEC defines id, prop, edits, needs, breaks, demo[, env])

Builds /repo with and without the change, runs the demonstration on both, the stable tests with the change, and the
checks named on the command line; writes /verif/seeded/<id>/."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))


def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    d = "/verif/seeded/" + spec["id"]
    os.makedirs(d, exist_ok=True)
    for f in ("common.hpp",): shutil.copy(os.path.join(HERE, "demo", f), d)
    s = open(os.path.join(HERE, "demo", "demo.sh")).read()
    if spec.get("env"): s = s.replace("export OMP_NUM_THREADS=${OMP_NUM_THREADS:-1}", "export " + spec["env"])
    open(d + "/demo.sh", "w").write(s)
    if spec.get("compile"): s = re.sub(r"mpicxx .*?--end-group\n", lambda m: spec["compile"].strip() + "\n", s, flags=re.S)
    open(d + "/demo.sh", "w").write(s)
    os.chmod(d + "/demo.sh", 0o755)
    for src, dst in spec.get("files", []): (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, d + "/" + dst, **({"dirs_exist_ok": True} if os.path.isdir(src) else {}))
    open(d + "/demo.cpp", "w").write(spec["demo"].lstrip())
    json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    assert sh("git -C /repo status --porcelain").stdout == "", "dirty /repo"
    out = {}
    r = sh("bash /opt/vp/build.sh"); assert r.returncode == 0, r.stdout[-2000:]
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    out["clean"] = r.returncode
    if r.returncode: print(r.stdout[-1500:], r.stderr[-3000:])
    try:
        for e in spec["edits"]:
            f, old, new = e[:3]
            k = e[3] if len(e) > 3 else 1
            t = open("/repo/" + f).read()
            i = -1
            for _ in range(k): i = t.index(old, i + 1)
            open("/repo/" + f, "w").write(t[:i] + new + t[i + len(old):])
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        r = sh("bash /opt/vp/test.sh /tmp/plant.json")
        a = json.load(open("/tmp/plant.json")); b = json.load(open("/opt/vp/BASELINE.json"))
        out["builds"] = bool(a["passed"])
        if not a["passed"]: print(r.stdout[-2000:])
        out["broken_tests"] = sorted(set(b["stable"]) - set(a["passed"]))
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        out["patched"] = r.returncode
        out["demo"] = r.stdout[-400:] + r.stderr[-300:]
        for c in sys.argv[2:] or [spec["prop"]]:
            r = sh("python3 /verif/checks/%s.py" % c)
            out["check " + c] = r.returncode
            out["lines"] = [l[:300] for l in r.stdout.splitlines() if "VIOLATION" in l or l.startswith("  ")][:3]
    finally:
        sh("git -C /repo checkout -- .")
    good = out["clean"] == 0 and out.get("builds") and not out.get("broken_tests") and out.get("patched")
    print(json.dumps(out, indent=1))
    print(spec["id"], "COUNTS" if good else "DOES NOT COUNT", {k: v for k, v in out.items() if k.startswith("check")})


main()
