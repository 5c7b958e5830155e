"""Makes /verif/seeded/<id>/ from a description in tools/seeds/<id>.py and confirms it in a scratch copy.
A description defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)] and MAIN (Go source of the demonstration)."""
import json, os, runpy, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(VERIF, "tools")


def sh(cmd, cwd=None, t=600):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def make(sid, scratch):
    d = runpy.run_path(os.path.join(T, "seeds", sid + ".py"))
    out = os.path.join(VERIF, "seeded", sid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    sh(["git", "checkout", "-q", "--", "."], scratch)
    for f, old, new in d["EDITS"]:
        p = os.path.join(scratch, f)
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    sh(["gofmt", "-l", "."], scratch)
    patch = sh(["git", "diff"], scratch).stdout
    open(os.path.join(out, "patch.diff"), "w").write(patch)
    shutil.copy(os.path.join(T, "demolib.go"), out)
    if "startApi" in d["MAIN"]:
        shutil.copy(os.path.join(T, "demoapi.go"), out)
    open(os.path.join(out, "main.go"), "w").write(d["MAIN"])
    shutil.copy(os.path.join(T, "demo.sh"), out)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    b = sh(["bash", "-c", ". /opt/vp/env.sh; go build ./... && go vet ./core/... >/dev/null 2>&1; go test ./core/do/to2 ./core/shared 2>&1 | tail -5"], scratch)
    bad = sh(["bash", os.path.join(out, "demo.sh")], scratch)
    sh(["git", "checkout", "-q", "--", "."], scratch)
    good = sh(["bash", os.path.join(out, "demo.sh")], scratch)
    ok = good.returncode == 0 and bad.returncode not in (0, 99)
    print(sid, "OK" if ok else "*** BAD", "| clean rc", good.returncode, "| patched rc", bad.returncode, bad.stdout.strip()[-160:].replace("\n", " / "))
    print("   ", b.stdout.strip().replace("\n", " / ")[-300:])
    if not ok:
        print(good.stdout[-1500:])
    return ok


def main():
    scratch = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    os.rmdir(scratch)
    sh(["git", "clone", "-q", "/repo", scratch])
    try:
        for sid in sys.argv[1:]:
            make(sid, scratch)
    finally:
        shutil.rmtree(scratch)


main()
