"""Tries the checks on small random changes (tools/mutate) of a scratch copy of /repo.
campaign.py COUNT SEED [FILE-REGEX]; results are appended to /tmp/w/campaign.jsonl"""
import json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/w/mut"
MAP = [(r"core/rv/", ["P01"]), (r"core/do/to2/|core/do/dbs/session", ["P04"]), (r"core/do/dbs/voucher", ["P04", "P18"]),
       (r"core/do/to0|core/device/to[12]", ["P09", "P13"]), (r"core/device/", ["P08", "P13", "P18"]),
       (r"core/shared/(voucher|signing|hashing)", ["P08", "P01", "P04", "P09"]), (r"core/shared/(enc|kex|ccm)", ["P04", "P09"]),
       (r"core/shared/(sims|to2|error|comms|transport|cbor|cmds)", ["P04", "P01", "P09"]), (r"core/shared/(rvinfo|other|distuff|interop|env)", ["P08", "P18", "P01"]),
       (r"core/shared/conformance", ["P16"]), (r"core/shared/testcom/(listener|dbs/listener)", ["P12"]), (r"core/shared/testcom|testexec", ["P13", "P12"]),
       (r"api/|dbs/", ["P15", "P18"]), (r"main.go|seeding", ["P18", "P19"]), (r"core/shared/to0", ["P01", "P09"]), (r"core/do/server", ["P04"])]


def sh(cmd, t=1200, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, **kw)


def main():
    count, seed = int(sys.argv[1]), int(sys.argv[2])
    rx = re.compile(sys.argv[3]) if len(sys.argv) > 3 else None
    rng = random.Random(seed)
    repo, verif = W + "/repo", W + "/verif"
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    sh(["git", "clone", "-q", "/repo", repo])
    shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
    files = [f for f in sh(["git", "ls-files"], cwd=repo).stdout.split() if f.endswith(".go") and not f.endswith("_test.go")]
    muts = []
    for f in files:
        if rx and not rx.search(f):
            continue
        checks = next((c for r, c in MAP if re.search(r, f)), None)
        if not checks:
            continue
        for line in sh(["/tmp/w/mutate", os.path.join(repo, f)]).stdout.splitlines():
            m = json.loads(line)
            m["file"], m["checks"] = f, checks
            muts.append(m)
    rng.shuffle(muts)
    # no more than a few of one file
    per, todo = {}, []
    for m in muts:
        if per.get(m["file"], 0) < max(2, count // 25):
            per[m["file"]] = per.get(m["file"], 0) + 1
            todo.append(m)
    todo = todo[:count]
    env = dict(os.environ, VERIF_REPO=repo, VERIF_EDGES="/tmp/w/edges", VERIF_ANY="1", VERIF_SEED="1", VERIF_TIER="quick")
    os.makedirs("/tmp/w/edges", exist_ok=True)
    for m in todo:
        sh(["git", "checkout", "-q", "--", "."], cwd=repo)
        p = os.path.join(repo, m["file"])
        new = subprocess.run(["/tmp/w/mutate", p, str(m["n"])], stdout=subprocess.PIPE).stdout
        open(p, "wb").write(new)
        b = sh(["bash", "-c", ". /opt/vp/env.sh; go build -o /dev/null ./..."], cwd=repo)
        if b.returncode:
            continue
        t = time.time()
        m["results"] = []
        caught = False
        for c in m["checks"]:
            try:
                r = sh(["python3", verif + "/bin/check.py", c], t=1000, env=env)
                rc, out = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, out = 99, ""
            v = sorted(set(x for l in out.splitlines() if l.startswith("VIOLATION") for x in re.findall(r"P\d\d:[\w-]+", l.split("json", 1)[1].split(" at ")[0])))
            m["results"].append([c, rc, v[:8], out[-600:] if rc not in (0, 1) else ""])
            if rc == 1:
                caught = True
                break
        m["caught"], m["s"] = caught, round(time.time() - t)
        with open("/tmp/w/campaign.jsonl", "a") as f:
            f.write(json.dumps(m) + "\n")
    shutil.rmtree(W, ignore_errors=True)


main()
