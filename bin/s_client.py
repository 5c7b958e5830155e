"""Suite for the tool's own clients: P09."""
import json, os, random
import vlib
from vlib import SEED, TIER, ToolError, sh

TYPES = [("ec256", "ec256"), ("ec384", "ec384"), ("ec384", "ec256"), ("ec256", "ec384"), ("rsa2048", "ec256"), ("rsa3072", "ec384")]
SUITES = [1, 3, 30, 31, 32, 33, -17760704]


def kexes(osg):
    ks = ["ECDH256", "ECDH384", "DHKEXid14", "DHKEXid15"]
    if osg == "rsa2048":
        ks += ["ASYMKEX2048"] * 3
    if osg == "rsa3072":
        ks += ["ASYMKEX3072"] * 3
    return ks


def cli(R):
    """The command line device, built from the current tree."""
    if os.environ.get("VERIF_CLI"):  # development only
        return
    out = os.path.join(R.work, "fdocli")
    r = sh(["bash", "-c", ". /opt/vp/env.sh && cd ${VERIF_REPO:-/repo} && GOFLAGS=-mod=readonly go build -buildvcs=false -o %s ." % out], timeout=600)
    if r.returncode != 0:
        raise ToolError("command line tool does not build:\n" + r.stdout[-3000:])
    os.environ["VERIF_CLI"] = out


def cls(q, f):
    return (q["op"], q["f"], q["v"][:3], q["msg"], tuple(q["dev"]), q["key"] if q["msg"] == 61 else "", q["by"] if q["msg"] == 61 else "",
            q["num"] - f["ents"] if q["msg"] == 61 and not q["dev"] else 0, q["k"] - len(f["g"]) if q["msg"] == 63 else 0,
            len(f["e"]), f["doom"], f["flow"], f["b"], q["more"])


def run(R, focus=()):
    rng = random.Random(SEED * 9176 + 9)
    thorough = TIER == "thorough"
    cli(R)
    R.model_check("MCClient.tla", "MCClientI.cfg", name="MCClient impostor, two edits")
    edges = R.model_check("MCClient.tla", "MCClient.cfg", edges=True, name="MCClient damaged answers, one edit")
    scripts = []

    def add(name, flow, base, ops, n, via="lib", skips=0):
        osg, dsg = TYPES[n % 6] if n % 2 else TYPES[0]
        kex = rng.choice(kexes(osg)) if n % 4 == 1 else "ECDH256"
        suite = SUITES[rng.randrange(7)] if n % 3 else 1
        if via == "cli":
            kex, suite = "ECDH256", 1
        scripts.append(dict(id=name, comp="client", cfg=dict(flow=flow, via=via, base=base, osg=osg, dsg=dsg, kex=kex, cipher=suite, skips=skips), ops=ops))

    ps = list(paths(edges, rng, cls, 20000 if thorough else 2600))
    R.notes.append({"suite": "client", "transitions_in_model": len(edges), "behaviours": len(ps)})
    for n, (b, flow, ops) in enumerate(ps):
        last = ops[-1]
        add("w%d" % n, flow, b, ops, n, skips=rng.randint(1, 7) if last["msg"] == 69 and last["more"] and n % 2 else 0)
    m = [s for s in scripts if s["cfg"]["flow"] != "to0"]
    rng.shuffle(m)
    picked = {}
    for s in m:
        q = s["ops"][-1]
        k = (s["cfg"]["flow"], q["op"], q["f"], q["msg"], tuple(q["dev"])) if not thorough else s["id"]
        picked.setdefault(k, s)
    for s in list(picked.values())[:4000 if thorough else 260]:
        scripts.append(dict(id="cli-" + s["id"], comp="client", cfg=dict(s["cfg"], via="cli", kex="ECDH256", cipher=1), ops=s["ops"]))
    # undisturbed runs over every combination
    n = 0
    for (o, d) in TYPES:
        for kex in sorted(set(kexes(o))):
            for suite in SUITES:
                n += 1
                scripts.append(dict(id="plain%d" % n, comp="client", cfg=dict(flow="to2", base=1 + n % 4, osg=o, dsg=d, kex=kex, cipher=suite), ops=[]))
        for flow in ("to0", "to1"):
            n += 1
            scripts.append(dict(id="plain%d" % n, comp="client", cfg=dict(flow=flow, base=1 + n % 4, osg=o, dsg=d), ops=[]))
        for flow in ("to1", "to2"):
            n += 1
            scripts.append(dict(id="plain%d" % n, comp="client", cfg=dict(flow=flow, via="cli", base=1 + n % 4, osg=o, dsg=d), ops=[]))
    R.replay("client", "TraceClient.tla", scripts)


def paths(edges, rng, cls, budget):
    """Behaviours (start, flow, operations) that take every class of transition once and others up to the budget."""
    import collections
    out = collections.defaultdict(list)
    dst = set()
    for f, q, t in edges:
        out[f].append((q, t))
        dst.add(t)
    dec = {}
    way = {}
    todo = collections.deque()
    for f in out:
        d = dec[f] = json.loads(f)
        if d["due"] in (20, 30, 60) and not d["e"] and d["key"] == "none" and d["doom"] == "go":
            way[f] = (d["b"], d["flow"], [])
            todo.append(f)
    while todo:
        f = todo.popleft()
        for q, t in out[f]:
            if t not in way:
                b, fl, ops = way[f]
                way[t] = (b, fl, ops + [q])
                todo.append(t)
    groups = collections.defaultdict(list)
    for f in out:
        if f not in way:
            continue
        for q, t in out[f]:
            groups[cls(q, dec[f])].append((f, q))
    chosen = [rng.choice(g) for k, g in sorted(groups.items(), key=lambda kv: str(kv[0]))]
    rest = [x for g in groups.values() for x in g]
    rng.shuffle(rest)
    if len(chosen) > budget:
        rng.shuffle(chosen)
    chosen = (chosen + rest)[:budget]
    for f, q in chosen:
        b, fl, ops = way[f]
        yield b, fl, ops + [q]
