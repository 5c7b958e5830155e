"""Suite for the tests of devices: P12 and the device side of P16."""
import collections, json, random
import s_client
from vlib import SEED, TIER
from s_do import KEX, SUITES

BAD = ["junk", "sig", "nonce", "idx"]
MUTE = ["tokless", "ct"]
HBAD = ["junk", "sg", "ct", "kex"]


def tour(edges, rng, budget):
    """Walks from the initial state, each going on to the nearest transition not yet taken."""
    out = collections.defaultdict(list)
    init = edges[0][0]
    for f, q, t in edges:
        out[f].append((q, t))
    left = {f: set(range(len(l))) for f, l in out.items()}
    todo = sum(len(l) for l in out.values())
    total = todo
    ws, n = [], 0
    while todo and n < budget:
        f, w = init, []
        while n < budget:
            if left.get(f):
                i = rng.choice(sorted(left[f]))
                left[f].discard(i)
                todo -= 1
                q, f = out[f][i]
                w.append(q)
                n += 1
                continue
            # nearest state with something left
            prev, dq, goal = {f: None}, collections.deque([f]), None
            while dq and goal is None:
                s = dq.popleft()
                for q, t in out.get(s, ()):
                    if t not in prev:
                        prev[t] = (s, q)
                        if left.get(t):
                            goal = t
                            break
                        dq.append(t)
            if goal is None:
                break
            way = []
            s = goal
            while prev[s]:
                way.append(prev[s][1])
                s = prev[s][0]
            w += way[::-1]
            n += len(way)
            f = goal
        if not w:
            break
        ws.append(w)
    return ws, total, total - todo


def concrete(w, p, rng, d=1):
    """Operations of the model -> operations of the driver; slots become sessions."""
    slot, n, ops = {}, 0, []
    for q in w:
        k = q["k"]
        if q["o"] == "start":
            ops.append(dict(op="start", d=d, p=p))
        elif q["o"] == "remove":
            ops.append(dict(op="remove", d=d, p=p, r=k))
        elif q["o"] == "hello":
            n += 1
            kind = "ok" if q["kind"] == "ok" else rng.choice(HBAD[:3] if p == 1 else HBAD)
            if kind == "ok":
                slot[k] = n
            ops.append(dict(op="hello", d=d, p=p, s=n, k=kind, seed=rng.randrange(60)))
        else:
            kind = {"ok": "ok", "bad": rng.choice(BAD), "mute": rng.choice(MUTE), "skip": "skip"}[q["kind"]]
            o = dict(op="next", s=slot.get(k, 0), k=kind, seed=rng.randrange(60))
            if q["kind"] == "skip":
                o["c"] = q["c"]
            else:
                o["to"] = q["c"]
            ops.append(o)
    return ops


def combo(i, rng=None):
    kex, suite = KEX[i % 6], SUITES[i % 7]
    if kex.startswith("ASYM"):
        o, d = ("rsa2048", "ec256") if kex.endswith("2048") else ("rsa3072", "ec384")
    else:
        o, d = [("ec256", "ec256"), ("ec384", "ec256"), ("ec256", "ec384"), ("ec384", "ec384")][(i // 6) % 4]
    return dict(osg=o, dsg=d, kex=kex, cipher=suite)


def freely(rng, nd, size, protos=(1, 2)):
    """A random history of several devices in both protocols."""
    ops, live, ns, nr = [], [], 0, 0
    for d in range(1, nd + 1):
        for p in protos:
            if rng.random() < 0.8:
                ops.append(dict(op="start", d=d, p=p))
                nr += 1
    while len(ops) < size:
        x = rng.random()
        d, p = rng.randint(1, nd), rng.choice(protos)
        if x < 0.05:
            ops.append(dict(op="start", d=d, p=p))
            nr += 1
        elif x < 0.08:
            ops.append(dict(op="remove", d=d, p=p, r=rng.randint(0, nr)))
        elif x < 0.3 or not live:
            ns += 1
            k = "ok" if rng.random() < 0.9 else rng.choice(HBAD[:3])
            ops.append(dict(op="hello", d=d, p=p, s=ns, k=k, seed=rng.randrange(60)))
            if k == "ok":
                live.append((ns, d, p))
        elif x < 0.4 and len(live) > 1:
            # at the same time, on different tests
            subs, seen = [], set()
            for s, d1, p1 in rng.sample(live, len(live)):
                if (d1, p1) not in seen:
                    seen.add((d1, p1))
                    subs.append(dict(op="next", s=s, k=rng.choice(["ok", "ok", "ok", "sig", "junk"]), seed=rng.randrange(60)))
            for d1 in range(1, nd + 1):
                for p1 in protos:
                    if (d1, p1) not in seen and rng.random() < 0.5:
                        ns += 1
                        live.append((ns, d1, p1))
                        subs.append(dict(op="hello", d=d1, p=p1, s=ns, k="ok"))
            ops.append(dict(op="par", ops=subs))
        else:
            s = rng.choice(live[-4:])
            k = rng.choice(["ok"] * 9 + ["more", "junk", "sig", "nonce", "idx", "skip", "tokless", "ct"])
            ops.append(dict(op="next", s=s[0], k=k, seed=rng.randrange(60)))
    return ops


def passing(p, rng, slip=0.0, d=1, s0=0, runs=1):
    """A device that stops at every defect and otherwise goes on; with slip it does something else now and then."""
    ops = []
    for r in range(runs):
        ops.append(dict(op="start", d=d, p=p))
        for i in range(9 if p == 1 else 34):
            s0 += 1
            ops.append(dict(op="hello", d=d, p=p, s=s0))
            for j in range(2 if p == 1 else 9):
                if rng.random() < slip:
                    ops.append(dict(op="next", s=s0, k=rng.choice(BAD + MUTE + ["skip"]), seed=rng.randrange(60)))
                ops.append(dict(op="go", s=s0, slip=rng.random() < slip))
    return ops


def run(R, focus=()):
    rng = random.Random(SEED * 6151 + 5)
    thorough = TIER == "thorough"
    s_client.cli(R)
    for c, n in (("1", "TO1"), ("2", "TO2, two sessions"), ("2b", "TO2, two runs")):
        R.model_check("MCListener.tla", "MCListener%s.cfg" % c, name="MCListener " + n)
    scripts, n = [], 0
    for p in (1, 2):
        edges = R.model_check("MCListener.tla", "MCListener%d.cfg" % p, edges=True, name="MCListener transitions TO%d" % p)
        ws, total, done = tour(edges, rng, {1: 2200, 2: 6500}[p] * (12 if thorough else 1))
        R.notes.append({"suite": "listener", "protocol": p, "transitions_in_model": total, "taken": done, "walks": len(ws)})
        for w in ws:
            n += 1
            c = combo(n) if p == 2 and n % 5 == 0 else combo(rng.choice([0, 1, 6, 7, 12, 13, 18, 19]))
            scripts.append(dict(id="w%d-%d" % (p, n), comp="listener", cfg=dict(c, n=1 + n % 3), ops=concrete(w, p, rng)))
    # devices which mostly stop at a defect, so that whole runs are gone through
    for k in range(400 if thorough else 36):
        p = 1 + (k % 3 > 0)
        n += 1
        scripts.append(dict(id="steady%d" % n, comp="listener", cfg=dict(combo(k), n=1 + k % 3), ops=passing(p, rng, [0.0, 0.02, 0.1][k // 3 % 3], runs=1 + (k % 6 == 0))))
    # several devices, both protocols, at the same time
    for k in range(600 if thorough else 50):
        n += 1
        scripts.append(dict(id="free%d" % n, comp="listener", cfg=dict(combo([0, 1, 6, 7, 12, 13][k % 6]), n=1 + k % 2, nd=1 + k % 3),
                            ops=freely(rng, 1 + k % 3, 70 if k % 2 else 130)))
    # the tool's own device
    for k in range(168 if thorough else 24):
        n += 1
        ops = [dict(op="own", d=1, p=1, times=1), dict(op="own", d=1, p=2, times=1)]
        ops += [dict(op="start", d=1, p=1), dict(op="own", d=1, p=1, times=4), dict(op="own", d=1, p=1, times=1)]
        ops += [dict(op="start", d=1, p=2), dict(op="own", d=1, p=2, times=25), dict(op="own", d=1, p=2, times=1)]
        scripts.append(dict(id="own%d" % n, comp="listener", cfg=dict(combo(k), n=1 + k % 3), ops=ops))
    # the command line device
    for k in range(32 if thorough else 8):
        n += 1
        ops = [dict(op="own", d=1, p=1, cli=True), dict(op="own", d=1, p=2, cli=True), dict(op="start", d=1, p=1), dict(op="own", d=1, p=1, times=4, cli=True)]
        ops += [dict(op="start", d=1, p=2), dict(op="own", d=1, p=2, times=25, cli=True), dict(op="own", d=1, p=2, cli=True)]
        scripts.append(dict(id="cli%d" % n, comp="listener", cfg=dict(osg=["ec256", "ec384"][k % 2], dsg=["ec256", "ec384"][k // 2 % 2], n=1 + k % 4), ops=ops))
    R.replay("listener", "TraceListener.tla", scripts)
