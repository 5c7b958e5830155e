"""Suite for the real binary: commands, servers and devices as processes (P18), and what is reported to the dashboard (P19)."""
import os, random
import s_client
from vlib import SEED, TIER
import collections, json


def concrete(w, rng):
    """Operations of the model -> operations of the driver."""
    ops = []
    for q in w:
        o = dict(op=q["o"], n=q["n"])
        if q["o"] == "load":
            o["items"] = [dict(x, v=rng.randrange(84)) for x in q["items"]]
        if q["o"] == "push":
            o["to"], o["a"] = q["to"], q["a"] and rng.randint(1, 5)
        if q["o"] in ("to1", "to2", "dev"):
            o["d"] = q["d"]
        if q["o"] == "to2":
            o["ip"] = rng.random() < .5
        if q["o"] == "dev":
            o["c"] = q["c"]
        ops.append(o)
        if q["o"] in ("mk", "dev", "login") or (q["o"] == "resetu" and rng.random() < .5):
            ops.append(dict(op="list", n=q["n"]))
        if q["o"] in ("kill", "resetu", "resetl") and rng.random() < .5 or q["o"] == "load":
            ops.append(dict(op="look", n=q["n"]))
    return ops


def freely(rng, size, nd=3, kills=True):
    """A random history over both machines; the operator does not put a device under test twice."""
    ops, up, under = [], {1: False, 2: False}, set()

    def add(op, **kw):
        ops.append(dict(op=op, **kw))
    while len(ops) < size:
        x = rng.random()
        n, d = rng.randint(1, 2), rng.randint(1, nd)
        o = 3 - n
        if x < .14:
            items = [dict(k=rng.choice(["dev"] * 6 + ["skip", "bad"]), d=rng.randint(1, nd), v=rng.randrange(84)) for _ in range(rng.choice([0, 1, 2, 3, 3, 4]))]
            items = [dict(i, d=i["d"] if i["k"] == "dev" else 0, c=rng.choice([0, 0, 1]) if i["k"] == "dev" else 0) for i in items]
            add("load", n=n, items=items, **({"kill": rng.randint(1, 2)} if kills and rng.random() < .25 else {}))
        elif x < .28:
            # something to push and somebody to push to
            if up[n] and rng.random() < .7:
                add("kill", n=n)
                up[n] = False
            if not up[o] and rng.random() < .8:
                add("serve", n=o)
                up[o] = True
            add("push", n=n, to=o, a=rng.choice([0, 0, 1, 2, 3, 4, 5]), **({"kill": rng.randint(1, 4)} if kills and rng.random() < .25 else {}))
        elif x < .33:
            if not up[n]:
                add("serve", n=n)
                up[n] = True
        elif x < .38:
            if up[n]:
                add("kill", n=n)
                up[n] = False
                if rng.random() < .4:
                    add("look", n=n)
        elif x < .56:
            m = n if up[n] or rng.random() < .1 else o
            add("to1", n=m, d=d)
        elif x < .76:
            m = n if up[n] or rng.random() < .1 else o
            if kills and up[m] and rng.random() < .08:
                add("to2", n=m, d=d, kill=rng.randint(1, 24))
                up[m] = None  # depends on how far it got
            else:
                add("to2", n=m, d=d, ip=rng.random() < .5)
            if up[m] is None:
                add("kill", n=m)
                up[m] = False
        elif x < .9:
            m = n if up[n] or rng.random() < .1 else o
            e = rng.choice(["login", "mk", "list", "dev"])
            if e == "dev":
                if (m, d) in under:
                    continue
                under.add((m, d))
                add("login", n=m)
                add("dev", n=m, d=d, c=rng.choice([0, 0, 1]))
            else:
                add(e, n=m)
            if rng.random() < .5:
                add("list", n=m)
        elif x < .95:
            e = rng.choice(["resetu", "resetl"])
            if up[n] and rng.random() < .7:
                add("kill", n=n)
                up[n] = False
            add(e, n=n)
            if not up[n]:
                under = {(a, b) for a, b in under if a != n}
            if rng.random() < .5:
                add("look", n=n)
        else:
            add("show", d=d, c=rng.choice([0, 1]), k=rng.choice(["dev", "dev", "bad"]), v=rng.randrange(84), pem=rng.random() < .3)
    return ops


def journey(rng, a):
    """From the factory to the owner: every device is loaded at one machine, registered at the other and onboarded."""
    ops = [dict(op="load", n=1, items=[dict(k="dev", d=d, c=rng.choice([0, 1])) for d in rng.sample([1, 2, 3], 3)]), dict(op="serve", n=2)]
    ops += [dict(op="push", n=1, to=2, a=a), dict(op="serve", n=1)]
    for d in rng.sample([1, 2, 3], 3):
        ops += [dict(op="to1", n=2, d=d), dict(op="to2", n=1, d=d)]
    ops += [dict(op="to1", n=1, d=1), dict(op="to2", n=2, d=1), dict(op="to2", n=1, d=1)]
    return ops


def rove(edges, rng, cls, budget, size):
    """Walks of at most size operations which together take every class of transition, always going on to the nearest one missing."""
    out = collections.defaultdict(list)
    init = edges[0][0]
    dec = {}
    for f, q, t in edges:
        if f not in dec:
            dec[f] = json.loads(f)
        out[f].append((q, t, cls(q, dec[f])))
    left = {c for l in out.values() for _, _, c in l}
    total, n, ws = len(left), 0, []
    while left and n < budget:
        f, w = init, []
        while left and len(w) < size:
            prev, dq, goal = {f: None}, collections.deque([f]), None
            while dq and goal is None:
                s = dq.popleft()
                l = [x for x in out[s] if x[2] in left]
                if l:
                    goal = s
                    break
                nx = out[s][:]
                rng.shuffle(nx)
                for q, t, c in nx:
                    if t not in prev:
                        prev[t] = (s, q)
                        dq.append(t)
            if goal is None:
                break
            way, s = [], goal
            while prev[s]:
                way.append(prev[s][1])
                s = prev[s][0]
            q, f, c = rng.choice(l)
            w += way[::-1] + [q]
            left.discard(c)
        if not w:
            break
        n += len(w)
        ws.append(w)
    return ws, dict(classes=total, taken=total - len(left), operations=n)


def cls(q, f):
    n, o = q["n"] - 1, q["to"] - 1
    return (q["o"], n, f[n]["up"], q["d"] in f[n]["has"], q["d"] in f[n]["dev"], f[n]["user"], tuple(f[n]["reg"][q["d"] - 1]) if q["d"] else 0, len(f[n]["has"]),
            f[o]["up"] if q["o"] == "push" else 0, len(f[n]["dev"]) if q["o"].startswith("reset") else 0,
            tuple(f[o]["reg"][0]) if q["o"] == "push" else 0, q["a"], tuple(x["k"] for x in q["items"]), q["o"] in ("load", "dev") and (q["c"], tuple((x["c"], x["d"] and f[n]["cop"][x["d"] - 1], x["d"] in f[n]["has"]) for x in q["items"])))


def run(R, focus=()):
    rng = random.Random(SEED * 4409 + 18)
    t = 8 if TIER == "thorough" else 1
    s_client.cli(R)
    R.model_check("MCSystem.tla", "MCSystem.cfg", name="MCSystem two machines")
    R.slips("MCSystem.tla", "MCSystem.cfg", ["skips", "whose", "forgets", "first"])
    edges = R.model_check("MCSystem.tla", "MCSystemE.cfg", edges=True, name="MCSystem transitions")
    walks, info = rove(edges, rng, cls, 700 * t, 22)
    R.notes.append(dict(info, suite="sys", transitions_in_model=len(edges), walks=len(walks)))
    scripts = []
    for k, w in enumerate(walks):
        scripts.append(dict(id="w%d" % k, comp="sys", cfg=dict(nd=2 + k % 2, iop=["off", "off", "on", "broken", "dead", "on"][k % 6]), ops=concrete(w, rng)))
    for k in range(16 * t):
        scripts.append(dict(id="free%d" % k, comp="sys", cfg=dict(nd=3, iop="off" if k % 4 else "on"), ops=freely(rng, 34)))
    for k in range(6 * t):
        scripts.append(dict(id="way%d" % k, comp="sys", cfg=dict(nd=3, iop=["off", "on"][k % 2]), ops=journey(rng, k % 6)))
    for k in range(2 * t):  # stores seeded by the tool itself, killed while at it
        ops = [dict(op="serve", n=1, kill=rng.randint(4200, 7500)) for _ in range(1 + k % 2)] + [dict(op="look", n=1), dict(op="serve", n=1)]
        ops += [dict(op="login", n=1), dict(op="mk", n=1), dict(op="list", n=1), dict(op="kill", n=1), dict(op="look", n=1), dict(op="serve", n=1), dict(op="list", n=1)]
        scripts.append(dict(id="seed%d" % k, comp="sys", cfg=dict(nd=1, fresh=True), ops=ops))
    scripts.sort(key=lambda s: -sum({"serve": 5, "load": .6, "push": 1}.get(q["op"], .5) for q in s["ops"]))
    old = os.environ.get("VERIF_WORKERS")
    os.environ["VERIF_WORKERS"] = os.environ.get("VERIF_SYS_WORKERS", "24")
    try:
        R.replay("sys", "TraceSystem.tla", scripts)
    finally:
        del os.environ["VERIF_WORKERS"]
        if old:
            os.environ["VERIF_WORKERS"] = old
