"""Suite for the conformance runners: P13 and P16 (server side)."""
import collections, json, random
from vlib import SEED, TIER

OSG = ["ec256", "ec384", "rsa2048", "rsa3072"]


def walks(edges, rng, limit):
    """Walks through the whole programme of a runner which together take every transition."""
    out = collections.defaultdict(list)
    dec = {}
    for f, q, t in edges:
        out[f].append((q, t))
    for f in out:
        dec[f] = json.loads(f)
    init = edges[0][0]
    todo = {(f, i) for f in out for i, (q, t) in enumerate(out[f])}
    total = len(todo)
    ws = []
    while todo and len(ws) < limit:
        f, w = init, []
        # in every group (test, where tests do not depend on each other) one place to leave the straight path
        pick = {}
        for g, i in rng.sample(sorted(todo), len(todo)) if len(todo) < 400 else rng.sample(sorted(todo), 400):
            d = dec[g]
            pick.setdefault(d["g"] or d["ti"], (g, i))
        att, seen60 = -1, 0
        gain = 0
        while f in out:
            d = dec[f]
            es = out[f]
            tgt = pick.get(d["g"] or d["ti"])
            new = [i for i in range(len(es)) if (f, i) in todo]
            if tgt and tgt[0] == f:
                i = tgt[1]
            elif any(not q["v"] for q, t in es) and new and rng.random() < 0.8:
                # defective messages: any answer, the group goes on afterwards
                c = [i for i in new if not es[i][0]["v"]]
                i = rng.choice(c) if c else None
            else:
                i = None
            if i is None:
                straight = [i for i, (q, t) in enumerate(es) if q["k"] == "gen"]
                if tgt and dec[tgt[0]]["ti"] == d["ti"]:
                    # towards the chosen place
                    want = dec[tgt[0]]["a"]
                    k = len(d["a"])
                    if k < len(want) and want[:k] == d["a"]:
                        c = [i for i, (q, t) in enumerate(es) if q["m"] == want[k]["msg"] and q["v"] == want[k]["valid"] and q["k"] == want[k]["kind"]]
                        straight = c or straight
                i = rng.choice(straight)
            if (f, i) in todo:
                todo.discard((f, i))
                gain += 1
            q, t = es[i]
            w.append(q)
            f = t
        ws.append(w)
        if gain == 0 and len(ws) > 4 * limit // 5:
            break
    return ws, total, total - len(todo)


def devs(proto, w):
    first = {0: 20, 1: 30, 2: 60}[proto]
    a, out = 0, []
    for q in w:
        if q["m"] == first and (proto != 0 or q["no"] == 1):
            a += 1
        if q["k"] != "gen":
            j = "neg" if not q["v"] else "fin" if q["fin"] else q["no"]
            out.append({"a": a, "msg": q["m"], "j": j, "kind": q["k"]})
    return out


def nest(path, protos, rng):
    """Flat start/end/remove sequence -> nested operations."""
    def block(i):
        ops = []
        while i < len(path) and path[i]["o"] != "end":
            p = path[i]
            if p["o"] == "start":
                inner, i = block(i + 1)
                op = {"op": "run", "inst": p["i"]}
                at = 1
                op["nest"] = []
                for x in inner:
                    x["at"] = at
                    at += rng.randint(1, 2)
                    op["nest"].append(x)
                op["stop"] = max(at, rng.choice([3, 5, 12]))
                ops.append(op)
            elif p["o"] == "remove":
                ops.append({"op": "remove", "r": p["i"]})
                i += 1
            else:
                ops.append({"op": "gone", "inst": p["i"]})
                i += 1
        return ops, i + 1
    return block(0)[0]


def run(R, focus=()):
    rng = random.Random(SEED * 7907 + 13)
    thorough = TIER == "thorough"
    for p in (0, 1, 2):
        R.model_check("MCRuns.tla", "MCRuns%d.cfg" % p, name="MCRuns protocol TO%d" % p)
    scripts = []
    n = 0
    for p in (2, 1, 0):
        edges = R.model_check("MCRuns.tla", "MCRunsE%d.cfg" % p, edges=True, name="MCRuns transitions TO%d" % p)
        ws, total, done = walks(edges, rng, {0: 40, 1: 150, 2: 330}[p] * (8 if thorough else 1))
        R.notes.append({"suite": "runs", "protocol": p, "transitions_in_model": total, "taken": done, "runs": len(ws)})
        for w in ws:
            n += 1
            scripts.append(dict(id="w%d-%d" % (p, n), comp="runs", cfg=dict(insts=[p], n=1 + n % 3 if p == 2 else 1, osg=OSG[n % 4]),
                                ops=[{"op": "run", "inst": 1, "dev": devs(p, w)}]))
    # undisturbed runs, for every number of entries and key type
    for k in range(24 if thorough else 6):
        for osg in OSG:
            n += 1
            scripts.append(dict(id="plain%d" % n, comp="runs", cfg=dict(insts=[2], n=1 + k % 4, osg=osg), ops=[{"op": "run", "inst": 1}]))
    for k in range(60 if thorough else 10):
        for p in (0, 1):
            n += 1
            scripts.append(dict(id="plain%d" % n, comp="runs", cfg=dict(insts=[p], n=1), ops=[{"op": "run", "inst": 1}]))
    # overlapping, deleted and repeated runs
    paths = [q for f, q, t in R.model_check("MCRunHist.tla", "MCRunHist.cfg", edges=True, name="MCRunHist")]
    rng.shuffle(paths)
    paths.sort(key=lambda q: -len(q))
    paths = paths[:len(paths) // 2]
    rng.shuffle(paths)
    for q in paths[:3000 if thorough else 260]:
        n += 1
        protos = [2, 2] if n % 9 else [1, 2]
        scripts.append(dict(id="h%d" % n, comp="runs", cfg=dict(insts=protos, n=1 + n % 2), ops=nest(q, protos, rng)))
    # servers that are not there, owners without vouchers or entries
    for p in (0, 1, 2):
        for url in ("dead", "bad"):
            n += 1
            scripts.append(dict(id="dead%d" % n, comp="runs", cfg=dict(insts=[p], n=1), ops=[{"op": "run", "inst": 1, "url": url}, {"op": "run", "inst": 1, "stop": 4}]))
    scripts.append(dict(id="noentries", comp="runs", cfg=dict(insts=[2], n=0), ops=[{"op": "run", "inst": 1}]))
    scripts.append(dict(id="novoucher", comp="runs", cfg=dict(insts=[2], n=1, empty=True), ops=[{"op": "run", "inst": 1, "url": "dead"}]))
    scripts.insert(0, dict(id="hang1", comp="runs", cfg=dict(insts=[2], n=1), ops=[{"op": "run", "inst": 1, "dev": [{"a": 3, "msg": 60, "j": 1, "kind": "hang"}]}]))
    scripts.insert(0, dict(id="hang2", comp="runs", cfg=dict(insts=[2], n=1), ops=[{"op": "run", "inst": 1, "dev": [{"a": 7, "msg": 64, "j": "neg", "kind": "hang"}]}]))
    R.replay("runs", "TraceRuns.tla", scripts)
