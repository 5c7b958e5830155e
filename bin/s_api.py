"""Suite for the management interface: P14, P15 and the services tested through it (P16)."""
import json, random
import s_client
from vlib import SEED, TIER, cover

NOBODY = ["none", "empty", "junk", "unknown", "name", "cut", "long", "upper", "mail", "key", "proto20", "proto30", "proto60"]
BODY = ["nobody", "trunc", "array", "number", "types", "trail", "bin"]
URLS = ["url:", "url:/", "url:mailto:x@y", "url:http:", "url:http://", "url:https:///", "url://host", "url:host:80", "url:ftp://127.1.9.9:9", "url:http://127.1.9.9:9/path",
        "url:http://127.1.9.9:9/fdo/101/msg/30", "url:file:///etc", "url:http://%zz", "url:http://:9"]
KEYS = ["ec256", "ec384"]


def bads(q, rng):
    """The ways in which a call can be malformed."""
    ep, kind = q["ep"], q["kind"]
    if ep == "login":
        return ["get", "put", "head", "ct", "noct"]
    if ep in ("logout", "purge"):
        return ["get", "put", "head"]
    if ep in ("loggedin", "list"):
        return ["post", "put", "head"]
    if ep == "vouchers":
        return ["post", "hex", "odd", "zero", "short"]
    if ep == "del":
        return ["post", "get", "hex", "odd", "zero", "short"]
    if ep == "start":
        return ["get", "put", "hex", "odd", "zero", "short"]
    if ep == "exec":
        return ["get", "put", "ct", "noct", "hex", "odd", "zero", "none", "short", "null"] + BODY
    l = ["get", "put", "ct", "noct", "null"] + BODY
    if kind in ("rvt", "dot"):
        l += rng.sample(URLS, 6)
    if kind == "dot":
        l += ["key:ec224", "key:ec521", "key:rsa1024", "key:ed25519", "pem", "nopem", "der", "pub"]
    if kind == "dev":
        l += ["pem", "cut", "flip", "nokey", "swap", "noname", "novoucher"]
    return l


class Concrete:
    def __init__(self, rng):
        self.rng, self.n = rng, 0

    def call(self, q):
        rng = self.rng
        ep = q["ep"]
        if ep == "sess":
            return dict(op="sess", k=q["c"], u=q["u"], live=q["good"], upper=rng.random() < 0.3)
        if ep == "expire":
            return dict(op="expire", k=q["c"])
        if ep == "lapse":
            return dict(op="lapse", id=q["id"])
        o = dict(op=ep, kind=q["kind"], c=q["c"], id=q["id"], p=q["p"], r=q["r"])
        if q["c"] == 0:
            o["ck"] = rng.choice(NOBODY)
        elif rng.random() < 0.2:
            o["ck"] = "extra"
        if ep == "login":
            o["k"], o["c"], o["ck"] = q["new"], 0, rng.choice(NOBODY[:6])
        if not q["good"]:
            o["bad"] = rng.choice(bads(q, rng))
        elif rng.random() < 0.2:
            o["upper"] = True
        if ep == "create":
            self.n += 1
            o["data"], o["d"] = self.n, self.n
            o["slash"] = rng.random() < 0.3
            x = rng.random()
            o["key"] = rng.choice(KEYS) if x < 0.93 else "rsa2048" if x < 0.98 else "rsa3072"
        return o


def own_tests(rng, kind, key="ec256"):
    """The tool's own services, tested by the tool."""
    ops = [dict(op="sess", k=1, u=1, live=True), dict(op="create", kind=kind, c=1, data=0, key=key)]
    if kind == "rvt":
        for i in range(2):
            ops += [dict(op="exec", kind=kind, c=1, id=1, p=0), dict(op="exec", kind=kind, c=1, id=1, p=1)]
        ops += [dict(op="restart"), dict(op="exec", kind=kind, c=1, id=1, p=1)]
    else:
        ops += [dict(op="vouchers", kind=kind, c=1, id=1, p=2), dict(op="load", id=1)]
        ops += [dict(op="exec", kind=kind, c=1, id=1, p=2) for i in range(2)] + [dict(op="restart"), dict(op="exec", kind=kind, c=1, id=1, p=2)]
    ops.append(dict(op="list", kind=kind, c=1))
    return ops


def history(rng, nu, size):
    """A random history of several accounts, with calls at the same time."""
    C = Concrete(rng)
    ops, live, tests, nruns, nk = [], {}, [], 0, 0
    up = True
    Q = lambda ep, kind, c, good=True, **kw: dict(dict(ep=ep, kind=kind, c=c, good=good, u=1, id=0, p=0, r=0, new=0), **kw)

    def one(par):
        nonlocal nk, nruns, up
        good = rng.random() < 0.9
        c = rng.choice(list(live) + [0]) if live else 0
        u = live.get(c, (0, False))
        x = rng.random()
        kind = rng.choice(["rvt", "dot", "dev"])
        mine = [i for i, t in enumerate(tests, 1) if t[1] == u[0]] if rng.random() < 0.7 else list(range(1, len(tests) + 1))
        if x < 0.22:
            return Q("create", kind, c, good)
        if x < 0.5 and tests:
            i = rng.choice(mine or [1])
            kind = tests[i - 1][0] if rng.random() < 0.93 else kind
            p = rng.choice({"rvt": [0, 1], "dot": [2], "dev": [1, 2, 1, 2, 0, 3]}[kind])
            return Q("start" if kind == "dev" else "exec", kind, c, good, id=i if tests[i - 1][0] == kind else 0, p=p)
        if x < 0.68 and tests:
            i = rng.choice(mine or [1])
            kind = tests[i - 1][0]
            p = rng.choice({"rvt": [0, 1], "dot": [2], "dev": [1, 2]}[kind])
            return Q("del", kind, c, good, id=i, p=p, r=rng.randint(0, nruns))
        if x < 0.72 and tests:
            return Q("vouchers", "dot", c, good, id=rng.randint(1, len(tests)), p=2)
        if x < 0.84:
            return Q("list", kind, c, good)
        if x < 0.88:
            return Q(rng.choice(["loggedin", "loggedin", "logout"]), "", c, good)
        if x < 0.9 and not par:
            return Q("purge", "", c, good)
        return Q("loggedin", "", c, good)

    def note(q):
        nonlocal nruns
        u = live.get(q["c"], (0, False))
        ok = q["good"] and u[0] and u[1]
        if q["ep"] == "logout" and q["good"]:
            live.pop(q["c"], None)
        if not ok:
            return
        if q["ep"] == "create" and (q["kind"] != "dev" or up):
            tests.append((q["kind"], u[0]))
        if q["ep"] in ("exec", "start") and q["id"] and tests[q["id"] - 1][1] == u[0]:
            nruns += 1

    while len(ops) < size:
        x = rng.random()
        if x < 0.1 or not live:
            nk += 1
            if rng.random() < 0.3:
                ops.append(C.call(Q("login", "", 0, True, new=nk)))
                live[nk] = (1, True)
            else:
                u, l = rng.randint(0 if rng.random() < 0.2 else 1, nu), rng.random() < 0.88
                ops.append(C.call(Q("sess", "", nk, l, u=u)))
                live[nk] = (u, l)
        elif x < 0.12:
            ops.append(dict(op="expire", k=rng.choice(list(live))))
        elif x < 0.14 and tests:
            ops.append(dict(op="lapse", id=rng.randint(1, len(tests))))
        elif x < 0.16:
            ops.append(dict(op="restart"))
        elif x < 0.18:
            up = not up
            ops.append(dict(op="up", up=up))
        elif x < 0.3:
            # at the same time: calls whose effects do not depend on their order
            qs, used = [], set()
            for i in range(rng.randint(2, 6)):
                q = one(True)
                if q["ep"] in ("logout", "purge", "loggedin") or (q["ep"] not in ("create", "list") and (q["id"] in used or not q["id"])):
                    continue
                if q["ep"] == "list":
                    continue
                used.add(q["id"])
                qs.append(q)
            if len(qs) > 1:
                ops.append(dict(op="par", ops=[C.call(q) for q in qs]))
                for q in qs:
                    note(q)
        else:
            q = one(False)
            ops.append(C.call(q))
            note(q)
    return ops


def burst(rng, n, kinds):
    """Many creations and runs of one account at once, from several logins."""
    C = Concrete(rng)
    ops = [dict(op="sess", k=1, u=1, live=True), dict(op="sess", k=2, u=1, live=True), dict(op="sess", k=3, u=2, live=True)]
    mk = lambda kind, c: C.call(dict(ep="create", kind=kind, c=c, good=True, u=1, id=0, p=0, r=0, new=0))
    ops.append(dict(op="par", ops=[mk(kinds[i % len(kinds)], 1 + i % 3) for i in range(n)]))
    ops.append(dict(op="par", ops=[mk(kinds[i % len(kinds)], 1 + i % 3) for i in range(n)]))
    for i in range(1, n + 1):
        ops.append(dict(op="list", kind=kinds[i % len(kinds)], c=1 + i % 3))
    return ops


def long(rng, kind, n, runs):
    """Many tests of one account, and many runs of one test."""
    C = Concrete(rng)
    ops = [dict(op="sess", k=1, u=1, live=True), dict(op="sess", k=2, u=2, live=True)]
    call = lambda ep, id=0, p=0, r=0, c=1: C.call(dict(ep=ep, kind=kind, c=c, good=True, u=1, id=id, p=p, r=r, new=0))
    ops += [call("create") for i in range(n)]
    ps = {"rvt": [0, 1], "dot": [2], "dev": [1, 2]}[kind]
    i = rng.randint(1, n)
    for k in range(runs):
        ops.append(call("start" if kind == "dev" else "exec", id=i, p=rng.choice(ps) if k % 3 else ps[-1]))
        if k % 8 == 7:
            ops.append(call("list"))
    ops += [call("list"), call("list", c=2)]
    for k in rng.sample(range(1, runs + 1), min(6, runs)):
        ops += [call("del", id=i, p=rng.choice(ps), r=k)]
    ops += [call("list"), dict(op="restart"), call("list")]
    return ops


def run(R):
    rng = random.Random(SEED * 9001 + 3)
    thorough = TIER == "thorough"
    scripts, n = [], 0
    R.model_check("MCApi.tla", "MCApiL.cfg", name="MCApi logins")
    R.model_check("MCApi.tla", "MCApiE.cfg", name="MCApi runs")
    R.model_check("MCApi.tla", "MCApiT.cfg", name="MCApi tests")
    for c, budget in (("S", 1400), ("F", 3600)):
        edges = R.model_check("MCApi.tla", "MCApi%s.cfg" % c, edges=True, name="MCApi transitions " + c)
        ws, info = cover(edges, rng, budget * (8 if thorough else 1), lambda q, s: json.dumps(q["cls"]), walk_len=70)
        R.notes.append(dict(info, suite="api", model=c))
        for w in ws:
            n += 1
            C = Concrete(rng)
            pre = [] if c == "S" else [dict(op="sess", k=1, u=1, live=True), dict(op="sess", k=2, u=2, live=True, upper=True),
                                       dict(op="sess", k=3, u=1, live=False), dict(op="sess", k=4, u=0, live=True)]
            scripts.append(dict(id="w%s%d" % (c, n), comp="api", cfg=dict(nu=2), ops=pre + [C.call(x["q"]) for x in w]))
    for k in range(600 if thorough else 60):
        n += 1
        nu = 2 + k % 2
        scripts.append(dict(id="free%d" % n, comp="api", cfg=dict(nu=nu), ops=history(rng, nu, 60 if k % 3 else 110)))
    for k in range(80 if thorough else 12):
        n += 1
        scripts.append(dict(id="burst%d" % n, comp="api", cfg=dict(nu=2), ops=burst(rng, 4 + k % 5, [["rvt"], ["dot"], ["dev"], ["rvt", "dot", "dev"]][k % 4])))
    for k in range(18 if thorough else 3):
        scripts.append(dict(id="long%d" % k, comp="api", cfg=dict(nu=2), ops=long(rng, ["rvt", "dot", "dev"][k % 3], 26 if k < 3 else 70, 26 if k < 3 else 60)))
    R.replay("api", "TraceApi.tla", scripts)


def services(R):
    """The tool's own services tested through the interface."""
    rng = random.Random(SEED * 9001 + 4)
    thorough = TIER == "thorough"
    scripts = []
    for k in range(32 if thorough else 4):
        scripts.append(dict(id="own-rv%d" % k, comp="api", cfg=dict(nu=1), ops=own_tests(rng, "rvt")))
    for k in range(64 if thorough else 8):
        scripts.append(dict(id="own-do%d" % k, comp="api", cfg=dict(nu=1), ops=own_tests(rng, "dot", ["ec256", "ec384", "rsa2048", "rsa3072"][k % 4])))
    R.replay("apiown", "TraceApi.tla", scripts)
