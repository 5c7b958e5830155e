"""Suites for the end of the process: P17.  Histories of the other suites with the
process ending between operations (restart) or inside one (crash: at its k-th write,
or k = 0: when it has finished, before anybody gets the answer), and the caller trying again."""
import random
import s_api, s_do, s_listener, s_rv
from vlib import SEED, TIER

OPENS = {"h20", "h30", "h60", "rv20"}
RVDO = OPENS | {"h22", "h32", "h62", "h64", "h66", "h68", "h70"}
API = {"login", "logout", "purge", "create", "exec", "start", "del"}


def ending(rng, script, restart, crash, ops, deep=()):
    """script with processes ending; its operations are otherwise the same."""
    out = []
    for q in script["ops"]:
        if rng.random() < restart:
            out.append(dict(op="restart"))
        if q["op"] in ops and rng.random() < crash:
            k = rng.choice([0, 1]) if q["op"] in OPENS else rng.choice([0, 0, 1, 1, 2])
            if q["op"] in deep:
                k = rng.choice([0, 1, 1, 2, 3, 4, 5, 6, rng.randrange(1, 12)])
            x = dict(q, crash=k)
            if q["op"] == "create":
                x["data"] = x["d"] = q["data"] + 500
            if "blob" in q:
                x["blob"] = q["blob"] + 500
            out.append(x)
        out.append(q)
    return dict(script, id="end-" + script["id"], ops=out)


def thin(rng, scripts, n):
    s = [x for x in scripts if not any(q["op"] == "par" for q in x["ops"])]
    rng.shuffle(s)
    return s[:n]


def judge(R, suite, module, pairs):
    """Replays the histories; what goes wrong without any process ending is not about that."""
    n0 = len(R.viols)
    R.replay(suite, module, [m for m, _ in pairs])
    bad = {v["tr"] for v in R.viols[n0:] if any(t.startswith("P17:") for t in v["tags"])}
    if not bad:
        return
    plain = [p for m, p in pairs if m["id"] in bad][:40]
    vs = R.replay(suite + "-plain", module, plain)
    same = {"end-" + v["tr"] for v in vs}
    keep = {"end-" + p["id"] for p in plain} - same
    for v in R.viols[n0:]:
        if v["tr"] not in keep:
            v["tags"] = [t for t in v["tags"] if not t.startswith("P17:")]


def services(R):
    rng = random.Random(SEED * 7331 + 17)
    t = 8 if TIER == "thorough" else 1
    for suite, module, mod, n in (("rv-end", "TraceRV.tla", s_rv, 45), ("do-end", "TraceDO.tla", s_do, 60)):
        base = thin(rng, mod.directed(), 40) + mod.randoms(rng, 30 * t, 60)
        if mod is s_do:
            base = mod.clean(base)
        judge(R, suite, module, [(ending(rng, s, .12, .3, RVDO), s) for s in base for _ in range(1)])


def management(R):
    rng = random.Random(SEED * 7331 + 18)
    t = 8 if TIER == "thorough" else 1
    base = []
    for k in range(40 * t):
        ops = [q for q in s_api.history(rng, 2, 60) if q["op"] != "par"]
        base.append(dict(id="api%d" % k, comp="api", cfg=dict(nu=2), ops=ops))
    judge(R, "api-end", "TraceApi.tla", [(ending(rng, s, .08, .25, API, {"create", "exec", "start"}), s) for s in base])
    base = []
    for k in range(20 * t):
        base.append(dict(id="steady%d" % k, comp="listener", cfg=dict(s_listener.combo(k), n=1 + k % 3), ops=s_listener.passing(1 + (k % 3 > 0), rng, [0, .05][k % 2])))
    for k in range(30 * t):
        ops = [q for q in s_listener.freely(rng, 1 + k % 3, 80) if q["op"] != "par"]
        base.append(dict(id="free%d" % k, comp="listener", cfg=dict(s_listener.combo([0, 1, 6, 7, 12, 13][k % 6]), n=1 + k % 2, nd=1 + k % 3), ops=ops))
    judge(R, "listener-end", "TraceListener.tla", [(ending(rng, s, .12, 0, ()), s) for s in base])


def run(R):
    R.model_check("MCStore.tla", "MCStore.cfg", name="MCStore")
    R.slips("MCStore.tla", "MCStore.cfg", ["later", "visible first"])
    services(R)
    management(R)
