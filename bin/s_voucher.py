"""Suite for ownership vouchers: P08."""
import collections, json, random, re
import vlib
from vlib import SEED, TIER, ToolError
from s_rv import edits

TYPES = [("ec256", "ec256"), ("ec384", "ec384"), ("ec384", "ec256"), ("ec256", "ec384"), ("rsa2048", "ec256"), ("rsa3072", "ec384")]


def paths(R, cfg, sim=None):
    """Editing histories enumerated (or sampled) by TLC from MCVoucher."""
    s = open("%s/%s" % (vlib.SPEC, cfg)).read().replace("Emit = FALSE", "Emit = TRUE")
    p = "%s/emit-%s" % (R.work, cfg)
    args = ()
    if sim:
        s = re.sub(r"Steps = \d+", "Steps = %d" % sim[1], s)
        args = ("-simulate", "num=%d" % sim[0], "-depth", str(sim[1] + 1), "-seed", str(SEED))
    open(p, "w").write(s)
    r = R.tlc("MCVoucher.tla", p, workers=1, args=args)
    if "Error:" in r.stdout:
        raise ToolError("MCVoucher: " + r.stdout[-2000:])
    return [json.loads(json.loads(l)[5:]) for l in r.stdout.splitlines() if l.startswith('"PATH ')]


def run(R, focus=()):
    rng = random.Random(SEED * 31337 + 8)
    thorough = TIER == "thorough"
    R.model_check("MCVoucher.tla", "MCVoucher.cfg", name="MCVoucher two edits by anyone")
    R.model_check("MCVoucher.tla", "MCVoucherH3.cfg", name="MCVoucher three edits by an attacker")
    scripts = []
    seen = set()
    ps = paths(R, "MCVoucher.cfg")
    short = [p for p in ps if len(p["path"]) == 1]
    long_ = [p for p in ps if len(p["path"]) == 2]
    # every pair of edits that ends in an acceptable voucher, and a share of the others
    yes = [p for p in long_ if p["verdict"] != "no"]
    no = [p for p in long_ if p["verdict"] == "no"]
    rng.shuffle(no)
    rng.shuffle(yes)
    pick = short + yes[:4000 if thorough else 700] + no[:20000 if thorough else 1500]
    sim = paths(R, "MCVoucher.cfg", sim=(6000 if thorough else 400, 6))
    full = [p for p in sim if len(p["path"]) == 6]
    simh = paths(R, "MCVoucherH.cfg", sim=(3000 if thorough else 200, 8))
    full += [p for p in simh if len(p["path"]) == 8]
    # the simulated behaviours end in broken vouchers mostly: add mending steps so that long histories stay valid
    rng.shuffle(full)
    full = full[:6000 if thorough else 300]
    full += [dict(p, path=p["path"] + mend(p, rng)) for p in full[:3000 if thorough else 250]]
    for n, p in enumerate(pick + full):
        o, d = TYPES[n % 6] if n % 3 else TYPES[0]
        scripts.append(dict(id="v%d" % n, comp="voucher", cfg=dict(osg=o, dsg=d, base=p["base"]), ops=[{k: v for k, v in q.items()} for q in p["path"]]))
    for n, (o, d) in enumerate(TYPES):
        for b in (0, 1, 4, 6):
            scripts.append(dict(id="base%d-%d" % (n, b), comp="voucher", cfg=dict(osg=o, dsg=d, base=b), ops=resale(b)))
        g = [dict(op="gen", withkeys=bool(i % 2)) for i in range(2 if o.startswith("rsa") else 10)]
        scripts.append(dict(id="gen%d" % n, comp="voucher", cfg=dict(osg=o, dsg=d, base=1), ops=g))
        for t in range(40 if thorough else 8):
            f = []
            for _ in range(40):
                q = dict(op="fuzz", pem=rng.random() < .3, edits=edits(rng, rng.randint(1, 3)))
                if rng.random() < .5:
                    q["edits"][0][1] = rng.randrange(60)
                f.append(q)
            scripts.append(dict(id="fuzz%d-%d" % (n, t), comp="voucher", cfg=dict(osg=o, dsg=d, base=rng.randint(0, 4)), ops=f))
    R.notes.append({"suite": "voucher", "edit_histories": len(pick) + len(full), "pairs_in_model": len(long_), "single_edits": len(short)})
    R.replay("voucher", "TraceVoucher.tla", scripts)


def resale(b):
    """Legal hand-overs, a stolen one, and a repaired voucher."""
    ext = lambda by, v: dict(op="ext", k=0, f="", v=v, by=by)
    ops = []
    if b < 5:
        ops += [ext("k%d" % b, "k%d" % (b + 1)), ext("a", "a"), dict(op="drop", k=b + 2, f="", v="", by=""), ext("k%d" % (b + 1), "a")]
    return ops


def mend(p, rng):
    """Repairs every entry by re-hashing and re-signing it, front to back; the
    keys used are the ones a validator would expect where they are usable."""
    n = p["base"] + sum({"ext": 1, "dup": 1, "drop": -1}.get(q["op"], 0) for q in p["path"])
    out = []
    prev = "k0"
    for i in range(1, max(0, n) + 1):
        pub = rng.choice(["k%d" % i, "a"]) if rng.random() < .2 else "k%d" % i
        out += [dict(op="pay", k=i, f="pub", v=pub, by=""), dict(op="pay", k=i, f="prev", v="fix", by=""), dict(op="pay", k=i, f="hdr", v="fix", by=""),
                dict(op="sign", k=i, f="", v="", by=prev)]
        prev = pub
    return out
