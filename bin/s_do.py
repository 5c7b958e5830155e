"""Suites for the owner onboarding service (TO2): P04, P05, P06, P07 and parts of P10, P11."""
import random
import vlib
from vlib import SEED, TIER
from s_rv import edits

DEFAULT = dict(tokk="sess", m="POST", ct="ok", body="ok", kex="cfg", cipher="cfg", sgk="match", signer="dev", sigk="ok", euph="ok", xb="ok",
               pay="ok", enc="ok")
ALL9 = [1, 2, 3, 4, 5, 6, 7, 8, 9]
CTR = -17760704
ALG = {"ec256": -7, "ec384": -35}
KEX = ["ECDH256", "ECDH384", "DHKEXid14", "DHKEXid15", "ASYMKEX2048", "ASYMKEX3072"]
SUITES = [1, 3, 30, 31, 32, 33, CTR]
BADTOK = ["none", "nobearer", "basic", "three", "unknown", "prefix", "emptytok", "empty", "slash", "long", "dbkey", "upper"]
BADBODY = ["empty", "trunc", "half", "garbage", "int", "emptymap", "longarr", "deep", "text", "trailing", "double", "zeros", "readerr"]
BADENC = ["ct", "tag", "iv", "alg", "algraw", "noalg", "noiv", "shortiv", "longiv", "trunc", "empty", "cut", "extra", "retag", "plain",
          "otherkey", "nokey", "suite", "prot", "shorttag", "emptytag", "longtag", "hash"]
BADPAY = ["empty", "trunc", "garbage", "int", "emptyarr", "trailing"]


def cfg(i=0, iop=True, kex=None, suite=None, owner=None, dev=None, n=None):
    kex = kex or KEX[i % 6]
    suite = suite if suite is not None else SUITES[i % 7]
    dev = dev or ["ec256", "ec384"][i % 2]
    if kex.startswith("ASYM"):
        # the key exchange is tied to an RSA owner key, and the hash in the voucher to the weaker of both
        owner, dev = ("rsa2048", "ec256") if kex.endswith("2048") else ("rsa3072", "ec384")
    owner = owner or ["ec256", "ec384"][(i // 2) % 2]
    return dict(osg=owner, dsg=dev, n=n or 2, kex=kex, cipher=suite, iop=iop, seed=i, dash=["on", "on", "broken", "on", "dead"][i % 5])


def cls(q, st):
    """Message, deviation and the situation of the session it is sent in."""
    sess = st[0]
    situ = ""
    if q["op"] != "h60" and 1 <= q.get("s", 0) <= len(sess):
        x = sess[q["s"] - 1]
        plain = x["sig"] == "match" and x["kex"] == "cfg" and x["cipher"] == "cfg"
        situ = "%s%d%s%s%s" % (x["p"], x["stage"], "" if x["alive"] else "x", "f" if x["fin"] else "", "" if plain else "!")
    dev = ["%s=%s" % (k, q[k]) for k, v in DEFAULT.items() if q.get(k, v) != v]
    op = q["op"]
    if op == "h60":
        dev.append("g=%d" % q["g"])
    if op == "h62":
        dev.append("idx=%d" % q["idx"])
    if op in ("h64", "h70") and q["nonce"] != q["s"]:
        dev.append("nonce=%s" % (q["nonce"] if q["nonce"] < 1 else "other"))
    if op in ("h66", "h68", "h70") and q["ks"] != q["s"]:
        dev.append("ks=%s" % (0 if q["ks"] == 0 else "other"))
    if op == "h64" and q.get("d"):
        dev.append("d=%d" % q["d"])
    if op == "h68":
        dev.append("more=%s sims=%s" % (q["more"], q["sims"]))
    return op + "@" + situ + ":" + ",".join(dev)


def h60(g=1, **k): return dict(op="h60", g=g, **k)
def h62(s, idx=0, **k): return dict(op="h62", s=s, idx=idx, **k)
def h64(s, **k): return dict(op="h64", s=s, **k)
def h66(s, **k): return dict(op="h66", s=s, **k)
def h68(s, more=False, sims=ALL9, **k): return dict(op="h68", s=s, more=more, sims=list(sims), **k)
def h70(s, **k): return dict(op="h70", s=s, **k)


def full(s, n, items=2, splits=None):
    ops = [h62(s, i) for i in range(n)] + [h64(s), h66(s)]
    if splits:
        ops += [h68(s, more=True, sims=x) for x in splits[:-1]] + [h68(s, sims=splits[-1])]
    else:
        ops += [h68(s)]
    ops += [h68(s, sims=[]) for _ in range(max(0, items - 1))]
    return ops + [h70(s)]


def directed():
    out = []
    # complete onboarding, every key exchange with every cipher suite
    i = 0
    for kex in KEX:
        for su in SUITES:
            i += 1
            c = cfg(i, kex=kex, suite=su)
            ops = [h60(1)] + full(1, 2) + [h68(1, sims=[]), h62(1, 0)]
            ops += [h60(2), h62(2, 0), h64(2, xb="bad"), h64(2), h66(2, enc="ct"), h66(2, ks=1), h66(2, maxsz=500), h68(2, enc="tag"), h68(2),
                    h70(2, nonce=1), h70(2, ks=1), h70(2)]
            out.append(dict(id="full-%s-%d" % (kex, su), comp="do", cfg=c, ops=ops))
    # every forgery of an encrypted message under every suite, at every stage
    for su in SUITES:
        c = cfg(SUITES.index(su), kex=KEX[SUITES.index(su) % 2], suite=su)
        c["iop"] = False
        bad = [x for x in BADENC if not unsound(dict(enc=x), c)]
        out.append(dict(id="forge-%d" % su, comp="do", cfg=c, ops=[h60(1), h62(1), h64(1)] + [h66(1, enc=x) for x in bad] + [h66(1)]
                        + [h68(1, enc=x) for x in bad] + [h68(1)] + [h70(1, enc=x) for x in bad] + [h70(1)]))
    # key types of owner and device
    for o in ["ec256", "ec384"]:
        for d in ["ec256", "ec384"]:
            for kex in ["ECDH256", "ECDH384"]:
                out.append(dict(id="types-%s-%s-%s" % (o, d, kex), comp="do", cfg=cfg(0, kex=kex, suite=3, owner=o, dev=d),
                                ops=[h60(1), h64(1)] + full(1, 2) + [h60(3)] + full(2, 4, 0)))
    # coordinates and shared secrets with leading zero bytes
    for kex in ["ECDH256", "ECDH384"]:
        ops = []
        for k in range(1, 7):
            ops += [h60(1), h62(k, 0), h64(k, lead=True), h66(k), h68(k)]
        out.append(dict(id="lead-" + kex, comp="do", cfg=cfg(0, kex=kex, suite=1), ops=ops))
    # asymmetric key exchange with an elliptic owner key and the reverse
    out.append(dict(id="asym-ec", comp="do", cfg=cfg(0, kex="ECDH256", suite=1), ops=[h60(1, kex="asym"), h62(1, 0), h64(1), h64(1), h60(1), h64(2), h62(2), h64(2)]))
    # every way of splitting the mandatory items over two messages, and one by one
    for k in range(0, 10):
        sp = [ALL9[:k], ALL9[k:]]
        out.append(dict(id="split-%d" % k, comp="do", cfg=cfg(k, kex="ECDH256"), ops=[h60(1)] + full(1, 2, splits=sp)
                        + [h60(1), h62(2), h64(2), h66(2), h68(2, more=True, sims=ALL9[:k]), h68(2, sims=ALL9[k + 1:]), h68(2, sims=ALL9[k:]),
                           h68(2, sims=[]), h68(2, sims=[]), h70(2)]))
    out.append(dict(id="one-by-one", comp="do", cfg=cfg(0, kex="ECDH256"), ops=[h60(1)] + full(1, 2, splits=[[x] for x in ALL9] + [[]])))
    out.append(dict(id="more-between", comp="do", cfg=cfg(1, kex="ECDH384"),
                    ops=[h60(1), h62(1), h64(1), h66(1), h68(1), h68(1, more=True, sims=[20]), h68(1, more=True, sims=[]), h70(1), h68(1, sims=[]), h68(1, sims=[]),
                         h70(1)]))
    # values of every kind, well and badly formed
    for seed in range(9):
        ops, s = [], 0
        for k in ALL9:
            s += 1
            ops += [h60(2), h62(s), h64(s), h66(s), h68(s, sims=[x + 10 if x == k else x for x in ALL9], seed=seed), h68(s, sims=ALL9, seed=seed)]
        s += 1
        ops += [h60(2), h62(s), h64(s), h66(s), h68(s, seed=seed), h70(s)]
        out.append(dict(id="values-%d" % seed, comp="do", cfg=cfg(seed, kex="ECDH256"), ops=ops))
    # entries asked for in odd orders, long vouchers
    for n in (1, 3, 9):
        ops = [h60(3)] + [h62(1, i) for i in [n + 1, 0, n + 2, n, 255, 256, -1, 0, n + 1]] + full(1, n + 2, 0) + [h62(1, 0)]
        out.append(dict(id="entries-%d" % n, comp="do", cfg=cfg(n, kex="ECDH256", n=n), ops=ops))
    out.append(dict(id="nosuch", comp="do", cfg=cfg(0), ops=[h60(0), h60(4), h60(1), h62(1, 0), dict(op="expsess", s=1), h62(1, 0), h64(1), h66(1), h68(1), h70(1)]))
    # sizes
    out.append(dict(id="sizes", comp="do", cfg=cfg(0, kex="ECDH256"),
                    ops=sum([[h60(2, maxsz=x), h62(i + 1), h64(i + 1), h66(i + 1, maxsz=x, hmac=bool(i % 2)), h68(i + 1), h70(i + 1)]
                             for i, x in enumerate([0, 1, 255, 256, 1300, 65535])], [])))
    # expiry at every stage; tokens of the other protocol
    base = [h62(1, 0), h62(1, 1), h64(1), h66(1), h68(1), h68(1, sims=[])]
    for k in range(len(base) + 1):
        out.append(dict(id="expire-%d" % k, comp="do", cfg=cfg(k, kex="ECDH256"),
                        ops=[h60(1)] + base[:k] + [dict(op="x22", s=1), dict(op="x32", s=1), dict(op="expsess", s=1)] + base[k:] + [h70(1), h60(1), h62(1, 0), h62(2, 0)]))
    ops = [dict(op="rv20"), h60(1)]
    for m in (h62, h64, h66, h68, h70):
        ops += [m(1), m(2)]
    ops += [h64(2, nonce=1), h64(2), h66(2), h66(1), h68(1), dict(op="x22", s=2), dict(op="x32", s=2), h68(2)]
    out.append(dict(id="foreign", comp="do", cfg=cfg(0, kex="ECDH256"), ops=ops))
    return out


def guess(ops, n, items=2):
    """next honest message of a session, from what was sent so far (a heuristic only)"""


def randoms(rng, count, length):
    out = []
    for t in range(count):
        slow = rng.random() < .1
        kex = rng.choice(KEX) if slow else rng.choice(KEX[:2] + KEX[4:5])
        n = rng.choice([1, 2, 2, 3])
        c = cfg(rng.randrange(1000), iop=rng.random() < .6, kex=kex, suite=rng.choice(SUITES), n=n)
        items = 2 if c["iop"] else 0
        nent = {1: n, 2: 1, 3: n + 2}
        ops, ss = [], []      # per session: [device, position]
        for _ in range(length):
            r = rng.random()
            if not ss or r < .07:
                q = h60(rng.choice([1, 1, 2, 3]))
                if rng.random() < .25 and ss:
                    q.update(rng.choice([dict(m="GET"), dict(ct="json"), dict(body=rng.choice(BADBODY)), dict(kex=rng.choice(["bad", "empty", "lower"])),
                                         dict(cipher=rng.choice(["bad", "zero", "cbc", "ctr256"])), dict(g=0), dict(sgk=rng.choice(["other", "invalid"]))]))
                if all(q.get(k, v) == v for k, v in dict(m="POST", ct="ok", body="ok").items()) and q.get("kex", "cfg") == "cfg" and q["g"] and q.get("sgk") != "invalid":
                    ss.append([q["g"], 0, q.get("cipher", "cfg") == "cfg" and q.get("sgk") != "other"])
                ops.append(q)
                continue
            if r < .09:
                s = rng.randrange(len(ss))
                ops.append(dict(op="expsess", s=s + 1))
                if rng.random() < .5:
                    continue
                ss[s][2] = False
                continue
            if r < .11:
                ops.append(dict(op=rng.choice(["x22", "x32"]), s=rng.randrange(len(ss)) + 1))
                continue
            live = [i for i, x in enumerate(ss) if x[2]]
            i = rng.choice(live) if live and rng.random() < .9 else rng.randrange(len(ss))
            g, pos, ok = ss[i]
            s = i + 1
            ne = nent[g]
            it = items if g == 1 else 0
            seq = [h62(s, k) for k in range(ne)] + [h64(s), h66(s), None] + [h68(s, sims=[]) for _ in range(max(0, it - 1))] + [h70(s)]
            if rng.random() < .72:
                q = seq[min(pos, len(seq) - 1)]
                if q is None:
                    if rng.random() < .4:
                        cut = rng.randint(0, 9)
                        mix = ALL9[:]
                        rng.shuffle(mix)
                        ops.append(h68(s, more=True, sims=mix[:cut], seed=rng.randrange(100)))
                        q = h68(s, sims=mix[cut:] + rng.choice([[], [20], [21, 20], [1], [8, 9]]), seed=rng.randrange(100))
                    else:
                        q = h68(s, seed=rng.randrange(100))
                    if rng.random() < .15:
                        q["sims"] = q["sims"] + [rng.choice(ALL9) + 10]
                if q["op"] == "h66" and rng.random() < .5:
                    q["maxsz"] = rng.choice([0, 256, 1300, 65535, 700])
                ss[i][1] = min(pos + 1, len(seq) - 1)
            else:
                q = rng.choice([h62(s, rng.choice([0, 1, ne, ne - 1, 255])), h64(s), h66(s), h68(s), h68(s, more=True, sims=[rng.choice(ALL9)]), h70(s)]
                               + [x for x in [seq[min(pos, len(seq) - 1)]] * 6 if x])
                bad = [dict(tokk=rng.choice(BADTOK)), dict(body=rng.choice(BADBODY)), dict(m="GET"), dict(ct="json")]
                if q["op"] in ("h64", "h70"):
                    bad += [dict(nonce=rng.choice([-1, 0] + list(range(1, len(ss) + 1))))] * 2
                if q["op"] == "h64":
                    bad += [dict(signer=rng.choice(["otherkey", "otherdev", "ownerkey", "ca"])), dict(sigk=rng.choice(["flip", "empty", "zero", "long", "trunc", "payload", "prot", "protkid"])),
                            dict(euph=rng.choice(["none", "other"])), dict(xb=rng.choice(["empty", "bad", "zero"])),
                            dict(pay=rng.choice(BADPAY + ["nofdo", "nononce"])), dict(d=rng.choice([1, 2, 3]))] * 2
                if q["op"] in ("h66", "h68", "h70"):
                    bad += [dict(enc=rng.choice(BADENC)), dict(ks=rng.choice([0] + list(range(1, len(ss) + 1)))), dict(pay=rng.choice(BADPAY))] * 3
                if rng.random() < .7:
                    q = dict(q, **rng.choice(bad))
            ops.append(q)
        out.append(dict(id="rnd-%d" % t, comp="do", cfg=c, ops=ops))
    return out


def fuzzes(rng, count):
    out = []
    for t in range(count):
        kex = rng.choice(KEX[:2] + KEX[4:5]) if rng.random() < .9 else rng.choice(KEX)
        c = cfg(rng.randrange(1000), kex=kex, suite=SUITES[t % 7])
        # sessions 1..5 wait for 62, 64, 66, 68, 70
        ops = []
        seq = [[], [h62], [h62, h64], [h62, h64, h66], [h62, h64, h66, h68]]
        for i, pre in enumerate(seq):
            ops += [h60(2)] + [f(i + 1) for f in pre]
        for k in range(30):
            m = [60, 62, 64, 64, 66, 68, 68, 70][rng.randrange(8)]
            q = dict(op="fuzz", msg=m, s={60: 0, 62: 1, 64: 2, 66: 3, 68: 4, 70: 5}[m], g=2, sims=ALL9, inner=rng.random() < .6,
                     edits=edits(rng, rng.randint(1, 3)))
            if rng.random() < .7 and q["edits"]:
                q["edits"][0][1] = rng.randrange(0, 60)
            ops.append(q)
        out.append(dict(id="fuzz-%d" % t, comp="do", cfg=c, ops=ops))
    return out


def pars(rng, count):
    out = []
    for t in range(count):
        c = cfg(rng.randrange(1000), kex=rng.choice(KEX[:2]), suite=rng.choice(SUITES))
        k = rng.randint(2, 5)
        gs = [rng.choice([1, 1, 2]) for _ in range(k)]
        ops = [h60(g) for g in gs]
        seqs = []
        for i, g in enumerate(gs):
            s = i + 1
            seqs.append([h62(s, j) for j in range(2 if g == 1 else 1)] + [h64(s), h66(s), h68(s)] + ([h68(s, sims=[])] if g == 1 else []) + [h70(s)])
        pos = [rng.randint(0, 2) for _ in range(k)]
        for i in range(k):
            ops += seqs[i][:pos[i]]
        while any(pos[i] < len(seqs[i]) for i in range(k)):
            sub = []
            for i in range(k):
                if pos[i] < len(seqs[i]) and rng.random() < .8:
                    q = dict(seqs[i][pos[i]])
                    if rng.random() < .2:
                        q["tokk"] = "unknown"
                    elif rng.random() < .1 and q["op"] in ("h66", "h68", "h70"):
                        q["ks"] = (i + 1) % k + 1
                        if q["ks"] == i + 1:
                            pos[i] += 1
                    else:
                        pos[i] += 1
                    sub.append(q)
            if sub:
                ops.append(dict(op="par", ops=sub))
        out.append(dict(id="par-%d" % t, comp="do", cfg=c, ops=ops))
    return out


def unsound(q, c):
    """Combinations the specification leaves open."""
    if c["cipher"] == CTR and q.get("enc") in ("prot", "untag"):
        return True
    if q.get("xb") in ("short", "long", "zero") and c["kex"].startswith("DHKEX"):
        return True
    return False


def clean(scripts):
    for s in scripts:
        for q in s["ops"]:
            if unsound(q, s["cfg"]):
                q.pop("enc", None)
                q.pop("xb", None)
    return scripts


def run(R, focus):
    rng = random.Random(SEED * 104729 + 4)
    thorough = TIER == "thorough"
    R.model_check("MCDO.tla", "MCDO2.cfg", name="MCDO two sessions")
    es = R.model_check("MCDO.tla", "MCDO.cfg", edges=True, name="MCDO all single defects")
    es2 = R.model_check("MCDO.tla", "MCDO2.cfg", edges=True, name="MCDO two sessions, transitions") if thorough or "two" in focus else None
    scripts = directed()
    walks, info = vlib.cover(es, rng, 60000 if thorough else 5000, cls)
    info["suite"] = "do"
    R.notes.append(info)
    # the model's device 1 has two entries and two items
    for i, w in enumerate(walks):
        c = cfg(i, kex=KEX[[0, 1, 0, 1, 4, 0, 1, 5][i % 8]] if i % 40 else KEX[2 + (i // 40) % 2], suite=SUITES[(i // 3) % 7])
        scripts.append(dict(id="cov-%d" % i, comp="do", cfg=c, ops=w))
    if es2:
        walks, info = vlib.cover(es2, rng, 40000 if thorough else 2500, cls)
        R.notes.append(dict(info, suite="do2"))
        for i, w in enumerate(walks):
            scripts.append(dict(id="cov2-%d" % i, comp="do", cfg=cfg(i, kex=KEX[i % 2], suite=SUITES[(i // 3) % 7]), ops=w))
    scripts += randoms(rng, 600 if thorough else 60, 70)
    if "fuzz" in focus:
        scripts += fuzzes(rng, 800 if thorough else 70)
    if "par" in focus:
        scripts += pars(rng, 600 if thorough else 50)
    R.replay("do", "TraceDO.tla", clean(scripts))
