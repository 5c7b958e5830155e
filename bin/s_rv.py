"""Suites for the Rendezvous server (TO0/TO1): properties P01, P02, P03 and parts of P10, P11."""
import random
import vlib
from vlib import SEED, TIER

DEFAULT = dict(m="POST", ct="ok", body="ok", vch="ok", signer="owner", hash="ok", rvaddr="ok", sigk="ok", sgk="match", to0d="ok", pay="ok")
BADTOK = ["none", "nobearer", "basic", "three", "unknown", "prefix", "emptytok", "empty", "slash", "long"]
BADBODY = ["empty", "trunc", "half", "garbage", "int", "emptymap", "longarr", "deep", "text", "trailing", "double", "zeros", "nullarr2", "readerr"]
VPOS = ["entrySig", "entrySigEmpty", "entrySigTrunc", "entrySigZero", "entryPayload", "entryProt", "entryPayloadNil", "entryPayloadJunk",
        "prevHash", "prevHashTrunc", "prevHashEmpty", "prevHashType", "prevHashOld", "hdrHash", "hdrHashOtherDev", "wrongSigner",
        "selfSigned", "mfgSigner", "badKeyEnc", "badKeyBody", "badKeyType"]
VNOPOS = ["dropFirst", "dropMid", "swap", "dup", "noEntries", "foreign", "hdrGuid", "hdrDevInfo", "hdrRv", "hdrPub", "hdrJunk", "hdrEmpty",
          "hmacAlt", "hmacType", "protVer", "protVer102", "hdrProtVer", "hdrProtVer102", "rvEmpty", "devInfoEmpty", "certHash",
          "certHashTrunc", "certHashEmpty", "certHashNil", "certHashType", "certNil", "certEmpty", "certDrop", "certOrder", "certSwap",
          "certFlip", "certExtra", "hdrOtherMfg"]
WAITS = [0, 1, 59, 60, 61, 3600, 86400, 2591999, 2592000, 2592001, 4294967295, 31536000, 2147483647, 65536, 2592000 * 2]


def cls(q, st):
    """The class of a transition: which message, which single deviation, and
    in which situation (kind and state of the session, whether registered)."""
    reg, sess = st[0], st[1]
    dev = []
    if 1 <= q.get("s", 0) <= len(sess):
        x = sess[q["s"] - 1]
        dev.append("%s%s" % (x["kind"], "" if x["alive"] else "-dead"))
        if q["op"] == "h32" and x["kind"] == "to1":
            r = reg[x["g"] - 1]
            dev.append("reg%s" % ("" if not r["blob"] else "+" if r["dev"] == q["d"] else "-"))
    elif q["op"] in ("h22", "h30") and q["g"]:
        dev.append("reg%d" % (reg[q["g"] - 1]["blob"] > 0))
    for k, v in DEFAULT.items():
        if q.get(k, v) != v and not (k == "signer" and q["op"] == "h32" and q[k] == "dev"):
            dev.append("%s=%s" % (k, q[k]))
    if q.get("tokk", "sess") != "sess":
        dev.append("tok=" + q["tokk"])
    if q["op"] in ("h22", "h32") and q.get("nonce") != q.get("s"):
        dev.append("nonce=%s" % (q["nonce"] if q["nonce"] < 1 else "other"))
    if q.get("vch", "ok") in VPOS:
        dev.append("k=%d" % q["k"])
    if q["op"] == "h22":
        dev.append("wait=%d" % q["wait"])
    if q["op"] == "h22" and q["d"] > 10:
        dev.append("clone")
    return q["op"] + ":" + ",".join(dev)


def h20(**k): return dict(op="h20", **k)
def h22(s, g, blob, wait=3600, **k):
    q = dict(op="h22", s=s, g=g, blob=blob, wait=min(wait, 2147483647), **k)
    if wait > 2147483647:
        q["waitx"] = wait
    return q
def h30(g, **k): return dict(op="h30", g=g, **k)
def h32(s, g, **k): return dict(op="h32", s=s, g=g, **dict(dict(signer="dev"), **k))


CFGS = [("ec256", "ec256", 3), ("ec384", "ec384", 3), ("rsa2048", "ec256", 2), ("rsa3072", "ec384", 2), ("ec384", "ec256", 1),
        ("ec256", "ec384", 4), ("ec256", "ec256", 1), ("ec256", "ec256", 7)]


def directed():
    """Hand-written histories that spell out the guarantees."""
    out = []
    for osg, dsg, n in CFGS:
        ops = [h20(), h22(1, 1, 1), h30(1), h32(2, 1), h20(), h22(3, 1, 2, 100, d=11), h32(2, 1), h32(2, 1, d=11), h30(1), h32(4, 1, d=11),
               h32(4, 1), h22(1, 1, 3, 50), h32(4, 1), h32(4, 1, d=11), h30(2), h22(3, 2, 4), h30(2), h32(5, 2), h32(5, 1), h32(4, 2),
               h22(3, 2, 5, vch="prevHash"), h32(5, 2), dict(op="expreg", g=2), h32(5, 2), h30(2), h22(1, 2, 6), h32(5, 2),
               dict(op="expsess", s=5), h32(5, 2), dict(op="expsess", s=1), h22(1, 2, 7), h30(2), h32(6, 2)]
        out.append(dict(id="dir-%s-%s-%d" % (osg, dsg, n), comp="rv", cfg=dict(osg=osg, dsg=dsg, n=n), ops=ops))
    # lifetimes
    ops = [h20()]
    for i, w in enumerate(WAITS):
        ops += [h22(1, 1, i + 1, w), h30(1)] if w != 1 else [h22(1, 1, i + 1, w)]
    out.append(dict(id="waits", comp="rv", cfg={}, ops=ops))
    # replacing a registration by a shorter or longer one
    ops = [h20()]
    b = 0
    for a in [3600, 2592000, 60, 0, 90, 2592001, 30]:
        for d in [1, 11]:
            b += 1
            ops.append(h22(1, 1, b, a, d=d))
            if a:
                ops += [h30(1)]
    out.append(dict(id="replace", comp="rv", cfg={}, ops=ops))
    # real expiry
    ops = [h20(), h22(1, 1, 1, 1), h22(1, 2, 2, 3600), h20(), dict(op="sleep", ms=2300, wait=2300), h30(1), h30(2), h32(3, 2),
           h22(1, 1, 3, 1), h22(1, 1, 4, 3600), dict(op="sleep", ms=2300, wait=2300), h30(1), h32(4, 1), h22(2, 2, 5, 2),
           dict(op="sleep", ms=3300, wait=3300), h32(3, 2), h30(2)]
    out.append(dict(id="realtime", comp="rv", cfg={}, ops=ops))
    # a session opened while registered, used after the registration lapsed
    ops = [h20(), h22(1, 1, 1), h30(1), dict(op="expreg", g=1), h32(2, 1), h22(1, 1, 2, d=11), h32(2, 1), h32(2, 1, d=11)]
    out.append(dict(id="lapse-mid", comp="rv", cfg={}, ops=ops))
    return out


def randoms(rng, count, length):
    out = []
    for t in range(count):
        osg, dsg, n = rng.choice(CFGS if rng.random() < .5 else CFGS[:2])
        ops, ns, blob = [], [], 0
        for _ in range(length):
            r = rng.random()
            s0 = [i + 1 for i, k in enumerate(ns) if k == "to0"]
            s1 = [i + 1 for i, k in enumerate(ns) if k == "to1"]
            anys = list(range(1, len(ns) + 1))
            g = rng.choice([1, 1, 2, 3])
            d = rng.choice([g, g, g, g + 10])
            bad = rng.random() < .35
            if r < .12 or not s0:
                q = h20()
                if bad and s0:
                    q.update(rng.choice([dict(m="GET"), dict(ct="json"), dict(body=rng.choice(BADBODY))]))
                else:
                    ns.append("to0")
                q.setdefault("tokk", "none")
            elif r < .5:
                s = rng.choice(s0)
                blob += 1
                q = h22(s, g, blob, rng.choice(WAITS[4:] + [3600, 7200]), d=d)
                if bad:
                    q.update(rng.choice([dict(tokk=rng.choice(BADTOK)), dict(body=rng.choice(BADBODY)), dict(vch=rng.choice(VPOS), k=rng.randint(1, n)),
                                         dict(vch=rng.choice(VPOS), k=rng.randint(1, n)), dict(vch=rng.choice(VNOPOS), k=rng.randint(1, n)),
                                         dict(signer=rng.choice(["prev", "other", "mfg"])), dict(hash=rng.choice(["flip", "other", "trunc", "empty", "type"])),
                                         dict(sigk=rng.choice(["flip", "payload", "prot", "empty"])), dict(nonce=rng.choice(anys + [0])),
                                         dict(s=rng.choice(anys)), dict(rvaddr=rng.choice(["none", "firstnone", "secondnone", "ip", "two"])),
                                         dict(m="PUT"), dict(ct="none"), dict(vch="dropLast")]))
                    if n == 1 and q.get("vch") in ("dropLast", "dropFirst", "dropMid", "swap", "mfgSigner", "prevHashOld", "selfSigned"):
                        q["vch"] = "entrySig"
                    if n == 1 and q.get("signer") in ("mfg", "prev"):
                        q["signer"] = "other"
                    if "s" in q and "nonce" not in q:
                        q["nonce"] = q["s"]
            elif r < .68:
                q = h30(g)
                q["tokk"] = "none"
                if bad:
                    q.update(rng.choice([dict(g=0), dict(body=rng.choice(BADBODY)), dict(sgk=rng.choice(["invalid", "zero", "other", "rsa2048", "epid11"])),
                                         dict(m="GET"), dict(body="nearguid")]))
                q["maybe"] = True
            elif r < .93 and anys:
                s = rng.choice(s1 or anys)
                q = h32(s, g, d=d)
                if bad:
                    q.update(rng.choice([dict(tokk=rng.choice(BADTOK)), dict(body=rng.choice(BADBODY)), dict(signer=rng.choice(["otherkey", "ownerkey", "ca"])),
                                         dict(sigk=rng.choice(["flip", "empty", "zero", "long", "payload", "prot"])), dict(nonce=rng.choice(anys + [0, -1])),
                                         dict(s=rng.choice(anys)), dict(pay=rng.choice(["empty", "trunc", "garbage", "int"]))]))
                    if "s" in q and "nonce" not in q:
                        q["nonce"] = q["s"]
            elif r < .96 and anys:
                q = dict(op="expsess", s=rng.choice(anys))
            else:
                q = dict(op="expreg", g=g)
            ops.append(q)
        out.append((dict(id="rnd-%d" % t, comp="rv", cfg=dict(osg=osg, dsg=dsg, n=n), ops=ops)))
    return [fix_sessions(s) for s in out]


def fix_sessions(s):
    """Session numbers refer to sessions actually opened; whether a HelloRV opens
    one depends on the run, so keep a conservative count: the driver treats
    numbers that do not exist as unknown tokens, and so does the specification."""
    return s


def edits(rng, n):
    out = []
    for _ in range(n):
        out.append([rng.choice(["set", "xor", "xor", "del", "ins", "cut"]), rng.randrange(0, 4000),
                    rng.choice([0, 1, 0x20, 0x40, 0x60, 0x80, 0xa0, 0xc0, 0xd2, 0xf6, 0xf7, 0x5f, 0x9f, 0xff, rng.randrange(256)])])
    return out


def fuzzes(rng, count):
    out = []
    for t in range(count):
        ops = [h20(), h22(1, 1, 1), h30(1)]
        for _ in range(25):
            m = rng.choice([22, 32, 32, 30, 20])
            q = dict(op="fuzz", msg=m, g=1, s=1 if m == 22 else 2, blob=9, wait=60, edits=edits(rng, rng.randint(1, 3)), signer="dev" if m == 32 else "owner")
            if rng.random() < .7 and q["edits"]:
                q["edits"][0][1] = rng.randrange(0, 60)
            ops.append(q)
        out.append(dict(id="fuzz-%d" % t, comp="rv", cfg={}, ops=ops))
    return out


def pars(rng, count):
    out = []
    for t in range(count):
        ops = [h20(), h20(), h22(1, 1, 1), h30(1), h30(1)]
        sub, blob = [], 10
        for _ in range(rng.randint(3, 5)):
            r = rng.random()
            if r < .5:
                blob += 1
                sub.append(h22(rng.choice([1, 2]), rng.choice([1, 1, 2]), blob, rng.choice([60, 3600, 2592001]), nonce=None))
                sub[-1]["nonce"] = sub[-1]["s"]
                if rng.random() < .3:
                    sub[-1]["vch"], sub[-1]["k"] = "entrySig", 2
            else:
                sub.append(h32(rng.choice([3, 4]), 1))
                if rng.random() < .3:
                    sub[-1]["sigk"] = "flip"
        ops.append(dict(op="par", ops=sub))
        out.append(dict(id="par-%d" % t, comp="rv", cfg={}, ops=ops))
    return out


def boards(scripts):
    """Some servers report to an interop dashboard - one that works, one that does not, one that is not there.
    Some proofs state another identifier than that of the device."""
    rng = random.Random(SEED * 31 + 5)
    for i, s in enumerate(scripts):
        s["cfg"] = dict(s["cfg"], dash=["off", "on", "broken", "on", "off", "dead"][i % 6])
        for q in s["ops"]:
            if q["op"] == "h32" and rng.random() < .25:
                q["ueid"] = rng.choice(["other", "other", "rand", "zero"])
    return scripts


def run(R, focus):
    """focus: subset of {"model","cover","random","fuzz","par"}"""
    rng = random.Random(SEED * 7919 + 1)
    thorough = TIER == "thorough"
    R.model_check("MCRV.tla", "MCRV2t.cfg" if thorough else "MCRV2.cfg", name="MCRV two GUIDs")
    es = R.model_check("MCRV.tla", "MCRV.cfg", edges=True, name="MCRV all single defects")
    walks, info = vlib.cover(es, rng, 40000 if thorough else 3500, cls)
    info["suite"] = "rv"
    R.notes.append(info)
    sc = []
    for i, w in enumerate(walks):
        osg, dsg, n = CFGS[0] if i % 4 else CFGS[(i // 4) % 2]
        sc.append(dict(id="cov-%d" % i, comp="rv", cfg=dict(osg=osg, dsg=dsg, n=n), ops=w))
    scripts = directed() + sc + randoms(rng, 400 if thorough else 40, 60)
    if "fuzz" in focus:
        scripts += fuzzes(rng, 800 if thorough else 80)
    if "par" in focus:
        scripts += pars(rng, 600 if thorough else 60)
    R.replay("rv", "TraceRV.tla", boards(scripts))
