----------------------------- MODULE FdoVoucher -----------------------------
(***************************************************************************)
(* Ownership vouchers as terms.                                            *)
(*                                                                         *)
(* A hash is the term it was computed over, a signature remembers the key  *)
(* and the payload it was made for, so a voucher is a nested value and the *)
(* chain of custody is a structural property of it.  `Apply` performs one  *)
(* editing step, honest or hostile; `Verdict` is what a validator has to   *)
(* say about the result:  "yes", "no", or "any" where it is left open.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

HonestKeys == {"k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7"}   \* k0 the manufacturer
Attacker   == "a"
BadKeys    == {"badenc", "badbody", "badtype"}                    \* not usable as keys

\* hashes: how they were altered, and of what they are
Hash(x) == [k |-> "ok", of |-> x]
HashIs(h, x) == h.k = "ok" /\ h.of = x

Header(guid) == [junk |-> FALSE, ver |-> 101, guid |-> guid, rv |-> 1, info |-> 1, pub |-> "k0", ch |-> [k |-> "ok", of |-> <<"chain", guid, "ok">>]]

\* what entry i commits to, and the information that ties it to the device
Before(v, i) == IF i = 1 THEN <<"hdr", v.hdr, v.hmac>> ELSE <<"ent", v.ents[i - 1]>>
HdrInfo(v)   == <<v.hdr.guid, v.hdr.info>>

Sign(p, by, n) == [pay |-> p, by |-> by, over |-> p, sk |-> "ok", n |-> n]

Extend(v, by, pub, n) ==
  LET m == Len(v.ents) + 1
      w == [v EXCEPT !.ents = Append(@, [pay |-> 0])]
  IN [v EXCEPT !.ents = Append(@, Sign([prev |-> Hash(Before(w, m)), hdr |-> Hash(HdrInfo(v)), pub |-> pub, x |-> 0, junk |-> FALSE], by, n))]

RECURSIVE Honest(_, _, _)
Honest(guid, m, n) ==
  IF m = 0 THEN [ver |-> 101, hdr |-> Header(guid), hmac |-> <<"hmac", guid>>, chain |-> <<"chain", guid, "ok">>, ents |-> <<>>]
  ELSE Extend(Honest(guid, m - 1, n), "k" \o ToString(m - 1), "k" \o ToString(m), 0)

\* ---- validity ----
SigOK(e, key) == e.sk = "ok" /\ e.over = e.pay /\ e.by = key
EntryOK(v, i) ==
  LET e == v.ents[i] IN
  /\ ~e.pay.junk
  /\ HashIs(e.pay.prev, Before(v, i))
  /\ HashIs(e.pay.hdr, HdrInfo(v))
  /\ SigOK(e, IF i = 1 THEN v.hdr.pub ELSE v.ents[i - 1].pay.pub)
EntriesOK(v) == ~v.hdr.junk /\ \A i \in 1..Len(v.ents) : EntryOK(v, i)

HeaderOK(v) ==
  /\ v.ver = 101 /\ ~v.hdr.junk /\ v.hdr.ver = 101 /\ v.hdr.rv # 0 /\ v.hdr.info # 0
  /\ v.chain # <<"none">>
  /\ v.hdr.ch.k = "ok" /\ v.hdr.ch.of = v.chain

\* Whether a last entry naming an unusable key is refused is left open.
Verdict(v) == IF ~HeaderOK(v) \/ ~EntriesOK(v) THEN "no"
              ELSE IF Len(v.ents) > 0 /\ v.ents[Len(v.ents)].pay.pub \in BadKeys THEN "any" ELSE "yes"
EntriesVerdict(v) == IF ~EntriesOK(v) THEN "no"
              ELSE IF Len(v.ents) > 0 /\ v.ents[Len(v.ents)].pay.pub \in BadKeys THEN "any" ELSE "yes"
FinalKey(v) == IF Len(v.ents) = 0 THEN "none" ELSE IF v.ents[Len(v.ents)].pay.junk THEN "none" ELSE v.ents[Len(v.ents)].pay.pub

\* ---- editing steps ----
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Has(v, i) == i \in 1..Len(v.ents)
SetPay(v, i, p) == [v EXCEPT !.ents[i].pay = p]
PayOf(v, i) == v.ents[i].pay

EditPay(v, q) ==
  LET i == q.k  p == PayOf(v, i) IN
  CASE q.f = "prev" /\ q.v = "fix" -> SetPay(v, i, [p EXCEPT !.prev = Hash(Before(v, i))])
    [] q.f = "prev" -> SetPay(v, i, [p EXCEPT !.prev.k = q.v])
    [] q.f = "hdr" /\ q.v = "fix" -> SetPay(v, i, [p EXCEPT !.hdr = Hash(HdrInfo(v))])
    [] q.f = "hdr" /\ q.v = "foreign" -> SetPay(v, i, [p EXCEPT !.hdr = Hash(<<9, 9>>)])
    [] q.f = "hdr" -> SetPay(v, i, [p EXCEPT !.hdr.k = q.v])
    [] q.f = "pub" -> SetPay(v, i, [p EXCEPT !.pub = q.v])
    [] q.f = "x" -> SetPay(v, i, [p EXCEPT !.x = 1])
    [] q.f = "junk" -> SetPay(v, i, [p EXCEPT !.junk = TRUE])
    [] OTHER -> v

EditHdr(v, q) ==
  LET h == v.hdr IN
  CASE q.f = "guid" -> [v EXCEPT !.hdr.guid = 7]
    [] q.f = "info" -> [v EXCEPT !.hdr.info = IF q.v = "empty" THEN 0 ELSE 2]
    [] q.f = "rv" -> [v EXCEPT !.hdr.rv = IF q.v = "empty" THEN 0 ELSE 2]
    [] q.f = "ver" -> [v EXCEPT !.hdr.ver = IF q.v = "100" THEN 100 ELSE 102]
    [] q.f = "pub" -> [v EXCEPT !.hdr.pub = q.v]
    [] q.f = "ch" /\ q.v = "fix" -> [v EXCEPT !.hdr.ch = [k |-> "ok", of |-> v.chain]]
    [] q.f = "ch" -> [v EXCEPT !.hdr.ch.k = q.v]
    [] q.f = "junk" -> [v EXCEPT !.hdr.junk = TRUE]
    [] OTHER -> v

Enabled(v, q) ==
  CASE q.op = "ext" -> Len(v.ents) < 6
    [] q.op \in {"drop", "dup", "sign", "sig", "pay"} -> Has(v, q.k) /\ (q.op = "pay" => ~PayOf(v, q.k).junk /\ (q.v = "fix" => ~v.hdr.junk))
    [] q.op = "swap" -> Has(v, q.k) /\ Has(v, q.k + 1)
    [] q.op = "splice" -> Has(v, q.k) /\ q.k <= 3
    [] q.op = "hdr" -> ~v.hdr.junk /\ (q.f = "ch" => v.chain # <<"none">>)
    [] q.op = "chain" -> v.chain # <<"none">> /\ v.chain[3] = "ok"   \* altered at most once
    [] OTHER -> TRUE

Apply(v, q, n) ==
  CASE q.op = "ext" -> IF v.hdr.junk THEN v ELSE Extend(v, q.by, q.v, n)
    [] q.op = "drop" -> [v EXCEPT !.ents = DropAt(@, q.k)]
    [] q.op = "dup" -> [v EXCEPT !.ents = SubSeq(@, 1, q.k) \o SubSeq(@, q.k, Len(@))]
    [] q.op = "swap" -> [v EXCEPT !.ents[q.k] = v.ents[q.k + 1], !.ents[q.k + 1] = v.ents[q.k]]
    [] q.op = "sign" -> [v EXCEPT !.ents[q.k] = Sign(v.ents[q.k].pay, q.by, n)]
    [] q.op = "sig" -> [v EXCEPT !.ents[q.k].sk = q.v]
    [] q.op = "pay" -> EditPay(v, q)
    [] q.op = "splice" -> [v EXCEPT !.ents[q.k] = Honest(2, 3, 0).ents[q.k]]
    [] q.op = "hdr" -> EditHdr(v, q)
    [] q.op = "hmac" -> [v EXCEPT !.hmac = <<"altered", q.v, @>>]
    [] q.op = "ver" -> [v EXCEPT !.ver = IF q.v = "100" THEN 100 ELSE 102]
    [] q.op = "chain" -> CASE q.v = "none" -> [v EXCEPT !.chain = <<"none">>]
                           [] q.v = "other" -> [v EXCEPT !.chain = <<"chain", 2, "ok">>]
                           [] OTHER -> [v EXCEPT !.chain[3] = q.v]
    [] OTHER -> v
=============================================================================
