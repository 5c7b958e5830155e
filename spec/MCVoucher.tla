----------------------------- MODULE MCVoucher -----------------------------
(* Every voucher reachable from honest ones by a bounded number of editing *)
(* steps.  With Hostile only the attacker's own key signs.                 *)
EXTENDS FdoVoucher, Json

CONSTANTS Bases, Steps, Hostile, Emit

VARIABLES v, base, path
vars == <<v, base, path>>

Q == [op |-> "none", k |-> 0, f |-> "", v |-> "", by |-> ""]
Keys == IF Hostile THEN {Attacker} ELSE {Attacker, "k0", "k1", "k2", "k3"}
Pos == 1..Len(v.ents)

Moves ==
  {[Q EXCEPT !.op = "ext", !.by = b, !.v = p] : b \in Keys, p \in {Attacker, "k" \o ToString(Len(v.ents) + 1)} \cup (IF Hostile THEN {} ELSE {"badtype"})}
  \cup {[Q EXCEPT !.op = o, !.k = i] : o \in {"drop", "dup", "swap", "splice"}, i \in Pos}
  \cup {[Q EXCEPT !.op = "sign", !.k = i, !.by = b] : i \in Pos, b \in Keys}
  \cup {[Q EXCEPT !.op = "sig", !.k = i, !.v = x] : i \in Pos, x \in {"flip", "empty", "trunc", "zero", "prot"}}
  \cup {[Q EXCEPT !.op = "pay", !.k = i, !.f = "prev", !.v = x] : i \in Pos, x \in {"flip", "trunc", "empty", "type", "fix"}}
  \cup {[Q EXCEPT !.op = "pay", !.k = i, !.f = "hdr", !.v = x] : i \in Pos, x \in {"flip", "trunc", "empty", "type", "fix", "foreign"}}
  \cup {[Q EXCEPT !.op = "pay", !.k = i, !.f = "pub", !.v = x] : i \in Pos, x \in {Attacker, "k1", "badenc", "badbody", "badtype"}}
  \cup {[Q EXCEPT !.op = "pay", !.k = i, !.f = x] : i \in Pos, x \in {"x", "junk"}}
  \cup {[Q EXCEPT !.op = "hdr", !.f = x] : x \in {"guid", "junk"}}
  \cup {[Q EXCEPT !.op = "hdr", !.f = "info", !.v = x] : x \in {"empty", "other"}}
  \cup {[Q EXCEPT !.op = "hdr", !.f = "rv", !.v = x] : x \in {"empty", "other"}}
  \cup {[Q EXCEPT !.op = "hdr", !.f = "ver", !.v = x] : x \in {"100", "102"}}
  \cup {[Q EXCEPT !.op = "hdr", !.f = "pub", !.v = x] : x \in {Attacker, "k1"}}
  \cup {[Q EXCEPT !.op = "hdr", !.f = "ch", !.v = x] : x \in {"flip", "trunc", "empty", "type", "nil", "fix"}}
  \cup {[Q EXCEPT !.op = "hmac", !.v = "flip"]}
  \cup {[Q EXCEPT !.op = "ver", !.v = x] : x \in {"100", "102"}}
  \cup {[Q EXCEPT !.op = "chain", !.v = x] : x \in {"none", "other", "empty", "drop", "order", "flip", "extra"}}

Init == /\ base \in Bases
        /\ v = Honest(1, base, 0)
        /\ path = <<>>

Edit == /\ Len(path) < Steps
        /\ \E q \in Moves :
             /\ Enabled(v, q)
             /\ v' = Apply(v, q, Len(path) + 1)
             /\ path' = Append(path, q)
             /\ (Emit => PrintT("PATH " \o ToJson([base |-> base, verdict |-> Verdict(v'), path |-> path'])))
        /\ UNCHANGED base

Next == Edit
Spec == Init /\ [][Next]_vars
View == <<v, base, Len(path)>>

(* ------------------------------ properties ------------------------------ *)
\* An attacker who owns no key of the chain gets no voucher for the genuine
\* header accepted other than a beginning of the genuine chain.
NoTheft == (Hostile /\ v.hdr = Header(1) /\ v.hmac = <<"hmac", 1>> /\ Verdict(v) # "no" /\ Len(v.ents) > 0) =>
              \/ (Len(v.ents) <= base /\ v.ents = SubSeq(Honest(1, base, 0).ents, 1, Len(v.ents)))

\* In an accepted voucher every entry was signed by the holder of the key before, for this very place.
Custody == Verdict(v) = "yes" =>
             \A i \in 1..Len(v.ents) :
                /\ v.ents[i].by = (IF i = 1 THEN v.hdr.pub ELSE v.ents[i - 1].pay.pub)
                /\ v.ents[i].over.prev.of = Before(v, i)
                /\ v.ents[i].over.hdr.of = HdrInfo(v)

\* Untouched vouchers and all their beginnings are accepted.
Complete == path = <<>> => Verdict(v) = "yes"
=============================================================================
