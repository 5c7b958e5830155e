------------------------------ MODULE MCClient ------------------------------
(* Clients against every server: an honest owner whose answers are damaged  *)
(* on the way, and an impostor who has no key of the voucher.               *)
EXTENDS FdoClient, Json

CONSTANTS Flows, Bases, Edits, Impostor, EmitEdges, Devs

VARIABLES s, eds, base,
          kn,       \* ghost: who made the key exchange of the opening answer
          gk        \* ghost: the entries the device was given, by position
vars == <<s, eds, base, kn, gk>>

\* what identifies a state to the machinery that turns transitions into tests
Brief(x, e, g) == [b |-> base, e |-> e, g |-> g, flow |-> x.flow, due |-> x.due, doom |-> x.doom, key |-> x.key, num |-> x.num, more |-> x.more, ents |-> Len(x.v.ents)]

Q0 == [op |-> "none", k |-> 0, f |-> "", v |-> "", by |-> "", msg |-> 0, dev |-> {}, key |-> "final", num |-> -1, idx |-> 0, done |-> TRUE, more |-> FALSE]

Keys == IF Impostor THEN {Attacker} ELSE {Attacker, "k0", "k1", "k2", "k3"}
Pos == 1..Len(s.v.ents)
EditMoves ==
  {[Q0 EXCEPT !.op = "ext", !.by = b, !.v = p] : b \in Keys, p \in {Attacker, "k" \o ToString(Len(s.v.ents) + 1)}}
  \cup {[Q0 EXCEPT !.op = o, !.k = i] : o \in {"drop", "dup", "swap", "splice"}, i \in Pos}
  \cup {[Q0 EXCEPT !.op = "sign", !.k = i, !.by = b] : i \in Pos, b \in Keys}
  \cup {[Q0 EXCEPT !.op = "sig", !.k = i, !.v = x] : i \in Pos, x \in {"flip", "empty"}}
  \cup {[Q0 EXCEPT !.op = "pay", !.k = i, !.f = "prev", !.v = x] : i \in Pos, x \in {"flip", "type", "fix"}}
  \cup {[Q0 EXCEPT !.op = "pay", !.k = i, !.f = "hdr", !.v = x] : i \in Pos, x \in {"flip", "fix", "foreign"}}
  \cup {[Q0 EXCEPT !.op = "pay", !.k = i, !.f = "pub", !.v = x] : i \in Pos, x \in {Attacker, "k1", "badbody"}}
  \cup {[Q0 EXCEPT !.op = "pay", !.k = i, !.f = "junk"] : i \in Pos}
  \cup {[Q0 EXCEPT !.op = "hdr", !.f = x, !.v = "other"] : x \in {"guid", "info", "rv", "junk"}}
  \cup {[Q0 EXCEPT !.op = "hdr", !.f = "pub", !.v = x] : x \in {Attacker, "k1"}}
  \cup {[Q0 EXCEPT !.op = "hmac", !.v = x] : x \in {"flip", "empty", "trunc", "type"}}

\* defects an answer can have; an impostor can do all of these and more
Dev(m) == LET all == Fatal(m) \cup Free(m) IN {d \in all : Devs = {} \/ d \in Devs}
DevSets(m) == {{}} \cup {{d} : d \in Dev(m)}

Real(k) == IF k = "final" THEN FinalKey(s.v) ELSE k
\* the opening answer shows key k and is signed by b
Open61 == {[Q0 EXCEPT !.msg = 61, !.dev = d, !.key = "final", !.by = "final", !.num = Len(s.v.ents)] : d \in DevSets(61)}
          \cup {[Q0 EXCEPT !.msg = 61, !.key = k, !.by = b, !.num = n] : k \in {"a", "k1", "k2", "badenc", "final"}, b \in {"a", "k1", "k2", "final"},
                 n \in {0, Len(s.v.ents), Len(s.v.ents) - 1} \cap 0..9}
Ans ==
  CASE s.due = 20 -> {[Q0 EXCEPT !.msg = 21, !.dev = d] : d \in DevSets(21)}
    [] s.due = 22 -> {[Q0 EXCEPT !.msg = 23, !.dev = d] : d \in DevSets(23)}
    [] s.due = 30 -> {[Q0 EXCEPT !.msg = 31, !.dev = d] : d \in DevSets(31)}
    [] s.due = 32 -> {[Q0 EXCEPT !.msg = 33, !.dev = d] : d \in DevSets(33)}
    [] s.due = 60 -> Open61
    [] s.due = 62 -> {[Q0 EXCEPT !.msg = 63, !.dev = d, !.k = Len(s.got) + 1] : d \in DevSets(63)}
                     \cup {[Q0 EXCEPT !.msg = 63, !.k = i] : i \in Pos}
    [] s.due = 64 -> {[Q0 EXCEPT !.msg = 65, !.dev = d] : d \in DevSets(65)}
    [] s.due = 66 -> {[Q0 EXCEPT !.msg = 67, !.dev = d] : d \in DevSets(67)}
    [] s.due = 68 -> {[Q0 EXCEPT !.msg = 69, !.dev = d, !.more = b, !.done = ~b] : d \in DevSets(69), b \in BOOLEAN}
    [] s.due = 70 -> {[Q0 EXCEPT !.msg = 71, !.dev = d] : d \in DevSets(71)}
    [] OTHER -> {}

\* What the server sends is the entry as it stands in its voucher.
Concrete(a) == [msg |-> a.msg, dev |-> a.dev,
                key |-> Real(a.key), by |-> Real(a.by), num |-> a.num, ent |-> IF a.msg = 63 THEN (IF "null" \in a.dev THEN [pay |-> [junk |-> TRUE, pub |-> "none"]] ELSE s.v.ents[a.k]) ELSE <<>>, done |-> a.done]

\* An impostor signs the opening answer as itself, or passes on what an owner
\* who holds the keys would say; past the proof it can only produce answers
\* under the session key if it made the key exchange.
CanProduce(a) ==
  Impostor =>
    CASE a.msg = 61 -> Real(a.by) = Attacker \/ (Real(a.key) = FinalKey(Honest(1, base, 0)) /\ Real(a.by) = Real(a.key))
      [] a.msg \in {65, 67, 69, 71} -> kn = "impostor" \/ a.dev \cap (FatalAny \cup (FatalEnc \ {"suite"})) # {}
      [] OTHER -> TRUE

Init == /\ base \in Bases /\ eds = <<>> /\ kn = "none" /\ gk = <<>>
        /\ \E f \in Flows : s = [Start(f) EXCEPT !.v = Honest(1, base, 0)]

Edit == /\ s.flow = "to2" /\ s.due = 60 /\ s.doom = "go" /\ Len(eds) < Edits
        /\ \E q \in EditMoves :
             /\ Enabled(s.v, q)
             /\ s' = [s EXCEPT !.v = Apply(s.v, q, Len(eds) + 1)]
             /\ eds' = Append(eds, q)
             /\ (EmitEdges => PrintT("EDGE " \o ToJson([f |-> Brief(s, eds, gk), q |-> q, t |-> Brief(s', eds', gk)])))
        /\ UNCHANGED <<base, kn, gk>>

Answer == /\ s.due # 0 /\ s.doom # "stop"
          /\ \E a \in Ans :
               /\ (a.msg = 63 /\ "null" \notin a.dev => Has(s.v, a.k)) /\ (Real(a.key) # "none" \/ a.msg # 61) /\ (a.msg = 61 => a.num >= 0)
               /\ CanProduce(a)
               /\ s' = After(s, [more |-> a.more], Concrete(a))
               /\ gk' = IF a.msg = 63 THEN Append(gk, a.k) ELSE gk
               /\ kn' = IF a.msg = 61 THEN (IF Real(a.by) = Attacker THEN "impostor" ELSE "owner") ELSE kn
               /\ (EmitEdges => PrintT("EDGE " \o ToJson([f |-> Brief(s, eds, gk), q |-> a, t |-> Brief(s', eds, gk')])))
          /\ UNCHANGED <<eds, base>>

Next == Edit \/ Answer
Spec == Init /\ [][Next]_vars
\* states that differ only in how the voucher came about are the same
View == <<s, Len(eds), base, kn>>

(* ------------------------------ properties ------------------------------ *)
\* No impostor gets past the proof: no setup is ever accepted from anyone but
\* the holder of the key the genuine voucher ends in.
NoImpostor == (Impostor /\ s.flow = "to2" /\ s.doom = "go") => s.due \in {60, 62, 64}
\* ... and not even where the protocol leaves the reaction open
NoImpostorFree == (Impostor /\ s.flow = "to2" /\ s.doom # "stop" /\ base > 0) => s.due \in {60, 62, 64}
\* Whoever the device completes with showed a valid chain for this device's own header.
Completed == (s.flow = "to2" /\ s.due = 0 /\ s.doom = "go") =>
               /\ GenuineHeader(s.v) /\ s.num = Len(s.got) /\ s.num > 0
               /\ EntriesOK(Shown(s)) /\ FinalKey(Shown(s)) = s.key
=============================================================================
