------------------------------ MODULE FdoClient ------------------------------
(***************************************************************************)
(* The client side of the three protocols: the owner registering with a    *)
(* rendezvous server (TO0), the device asking for its owner (TO1) and the   *)
(* device being onboarded (TO2).                                           *)
(*                                                                         *)
(* The server is the adversary: each answer is described by what is wrong   *)
(* with it.  `After(s, a)` is the client's state once answer a arrived;     *)
(* s.doom says whether the client may go on:                               *)
(*     "go"    it has to go on (every proof was given),                     *)
(*     "stop"  it has to give up with an error,                             *)
(*     "free"  left open.                                                   *)
(* Vouchers are the terms of FdoVoucher.                                    *)
(***************************************************************************)
EXTENDS FdoVoucher

\* what can be wrong with the delivery of any answer
FatalAny == {"fdoerr", "fdoerr200", "empty", "garbage", "cut", "trail", "other", "close", "short", "long", "map"}
\* a defect the protocol says nothing definite about
FreeAny  == {"status", "noauthz", "null", "ctype"}

FatalEnc == {"ct", "tag", "iv", "algraw", "noalg", "noiv", "shortiv", "longiv", "trunc", "emptyct", "encut", "extra", "retag", "plain",
             "otherkey", "nokey", "reflect", "suite", "shorttag", "emptytag", "longtag", "hash"}
FatalSig == {"sigflip", "sigempty", "sigzero", "siglong", "sigtrunc", "payload", "prot", "protkid"}

Fatal(m) ==
  FatalAny \cup
  CASE m = 61 -> FatalSig \cup {"echo", "hash", "hashshort", "hashempty", "hashother", "hashtype", "ebtype", "ebinfo", "nokey61", "null", "nonone61"}
    [] m = 63 -> {"idx"}
    [] m = 65 -> FatalEnc \cup FatalSig \cup {"nonce", "noncezero", "noncedv", "rvempty", "own2other", "null"}
    [] m = 67 -> FatalEnc \cup {"stale"}
    [] m = 69 -> FatalEnc
    [] m = 71 -> FatalEnc \cup {"stale", "nonce", "noncezero", "noncedv", "null"}
    [] OTHER -> {}
Free(m) ==
  FreeAny \cup
  CASE m = 31 -> {"ebtype", "ebinfo", "noncelen"}
    [] m = 33 -> {"payjunk", "rvempty"}
    [] m = 61 -> {"xajunk", "xashort", "noncelen"}
    [] m = 63 -> {"null"}
    [] m = 67 -> {"maxbig"}
    [] OTHER -> {}

First == [to0 |-> 20, to1 |-> 30, to2 |-> 60]
Start(flow) == [flow |-> flow, due |-> First[flow], doom |-> "go", v |-> Honest(1, 0, 0), key |-> "none", num |-> 0, got |-> <<>>,
                more |-> TRUE, redir |-> "none"]

GenuineHeader(v) == v.hdr = Header(1) /\ v.hmac = <<"hmac", 1>>

\* The delegation chain the device was shown: every entry in its place, ending
\* in the key that signed the opening answer.  With no entry at all the
\* manufacturer's own key is the only conceivable owner.
Shown(s) == [s.v EXCEPT !.ents = s.got]
ChainVerdict(s) ==
  IF s.num = 0 THEN (IF s.key = s.v.hdr.pub THEN "free" ELSE "stop")
  ELSE IF EntriesVerdict(Shown(s)) = "no" THEN "stop"
  ELSE IF FinalKey(Shown(s)) # s.key THEN "stop"
  ELSE "go"

Worse(a, b) == IF "stop" \in {a, b} THEN "stop" ELSE IF "free" \in {a, b} THEN "free" ELSE "go"
Judge1(m, d) == IF d \cap Fatal(m) # {} THEN "stop" ELSE IF d \cap Free(m) # {} THEN "free" ELSE "go"
Settle(s, doom) == [s EXCEPT !.doom = Worse(@, doom)]

\* after the last entry the chain is judged as a whole
ChainDone(s) == IF Len(s.got) < s.num THEN [s EXCEPT !.due = 62] ELSE Settle([s EXCEPT !.due = 64], ChainVerdict(s))

\* a: [msg, dev (set of defects), key, by, num, ent, idx, done]; q: the request it answers
After(s, q, a) ==
  LET m == a.msg
      t == Settle(s, Judge1(m, a.dev))
  IN
  IF t.doom = "stop" THEN t ELSE
  CASE m = 21 -> [t EXCEPT !.due = 22]
    [] m = 23 -> [t EXCEPT !.due = 0]
    [] m = 31 -> [t EXCEPT !.due = 32]
    [] m = 33 -> [t EXCEPT !.due = 0]
    [] m = 61 -> IF a.key \in BadKeys \/ a.by # a.key \/ ~GenuineHeader(s.v) THEN Settle(t, "stop")
                 ELSE ChainDone([t EXCEPT !.key = a.key, !.num = a.num])
    [] m = 63 -> ChainDone([t EXCEPT !.got = Append(@, a.ent)])
    [] m = 65 -> [t EXCEPT !.due = 66]
    [] m = 67 -> [t EXCEPT !.due = 68]
    [] m = 69 -> [t EXCEPT !.due = IF a.done /\ ~q.more THEN 70 ELSE 68, !.more = q.more]
    [] m = 71 -> [t EXCEPT !.due = 0]

\* The client may send request q now.
MaySend(s, q) == s.doom # "stop" /\ q.msg = s.due
\* The client may report success / failure now.
MaySucceed(s) == s.doom # "stop" /\ s.due = 0
\* An entry that does not fit may be noticed before the last one arrived.
MayFail(s) == s.doom # "go" \/ (s.due = 62 /\ Len(s.got) > 0 /\ EntriesVerdict(Shown(s)) # "yes")
=============================================================================
