-------------------------------- MODULE FdoRV --------------------------------
(***************************************************************************)
(* The Rendezvous server: TO0 (Hello20, OwnerSign22) and TO1 (HelloRV30,   *)
(* ProveToRV32).                                                           *)
(*                                                                         *)
(* State: what is registered per device GUID, and the protocol sessions.   *)
(* A request is a record; `Outcome` is the complete reaction of the server *)
(* to it (accept or refuse, new state, content of the reply).  Both the    *)
(* exploration model (MCRV) and the trace monitor (TraceRV) use it.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

MaxWait    == 2592000          \* thirty days, the longest lifetime granted
SessionTTL == 600              \* ten minutes
Guids      == 1..3

NoReg == [blob |-> 0, dev |-> 0, wait |-> 0]

Min(a, b) == IF a < b THEN a ELSE b

\* Kinds of voucher presented that a rendezvous server has to accept: the
\* untouched one, and one whose last hand-over is missing (a valid voucher of
\* the previous owner).
ValidVouchers == {"ok", "dropLast"}
GoodAddr      == {"ok", "ip", "two"}
KnownSig      == {"match", "other", "ec256", "ec384", "rsa2048", "rsa3072", "epid10", "epid11"}

GateOK(q) == q.m = "POST" /\ q.ct = "ok"
SessOK(sess, q, kind) ==
  /\ q.tokk = "sess"
  /\ q.s \in 1..Len(sess)
  /\ sess[q.s].alive
  /\ sess[q.s].kind = kind

\* ---- acceptance conditions ----
Accept20(q) == GateOK(q) /\ q.body = "ok"

Accept22(sess, q) ==
  /\ GateOK(q)
  /\ SessOK(sess, q, "to0")
  /\ q.body = "ok" /\ q.to0d = "ok" /\ q.pay = "ok"
  /\ q.rvaddr \in GoodAddr              \* every address usable
  /\ q.nonce = q.s                      \* the nonce of this very session
  /\ q.vch \in ValidVouchers            \* delegation chain intact
  /\ q.signer = "owner"                 \* blob signed by the final owner
  /\ q.sigk = "ok" /\ q.hash = "ok"     \* signature and to0d hash verify

Accept30(reg, q) ==
  /\ GateOK(q)
  /\ q.body = "ok"
  /\ q.sgk \in KnownSig
  /\ q.g \in Guids
  /\ reg[q.g].blob # 0

Accept32(reg, sess, q, dsg) ==
  /\ GateOK(q)
  /\ SessOK(sess, q, "to1")
  /\ q.body = "ok" /\ q.pay = "ok"
  /\ q.nonce = q.s
  /\ LET r == reg[sess[q.s].g] IN
       /\ r.blob # 0
       /\ q.signer = "dev" /\ q.sigk = "ok"
       /\ q.d = r.dev                       \* the key in the registered voucher
       /\ sess[q.s].sg \in {"match", dsg}   \* announced type fits the key

Accept(reg, sess, q, dsg) ==
  CASE q.op = "h20" -> Accept20(q)
    [] q.op = "h22" -> Accept22(sess, q)
    [] q.op = "h30" -> Accept30(reg, q)
    [] q.op = "h32" -> Accept32(reg, sess, q, dsg)
    [] OTHER -> TRUE

\* ---- transition function ----
Outcome(reg, sess, q, dsg) ==
  LET ok == Accept(reg, sess, q, dsg)
      w  == Min(q.wait, MaxWait)
  IN
  CASE q.op = "h20" /\ ok ->
         [ok |-> TRUE, reg |-> reg, blob |-> 0, wait |-> 0,
          sess |-> Append(sess, [kind |-> "to0", g |-> 0, sg |-> "none", alive |-> TRUE])]
    [] q.op = "h22" /\ ok ->
         [ok |-> TRUE, sess |-> sess, blob |-> 0, wait |-> w,
          reg |-> [reg EXCEPT ![q.g] = IF w = 0 THEN NoReg
                                       ELSE [blob |-> q.blob, dev |-> q.d, wait |-> w]]]
    [] q.op = "h30" /\ ok ->
         [ok |-> TRUE, reg |-> reg, blob |-> 0, wait |-> 0,
          sess |-> Append(sess, [kind |-> "to1", g |-> q.g, sg |-> q.sgk, alive |-> TRUE])]
    [] q.op = "h32" /\ ok ->
         [ok |-> TRUE, reg |-> reg, sess |-> sess, wait |-> 0, blob |-> reg[sess[q.s].g].blob]
    [] q.op = "expsess" ->
         [ok |-> TRUE, reg |-> reg, blob |-> 0, wait |-> 0,
          sess |-> IF q.s \in 1..Len(sess) THEN [sess EXCEPT ![q.s].alive = FALSE] ELSE sess]
    [] q.op = "expreg" ->
         [ok |-> TRUE, sess |-> sess, blob |-> 0, wait |-> 0, reg |-> [reg EXCEPT ![q.g] = NoReg]]
    [] OTHER ->
         [ok |-> FALSE, reg |-> reg, sess |-> sess, blob |-> 0, wait |-> 0]

\* ---- the interop dashboard ----
\* What it is told about a request: completed TO0 (0) and TO1 (1) runs.
Reports(sess, q, ok) ==
  CASE ok /\ q.op = "h22" -> <<[by |-> "rv", well |-> TRUE, p |-> 0, g |-> q.g, nc |-> q.s]>>
    [] ok /\ q.op = "h32" -> <<[by |-> "rv", well |-> TRUE, p |-> 1, g |-> sess[q.s].g, nc |-> q.s]>>
    [] OTHER -> <<>>

\* ---- the end of the process ----
\* What the next process may find when the last one ended while it handled q:
\* all of it or nothing of it.  (A session nobody was told of is no session.)
AfterCrash(reg, sess, q, dsg) == {reg, Outcome(reg, sess, q, dsg).reg}
=============================================================================
