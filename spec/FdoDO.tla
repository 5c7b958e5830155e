-------------------------------- MODULE FdoDO --------------------------------
(***************************************************************************)
(* The owner onboarding service: TO2 messages 60..71.                      *)
(*                                                                         *)
(* env   constants of one deployment: number of voucher entries and of     *)
(*       owner service information items per device, kind of owner key.    *)
(* sess  the protocol sessions, in order of opening; "rv" sessions belong  *)
(*       to the rendezvous protocols served from the same store.           *)
(*                                                                         *)
(* stage of an onboarding session = the last message sent in it.           *)
(* `Outcome` is the complete reaction to a request.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

SessionTTL == 600
Devices    == 1..3
Mandatory  == 1..9               \* the service information every device owes
Malformed  == 11..19             \* the same items with an unusable value

KnownKex   == {"cfg", "asym"}    \* key exchange names the service knows
KnownSig   == {"match", "other", "ec256", "ec384", "rsa2048", "rsa3072"}

KexWorks(k, env) == k = "cfg" \/ (k = "asym" /\ env.orsa)
SigFits(k, env)  == k \in {"match", env.dsg}

NewSession(q) == [p |-> "do", g |-> q.g, sig |-> q.sgk, kex |-> q.kex, cipher |-> q.cipher, stage |-> 61,
                  alive |-> TRUE, key |-> FALSE, have |-> {}, bad |-> FALSE, fin |-> FALSE, sent |-> 0]
RvSession == [p |-> "rv", g |-> 0, sig |-> "", kex |-> "", cipher |-> "", stage |-> 0,
              alive |-> TRUE, key |-> FALSE, have |-> {}, bad |-> FALSE, fin |-> FALSE, sent |-> 0]

Range(s) == {s[i] : i \in 1..Len(s)}

GateOK(q)  == q.m = "POST" /\ q.ct = "ok"
BodyOK(q)  == q.body = "ok"
TokOK(sess, q) == q.tokk = "sess" /\ q.s \in 1..Len(sess) /\ sess[q.s].alive
SessOK(sess, q) == TokOK(sess, q) /\ sess[q.s].p = "do"
\* encrypted by the session's own key, unaltered
EncOK(sess, q) == sess[q.s].key /\ q.enc = "ok" /\ q.ks = q.s

\* stages at which a message is due
Due(op) == CASE op = "h62" -> {61, 63}
             [] op = "h64" -> {63}
             [] op = "h66" -> {65}
             [] op = "h68" -> {67, 69}
             [] op = "h70" -> {69}
             [] OTHER -> {}
InStage(sess, q) == sess[q.s].stage \in Due(q.op) /\ (q.op = "h68" => ~sess[q.s].fin) /\ (q.op = "h70" => sess[q.s].fin)

ProofOK(sess, q, env) ==
  LET s == sess[q.s] IN
  /\ q.pay = "ok" /\ q.signer = "dev" /\ q.sigk = "ok"
  /\ q.d \in {0, s.g}                       \* the device of the voucher
  /\ SigFits(s.sig, env)
  /\ q.nonce = q.s
  /\ q.euph = "ok"
  /\ KexWorks(s.kex, env) /\ q.xb = "ok" /\ s.cipher = "cfg"

Have(s, q) == s.have \cup (Range(q.sims) \cap Mandatory) \cup {x - 10 : x \in Range(q.sims) \cap Malformed}
Bad(s, q)  == s.bad \/ Range(q.sims) \cap Malformed # {}
SimsOK(s, q) == q.more \/ s.sent > 0 \/ (Have(s, q) = Mandatory /\ ~Bad(s, q))

Accept(sess, q, env) ==
  CASE q.op = "rv20" -> GateOK(q)
    [] q.op = "h60" -> GateOK(q) /\ BodyOK(q) /\ q.kex \in KnownKex /\ q.sgk \in KnownSig /\ q.g \in Devices
    [] q.op = "h62" -> GateOK(q) /\ SessOK(sess, q) /\ BodyOK(q) /\ InStage(sess, q)
                       /\ q.idx \in 0..(env.nent[sess[q.s].g] - 1)
    [] q.op = "h64" -> GateOK(q) /\ SessOK(sess, q) /\ BodyOK(q) /\ InStage(sess, q) /\ ProofOK(sess, q, env)
    [] q.op = "h66" -> GateOK(q) /\ SessOK(sess, q) /\ BodyOK(q) /\ InStage(sess, q) /\ EncOK(sess, q) /\ q.pay = "ok"
    [] q.op = "h68" -> GateOK(q) /\ SessOK(sess, q) /\ BodyOK(q) /\ InStage(sess, q) /\ EncOK(sess, q) /\ q.pay = "ok"
                       /\ SimsOK(sess[q.s], q)
    [] q.op = "h70" -> GateOK(q) /\ SessOK(sess, q) /\ BodyOK(q) /\ InStage(sess, q) /\ EncOK(sess, q) /\ q.pay = "ok"
                       /\ q.nonce = q.s
    [] q.op = "expsess" -> TRUE
    [] OTHER -> FALSE            \* x22, x32: an onboarding token at the rendezvous service

None == [items |-> <<>>, done |-> FALSE, more |-> FALSE]

Outcome(sess, q, env) ==
  IF ~Accept(sess, q, env) THEN [ok |-> FALSE, sess |-> sess, r |-> None]
  ELSE CASE q.op = "rv20" -> [ok |-> TRUE, sess |-> Append(sess, RvSession), r |-> None]
         [] q.op = "h60" -> [ok |-> TRUE, sess |-> Append(sess, NewSession(q)), r |-> None]
         [] q.op = "h62" -> [ok |-> TRUE, sess |-> [sess EXCEPT ![q.s].stage = 63], r |-> None]
         [] q.op = "h64" -> [ok |-> TRUE, sess |-> [sess EXCEPT ![q.s].stage = 65, ![q.s].key = TRUE], r |-> None]
         [] q.op = "h66" -> [ok |-> TRUE, sess |-> [sess EXCEPT ![q.s].stage = 67], r |-> None]
         [] q.op = "h68" ->
              LET s == sess[q.s]
                  n == env.nown[s.g]
                  t == [s EXCEPT !.stage = 69, !.have = Have(s, q), !.bad = Bad(s, q)]
                  last == s.sent + 1 >= n
              IN IF q.more THEN [ok |-> TRUE, sess |-> [sess EXCEPT ![q.s] = t], r |-> None]
                 ELSE [ok |-> TRUE, sess |-> [sess EXCEPT ![q.s] = [t EXCEPT !.sent = s.sent + 1, !.fin = last]],
                       r |-> [items |-> IF s.sent + 1 <= n THEN <<s.sent + 1>> ELSE <<>>, done |-> last, more |-> ~last]]
         [] q.op = "h70" -> [ok |-> TRUE, sess |-> sess, r |-> None]
         [] OTHER -> [ok |-> TRUE, r |-> None,
                      sess |-> IF q.s \in 1..Len(sess) THEN [sess EXCEPT ![q.s].alive = FALSE] ELSE sess]

(* ---- the interop dashboard ----
   What it is told about a message: completed TO2 (2) runs. *)
Reports(sess, q, ok) ==
  IF ok /\ q.op = "h70" THEN <<[by |-> "do", well |-> TRUE, p |-> 2, g |-> sess[q.s].g, nc |-> q.s]>> ELSE <<>>

(* ---- the end of the process ----
   The next process finds all of the interrupted message or nothing of it; a
   session nobody was told of is no session. *)
AfterCrash(sess, q, env) == {sess} \cup (IF q.op \in {"h60", "rv20"} THEN {} ELSE {Outcome(sess, q, env).sess})

(* ---- what every answer has to prove (observed by the driver) ---- *)
Facts(op) ==
  CASE op = "rv20" -> {"token"}
    [] op = "h60" -> {"token", "cose", "ownersig", "noncefresh", "ownerkey", "header", "count", "hmac", "nonce", "siginfo", "xa", "hellohash"}
    [] op = "h62" -> {"token", "num", "entry"}
    [] op = "h64" -> {"token", "hidden", "decrypts", "ivfresh", "ownersig", "nonce", "guid", "rvinfo", "ownerkey"}
    [] op = "h66" -> {"token", "hidden", "decrypts", "ivfresh", "size"}
    [] op = "h68" -> {"token", "hidden", "decrypts", "ivfresh", "shape"}
    [] op = "h70" -> {"token", "hidden", "decrypts", "ivfresh", "nonce"}
    [] OTHER -> {}
=============================================================================
