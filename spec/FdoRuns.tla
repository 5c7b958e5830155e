------------------------------ MODULE FdoRuns ------------------------------
(* What a conformance run of the tool against a server must record.

   A run goes through the listed tests of one protocol.  For every test it
   makes an attempt: it leads up to the message under test with well formed
   messages, then sends that message - well formed for a positive test, with
   the defect the test is named after for a negative one - and records a
   verdict.  The verdict is a function of what went over the wire:

     positive   passes iff every message of the attempt was answered as the
                protocol requires
     negative   passes iff everything up to the defective message was
                answered so, and the defective one with a protocol error

   An exchange is a record
     msg    message sent
     valid  the message was one that a conforming server accepts
     ans    "ok"   answered as required
            "err"  answered with a protocol error
            "bad"  anything else: nothing, garbage, an error marked success,
                   an answer that cannot be right
            "lie"  an answer that shows to be wrong only later in the attempt
     fin    (69) the owner declared its service information complete
     gen    the answer is the genuine one of the service under test *)
EXTENDS Naturals, Sequences, FiniteSets

T(id, msg, kind, grp) == [id |-> id, msg |-> msg, kind |-> kind, grp |-> grp]
All(ids, msg, grp) == [i \in 1..Len(ids) |-> T(ids[i][1], msg, ids[i][2], grp)]

N(x) == <<x, "neg">>
P(x) == <<x, "pos">>

To0Tests ==
  All(<<N("FIDO_RVT_20_BAD_ENCODING"), P("FIDO_RVT_20_POSITIVE"), P("FIDO_RVT_21_CHECK_RESP")>>, 20, 0)
  \o All(<<N("FIDO_RVT_22_BAD_TO0D_ENCODING"), N("FIDO_RVT_22_BAD_OWNERSIGN_ENCODING"), N("FIDO_RVT_22_BAD_SIGNATURE"),
           P("FIDO_RVT_23_CHECK_RESP"), N("FIDO_RVT_22_BAD_TO0D_HASH"), N("FIDO_RVT_22_BAD_TO0SIGN_NONCE"),
           N("FIDO_RVT_22_BAD_RENDEVOUZ_BLOB"), P("FIDO_RVT_23_POSITIVE"),
           N("FIDO_TEST_VOUCHER_HEADER_BAD_PROT_VERSION"), N("FIDO_TEST_VOUCHER_HEADER_BAD_RVINFO_EMPTY"),
           N("FIDO_TEST_VOUCHER_HEADER_BAD_DEVICEINFO_EMPTY"), N("FIDO_TEST_VOUCHER_HEADER_BAD_PUBKEY"),
           N("FIDO_TEST_VOUCHER_HEADER_BAD_CERTCHAIN_HASH"), N("FIDO_TEST_VOUCHER_BAD_HEADER_BYTES"),
           N("FIDO_TEST_VOUCHER_BAD_HDR_HMAC"), N("FIDO_TEST_VOUCHER_BAD_PROT_VERSION"), N("FIDO_TEST_VOUCHER_BAD_CHAIN"),
           N("FIDO_TEST_VOUCHER_ENTRY_BAD_PREV_HASH"), N("FIDO_TEST_VOUCHER_ENTRY_BAD_SIGNATURE"),
           N("FIDO_TEST_VOUCHER_ENTRY_BAD_PUBKEY")>>, 22, 0)

To1Tests ==
  All(<<N("FIDO_DEVT_30_BAD_ENCODING"), N("FIDO_DEVT_30_BAD_UNKNOWN_GUID"), N("FIDO_DEVT_30_BAD_SIGINFO"), P("FIDO_DEVT_30_POSITIVE")>>, 30, 1)
  \o All(<<N("FIDO_DEVT_32_BAD_PROVE_TO_RV_PAYLOAD_ENCODING"), N("FIDO_DEVT_32_BAD_ENCODING"), N("FIDO_DEVT_32_BAD_SIGNATURE"),
           N("FIDO_DEVT_32_BAD_TO1PROOF_NONCE"), P("FIDO_DEVT_33_POSITIVE")>>, 32, 1)

To2Tests ==
  All(<<N("FIDO_DOT_60_BAD_ENCODING"), P("FIDO_DOT_60_POSITIVE")>>, 60, 60)
  \o All(<<N("FIDO_DOT_62_BAD_ENCODING"), N("FIDO_DOT_62_GETOVNEXT_BAD_INDEX"), P("FIDO_DOT_62_POSITIVE")>>, 62, 62)
  \o All(<<N("FIDO_DOT_64_BAD_ENCODING"), N("FIDO_DOT_64_BAD_EAT_PAYLOAD"), N("FIDO_DOT_64_BAD_SIGNATURE"),
           N("FIDO_DOT_64_BAD_NONCE_PROVEDV61"), P("FIDO_DOT_64_POSITIVE")>>, 64, 64)
  \o All(<<N("FIDO_DOT_66_BAD_ENCODING"), N("FIDO_DOT_66_BAD_ENCRYPTION"), P("FIDO_DOT_66_POSITIVE")>>, 66, 66)
  \o All(<<N("FIDO_DOT_68_BAD_ENCODING"), N("FIDO_DOT_68_BAD_ENCRYPTION"), N("FIDO_DOT_68_BAD_COMPLETION_LOGIC"), P("FIDO_DOT_68_POSITIVE")>>, 68, 68)
  \o All(<<N("FIDO_DOT_70_BAD_ENCODING"), N("FIDO_DOT_70_BAD_ENCRYPTION"), N("FIDO_DOT_70_BAD_NONCE_PROVE_DV_61"), P("FIDO_DOT_70_POSITIVE")>>, 70, 70)

Tests(proto) == CASE proto = 0 -> To0Tests [] proto = 1 -> To1Tests [] OTHER -> To2Tests
Listed(proto) == {Tests(proto)[i].id : i \in 1..Len(Tests(proto))}
TestOf(proto, id) == LET ts == Tests(proto) IN ts[CHOOSE i \in 1..Len(ts) : ts[i].id = id]

Setup == "NULL_TO1_SETUP"

----------------------------------------------------------------------------
Count(att, m) == Cardinality({i \in 1..Len(att) : att[i].msg = m})
OkX(x) == x.valid /\ x.ans = "ok"
Prep(att) == SubSeq(att, 1, Len(att) - 1)
AllOk(att) == \A i \in 1..Len(att) : OkX(att[i])

\* the registration that precedes the TO1 tests
NoSetup(att) == LET k == CHOOSE k \in 0..Len(att) : /\ \A i \in 1..k : att[i].msg \in {20, 22}
                                                    /\ k < Len(att) => att[k + 1].msg \notin {20, 22}
                IN SubSeq(att, k + 1, Len(att))

\* the attempt has every step that the test needs (n: entries of the voucher)
Steps(proto, n, t, att) ==
  LET k == Len(att)
      a == NoSetup(att)
      ms == [i \in 1..Len(a) |-> a[i].msg]
  IN /\ k > 0
     /\ att[k].msg = t.msg
     /\ CASE proto = 0 -> [i \in 1..k |-> att[i].msg] = (IF t.msg = 20 THEN <<20>> ELSE <<20, 22>>)
          [] proto = 1 -> /\ k - Len(a) \in {0, 2}
                          /\ ms = (IF t.msg = 30 THEN <<30>> ELSE <<30, 32>>)
          [] OTHER ->
               /\ \A i \in 1..(k - 1) : att[i].msg <= att[i + 1].msg
               /\ att[1].msg = 60 /\ Count(att, 60) = 1
               /\ t.msg = 62 => n > 0 /\ (IF t.kind = "pos" THEN Count(att, 62) = n ELSE Count(att, 62) \in 1..n)
               /\ t.msg > 62 => n > 0 /\ Count(att, 62) = n
               /\ t.msg >= 64 => Count(att, 64) = 1
               /\ t.msg >= 66 => Count(att, 66) = 1
               /\ t.msg = 68 /\ t.kind = "pos" => att[k].fin
               /\ t.msg = 70 => Count(att, 70) = 1 /\ \E i \in 1..k : att[i].msg = 68 /\ att[i].fin

Good(t, att) == IF t.kind = "pos" THEN AllOk(att) ELSE AllOk(Prep(att)) /\ att[Len(att)].ans = "err"

\* what an answer that is wrong in a hidden way does to a test that does not get
\* as far as the place where it shows is nobody's business
Excused(t, att) == \/ t.msg = 60
                   \/ t.msg = 62 /\ t.kind = "neg"
Lies(att) == \E i \in 1..Len(att) : att[i].ans = "lie"

MustPass(proto, n, t, att) == /\ Steps(proto, n, t, att) /\ Good(t, att)
                              /\ t.kind = "neg" => ~att[Len(att)].valid
MustFail(proto, n, t, att) == /\ ~(Steps(proto, n, t, att) /\ Good(t, att))
                              /\ ~(Lies(att) /\ Excused(t, att))

Disturbed(att) == att = <<>> \/ \E i \in 1..Len(att) : ~att[i].gen \/ (att[i].valid /\ att[i].ans # "ok") \/ att[i].ans = "bad"

\* an attempt that met only genuine answers
Undisturbed(att) == att # <<>> /\ \A i \in 1..Len(att) : att[i].gen

----------------------------------------------------------------------------
(* The bookkeeping of runs. *)
NoRun == [inst |-> 0, proto |-> 0, verd |-> {}, att |-> <<>>, excuse |-> {}, over |-> FALSE, plain |-> FALSE]
NewRun(inst, proto, plain) == [NoRun EXCEPT !.inst = inst, !.proto = proto, !.plain = plain]

Ids(run) == {v.test : v \in run.verd}

\* a verdict was recorded
Record(run, n, test, passed) ==
  LET grp == IF test = Setup THEN 1 ELSE IF test \in Listed(run.proto) THEN TestOf(run.proto, test).grp ELSE 999
  IN [run EXCEPT !.verd = {v \in @ : v.test # test} \cup {[test |-> test, passed |-> passed]},
                 !.att = <<>>,
                 \* after this failure the rest of the group may be left out
                 !.excuse = IF ~passed /\ run.proto # 0 /\ (n = 0 \/ Disturbed(run.att)) THEN @ \cup {grp} ELSE @]

\* what may be wrong with a verdict
Verdict(run, n, test, passed) ==
  LET p == run.proto IN
  IF test \in Ids(run) THEN {"P13:rewritten"}
  ELSE IF test = Setup
       THEN IF p = 1 /\ ~passed /\ Disturbed(run.att) /\ ~(run.plain) THEN {} ELSE {"P13:setup"}
  ELSE IF test \notin Listed(p) THEN {"P13:unlisted"}
  ELSE LET t == TestOf(p, test) IN
       (IF passed /\ MustFail(p, n, t, run.att) THEN {"P13:false-pass"} ELSE {})
       \cup (IF ~passed /\ MustPass(p, n, t, run.att) THEN {"P13:false-fail"} ELSE {})
       \cup (IF n > 0 /\ ~passed /\ (Undisturbed(run.att) \/ run.plain) THEN {"P16:self-fail"} ELSE {})
       \cup (IF n > 0 /\ t.kind = "neg" /\ run.att # <<>> /\ run.att[Len(run.att)].gen /\ run.att[Len(run.att)].valid
                 /\ AllOk(Prep(run.att)) /\ run.att[Len(run.att)].msg = t.msg
             THEN {"P16:accepted"} ELSE {})

Missing(run) == {i \in 1..Len(Tests(run.proto)) : LET t == Tests(run.proto)[i] IN t.id \notin Ids(run) /\ t.grp \notin run.excuse}
=============================================================================
