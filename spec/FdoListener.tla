---------------------------- MODULE FdoListener ----------------------------
(* Testing a device: what the services do with the messages of a device under
   test, and what is recorded about it.

   A run goes through the tests of one protocol in a fixed order: for every
   message the defective answers one after another, then the ordinary answer
   (the positive test), then the same for the next message.  A test is
   delivered with the answer to the message it belongs to.

     defective answer   the device passes when it stops: the next message of
                        the kind being tested comes in some other session.  It
                        fails when anything further arrives in the session in
                        which the defect was delivered - and is then not
                        served any further with that message
     ordinary answer    the device passes with a message that is in order

   A message that is not in order, where a test would have been delivered,
   fails that test.  Messages that are not those of a known session, and
   messages of other kinds than the one being tested, are served as if no test
   was going on. *)
EXTENDS Naturals, Sequences, FiniteSets

Pos == "FIDO_LISTENER_POSITIVE"
Dev(x) == "FIDO_LISTENER_DEVICE_" \o x

\* defects: what must be wrong with the answer (one of need), what else may be
D(id, need, may) == [id |-> Dev(id), need |-> need, may |-> need \cup may]

Sig == {"sig", "unprot"}
\* entries and the last message carry no unprotected fields whose loss would be a defect
Defects(cmd) ==
  CASE cmd = 30 -> <<D("30_BAD_ENCODING", {"outer"}, {})>>
    [] cmd = 32 -> <<D("32_BAD_ENCODING", {"outer"}, {}), D("32_BAD_TO1D", {"sig"}, {"blob"})>>
    [] cmd = 60 -> <<D("60_BAD_OVHDR_OVHEADER", {"hdr"}, {}), D("60_BAD_NONCE_TO2PROVEOV", {"nonce"}, {}),
                     D("60_BAD_EBSIGNINFO", {"eb"}, {}), D("60_BAD_HELLODEVICEHASH", {"hash"}, {}),
                     D("60_BAD_COSE_SIGNATURE", Sig, {"payload"}), D("60_BAD_HELLOACK_PAYLOAD_ENCODING", {"payload"}, {}),
                     D("60_BAD_HELLOACK_ENCODING", {"outer"}, {}), D("60_MISSING_AUTHZ_HEADER", {"authz"}, {})>>
    [] cmd = 62 -> <<D("62_BAD_OVENTRY_COSE_SIGNATURE", {"sig"}, {"entry"}), D("62_BAD_OVNEXTENTRY_PAYLOAD", {"outer"}, {}),
                     D("62_BAD_OVENTRYNUM", {"num"}, {})>>
    [] cmd = 64 -> <<D("64_BAD_NONCE_TO2SETUPDV", {"nonce"}, {}), D("64_BAD_SETUPDEVICE_PAYLOAD", {"payload"}, {}),
                     D("64_BAD_SETUPDEVICE_COSE_SIGNATURE", {"sig"}, {"payload"}), D("64_BAD_SETUPDEVICE_BYTES", {"inner"}, {}),
                     D("64_BAD_ENC_WRAPPING", {"enc"}, {}), D("64_BAD_SETUPDEVICE_ENCODING", {"enc"}, {})>>
    [] cmd = 66 -> <<D("66_BAD_ENCODING", {"inner"}, {}), D("66_BAD_ENC_WRAPPING", {"enc"}, {})>>
    [] cmd = 68 -> <<D("68_BAD_ENCODING", {"inner"}, {}), D("68_BAD_ENC_WRAPPING", {"enc"}, {})>>
    [] cmd = 70 -> <<D("70_BAD_NONCE_TO2SETUPDV64", {"nonce"}, {}), D("70_BAD_DONE71_ENCODING", {"inner"}, {}),
                     D("70_BAD_ENC_WRAPPING", {"enc"}, {})>>

Of(cmd) == [i \in 1..(Len(Defects(cmd)) + 1) |->
             IF i <= Len(Defects(cmd)) THEN [cmd |-> cmd, id |-> Defects(cmd)[i].id, need |-> Defects(cmd)[i].need, may |-> Defects(cmd)[i].may]
             ELSE [cmd |-> cmd, id |-> Pos, need |-> {}, may |-> {}]]

Plan1 == Of(30) \o Of(32)
Plan2 == Of(60) \o Of(62) \o Of(64) \o Of(66) \o Of(68) \o Of(70)
Plan(p) == IF p = 1 THEN Plan1 ELSE Plan2
Negatives(p) == Cardinality({i \in 1..Len(Plan(p)) : Plan(p)[i].id # Pos})

----------------------------------------------------------------------------
\* r    the run that is going on, 0 for none
\* pos  the test that is delivered next
\* pend the test before it was delivered in session ps, and is not judged yet
\* verd the verdicts so far
Idle == [r |-> 0, pos |-> 1, pend |-> FALSE, ps |-> 0, verd |-> <<>>]
Started(r) == [Idle EXCEPT !.r = r]
V(p, i, ok) == [id |-> Plan(p)[i].id, passed |-> ok]

None == [cmd |-> 0, id |-> "", need |-> {}, may |-> {}]
Stop == [None EXCEPT !.id = "STOP"]

(* A message of command cmd in session s (a new one for the first message of a
   protocol); heard: it is a message of a session at all; valid: it is in order. *)
Receive(st, p, cmd, s, heard, valid) ==
  IF st.r = 0 \/ ~heard THEN [st |-> st, test |-> None, done |-> FALSE]
  ELSE IF st.pend /\ st.ps = s
       THEN [st |-> [st EXCEPT !.pend = FALSE, !.verd = Append(@, V(p, st.pos - 1, FALSE))], test |-> Stop, done |-> FALSE]
  ELSE IF cmd # Plan(p)[st.pos].cmd THEN [st |-> st, test |-> None, done |-> FALSE]
  ELSE LET t == Plan(p)[st.pos]
           v == IF st.pend THEN Append(st.verd, V(p, st.pos - 1, TRUE)) ELSE st.verd
           last == st.pos = Len(Plan(p))
       IN IF ~valid \/ t.id = Pos
          THEN [st |-> [st EXCEPT !.pos = @ + 1, !.pend = FALSE, !.ps = 0, !.verd = Append(v, V(p, st.pos, valid))], test |-> t, done |-> last]
          ELSE [st |-> [st EXCEPT !.pos = @ + 1, !.pend = TRUE, !.ps = s, !.verd = v], test |-> t, done |-> FALSE]

\* what the answer has to be: "ok" the ordinary one, "def" a defective one, "err" a refusal
Answer(test, valid) == IF test = Stop \/ ~valid THEN "err" ELSE IF test.id \in {"", Pos} THEN "ok" ELSE "def"

Wrong(test, valid, ans, defs) ==
  LET want == Answer(test, valid) IN
  IF ans # want
  THEN CASE ans = "def" /\ want = "ok" -> {"P12:spoilt"}
         [] ans = "ok" /\ want = "def" -> {"P12:not-delivered"}
         [] want = "err" /\ ans \in {"ok", "def"} -> {"P12:served"}
         [] OTHER -> {"P12:" \o ans}
  ELSE IF ans = "def" /\ ~(defs \cap test.need # {} /\ defs \subseteq test.may) THEN {"P12:other-defect"}
  ELSE {}

----------------------------------------------------------------------------
\* The record: the runs of one protocol of one device, newest first.
Rec(r, done, verd) == [r |-> r, done |-> done, tests |-> verd]
\* a run that is going on is shown with the others
Shown(st, hist) == IF st.r = 0 THEN hist ELSE <<Rec(st.r, FALSE, st.verd)>> \o hist
\* starting a run breaks off the one going on, which stays on record
Start(st, hist, r) == [st |-> Started(r), hist |-> Shown(st, hist)]
Finish(st, hist) == [st |-> Idle, hist |-> <<Rec(st.r, TRUE, st.verd)>> \o hist]
Remove(st, hist, r) == [st |-> IF st.r = r THEN Idle ELSE st, hist |-> SelectSeq(hist, LAMBDA x : x.r # r)]
=============================================================================
