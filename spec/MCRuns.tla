------------------------------- MODULE MCRuns -------------------------------
(* A conformance runner against an arbitrary server.  The runner follows its
   programme; the server answers every message as it likes.  Checked: whatever
   it answers, every verdict is the one FdoRuns demands, no listed test is left
   out without one of its group having failed, and the run ends.  The
   transitions are replayed into the real runner. *)
EXTENDS FdoRuns, TLC, Json

CONSTANTS Proto,      \* 0, 1, 2
          Entries,    \* entries of the voucher
          EmitEdges,
          Slip        \* "" or a mistake of the runner that must be noticed

VARIABLES ti, att, set, done, last, run
vars == <<ti, att, set, done, last, run>>

Ts == Tests(Proto)
None == [t |-> 0, att |-> <<>>, passed |-> FALSE]

Init == /\ ti = 1 /\ att = <<>> /\ set = (Proto # 1) /\ done = FALSE /\ last = None
        /\ run = [fails |-> FALSE, excuse |-> {}, left |-> {}]

cur == Ts[ti]

\* the messages the runner may send next; a defective one is <<m, FALSE>>
Own == IF cur.kind = "neg" THEN {<<cur.msg, FALSE>>} ELSE {<<cur.msg, TRUE>>}
Due ==
  IF ~set THEN (IF att = <<>> THEN {<<20, TRUE>>} ELSE {<<22, TRUE>>})
  ELSE CASE Proto = 0 -> IF cur.msg = 22 /\ att = <<>> THEN {<<20, TRUE>>} ELSE Own
         [] Proto = 1 -> IF cur.msg = 32 /\ NoSetup(att) = <<>> THEN {<<30, TRUE>>} ELSE Own
         [] OTHER ->
              LET c(m) == Count(att, m) IN
              IF c(60) = 0 THEN (IF cur.msg = 60 THEN Own ELSE {<<60, TRUE>>})
              ELSE IF cur.msg = 62 THEN (IF cur.kind = "neg" THEN Own \cup (IF c(62) < Entries - 1 THEN {<<62, TRUE>>} ELSE {}) ELSE Own)
              ELSE IF c(62) < Entries THEN {<<62, TRUE>>}
              ELSE IF c(64) = 0 THEN (IF cur.msg = 64 THEN Own ELSE {<<64, TRUE>>})
              ELSE IF c(66) = 0 THEN (IF cur.msg = 66 THEN Own ELSE {<<66, TRUE>>})
              ELSE IF cur.msg = 68 THEN (IF cur.kind = "neg" /\ c(68) = 0 THEN Own \cup {<<68, TRUE>>} ELSE Own)
              ELSE IF c(68) < 2 THEN {<<68, TRUE>>} ELSE Own

Kinds(m, valid) ==
  {"gen", "err4", "err5", "err200", "junk", "other", "empty", "plain500", "plain400", "null", "errjunk", "drop"}
  \cup (IF ~valid THEN {"ok"} ELSE {})
  \cup (IF valid /\ m = 60 THEN {"num0", "numless", "nummore", "nonce", "sig"} ELSE {})
  \cup (IF valid /\ m = 62 THEN {"idx", "entry"} ELSE {})
  \cup (IF valid /\ m >= 64 THEN {"flip", "otherkey", "shape"} ELSE {})
  \cup (IF valid /\ m = 68 THEN {"never"} ELSE {})
  \cup (IF valid /\ m = 70 THEN {"nonce"} ELSE {})
Class(k, valid) ==
  CASE k = "gen" -> IF valid THEN "ok" ELSE "err"
    [] k \in {"err4", "err5"} -> "err"
    [] k = "ok" -> "ok"
    [] k = "never" -> "ok"
    [] k \in {"num0", "numless", "nummore", "idx", "entry"} -> "lie"
    [] OTHER -> "bad"

\* what the runner makes of the attempt so far: it goes on, or it records a verdict
Outcome(a, m, valid) ==
  LET x == a[Len(a)] IN
  IF ~valid THEN (IF Slip = "anyerror" THEN (IF x.ans # "ok" THEN "pass" ELSE "fail") ELSE IF x.ans = "err" THEN "pass" ELSE "fail")
  ELSE IF x.ans \in {"err", "bad"} /\ ~(Slip = "blind" /\ cur.kind = "pos" /\ m = cur.msg) THEN "fail"
  ELSE IF Lies(a) /\ ~Excused(cur, a) /\ (Count(a, 62) >= Entries) THEN "fail"
  ELSE IF m = 68 /\ x.kind = "never" THEN "fail"
  ELSE IF m # cur.msg THEN "go"
  ELSE IF cur.kind = "neg" THEN "go"
  ELSE IF m = 62 THEN (IF Count(a, 62) = Entries THEN "pass" ELSE "go")
  ELSE IF m = 68 THEN (IF x.fin THEN "pass" ELSE "go")
  ELSE "pass"

\* the rest of a group is left out after some failures
NextTest(o, valid, m) ==
  IF o = "fail" /\ (CASE Proto = 0 -> FALSE
                      [] Proto = 1 -> ~set \/ cur.kind = "pos"
                      [] OTHER -> valid)
  THEN {k \in (ti + 1)..Len(Ts) : Ts[k].grp # cur.grp}
  ELSE (ti + 1)..Len(Ts)

Strip(a) == [i \in 1..Len(a) |-> [msg |-> a[i].msg, valid |-> a[i].valid, ans |-> a[i].ans, fin |-> a[i].fin, gen |-> a[i].gen]]

Edge(q) == EmitEdges => PrintT("EDGE " \o ToJson([f |-> [ti |-> ti, g |-> cur.grp, a |-> att, set |-> set, d |-> done],
                                                  q |-> q, t |-> [ti |-> ti', g |-> Ts[ti'].grp, a |-> att', set |-> set', d |-> done']]))

Step == /\ ~done
        /\ \E mv \in Due : \E k \in Kinds(mv[1], mv[2]) :
             LET m == mv[1]  valid == mv[2]
                 x == [msg |-> m, valid |-> valid, ans |-> Class(k, valid), kind |-> k, gen |-> k = "gen",
                       fin |-> m = 68 /\ valid /\ Count(att, 68) = 1 /\ k = "gen"]
                 a == Append(att, x)
                 o == IF ~set THEN (IF OkX(x) THEN "go" ELSE "fail") ELSE Outcome(a, m, valid)
             IN /\ IF o = "go"
                   THEN /\ att' = a /\ set' = (set \/ m = 22) /\ last' = None /\ UNCHANGED <<ti, done, run>>
                   ELSE LET rest == NextTest(o, valid, m) IN
                        /\ last' = IF ~set THEN None ELSE [t |-> ti, att |-> Strip(a), passed |-> o = "pass"]
                        /\ run' = [fails |-> run.fails \/ o = "fail",
                                   excuse |-> IF o = "fail" /\ Proto # 0 /\ Disturbed(a) THEN run.excuse \cup {IF set THEN cur.grp ELSE 1} ELSE run.excuse,
                                   left |-> run.left \cup {Ts[i].grp : i \in {i \in (IF set THEN ti + 1 ELSE 1)..Len(Ts) : i \notin rest /\ \A j \in rest : j > i}}
                                            \cup (IF Slip = "skip" /\ rest = {} THEN {cur.grp} ELSE {})]
                        /\ att' = <<>> /\ set' = set
                        /\ IF rest = {} THEN done' = TRUE /\ ti' = ti
                           ELSE done' = FALSE /\ ti' = CHOOSE i \in rest : \A j \in rest : i <= j
                /\ Edge([m |-> m, v |-> valid, k |-> k, no |-> Count(a, m), fin |-> m = 68 /\ valid /\ Count(att, 68) = 1, o |-> o])

End == done /\ UNCHANGED vars
Next == Step \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

----------------------------------------------------------------------------
TrueVerdict == last.t # 0 =>
  LET t == Ts[last.t] IN
  /\ last.passed => ~MustFail(Proto, Entries, t, last.att)
  /\ ~last.passed => ~MustPass(Proto, Entries, t, last.att)

\* the two halves of the definition never contradict one another
Sane == last.t # 0 => LET t == Ts[last.t] IN ~(MustPass(Proto, Entries, t, last.att) /\ MustFail(Proto, Entries, t, last.att))

\* an undisturbed attempt passes
Fair == last.t # 0 /\ Undisturbed(last.att) => last.passed

\* nothing is left out unless a test of the group failed for a reason
NothingLost == done => run.left \subseteq run.excuse
Ends == <>done

\* for emitting transitions: what is left out depends on nothing else
View == <<ti, att, set, done>>
=============================================================================
