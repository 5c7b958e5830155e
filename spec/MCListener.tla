----------------------------- MODULE MCListener -----------------------------
(* All behaviours of a device under test in one protocol: it opens sessions,
   sends what is due, something spoilt, something too early, carries on after a
   defect or stops, in any order over several sessions, while runs are started,
   broken off and removed. *)
EXTENDS FdoListener, TLC, Json

CONSTANTS P, Slots, MaxRuns, EmitEdges, Slip

VARIABLES st, hist, sess, nrun, ghost, step
vars == <<st, hist, sess, nrun, ghost, step>>

First == IF P = 1 THEN 30 ELSE 60
After(c) == CASE c = 30 -> 32 [] c = 32 -> 32 [] c = 60 -> 62 [] c = 62 -> 64 [] c = 64 -> 66 [] c = 66 -> 68 [] c = 68 -> 70 [] OTHER -> 70
Cmds == IF P = 1 THEN {32} ELSE {62, 64, 66, 68, 70}

NoSess == [due |-> 0, ref |-> 0]
\* what really happened to the test delivered last, kept apart from the verdicts
NoGhost == [t |-> 0, ref |-> 0, more |-> FALSE]

Init == /\ st = Idle /\ hist = <<>> /\ sess = [k \in 1..Slots |-> NoSess] /\ nrun = 0
        /\ ghost = NoGhost /\ step = [verd |-> <<>>, truth |-> <<>>]

\* sessions are told apart by the slot they are in and whether it was reused
Ref(k) == k
Reuse(k) == IF st.ps = k THEN [st EXCEPT !.ps = 0] ELSE st

Edge(q) == EmitEdges => PrintT("EDGE " \o ToJson(
   [f |-> [pos |-> st.pos, on |-> st.r # 0, pend |-> st.pend, ps |-> st.ps, s |-> [k \in 1..Slots |-> sess[k].due], n |-> nrun],
    q |-> q,
    t |-> [pos |-> st'.pos, on |-> st'.r # 0, pend |-> st'.pend, ps |-> st'.ps, s |-> [k \in 1..Slots |-> sess'[k].due], n |-> nrun']]))

Slipped(x, cmd) ==
  CASE Slip = "blind" -> [x EXCEPT !.st.verd = [i \in 1..Len(@) |-> [@[i] EXCEPT !.passed = TRUE]]]
    [] Slip = "twice" /\ x.test.id = Pos -> [x EXCEPT !.st.pos = @ - 1]
    [] Slip = "early" /\ cmd = 68 /\ x.test.id = Pos -> [x EXCEPT !.done = TRUE]
    [] OTHER -> x

Take(k, cmd, heard, valid, s0, q) ==
  LET x == Slipped(Receive(s0, P, cmd, IF cmd = First THEN 99 ELSE k, heard, valid), cmd)
      y == IF x.st.pend /\ x.st.ps = 99 THEN [x EXCEPT !.st.ps = k] ELSE x
      f == Finish(y.st, hist)
      ans == Answer(y.test, valid)
      new == SubSeq(y.st.verd, Len(s0.verd) + 1, Len(y.st.verd))
      \* the truth about the test that was open before this message
      carried == ghost.t # 0 /\ heard /\ cmd # First /\ ghost.ref = k
      settled == ghost.t # 0 /\ (carried \/ (heard /\ cmd = Plan(P)[s0.pos].cmd))
      own == s0.r # 0 /\ heard /\ ~carried /\ cmd = Plan(P)[s0.pos].cmd
      truth == (IF settled THEN <<[t |-> ghost.t, ok |-> ~carried]>> ELSE <<>>)
               \o (IF own /\ (~valid \/ Plan(P)[s0.pos].id = Pos) THEN <<[t |-> s0.pos, ok |-> valid]>> ELSE <<>>)
  IN /\ st' = IF y.done THEN f.st ELSE y.st
     /\ hist' = IF y.done THEN f.hist ELSE hist
     /\ step' = [verd |-> [i \in 1..Len(new) |-> new[i]], truth |-> truth]
     /\ ghost' = IF own /\ valid /\ Plan(P)[s0.pos].id # Pos THEN [t |-> s0.pos, ref |-> k, more |-> FALSE]
                 ELSE IF settled THEN NoGhost
                 ELSE IF cmd = First /\ ghost.ref = k THEN [ghost EXCEPT !.ref = 0] ELSE ghost
     /\ sess' = [sess EXCEPT ![k] = IF cmd = First THEN [due |-> IF y.test.id = Dev("60_MISSING_AUTHZ_HEADER") THEN 0 ELSE After(cmd), ref |-> k]
                                    ELSE IF ans # "err" /\ sess[k].due = cmd THEN [@ EXCEPT !.due = After(cmd)] ELSE @]
     /\ UNCHANGED nrun
     /\ Edge(q)

Hello(k) == /\ \/ sess[k].due = 0
               \/ \A j \in 1..Slots : sess[j].due # 0
            /\ Take(k, First, TRUE, TRUE, Reuse(k), [o |-> "hello", k |-> k, kind |-> "ok", c |-> First])
Bad == /\ UNCHANGED <<st, hist, sess, nrun, ghost>> /\ step' = [verd |-> <<>>, truth |-> <<>>]
       /\ Edge([o |-> "hello", k |-> 1, kind |-> "junk", c |-> First])
Ok(k) == sess[k].due # 0 /\ Take(k, sess[k].due, TRUE, TRUE, st, [o |-> "next", k |-> k, kind |-> "ok", c |-> sess[k].due])
Spoilt(k) == sess[k].due # 0 /\ Take(k, sess[k].due, TRUE, FALSE, st, [o |-> "next", k |-> k, kind |-> "bad", c |-> sess[k].due])
Early(k) == \E c \in Cmds : sess[k].due # 0 /\ c > sess[k].due /\ Take(k, c, TRUE, FALSE, st, [o |-> "next", k |-> k, kind |-> "skip", c |-> c])
Mute(k) == sess[k].due # 0 /\ Take(k, sess[k].due, FALSE, FALSE, st, [o |-> "next", k |-> k, kind |-> "mute", c |-> sess[k].due])

Begin == /\ nrun < MaxRuns
         /\ LET x == Start(st, hist, nrun + 1) IN st' = x.st /\ hist' = x.hist
         /\ nrun' = nrun + 1 /\ ghost' = NoGhost /\ step' = [verd |-> <<>>, truth |-> <<>>]
         /\ UNCHANGED sess
         /\ Edge([o |-> "start", k |-> 0, kind |-> "", c |-> 0])
Del == \E r \in 1..nrun :
         /\ \E q \in {Shown(st, hist)[i] : i \in 1..Len(Shown(st, hist))} : q.r = r
         /\ LET x == Remove(st, hist, r) IN st' = x.st /\ hist' = x.hist
         /\ ghost' = (IF st.r = r THEN NoGhost ELSE ghost)
         /\ step' = [verd |-> <<>>, truth |-> <<>>]
         /\ UNCHANGED <<sess, nrun>>
         /\ Edge([o |-> "remove", k |-> r, kind |-> "", c |-> 0])

Next == Begin \/ Del \/ Bad \/ \E k \in 1..Slots : Hello(k) \/ Ok(k) \/ Spoilt(k) \/ Early(k) \/ Mute(k)
Spec == Init /\ [][Next]_vars

Brief(h) == [i \in 1..Len(h) |-> [r |-> h[i].r, done |-> h[i].done, n |-> Len(h[i].tests)]]
View == <<[st EXCEPT !.verd = Len(@)], Brief(hist), sess, nrun, ghost>>

----------------------------------------------------------------------------
\* every test is judged once, in order
InOrder == /\ st.r # 0 => Len(st.verd) = st.pos - 1 - (IF st.pend THEN 1 ELSE 0)
           /\ \A i \in 1..Len(st.verd) : st.verd[i].id = Plan(P)[i].id
\* every verdict is what the device did
Truthful == /\ Len(step'.verd) = Len(step'.truth)
            /\ \A i \in 1..Len(step'.verd) : step'.verd[i].passed = step'.truth[i].ok /\ step'.verd[i].id = Plan(P)[step'.truth[i].t].id
Truth == [][Truthful]_vars
\* a run is complete exactly when all its tests are judged
Complete == \A i \in 1..Len(hist) : hist[i].done <=> Len(hist[i].tests) = Len(Plan(P))
\* no verdict already given is ever changed, none moves to another run
Keeps == [][\A i \in 1..Len(Shown(st, hist)) : LET a == Shown(st, hist)[i] IN
              \A j \in 1..Len(Shown(st', hist')) : LET b == Shown(st', hist')[j] IN
                 a.r = b.r => Len(a.tests) <= Len(b.tests) /\ SubSeq(b.tests, 1, Len(a.tests)) = a.tests /\ (a.done => b = a)]_vars
Once == \A i, j \in 1..Len(Shown(st, hist)) : i # j => Shown(st, hist)[i].r # Shown(st, hist)[j].r
PendOk == st.pend <=> ghost.t # 0
=============================================================================
