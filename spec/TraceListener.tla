--------------------------- MODULE TraceListener ---------------------------
(* Validates recorded tests of devices. *)
EXTENDS FdoListener, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st, hist, own,
          again          \* the process serving is not the first one
vars == <<l, st, hist, own, again>>

Keys == {<<d, p>> : d \in 1..3, p \in 1..2}
Init == l = 1 /\ st = [k \in Keys |-> Idle] /\ hist = [k \in Keys |-> <<>>] /\ own = [k \in Keys |-> FALSE] /\ again = FALSE
More == l <= Len(Trace) /\ l' = l + 1

Report(e, w) == PrintT("VIOL " \o ToJson([tr |-> e.tr, i |-> e.i, line |-> l, tags |-> w \cup (IF again THEN {"P17:after-restart"} ELSE {})]))
Judge(e, w) == w # {} => Report(e, w)
Is(o) == More /\ Trace[l].op = o
Set(s) == {s[i] : i \in 1..Len(s)}

Reset == /\ Is("reset")
         /\ st' = [k \in Keys |-> Idle] /\ hist' = [k \in Keys |-> <<>>] /\ own' = [k \in Keys |-> FALSE] /\ again' = FALSE

Begin == /\ Is("start")
         /\ LET e == Trace[l]  k == <<e.d, e.p>>  x == Start(st[k], hist[k], e.r) IN
              /\ Judge(e, IF e.res # "ok" \/ e.r = 0 THEN {"P12:start"} ELSE {})
              /\ st' = [st EXCEPT ![k] = x.st]
              /\ hist' = [hist EXCEPT ![k] = x.hist]
         /\ UNCHANGED <<own, again>>

Del == /\ Is("remove")
       /\ LET e == Trace[l]  k == <<e.d, e.p>>  x == Remove(st[k], hist[k], e.r) IN
            /\ Judge(e, IF e.res = "panic" \/ (e.res # "ok" /\ \E q \in Set(Shown(st[k], hist[k])) : q.r = e.r) THEN {"P12:remove"} ELSE {})
            /\ IF e.r = 0 THEN UNCHANGED <<st, hist>>
               ELSE st' = [st EXCEPT ![k] = x.st] /\ hist' = [hist EXCEPT ![k] = x.hist]
       /\ UNCHANGED <<own, again>>

Msg == /\ Is("msg")
       /\ LET e == Trace[l]  k == <<e.d, e.p>>
              x == Receive(st[k], e.p, e.cmd, e.s, e.heard, e.valid)
              f == Finish(x.st, hist[k])
          IN /\ Judge(e, Wrong(x.test, e.valid, e.ans, Set(e.defs)))
             /\ st' = [st EXCEPT ![k] = IF x.done THEN f.st ELSE x.st]
             /\ hist' = [hist EXCEPT ![k] = IF x.done THEN f.hist ELSE @]
       /\ UNCHANGED <<own, again>>

\* the tool's own device: stops at every defect, completes otherwise; it has no
\* means of its own to check what the rendezvous service tells about the owner
Blind(p) == Cardinality({i \in 1..Len(Plan(p)) : Plan(p)[i].id = Dev("32_BAD_TO1D")})
Own == /\ Is("own")
       /\ LET e == Trace[l]  k == <<e.d, e.p>>  s == st[k]
              good == [i \in 1..Len(Plan(e.p)) |-> V(e.p, i, TRUE)]
              testing == s.r # 0
              all == testing /\ s.pos = 1 /\ e.times = Negatives(e.p) + 1
          IN /\ Judge(e, (IF e.why # "" THEN {"P16:crash"} ELSE {})
                         \cup (IF ~testing /\ e.ok # e.times THEN {"P16:onboarding"} ELSE {})
                         \cup (IF all /\ e.ok < 1 THEN {"P16:positive"} ELSE {})
                         \cup (IF all /\ e.ok > 1 + Blind(e.p) THEN {"P16:carries-on"} ELSE {}))
             /\ st' = [st EXCEPT ![k] = IF all THEN Idle ELSE @]
             /\ hist' = [hist EXCEPT ![k] = IF all THEN <<Rec(s.r, TRUE, good)>> \o @ ELSE @]
             /\ own' = [own EXCEPT ![k] = @ \/ all]
       /\ UNCHANGED again

Look == /\ Is("look")
        /\ LET e == Trace[l]  k == <<e.d, e.p>> IN
             Judge(e, IF e.runs # Shown(st[k], hist[k]) THEN (IF own[k] THEN {"P16:verdicts"} ELSE {"P12:records"}) ELSE {})
        /\ UNCHANGED <<st, hist, own, again>>

\* another process takes over: nothing changes
Restart == Is("restart") /\ again' = TRUE /\ UNCHANGED <<st, hist, own>>

Next == Restart \/ Reset \/ Begin \/ Del \/ Msg \/ Own \/ Look
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
