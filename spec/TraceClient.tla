---------------------------- MODULE TraceClient ----------------------------
(* Validates what the tool's own clients did with the answers they got. *)
EXTENDS FdoClient, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Range(q) == {q[i] : i \in 1..Len(q)}

VARIABLES l, s, det
vars == <<l, s, det>>

Init == l = 1 /\ s = Start("to2") /\ det = FALSE
More == l <= Len(Trace) /\ l' = l + 1

Report(e, w) == PrintT("VIOL " \o ToJson([tr |-> e.tr, i |-> e.i, line |-> l, tags |-> w]))
Judge(e, w) == w # {} => Report(e, w)

Reset == /\ More /\ Trace[l].op = "reset"
         /\ s' = [Start(Trace[l].flow) EXCEPT !.v = Honest(1, Trace[l].base, 0)] /\ det' = Trace[l].det

Edit == /\ More /\ Trace[l].op \notin {"reset", "req", "end"}
        /\ LET e == Trace[l] IN s' = [s EXCEPT !.v = IF Enabled(@, e) THEN Apply(@, e, IF det THEN 0 ELSE e.i) ELSE @]
        /\ UNCHANGED det

\* the answer as the specification sees it
Answer(a) == [msg |-> a.msg, dev |-> Range(a.dev), key |-> a.key, by |-> a.by, num |-> a.num, done |-> a.done,
              ent |-> IF a.msg = 63 THEN (IF a.k = 0 THEN [pay |-> [junk |-> TRUE, pub |-> "none"]] ELSE s.v.ents[a.k]) ELSE <<>>]

\* A request: was it due, and was it right?
Wrong(e) ==
  IF s.doom = "stop" THEN {"P09:went-on"}
  ELSE (IF e.msg # s.due THEN {"P09:out-of-order"} ELSE {})
       \* what a client makes of an unusual but not hopeless answer is its own affair
       \cup (IF s.doom = "go" /\ ~e.good THEN {IF ~e.kok THEN "P06:device-key" ELSE "P09:own-message"} ELSE {})

Request == /\ More /\ Trace[l].op = "req"
           /\ LET e == Trace[l]  w == Wrong(e) IN
                /\ Judge(e, w)
                \* after a contradiction nothing more is expected of the client
                /\ s' = IF s.doom = "stop" THEN s ELSE IF w # {} THEN [s EXCEPT !.doom = "free", !.due = e.msg] ELSE After(s, e, Answer(e.a))
           /\ UNCHANGED det

End == /\ More /\ Trace[l].op = "end"
       /\ LET e == Trace[l]
              w == CASE e.res \in {"panic", "hang"} -> {"P09:" \o e.res}
                     [] e.res = "ok" -> IF MaySucceed(s) THEN {} ELSE IF s.doom = "free" THEN {} ELSE {"P09:believed"}
                     [] OTHER -> IF MayFail(s) THEN {} ELSE {"P09:gave-up"}
          IN Judge(e, w)
       /\ UNCHANGED <<s, det>>

Next == Reset \/ Edit \/ Request \/ End
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
