------------------------------ MODULE TraceApi ------------------------------
(* Validates recorded histories of the management interface. *)
EXTENDS FdoApi, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st, strange,
          again, hung    \* a process has ended before; one ended while tests were going on
vars == <<l, st, strange, again, hung>>

Init == l = 1 /\ st = Fresh /\ strange = FALSE /\ again = FALSE /\ hung = FALSE
More == l <= Len(Trace) /\ l' = l + 1

Report(e, w) == PrintT("VIOL " \o ToJson([tr |-> e.tr, i |-> e.i, line |-> l, tags |-> w \cup (IF again THEN {"P17:after-restart"} ELSE {})]))
Judge(e, w) == w # {} => Report(e, w)
Is(o) == More /\ Trace[l].op = o
Set(s) == {s[i] : i \in 1..Len(s)}

Reset == Is("reset") /\ st' = Fresh /\ strange' = FALSE /\ again' = FALSE /\ hung' = FALSE

\* a login that came about in some way: by the login endpoint or put into the store
Session == /\ Is("sess")
           /\ LET e == Trace[l] IN st' = [st EXCEPT !.sess = @ \cup {[k |-> e.k, u |-> e.u, live |-> e.live, flag |-> ~e.live]}]
           /\ UNCHANGED <<strange, again, hung>>

Gone == /\ Is("expire")
        /\ st' = Expire(st, Trace[l].k)
        /\ UNCHANGED <<strange, again, hung>>

Lapsed == /\ Is("lapse")
          /\ st' = Lapse(st, Trace[l].id)
          /\ UNCHANGED <<strange, again, hung>>

Norm(v) == [id |-> v.id, kind |-> v.kind, data |-> v.data, runs |-> Set(v.runs)]
Same(view, want) == {Norm(view[i]) : i \in 1..Len(view)} = want /\ Len(view) = Cardinality(want)
                    /\ \A i \in 1..Len(view) : Len(view[i].runs) = Cardinality(Set(view[i].runs))
OfKind(v, kind) == {x \in v : x.kind = kind}

Call ==
  /\ Is("call")
  /\ LET e == Trace[l]
         who == IF Allowed(st, e.c) THEN Who(st, e.c) ELSE 0
         granted == e.res = "ok"
         denied == ~(IF e.ep = "login" THEN TRUE ELSE IF e.ep = "loggedin" THEN Known(st, e.c) ELSE IF e.ep = "logout" THEN Known(st, e.c) \/ \E s \in st.sess : s.k = e.c ELSE who # 0)
         w == (IF e.res \in {"panic", "odd"} THEN {"P15:crash"} ELSE {})
              \cup (IF granted /\ ~May(st, e)
                    THEN (IF denied \/ (e.good /\ e.ep \in NeedsTest) THEN {"P14:granted"} ELSE {"P15:accepted"}) ELSE {})
              \cup (IF ~granted /\ Must(st, e) THEN {"P15:refused"} ELSE {})
              \cup (IF granted /\ e.ep = "list" /\ who # 0
                    THEN (IF \E i \in 1..Len(e.view) : e.view[i].id # 0 /\ ~\E t \in Own(st, who) : t.id = e.view[i].id THEN {"P14:leak"}
                          ELSE IF ~Same(e.view, OfKind(View(st, who), e.kind)) THEN {"P15:list"} ELSE {}) ELSE {})
              \cup (IF granted /\ e.ep \in {"login", "create", "exec", "start"} /\ May(st, e) /\ e.new = 0 /\ ~(e.ep = "start" /\ Void(e)) THEN {"P15:lost"} ELSE {})
              \cup (IF granted /\ e.ep = "vouchers" /\ ~e.sound THEN {"P15:download"} ELSE {})
              \cup (IF e.fails > 0 THEN {"P16:self-fail"} ELSE {})
     IN /\ Judge(e, w)
        /\ st' = IF (e.ep \in {"login", "create", "exec", "start"} /\ e.new = 0) THEN st ELSE After(st, e, granted)
        \* who asked decides what a wrong state afterwards means
        /\ strange' = denied
  /\ UNCHANGED <<again, hung>>

Look ==
  /\ Is("look")
  /\ LET e == Trace[l] IN
       Judge(e, (IF ~Same(e.view, View(st, e.u)) THEN (IF strange THEN {"P14:changed"} ELSE {"P15:state"}) ELSE {})
                \cup (IF e.busy /\ ~hung THEN {"P15:busy"} ELSE {})
                \cup (IF e.immortal > 0 THEN {"P14:immortal"} ELSE {}))
  /\ UNCHANGED <<st, strange, again, hung>>

\* another process takes over: nothing changes
Restart == Is("restart") /\ again' = TRUE /\ UNCHANGED <<st, strange, hung>>

\* the process ended while it was handling a call, which took effect or did not
Crash ==
  /\ Is("crash")
  /\ LET e == Trace[l] IN
       /\ Judge(e, IF e.done /\ ~May(st, e) THEN {"P17:refused-but-done"} ELSE {})
       /\ st' = IF e.done THEN After(st, e, TRUE) ELSE st
       /\ hung' = (hung \/ e.ep = "exec")
  /\ strange' = FALSE /\ again' = TRUE

Next == Restart \/ Crash \/ Reset \/ Session \/ Gone \/ Lapsed \/ Call \/ Look
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
