----------------------------- MODULE TraceRuns -----------------------------
(* Validates recorded conformance runs: what went over the wire against what
   the runner recorded, and what is stored afterwards. *)
EXTENDS FdoRuns, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, n, runs, hist, gone
vars == <<l, n, runs, hist, gone>>

Init == l = 1 /\ n = 0 /\ runs = <<>> /\ hist = <<>> /\ gone = {}
More == l <= Len(Trace) /\ l' = l + 1

Report(e, w) == PrintT("VIOL " \o ToJson([tr |-> e.tr, i |-> e.i, line |-> l, tags |-> w]))
Judge(e, w) == w # {} => Report(e, w)

Is(o) == More /\ Trace[l].op = o

Reset == /\ Is("reset")
         /\ n' = Trace[l].n /\ runs' = <<>> /\ gone' = {}
         /\ hist' = [i \in 1..Len(Trace[l].protos) |-> <<>>]

StartRun == /\ Is("start")
            /\ LET e == Trace[l] IN
                 /\ runs' = Append(runs, NewRun(e.inst, e.proto, e.plain /\ e.inst \notin gone))
                 /\ hist' = IF e.inst \in gone THEN hist ELSE [hist EXCEPT ![e.inst] = <<e.r>> \o @]
            /\ UNCHANGED <<n, gone>>

Req == /\ Is("req")
       /\ LET e == Trace[l] IN
            runs' = [runs EXCEPT ![e.r].att = Append(@, [msg |-> e.msg, valid |-> e.valid, ans |-> e.ans, fin |-> e.fin, gen |-> e.kind = ""])]
       /\ UNCHANGED <<n, hist, gone>>

Verd == /\ Is("verdict")
        /\ LET e == Trace[l] IN
             /\ Judge(e, Verdict(runs[e.r], n, e.test, e.passed) \cup (IF runs[e.r].over THEN {"P13:after-end"} ELSE {}))
             /\ runs' = [runs EXCEPT ![e.r] = Record(@, n, e.test, e.passed)]
        /\ UNCHANGED <<n, hist, gone>>

Finish == /\ Is("finish")
          /\ LET e == Trace[l]  run == runs[e.r]
                 vis == e.inst \notin gone /\ \/ \E i \in 1..Len(hist[e.inst]) : hist[e.inst][i] = e.r
                                              \/ ~\E q \in 1..Len(runs) : q > e.r /\ runs[q].inst = e.inst
             IN Judge(e, (IF e.res # "ok" THEN {"P13:" \o e.res} ELSE {})
                         \cup (IF vis /\ e.res = "ok" /\ Missing(run) # {} THEN {"P13:missing"} ELSE {})
                         \cup (IF vis /\ e.res = "ok" /\ run.plain /\ n > 0 /\ Ids(run) # Listed(run.proto) THEN {"P16:incomplete"} ELSE {}))
          /\ runs' = [runs EXCEPT ![Trace[l].r].over = TRUE]
          /\ UNCHANGED <<n, hist, gone>>

Remove == /\ Is("remove")
          /\ LET e == Trace[l] IN
               /\ Judge(e, IF e.res # "ok" THEN {"P13:remove-" \o e.res} ELSE {})
               /\ hist' = [hist EXCEPT ![e.inst] = SelectSeq(@, LAMBDA r : r # e.r)]
          /\ UNCHANGED <<n, runs, gone>>

Gone == /\ Is("gone") /\ gone' = gone \cup {Trace[l].inst}
        /\ hist' = [hist EXCEPT ![Trace[l].inst] = <<>>] /\ UNCHANGED <<n, runs>>

Stored(i) == UNION {{[r |-> hist[i][k], test |-> v.test, passed |-> v.passed] : v \in runs[hist[i][k]].verd} : k \in 1..Len(hist[i])}

Look == /\ Is("look")
        /\ LET e == Trace[l]
               mine == {r \in 1..Len(runs) : runs[r].inst = e.inst}
               w == IF e.inst \in gone THEN (IF e.there THEN {"P13:resurrected"} ELSE {})
                    ELSE IF ~e.there THEN {"P13:lost"}
                    ELSE (IF e.busy /\ \A r \in mine : runs[r].over THEN {"P13:stuck"} ELSE {})
                         \cup (IF ~e.busy /\ mine # {} /\ \A r \in mine : ~runs[r].over THEN {"P13:idle"} ELSE {})
                         \cup (IF e.hist # hist[e.inst] THEN {"P13:history"} ELSE {})
                         \cup (IF {e.recs[k] : k \in 1..Len(e.recs)} # Stored(e.inst) THEN {"P13:records"} ELSE {})
           IN Judge(e, w)
        /\ UNCHANGED <<n, runs, hist, gone>>

Next == Reset \/ StartRun \/ Req \/ Verd \/ Finish \/ Remove \/ Gone \/ Look
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
