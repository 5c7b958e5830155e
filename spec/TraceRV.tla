------------------------------- MODULE TraceRV -------------------------------
(* Validates recorded executions of the real Rendezvous server against FdoRV. *)
EXTENDS FdoRV, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, reg, sess, dsg, dead, iop,
          again          \* the process serving is not the first one
vars == <<l, reg, sess, dsg, dead, iop, again>>

MsgOf(op) == CASE op = "h20" -> 20 [] op = "h22" -> 22 [] op = "h30" -> 30 [] op = "h32" -> 32 [] OTHER -> 0

Own(op) == IF op \in {"h20", "h22"} THEN "P02" ELSE "P01"

SessProblem(q) == /\ q.op \in {"h22", "h32"}
                  /\ ~SessOK(sess, q, IF q.op = "h22" THEN "to0" ELSE "to1")

\* Labels of everything in event e that contradicts the outcome x.
Wrong(e, x) ==
  LET m == MsgOf(e.op) IN
  (IF e.res = "panic" THEN {"P11:crash"} ELSE {})
  \cup (IF e.res = "odd" THEN {"P11:not-a-protocol-answer"} ELSE {})
  \cup (IF x.ok /\ e.res # "ok" THEN {Own(e.op) \o ":refused-valid"} ELSE {})
  \cup (IF ~x.ok /\ e.res = "ok" THEN
          {Own(e.op) \o ":accepted-invalid"}
          \cup (IF SessProblem(e) THEN {"P10:session-misused"} ELSE {})
          \cup (IF ~GateOK(e) \/ e.body # "ok" THEN {"P11:accepted-malformed"} ELSE {})
        ELSE {})
  \cup (IF ~x.ok /\ e.res = "err" /\ e.eprev # m THEN {"P11:wrong-message-named"} ELSE {})
  \cup (IF ~x.ok /\ e.res # "ok" /\ ~e.dbsame THEN {"P11:refusal-changed-state", Own(e.op) \o ":refusal-changed-state"} ELSE {})
  \cup (IF x.ok /\ e.res = "ok" THEN
          (IF e.op \in {"h20", "h30"} /\ ~e.fresh THEN {Own(e.op) \o ":nonce-reused", "P10:nonce-reused"} ELSE {})
          \cup (IF e.op \in {"h20", "h30"} /\ e.rtok # 0 THEN {"P10:token-reused"} ELSE {})
          \cup (IF e.op \in {"h22", "h32"} /\ e.rtok # e.s THEN {"P10:token-changed"} ELSE {})
          \cup (IF e.op \in {"h20", "h30"} /\ ~(e.nnew = 1 /\ e.ttlHi >= 1 /\ e.ttlLo <= SessionTTL + 1)
                THEN {"P10:session-lifetime"} ELSE {})
          \cup (IF e.op \in {"h20", "h30"} /\ e.nnew = 1 /\ e.ttlHi < SessionTTL - 1 THEN {"P10:session-lifetime-short"} ELSE {})
          \cup (IF e.op = "h30" /\ ~e.sigecho THEN {"P01:siginfo-not-echoed"} ELSE {})
          \cup (IF e.op = "h22" /\ e.rwait # x.wait THEN {"P03:wait-announced"} ELSE {})
          \cup (IF e.op = "h22" /\ x.wait > 0 /\ ~(e.nnew = 1 /\ e.ttlLo <= x.wait + 1 /\ e.ttlHi >= x.wait - 1)
                THEN {"P03:wait-stored"} ELSE {})
          \cup (IF e.op = "h32" /\ e.rblob # x.blob THEN {"P01:wrong-blob"} ELSE {})
        ELSE {})
  \cup (IF \E g \in Guids : e.regs[g] # x.reg[g].blob THEN {"P03:registration-state", "P02:registration-state"} ELSE {})

\* What the dashboard was told (got) against what it had to be told (due).
RepWrong(got, due) ==
  LET d == IF iop \in {"on", "broken"} THEN due ELSE <<>>
      G == {got[i] : i \in 1..Len(got)}
      D == {d[i] : i \in 1..Len(d)}
  IN (IF \E r \in G : ~r.well THEN {"P19:malformed"} ELSE {})
     \cup (IF D \ G # {} THEN {"P19:missing"} ELSE {})
     \cup (IF G \ D # {} THEN {"P19:untrue"} ELSE {})
     \cup (IF Len(got) > Len(d) THEN {"P19:twice"} ELSE {})

\* After a contradiction the run goes on: from the old state when a valid
\* request was refused; a session wrongly opened is entered so that the
\* numbering of sessions stays that of the run.
After(e, x) ==
  CASE x.ok /\ e.res \notin {"ok", "done"} -> [reg |-> reg, sess |-> sess]
    [] ~x.ok /\ e.res = "ok" /\ e.op = "h20" -> [reg |-> reg, sess |-> Append(sess, [kind |-> "to0", g |-> 0, sg |-> "none", alive |-> TRUE])]
    [] ~x.ok /\ e.res = "ok" /\ e.op = "h30" -> [reg |-> reg, sess |-> Append(sess, [kind |-> "to1", g |-> IF e.g \in Guids THEN e.g ELSE 1, sg |-> e.sgk, alive |-> TRUE])]
    [] OTHER -> [reg |-> x.reg, sess |-> x.sess]

Report(e, w) == PrintT("VIOL " \o ToJson([tr |-> e.tr, i |-> e.i, line |-> l, tags |-> w \cup (IF again THEN {"P17:after-restart"} ELSE {})]))

Init == l = 1 /\ reg = [g \in Guids |-> NoReg] /\ sess = <<>> /\ dsg = "" /\ dead = FALSE /\ again = FALSE /\ iop = "off"

More == l <= Len(Trace) /\ l' = l + 1

Reset ==
  /\ More /\ Trace[l].op = "reset"
  /\ reg' = [g \in Guids |-> NoReg] /\ sess' = <<>> /\ dsg' = Trace[l].dsg /\ dead' = FALSE /\ again' = FALSE /\ iop' = Trace[l].iop

Skip == More /\ dead /\ Trace[l].op # "reset" /\ UNCHANGED <<reg, sess, dsg, dead, iop, again>>

Step(e, w0, x) ==
  /\ LET w == w0 \cup (IF (x.ok /\ e.res \notin {"ok", "done"}) \/ (~x.ok /\ e.res = "ok") THEN {} ELSE RepWrong(e.rep, Reports(sess, e, x.ok)))
     IN w # {} => Report(e, w)
  /\ LET y == After(e, x) IN reg' = y.reg /\ sess' = y.sess
  /\ UNCHANGED <<dsg, dead, iop, again>>

IsMsg(n) == More /\ ~dead /\ Trace[l].op = n

Hello20     == IsMsg("h20") /\ LET e == Trace[l] x == Outcome(reg, sess, e, dsg) IN Step(e, Wrong(e, x), x)
OwnerSign22 == IsMsg("h22") /\ LET e == Trace[l] x == Outcome(reg, sess, e, dsg) IN Step(e, Wrong(e, x), x)
HelloRV30   == IsMsg("h30") /\ LET e == Trace[l] x == Outcome(reg, sess, e, dsg) IN Step(e, Wrong(e, x), x)
\* whether the identifier stated in a proof that is signed by the right key is looked at is left open
ProveToRV32 == IsMsg("h32") /\ LET e == Trace[l]
                                   y == Outcome(reg, sess, e, dsg)
                                   x == IF y.ok /\ e.ueid # "ok" /\ e.res # "ok" THEN [y EXCEPT !.ok = FALSE] ELSE y IN Step(e, Wrong(e, x), x)

\* Time passing: sessions and registrations lapse (driven by the harness).
Lapse == /\ (IsMsg("expsess") \/ IsMsg("expreg"))
         /\ LET e == Trace[l] x == Outcome(reg, sess, e, dsg)
                bad == \E g \in Guids : e.regs[g] # x.reg[g].blob
            IN Step(e, IF bad THEN {"P03:registration-state"} ELSE {}, x)

\* Real time passing: every registration shorter than the pause lapses.
Pause == /\ IsMsg("sleep")
         /\ LET e == Trace[l]
                r == [g \in Guids |-> IF reg[g].blob # 0 /\ reg[g].wait * 1000 < e.wait THEN NoReg ELSE reg[g]]
                x == [ok |-> TRUE, reg |-> r, sess |-> sess]
                bad == \E g \in Guids : e.regs[g] # r[g].blob
            IN Step(e, IF bad THEN {"P03:registration-state"} ELSE {}, x)

\* A mutated message whose acceptability is not predicted: it must get a
\* protocol answer, a refusal changes nothing, and the run stops there.
Fuzz == /\ IsMsg("fuzz")
        /\ LET e == Trace[l]
               w == (IF e.res = "panic" THEN {"P11:crash"} ELSE {})
                    \cup (IF e.res = "odd" THEN {"P11:not-a-protocol-answer"} ELSE {})
                    \cup (IF e.res = "err" /\ e.eprev # e.msg THEN {"P11:wrong-message-named"} ELSE {})
                    \cup (IF e.res # "ok" /\ ~e.dbsame THEN {"P11:refusal-changed-state"} ELSE {})
                    \cup (IF e.res # "ok" THEN RepWrong(e.rep, <<>>) ELSE {})
           IN /\ (w # {} => Report(e, w))
              /\ dead' = (e.res # "err")
              /\ UNCHANGED <<reg, sess, dsg, iop, again>>

\* Concurrent requests: some order of them must explain every answer and the
\* registrations observed afterwards.
RECURSIVE Explains(_, _, _, _)
Explains(rg, ss, todo, regs) ==
  IF todo = {} THEN \A g \in Guids : regs[g] = rg[g].blob
  ELSE \E q \in todo :
         LET x == Outcome(rg, ss, q, dsg) IN
           /\ (x.ok <=> q.res = "ok")
           /\ (q.op = "h22" /\ x.ok => q.rwait = x.wait)
           /\ (q.op = "h32" /\ x.ok => q.rblob = x.blob)
           /\ Explains(x.reg, ss, todo \ {q}, regs)

RECURSIVE SeqOf(_, _)
SeqOf(I, evs) == IF I = {} THEN <<>> ELSE LET i == CHOOSE j \in I : TRUE IN Reports(sess, evs[i], TRUE) \o SeqOf(I \ {i}, evs)

Par == /\ IsMsg("par")
       /\ LET e == Trace[l]
              S == {e.evs[i] : i \in 1..Len(e.evs)}
              good == Explains(reg, sess, S, e.regs)
              told == RepWrong(e.rep, SeqOf({i \in 1..Len(e.evs) : Reports(sess, e.evs[i], e.evs[i].res = "ok") # <<>>}, e.evs))
              crash == \E q \in S : q.res \in {"panic", "odd"}
          IN /\ (good /\ told # {} => Report(e, told))
             /\ (~good => Report(e, {"P01:concurrent", "P02:concurrent", "P03:concurrent"} \cup (IF crash THEN {"P11:crash"} ELSE {})))
             /\ dead' = TRUE
             /\ UNCHANGED <<reg, sess, dsg, iop, again>>

\* A new process on the same store: nothing has changed.
Restart == /\ IsMsg("restart")
           /\ LET e == Trace[l] IN (\E g \in Guids : e.regs[g] # reg[g].blob) => Report(e, {"P17:registration-lost"})
           /\ again' = TRUE /\ UNCHANGED <<reg, sess, dsg, iop, dead>>

\* The process ended in the middle of a request.
Crash == /\ IsMsg("crash")
         /\ LET e == Trace[l]
                q == [e EXCEPT !.op = e.what]
                fits == {r \in AfterCrash(reg, sess, q, dsg) : \A g \in Guids : e.regs[g] = r[g].blob}
                w == (IF fits = {} THEN {"P17:torn-registration"} ELSE {})
                     \cup (IF ~Accept(reg, sess, q, dsg) /\ ~e.dbsame THEN {"P17:refused-but-kept"} ELSE {})
            IN /\ (w # {} => Report(e, w))
               /\ dead' = (fits = {})
               /\ reg' = IF fits = {} THEN reg ELSE CHOOSE r \in fits : (e.dbsame <=> r = reg) \/ Cardinality(fits) = 1
         /\ again' = TRUE /\ UNCHANGED <<sess, dsg, iop>>

Next == Restart \/ Crash \/ Reset \/ Skip \/ Hello20 \/ OwnerSign22 \/ HelloRV30 \/ ProveToRV32 \/ Lapse \/ Pause \/ Fuzz \/ Par

Spec == Init /\ [][Next]_vars

\* The whole trace was consumed.
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
