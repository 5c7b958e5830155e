------------------------------- MODULE TraceDO -------------------------------
(* Validates recorded executions of the real onboarding service against FdoDO. *)
EXTENDS FdoDO, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, sess, env, dead, iop,
          again          \* the process serving is not the first one
vars == <<l, sess, env, dead, iop, again>>

MsgOf(op) == CASE op = "h60" -> 60 [] op = "h62" -> 62 [] op = "h64" -> 64 [] op = "h66" -> 66 [] op = "h68" -> 68
               [] op = "h70" -> 70 [] op = "x22" -> 22 [] op = "x32" -> 32 [] op = "rv20" -> 20 [] OTHER -> 0

\* the property that a wrongly refused message of this kind belongs to
Own(op) == CASE op \in {"h60", "h64"} -> {"P05"} [] op \in {"h62", "h66", "h70"} -> {"P04"} [] op = "h68" -> {"P07"} [] OTHER -> {"P10"}

FactLabel(op, f) ==
  CASE f = "token" -> {"P10:token", "P04:answer-not-bound-to-session"}
    [] f = "noncefresh" -> {"P05:nonce-reused", "P10:nonce-reused"}
    [] f \in {"hidden", "decrypts", "ivfresh"} -> {"P06:" \o f} \cup (IF op = "h64" THEN {"P05:" \o f} ELSE {})
    [] f = "xa" -> {"P06:xa", "P05:xa"}
    [] op \in {"h60", "h64"} -> {"P05:" \o f}
    [] op = "h62" -> {"P04:" \o f}
    [] op \in {"h66", "h68"} -> {"P07:" \o f}
    [] OTHER -> {"P04:" \o f}

\* why a request ought to have been refused
Reasons(q, e) ==
  LET sOK == SessOK(sess, q) IN
  (IF ~GateOK(q) \/ ~BodyOK(q) THEN {"P11:accepted-malformed"} ELSE {})
  \cup (IF q.op = "h60" THEN {"P05:accepted-invalid"} ELSE {})
  \cup (IF q.op \in {"x22", "x32"} THEN {"P10:foreign-token-accepted"} ELSE {})
  \cup (IF q.op \notin {"h60", "rv20", "x22", "x32"} THEN
          IF ~sOK THEN {"P10:session-misused", "P04:session-misused"}
          ELSE (IF ~InStage(sess, q) THEN {"P04:out-of-order"} ELSE {})
               \cup (IF q.op = "h62" /\ ~(q.idx \in 0..(env.nent[sess[q.s].g] - 1)) THEN {"P04:entry-out-of-range"} ELSE {})
               \cup (IF q.op = "h64" /\ ~ProofOK(sess, q, env) THEN
                        {"P05:unproven-device-accepted"} \cup (IF q.xb # "ok" \/ ~KexWorks(sess[q.s].kex, env) \/ sess[q.s].cipher # "cfg"
                                                                THEN {"P06:unusable-key-exchange"} ELSE {})
                        \cup (IF q.nonce # q.s THEN {"P10:nonce-of-another-session"} ELSE {}) ELSE {})
               \cup (IF q.op \in {"h66", "h68", "h70"} /\ ~EncOK(sess, q) THEN {"P06:forged-message-accepted"}
                        \cup (IF q.ks # q.s THEN {"P10:key-of-another-session"} ELSE {}) ELSE {})
               \cup (IF q.op = "h68" /\ sess[q.s].fin THEN {"P07:accepted-after-completion"} ELSE {})
               \cup (IF q.op = "h68" /\ ~SimsOK(sess[q.s], q) THEN {"P07:mandatory-missing"} ELSE {})
               \cup (IF q.op = "h70" /\ ~sess[q.s].fin THEN {"P07:done-before-completion"} ELSE {})
               \cup (IF q.op = "h70" /\ q.nonce # q.s THEN {"P04:done-with-foreign-nonce"} ELSE {})
               \cup (IF q.pay # "ok" THEN {"P11:accepted-malformed"} ELSE {})
        ELSE {})

Lifetime(e) == (IF ~(e.nnew = 1 /\ e.ttlHi >= 1 /\ e.ttlLo <= SessionTTL + 1) THEN {"P10:session-lifetime"} ELSE {})
               \cup (IF e.nnew = 1 /\ e.ttlHi < SessionTTL - 1 THEN {"P10:session-lifetime-short"} ELSE {})

Wrong(e, x, par) ==
  LET m == MsgOf(e.op)
      own == Own(e.op)
      inS == e.op \in {"h62", "h64", "h66", "h68", "h70"} /\ SessOK(sess, e)
  IN
  (IF e.res = "panic" THEN {"P11:crash"} \cup (IF e.op \in {"h64", "h66", "h68", "h70"} THEN {"P06:crash"} ELSE {}) ELSE {})
  \cup (IF e.res = "odd" THEN {"P11:not-a-protocol-answer"} ELSE {})
  \cup (IF x.ok /\ e.res # "ok" THEN {p \o ":refused-valid" : p \in own \cup {"P04"}}
            \cup (IF e.op \in {"h64", "h66", "h68", "h70"} THEN {"P06:refused-valid"} ELSE {}) ELSE {})
  \cup (IF ~x.ok /\ e.res = "ok" THEN Reasons(e, e) ELSE {})
  \cup (IF ~x.ok /\ e.res = "err" /\ e.eprev # m THEN {"P11:wrong-message-named"} ELSE {})
  \cup (IF ~par /\ ~x.ok /\ e.res # "ok" /\ ~e.dbsame THEN {"P11:refusal-changed-state", "P04:refusal-changed-state"} ELSE {})
  \cup (IF x.ok /\ e.res = "ok" THEN
          UNION {FactLabel(e.op, f) : f \in Facts(e.op) \ Range(e.facts)}
          \cup (IF ~par /\ e.op \in {"h60", "rv20"} THEN Lifetime(e) ELSE {})
          \cup (IF ~par /\ ~e.only THEN {"P10:other-state-changed", "P04:other-state-changed"} ELSE {})
          \cup (IF e.op = "h68" /\ e.items # x.r.items THEN {"P07:wrong-items"} ELSE {})
          \cup (IF e.op = "h68" /\ (e.isdone # x.r.done \/ e.ismore # x.r.more) THEN {"P07:wrong-flags"} ELSE {})
        ELSE {})

\* What the dashboard was told (got) against what it had to be told (due).
RepWrong(got, due) ==
  LET d == IF iop \in {"on", "broken"} THEN due ELSE <<>>
      G == {got[i] : i \in 1..Len(got)}
      D == {d[i] : i \in 1..Len(d)}
  IN (IF \E r \in G : ~r.well THEN {"P19:malformed"} ELSE {})
     \cup (IF D \ G # {} THEN {"P19:missing"} ELSE {})
     \cup (IF G \ D # {} THEN {"P19:untrue"} ELSE {})
     \cup (IF Len(got) > Len(d) THEN {"P19:twice"} ELSE {})

\* After a contradiction the run goes on: from the old state when a valid
\* request was refused; a session wrongly opened is entered so that the
\* numbering of sessions stays that of the run.
After(ss, e, x) ==
  CASE x.ok /\ e.res # "ok" -> ss
    [] ~x.ok /\ e.res = "ok" /\ e.op = "h60" -> Append(ss, [NewSession(e) EXCEPT !.g = IF e.g \in Devices THEN e.g ELSE 1])
    [] ~x.ok /\ e.res = "ok" /\ e.op = "rv20" -> Append(ss, RvSession)
    [] OTHER -> x.sess

Report(e, w) == PrintT("VIOL " \o ToJson([tr |-> e.tr, i |-> e.i, line |-> l, tags |-> w \cup (IF again THEN {"P17:after-restart"} ELSE {})]))

Init == l = 1 /\ sess = <<>> /\ env = [orsa |-> FALSE] /\ dead = FALSE /\ again = FALSE /\ iop = "off"

More == l <= Len(Trace) /\ l' = l + 1

Reset == /\ More /\ Trace[l].op = "reset"
         /\ sess' = <<>> /\ dead' = FALSE /\ again' = FALSE /\ iop' = Trace[l].iop
         /\ env' = [nent |-> Trace[l].nent, nown |-> Trace[l].nown, orsa |-> Trace[l].orsa, dsg |-> Trace[l].dsg]

Skip == More /\ dead /\ Trace[l].op # "reset" /\ UNCHANGED <<sess, env, dead, iop, again>>

IsMsg(n) == More /\ ~dead /\ Trace[l].op = n

Msg(n) == /\ IsMsg(n)
          /\ LET e == Trace[l]
                 x == Outcome(sess, e, env)
                 w == Wrong(e, x, FALSE) \cup (IF x.ok # (e.res = "ok") THEN {} ELSE RepWrong(e.rep, Reports(sess, e, x.ok)))
             IN /\ (w # {} => Report(e, w))
                /\ sess' = After(sess, e, x) /\ UNCHANGED <<env, dead, iop, again>>

Hello20         == Msg("rv20")
HelloDevice60   == Msg("h60")
GetOVNext62     == Msg("h62")
ProveDevice64   == Msg("h64")
ServiceReady66  == Msg("h66")
DeviceInfo68    == Msg("h68")
Done70          == Msg("h70")
Foreign22       == Msg("x22")
Foreign32       == Msg("x32")

Lapse == /\ IsMsg("expsess")
         /\ sess' = Outcome(sess, Trace[l], env).sess /\ UNCHANGED <<env, dead, iop, again>>

\* An altered message whose acceptability is not predicted.
Fuzz == /\ IsMsg("fuzz")
        /\ LET e == Trace[l]
               w == (IF e.res = "panic" THEN {"P11:crash"} \cup (IF e.msg >= 64 THEN {"P06:crash"} ELSE {}) ELSE {})
                    \cup (IF e.res = "odd" THEN {"P11:not-a-protocol-answer"} ELSE {})
                    \cup (IF e.res = "err" /\ e.eprev # e.msg THEN {"P11:wrong-message-named"} ELSE {})
                    \cup (IF e.res # "ok" /\ ~e.dbsame THEN {"P11:refusal-changed-state"} ELSE {})
                    \cup (IF e.res # "ok" THEN RepWrong(e.rep, <<>>) ELSE {})
           IN /\ (w # {} => Report(e, w))
              /\ dead' = (e.res # "err")
              /\ UNCHANGED <<sess, env, iop, again>>

\* Concurrent messages of different sessions: each behaves as if alone.
RECURSIVE Fold(_, _, _)
Fold(ss, evs, i) ==
  IF i > Len(evs) THEN [sess |-> ss, w |-> {}, due |-> <<>>]
  ELSE LET x == Outcome(ss, evs[i], env)
           r == Fold(After(ss, evs[i], x), evs, i + 1)
       IN [sess |-> r.sess, w |-> r.w \cup Wrong(evs[i], x, TRUE), due |-> Reports(ss, evs[i], x.ok) \o r.due]

Par == /\ IsMsg("par")
       /\ LET e == Trace[l]
              r == Fold(sess, e.evs, 1)
              w == IF r.w = {} THEN RepWrong(e.rep, r.due) ELSE r.w \cup {"P10:concurrent-sessions", "P04:concurrent-sessions"}
          IN /\ (w # {} => Report(e, w))
             /\ sess' = r.sess /\ UNCHANGED <<env, dead, iop, again>>

\* A new process on the same store: nothing has changed.
Restart == /\ IsMsg("restart")
           /\ LET e == Trace[l] IN (~e.dbsame => Report(e, {"P17:store-changed"}))
           /\ again' = TRUE /\ UNCHANGED <<sess, env, iop, dead>>

\* The process ended in the middle of a message.
Crash == /\ IsMsg("crash")
         /\ LET e == Trace[l]
                q == [e EXCEPT !.op = e.what]
                x == Outcome(sess, q, env)
                w == (IF ~x.ok /\ ~e.dbsame THEN {"P17:refused-but-kept"} ELSE {})
                     \cup (IF x.ok /\ q.op \notin {"h60", "rv20"} /\ ~e.only THEN {"P17:torn"} ELSE {})
            IN /\ (w # {} => Report(e, w))
               /\ sess' = IF e.dbsame \/ ~x.ok \/ q.op \in {"h60", "rv20"} THEN sess ELSE x.sess
         /\ again' = TRUE /\ UNCHANGED <<env, iop, dead>>

Next == Restart \/ Crash \/ Reset \/ Skip \/ Hello20 \/ HelloDevice60 \/ GetOVNext62 \/ ProveDevice64 \/ ServiceReady66 \/ DeviceInfo68 \/ Done70
        \/ Foreign22 \/ Foreign32 \/ Lapse \/ Fuzz \/ Par

Spec == Init /\ [][Next]_vars

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
