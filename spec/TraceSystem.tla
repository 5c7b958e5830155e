---------------------------- MODULE TraceSystem ----------------------------
(* Validates what the real binary did: its commands, servers and devices as
   processes of their own, over stores on disk. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Devs == 1..3
INSTANCE FdoSystem

Trace == ndJsonDeserialize(IOEnv.TRACE)
Nodes == 1..2

VARIABLES l, m, sure, used, iop
vars == <<l, m, sure, used, iop>>
\* sure[n]: what has been seen to be there since the operator or an owner put it there
\* used: nonces already reported to the dashboard;  iop: what the dashboard is like
NotSure == [has |-> {}, reg |-> {}, rvt |-> 0, dev |-> {}]

Start == [n \in Nodes |-> Machine]
Init == l = 1 /\ m = Start /\ sure = [n \in Nodes |-> NotSure] /\ used = {} /\ iop = "off"
More == l <= Len(Trace) /\ l' = l + 1
Report(e, w) == PrintT("VIOL " \o ToJson([tr |-> e.tr, i |-> e.i, line |-> l, tags |-> w]))
Is(o) == More /\ Trace[l].op = o
Set(s) == {s[i] : i \in 1..Len(s)}

Reset == Is("reset") /\ m' = Start /\ sure' = [n \in Nodes |-> NotSure] /\ used' = {} /\ iop' = Trace[l].iop

----------------------------------------------------------------------------
(* what the dashboard is told: by the two sides of every protocol run that was
   completed, with the nonce both agreed on in that run; want: the reports due *)
R(by, p, d) == [by |-> by, p |-> p, d |-> d]
Of(x) == R(x.by, x.p, x.d)
Told(e, want, may) ==
  LET rep == Set(e.rep)  n == Len(e.rep)  seen == {Of(x) : x \in rep} IN
  IF iop = "dead" THEN {}
  ELSE IF iop = "off" THEN (IF n # 0 THEN {"P19:uninvited"} ELSE {})
  ELSE (IF ~(want \subseteq seen) THEN {"P19:missing"} ELSE {})
       \cup (IF ~(seen \subseteq want \cup may) THEN {"P19:untrue"} ELSE {})
       \cup (IF Cardinality(seen) # n THEN {"P19:twice"} ELSE {})
       \cup (IF \E x, y \in rep : (x.p = y.p /\ x.d = y.d) # (x.z = y.z) THEN {"P19:nonce"} ELSE {})
       \cup (IF \E x \in rep : x.z \in used THEN {"P19:nonce-reused"} ELSE {})
       \cup (IF \E x \in rep : ~x.well THEN {"P19:malformed"} ELSE {})
Nonces(e) == used' = used \cup {x.z : x \in Set(e.rep)}
\* devices which the owner gives a token for the dashboard
Token(n, d) == d \in {1, 2}
To0Reports(ds) == {R("rv", 0, ds[i]) : i \in 1..Len(ds)} \cup {R("do", 0, ds[i]) : i \in 1..Len(ds)}
To1Reports(d) == {R("rv", 1, d)}
To2Reports(n, d) == {R("do", 2, d)} \cup (IF Token(n, d) THEN {R("dev", 2, d)} ELSE {})

Judge(e, w) == w # {} => Report(e, w)
Died(e) == IF e.crash THEN {"P18:crash"} ELSE {}
Same == UNCHANGED <<m, sure>>
Keep == UNCHANGED iop

----------------------------------------------------------------------------
Facts == {"valid", "chain", "hash", "hmac", "guid", "devinfo", "entries", "key", "pem", "store", "cred"}
Generate == /\ Is("gen")
            /\ LET e == Trace[l] IN
                 Judge(e, Died(e) \cup (IF ~e.ok THEN {"P18:generate"} ELSE {"P18:generated-" \o f : f \in Facts \ Set(e.facts)}) \cup Told(e, {}, {}))
            /\ Same /\ UNCHANGED used /\ Keep

LoadC == /\ Is("load")
         /\ LET e == Trace[l]  takes == LoadTakes(m[e.n], e.items)  want == Ids(takes) IN
              /\ Judge(e, Died(e) \cup
                          (IF e.killed THEN (IF ~IsPrefix(e.said, want) THEN {"P18:load"} ELSE {})
                           ELSE (IF e.said # want THEN {"P18:load"} ELSE {})
                                \cup (IF e.ok # LoadOk(m[e.n], e.items) THEN {"P18:load-exit"} ELSE {}))
                          \cup Told(e, {}, {}))
              \* a killed load is looked at afterwards: what it did is resolved there
              /\ m' = [m EXCEPT ![e.n] = Load(@, IF IsPrefix(e.said, want) THEN SubSeq(takes, 1, Len(e.said)) ELSE takes)]
         /\ UNCHANGED <<sure, used>> /\ Keep

Addr(e) == IF e.a = 0 THEN 10 + e.n ELSE e.a
PushC == /\ Is("push")
         /\ LET e == Trace[l]  want == PushSaid(m[e.n], m[e.m]) IN
              /\ Judge(e, Died(e) \cup (IF e.killed THEN (IF ~IsPrefix(e.said, want) THEN {"P18:push"} ELSE {})
                                        ELSE IF e.said # want THEN {"P18:push"} ELSE {})
                          \cup (IF e.killed THEN Told(e, {}, To0Reports(want)) ELSE Told(e, To0Reports(want), {})))
              /\ m' = [m EXCEPT ![e.m] = IF e.killed THEN RegisterMaybe(@, want, e.said, Addr(e)) ELSE Register(@, want, Addr(e))]
              /\ Nonces(e)
         /\ UNCHANGED sure /\ Keep

Serve == /\ Is("serve")
         /\ LET e == Trace[l] IN
              /\ Judge(e, Died(e) \cup (IF ~e.ok /\ ~m[e.n].up THEN {"P18:serve"} ELSE {}))
              /\ m' = [m EXCEPT ![e.n].up = TRUE]
         /\ UNCHANGED <<sure, used>> /\ Keep
Kill == /\ Is("kill")
        /\ LET e == Trace[l] IN m' = [m EXCEPT ![e.n].up = FALSE] /\ Judge(e, IF e.early THEN {"P18:server-died"} ELSE {})
        /\ UNCHANGED <<sure, used>> /\ Keep

\* what is in the store of a machine that does not run; k: a load was killed before, which may have done one thing more
Look == /\ Is("look")
        /\ LET e == Trace[l]  s == m[e.n]
               certain == {d \in Devs : 0 \notin s.reg[d]}
               possible == {d \in Devs : s.reg[d] # {0}}
               has == Set(e.has)  reg == Set(e.reg)
               \* a load killed before: any number of those it had still before it
               more == {Load(s, SubSeq(e.next, 1, k)) : k \in 0..Len(e.next)}
               cop == [d \in Devs |-> IF d \in has THEN e.cop[CHOOSE i \in 1..Len(e.has) : e.has[i] = d] ELSE s.cop[d]]
               Same2(x) == \A d \in has \cap x.has : x.cop[d] = cop[d]
           IN /\ Judge(e, (IF ~(s.has \subseteq has) THEN {"P18:voucher-missing"} ELSE {})
                          \cup (IF ~\E x \in more : x.has = has \cup s.has THEN {"P18:voucher-unasked"} ELSE {})
                          \cup (IF ~(certain \subseteq reg) THEN {"P18:registration-missing"} ELSE {})
                          \cup (IF ~(reg \subseteq possible) THEN {"P18:registration-unasked"} ELSE {})
                          \cup (IF ~(sure[e.n].has \subseteq has) \/ ~(sure[e.n].reg \subseteq reg) THEN {"P17:lost"} ELSE {})
                          \cup (IF ~e.same THEN {"P18:voucher-altered"} ELSE IF ~\E x \in more : Same2(x) THEN {"P18:voucher-replaced"} ELSE {})
                          \cup (IF e.seed = "torn" THEN {"P18:seeded-in-part"} ELSE {}))
              /\ m' = [m EXCEPT ![e.n].has = has, ![e.n].cop = [d \in Devs |-> IF cop[d] \in {0, 1} THEN cop[d] ELSE s.cop[d]],
                                ![e.n].reg = [d \in Devs |-> IF d \notin reg THEN {0} ELSE IF s.reg[d] = {0} THEN {0} ELSE s.reg[d] \ {0}]]
              /\ sure' = [sure EXCEPT ![e.n].has = @ \cup has, ![e.n].reg = @ \cup reg]
        /\ UNCHANGED used /\ Keep

To1 == /\ Is("to1")
       /\ LET e == Trace[l]  f == Found(m[e.n], e.d) IN
            /\ Judge(e, Died(e) \cup (IF e.a \in f THEN {} ELSE IF f = {0} THEN {"P18:found-unregistered"} ELSE IF e.a = 0 THEN {"P18:not-found"} ELSE {"P18:address"})
                        \cup Told(e, IF e.a # 0 THEN To1Reports(e.d) ELSE {}, {}))
            /\ m' = [m EXCEPT ![e.n].reg[e.d] = IF e.a \in f /\ m[e.n].up THEN {e.a} ELSE @]
            /\ Nonces(e)
       /\ UNCHANGED sure /\ Keep

To2 == /\ Is("to2")
       /\ LET e == Trace[l]  o == Onboards(m[e.n], e.d) IN
            /\ Judge(e, Died(e) \cup (IF e.ok /\ ~o THEN {"P18:onboarded-unknown"} ELSE {})
                        \cup (IF ~e.ok /\ o /\ ~e.killed THEN {"P18:not-onboarded"} ELSE {})
                        \cup Told(e, IF e.ok THEN To2Reports(e.n, e.d) ELSE {}, IF e.killed THEN To2Reports(e.n, e.d) ELSE {}))
            /\ m' = IF e.killed THEN [m EXCEPT ![e.n].up = FALSE] ELSE m
            /\ Nonces(e)
       /\ UNCHANGED sure /\ Keep

\* the operator
Enter == /\ Is("login")
         /\ LET e == Trace[l] IN
              /\ Judge(e, IF e.ok # m[e.n].up THEN {"P18:login"} ELSE {})
              /\ m' = IF m[e.n].up THEN [m EXCEPT ![e.n] = Login(@)] ELSE m
         /\ UNCHANGED <<sure, used>> /\ Keep
May(e) == m[e.n].up /\ m[e.n].user /\ e.cookie
Make == /\ Is("mk")
        /\ LET e == Trace[l] IN
             /\ Judge(e, IF e.ok # May(e) THEN {"P18:create"} ELSE {})
             /\ m' = IF May(e) THEN [m EXCEPT ![e.n] = NewTest(@)] ELSE m
        /\ UNCHANGED <<sure, used>> /\ Keep
Under == /\ Is("dev")
         /\ LET e == Trace[l]  go == May(e) /\ e.d \notin m[e.n].dev IN
              /\ Judge(e, (IF e.ok # May(e) THEN {"P18:create"} ELSE {})
                          \cup (IF May(e) THEN Told(e, {R("rv", 0, e.d), R("do", 0, e.d)}, {}) ELSE Told(e, {}, {})))
              /\ m' = IF May(e) THEN [m EXCEPT ![e.n] = NewDevice(@, e.d, e.c, 10 + e.n)] ELSE m
              /\ Nonces(e)
         /\ UNCHANGED sure /\ Keep
List == /\ Is("list")
        /\ LET e == Trace[l] s == m[e.n] IN
             /\ Judge(e, IF e.ok # May(e) THEN {"P18:list"}
                         ELSE IF e.ok THEN (IF e.rvt # s.rvt \/ Set(e.dev) # s.dev THEN {"P18:list"} ELSE {})
                                           \cup (IF e.rvt < sure[e.n].rvt \/ ~(sure[e.n].dev \subseteq Set(e.dev)) THEN {"P17:lost"} ELSE {})
                         ELSE {})
             /\ sure' = IF e.ok THEN [sure EXCEPT ![e.n].rvt = e.rvt, ![e.n].dev = Set(e.dev)] ELSE sure
             /\ m' = m
        /\ UNCHANGED used /\ Keep

Empty(o, F(_)) == /\ Is(o)
         /\ LET e == Trace[l] IN
              /\ Judge(e, Died(e) \cup (IF e.ok # ~m[e.n].up THEN {"P18:reset"} ELSE {}))
              /\ m' = IF m[e.n].up THEN m ELSE [m EXCEPT ![e.n] = F(@)]
              /\ sure' = IF m[e.n].up THEN sure ELSE [sure EXCEPT ![e.n].rvt = 0, ![e.n].dev = {}]
         /\ UNCHANGED used /\ Keep
Users == Empty("resetu", ResetUsers)
Tests == Empty("resetl", ResetTests)

\* commands that only read: a voucher shown, a voucher put into PEM
Show == /\ Is("show")
        /\ LET e == Trace[l] IN
             Judge(e, Died(e) \cup (IF e.ok # e.good THEN {"P18:show"} ELSE {}) \cup (IF e.ok /\ ~e.right THEN {"P18:shown-wrong"} ELSE {}))
        /\ Same /\ UNCHANGED used /\ Keep

Next == Reset \/ Generate \/ LoadC \/ PushC \/ Serve \/ Kill \/ Look \/ To1 \/ To2 \/ Enter \/ Make \/ Under \/ List \/ Users \/ Tests \/ Show
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
