------------------------------- MODULE MCApi -------------------------------
(* All histories of the management interface within bounds: logins of several
   accounts come and go, every endpoint is called with every login (and with
   none), well-formed or not, on every test, protocol and run there is or is
   not.  What is granted is what FdoApi allows; which mistakes of an
   implementation the properties would show is tried out with Slip. *)
EXTENDS FdoApi, TLC, Json

CONSTANTS NU, NS, NT, NR, KindsUsed, Moving, EmitEdges, Slip

VARIABLES st, nk, nt, nr, act, gone
vars == <<st, nk, nt, nr, act, gone>>

Pre == [Fresh EXCEPT !.sess = {[k |-> u, u |-> u, live |-> TRUE, flag |-> FALSE] : u \in 1..NU}
                              \cup {[k |-> NU + 1, u |-> 1, live |-> FALSE, flag |-> TRUE], [k |-> NU + 2, u |-> 0, live |-> TRUE, flag |-> FALSE]}]
Init == /\ st = IF Moving THEN Fresh ELSE Pre
        /\ nk = IF Moving THEN 0 ELSE NU + 2
        /\ nt = 0 /\ nr = 0 /\ gone = {}
        /\ act = [u |-> 0, ep |-> "", granted |-> FALSE, c |-> 0]

Brief(s) == [s |-> s.sess, t |-> {[id |-> t.id, u |-> t.u, k |-> t.kind] : t \in s.tests}, r |-> {<<x.id, x.p, x.r>> : x \in s.runs}, l |-> {t.id : t \in s.past}]
State == [b |-> Brief(st), nk |-> nk, nt |-> nt, nr |-> nr]
Edge(q, cls) == EmitEdges => PrintT("EDGE " \o ToJson([f |-> State, q |-> [q |-> q, cls |-> cls], t |-> [b |-> Brief(st'), nk |-> nk', nt |-> nt', nr |-> nr']]))

\* a slip of the implementation: something granted that may not be
Loose(q) ==
  CASE Slip = "nolive" -> q.good /\ q.c # 0 /\ \E s \in st.sess : s.k = q.c /\ s.u # 0
    [] Slip = "noowner" -> q.good /\ Allowed(st, q.c) /\ (q.ep \in NeedsTest => \E t \in st.tests : t.id = q.id /\ t.kind = q.kind /\ q.p \in Protocols(q.kind))
    [] OTHER -> FALSE
\* whom the slipping implementation takes the caller for
Slippy(s, q) == IF Slip = "nolive" /\ ~Known(st, q.c) THEN [s EXCEPT !.sess = {[x EXCEPT !.live = TRUE] : x \in @}] ELSE s

Call(q) ==
  \E granted \in BOOLEAN :
    /\ granted => May(st, q) \/ Loose(q)
    /\ Must(st, q) => granted
    /\ LET s == Slippy(st, q)
           t == IF granted THEN Effect(s, q) ELSE st IN
         /\ st' = [t EXCEPT !.sess = {IF x \in st.sess THEN x ELSE IF \E y \in st.sess : y.k = x.k THEN CHOOSE y \in st.sess : y.k = x.k ELSE x : x \in @}]
         /\ nt' = nt + (IF granted /\ q.ep = "create" THEN 1 ELSE 0)
         /\ nr' = nr + (IF granted /\ q.ep \in {"exec", "start"} /\ ~Void(q) THEN 1 ELSE 0)
         /\ nk' = nk + (IF granted /\ q.ep = "login" THEN 1 ELSE 0)
         /\ gone' = gone \cup (IF granted /\ q.ep = "logout" THEN {q.c} ELSE {})
         /\ act' = [u |-> IF Allowed(st, q.c) THEN Who(st, q.c) ELSE 0, ep |-> q.ep, granted |-> granted, c |-> q.c]
         /\ Edge(q, <<q.ep, q.kind, q.good,
                      IF q.c = 0 THEN "none" ELSE IF ~\E x \in st.sess : x.k = q.c THEN "gone" ELSE IF ~Known(st, q.c) THEN "half" ELSE IF Who(st, q.c) = 0 THEN "nobody" ELSE "user",
                      IF q.id = 0 THEN "none" ELSE IF ~\E x \in st.tests : x.id = q.id THEN "lost" ELSE IF Allowed(st, q.c) /\ \E x \in Own(st, Who(st, q.c)) : x.id = q.id THEN "own" ELSE "foreign",
                      q.p, IF q.r = 0 THEN "none" ELSE IF \E x \in st.runs : x.r = q.r /\ x.id = q.id /\ x.p = q.p THEN "there" ELSE "elsewhere",
                      granted>>)

Q(ep, kind, c, good) == [ep |-> ep, kind |-> kind, c |-> c, good |-> good, u |-> 1, id |-> 0, p |-> 0, r |-> 0, new |-> 0, data |-> 0, dig |-> 0]
Callers == 0..nk
Goods == {TRUE, FALSE}
KindOf(i) == IF \E t \in st.tests : t.id = i THEN (CHOOSE t \in st.tests : t.id = i).kind ELSE "rvt"
ProtosAsked(kind) == IF kind = "dev" THEN 0..2 ELSE Protocols(kind)

Login1 == /\ nk < NS /\ \E g \in Goods : Call([Q("login", "", 0, g) EXCEPT !.new = nk + 1])
Given == /\ nk < NS
         /\ \E u \in 0..NU, live \in BOOLEAN :
              /\ st' = [st EXCEPT !.sess = @ \cup {[k |-> nk + 1, u |-> u, live |-> live, flag |-> ~live]}]
              /\ nk' = nk + 1 /\ UNCHANGED <<nt, nr, gone>>
              /\ act' = [u |-> 0, ep |-> "sess", granted |-> FALSE, c |-> 0]
              /\ Edge([Q("sess", "", nk + 1, live) EXCEPT !.u = u], <<"sess", u, live>>)
Ends == \E k \in 1..nk : /\ \E s \in st.sess : s.k = k
                         /\ st' = Expire(st, k) /\ gone' = gone \cup {k} /\ UNCHANGED <<nk, nt, nr>>
                         /\ act' = [u |-> 0, ep |-> "expire", granted |-> FALSE, c |-> 0]
                         /\ Edge(Q("expire", "", k, TRUE), <<"expire">>)
Lost == \E t \in st.tests : /\ t.kind # "dev" /\ st' = Lapse(st, t.id) /\ UNCHANGED <<nk, nt, nr, gone>>
                            /\ act' = [u |-> t.u, ep |-> "lapse", granted |-> FALSE, c |-> 0]
                            /\ Edge([Q("lapse", t.kind, 0, TRUE) EXCEPT !.id = t.id], <<"lapse", t.kind>>)
Simple == \E ep \in {"loggedin", "logout", "purge"}, c \in Callers, g \in Goods : Call(Q(ep, "", c, g))
Lists == \E kind \in KindsUsed, c \in Callers, g \in Goods : Call(Q("list", kind, c, g))
Creates == nt < NT /\ \E kind \in KindsUsed, c \in Callers, g \in Goods : Call([Q("create", kind, c, g) EXCEPT !.new = nt + 1])
Runs == nr < NR /\ \E c \in Callers, g \in Goods, i \in 0..nt, kind \in KindsUsed : \E p \in ProtosAsked(kind) :
           Call([Q(IF kind = "dev" THEN "start" ELSE "exec", kind, c, g) EXCEPT !.id = IF i # 0 /\ KindOf(i) = kind THEN i ELSE 0, !.p = p, !.new = nr + 1])
Dels == \E c \in Callers, g \in Goods, i \in 0..nt, kind \in KindsUsed, r \in 0..nr : \E p \in ProtosAsked(kind) :
           Call([Q("del", kind, c, g) EXCEPT !.id = IF i # 0 /\ KindOf(i) = kind THEN i ELSE 0, !.p = p, !.r = r])
Fetch == "dot" \in KindsUsed /\ \E c \in Callers, g \in Goods, i \in 0..nt : Call([Q("vouchers", "dot", c, g) EXCEPT !.id = IF i # 0 /\ KindOf(i) = "dot" THEN i ELSE 0, !.p = 2])

Next == (Moving /\ (Login1 \/ Given \/ Ends)) \/ Lost \/ Simple \/ Lists \/ Creates \/ Runs \/ Dels \/ Fetch
Spec == Init /\ [][Next]_vars

View1 == <<State, gone>>

----------------------------------------------------------------------------
Sound == /\ \A x \in st.runs : \E t \in st.tests : t.id = x.id /\ x.p \in Protocols(t.kind)
         /\ \A t, v \in st.tests : t.id = v.id => t = v
         /\ \A x, y \in st.runs : x.r = y.r => x = y
         /\ \A s, x \in st.sess : s.k = x.k => s = x
         /\ \A t \in st.tests : t.u \in 1..NU
\* nothing of an account changes but by a call of its own (or by running out)
Isolated == [][\A u \in 1..NU : View(st, u) # View(st', u) => act'.u = u]_vars
\* a login that has ended never does anything again
Ended == [][act'.granted /\ act'.c # 0 => act'.c \notin gone]_vars
\* nothing disappears by itself
Kept == [][/\ \A t \in st.tests : t \in st'.tests \/ act'.ep \in {"purge", "lapse"}
           /\ \A x \in st.runs : x \in st'.runs \/ act'.ep \in {"purge", "lapse", "del"}]_vars
\* only live logins of accounts that exist have any effect at all
Authority == [][(st.tests # st'.tests \/ st.runs # st'.runs) /\ act'.ep # "lapse" => act'.granted /\ \E s \in st.sess : s.k = act'.c /\ s.live /\ s.u # 0]_vars
=============================================================================
