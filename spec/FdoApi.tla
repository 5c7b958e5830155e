------------------------------- MODULE FdoApi -------------------------------
(* The management interface: accounts, logins, tests and their runs.

   A call is made with the cookie of some login (c) or with something that is
   no login at all (c = 0), asks for an endpoint (ep), may be malformed
   (~good), and may name a test (id), a protocol (p) and a run (r), 0 meaning
   one that does not exist.  Only a live login gets anything, and it gets at
   nothing but the tests its own account has created. *)
EXTENDS Naturals, Sequences, FiniteSets

Kinds == {"rvt", "dot", "dev"}
Protocols(kind) == CASE kind = "rvt" -> {0, 1} [] kind = "dot" -> {2} [] OTHER -> {1, 2}

\* logins: [k |-> number, u |-> account (0: an account that does not exist), live |-> BOOLEAN]
\* tests:  [id, u, kind, data]      runs: [id, p, r, dig]
Fresh == [sess |-> {}, tests |-> {}, runs |-> {}, past |-> {}]

Login(st, c) == {s \in st.sess : s.k = c /\ s.live}
Known(st, c) == c # 0 /\ Login(st, c) # {}
Who(st, c) == (CHOOSE s \in Login(st, c) : TRUE).u
Allowed(st, c) == Known(st, c) /\ Who(st, c) # 0

Own(st, u) == {t \in st.tests : t.u = u}
View(st, u) == {[id |-> t.id, kind |-> t.kind, data |-> t.data, runs |-> {[p |-> x.p, r |-> x.r, dig |-> x.dig] : x \in {y \in st.runs : y.id = t.id}}] : t \in Own(st, u)}
Mine(st, u, kind, id, p) == id # 0 /\ p \in Protocols(kind) /\ \E t \in Own(st, u) : t.id = id /\ t.kind = kind
\* one that has run out: nothing can be had from it, but taking away a run of it needs no refusal
Was(st, u, kind, id, p) == id # 0 /\ p \in Protocols(kind) /\ \E t \in st.past : t.u = u /\ t.id = id /\ t.kind = kind

\* devices have no tests in protocol 0: asking for one is pointless, but needs no refusal
Void(q) == q.kind = "dev" /\ q.p = 0
Has(st, q) == LET p == IF Void(q) THEN 1 ELSE q.p IN
              \/ Mine(st, Who(st, q.c), q.kind, q.id, p) /\ (Void(q) => q.ep \in {"del", "start"})
              \/ Was(st, Who(st, q.c), q.kind, q.id, p) /\ q.ep = "del"
NeedsTest == {"exec", "del", "start", "vouchers"}
\* what has to be granted, what may be granted
May(st, q) ==
  /\ q.good
  /\ CASE q.ep = "login" -> TRUE
       [] q.ep = "loggedin" -> Known(st, q.c)
       [] q.ep = "logout" -> q.c # 0 /\ \E s \in st.sess : s.k = q.c /\ (s.live \/ s.flag)
       [] q.ep \in NeedsTest -> Allowed(st, q.c) /\ Has(st, q)
       [] OTHER -> Allowed(st, q.c)
Must(st, q) ==
  /\ May(st, q)
  /\ CASE q.ep = "loggedin" -> Allowed(st, q.c)
       [] q.ep = "logout" -> Allowed(st, q.c)
       [] q.ep = "del" -> \E x \in st.runs : x.id = q.id /\ x.p = q.p /\ x.r = q.r
       [] q.ep = "start" -> ~Void(q)
       [] OTHER -> TRUE

DropTests(st, gone) == [st EXCEPT !.tests = @ \ gone, !.runs = {x \in @ : \A t \in gone : t.id # x.id}]

Effect(st, q) ==
  CASE q.ep = "login" -> [st EXCEPT !.sess = @ \cup {[k |-> q.new, u |-> q.u, live |-> TRUE, flag |-> FALSE]}]
    [] q.ep = "logout" -> [st EXCEPT !.sess = {s \in @ : s.k # q.c}]
    [] q.ep = "purge" -> DropTests([st EXCEPT !.past = {t \in @ : t.u # Who(st, q.c)}], Own(st, Who(st, q.c)))
    [] q.ep = "create" -> [st EXCEPT !.tests = @ \cup {[id |-> q.new, u |-> Who(st, q.c), kind |-> q.kind, data |-> q.data]}]
    [] q.ep \in {"exec", "start"} /\ ~Void(q) -> [st EXCEPT !.runs = @ \cup {[id |-> q.id, p |-> q.p, r |-> q.new, dig |-> q.dig]}]
    [] q.ep = "del" -> [st EXCEPT !.runs = {x \in @ : ~(x.id = q.id /\ x.p = q.p /\ x.r = q.r)}]
    [] OTHER -> st

After(st, q, granted) == IF granted /\ May(st, q) THEN Effect(st, q) ELSE st

\* not calls: things that happen
Expire(st, k) == [st EXCEPT !.sess = {s \in @ : s.k # k}]
Lapse(st, id) == LET x == {t \in st.tests : t.id = id} IN DropTests([st EXCEPT !.past = @ \cup x], x)
=============================================================================
