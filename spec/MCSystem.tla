----------------------------- MODULE MCSystem -----------------------------
(* Every order of commands, starts, kills, devices and operators over machines
   of which the first ones load and register vouchers with any other. *)
EXTENDS FdoSystem, TLC, Json

CONSTANTS N, Loaders, Keepers, Given, MaxRvt, EmitEdges, Slip

VARIABLES m, owner, put, last
vars == <<m, owner, put, last>>
\* put[n][d]: the copy of the voucher last given to n;  owner[n][d]: the address the last registration of d at n gave, whoever made it;  last: the last answer

Init == /\ m = [n \in 1..N |-> Machine] /\ owner = [n \in 1..N |-> [d \in Devs |-> 0]] /\ put = owner
        /\ last = [o |-> "", n |-> 0, d |-> 0, a |-> 0, ok |-> FALSE, f |-> <<>>]

Q(o, n, to, d, a, items) == [o |-> o, n |-> n, to |-> to, d |-> d, a |-> a, items |-> items, c |-> 0]
Edge(q) == EmitEdges => PrintT("EDGE " \o ToJson([f |-> m, q |-> q, t |-> m']))
Quiet == last' = [o |-> "", n |-> 0, d |-> 0, a |-> 0, ok |-> FALSE, f |-> <<>>]
Say(o, n, d, a, ok) == last' = [o |-> o, n |-> n, d |-> d, a |-> a, ok |-> ok, f |-> <<>>]

Item(k, d, c) == [k |-> k, d |-> d, c |-> c]
Nothing(k) == Item(k, 0, 0)
Folders == {<<Item("dev", d, c)>> : d \in Devs, c \in 0..1}
           \cup {<<Item("dev", d, 0), Nothing("skip"), Item("dev", e, c)>> : d, e \in Devs, c \in 0..1}
           \cup {<<Item("dev", d, 1), Nothing("bad"), Item("dev", e, 0)>> : d, e \in Devs}
           \cup {<<>>, <<Nothing("skip")>>, <<Nothing("bad")>>}

Load1(n) == \E f \in Folders :
  /\ LET t == LoadTakes(m[n], f)
         new == SelectSeq(t, LAMBDA x : x.d \notin m[n].has)
         last1(d) == t[CHOOSE i \in 1..Len(t) : t[i].d = d /\ \A j \in 1..Len(t) : t[j].d = d => j <= i].c IN
       /\ m' = [m EXCEPT ![n] = Load(@, IF Slip = "skips" /\ Len(t) > 1 THEN <<t[1]>> ELSE IF Slip = "first" THEN new ELSE t)]
       /\ put' = [put EXCEPT ![n] = [d \in Devs |-> IF \E i \in 1..Len(t) : t[i].d = d THEN last1(d) ELSE @[d]]]
  /\ UNCHANGED owner /\ last' = [o |-> "load", n |-> n, d |-> 0, a |-> 0, ok |-> LoadOk(m[n], f), f |-> f] /\ Edge(Q("load", n, 0, 0, 0, f))
Push1(n, to) == \E a \in Given :
  UNCHANGED put /\ LET ds == PushSaid(m[n], m[to])
      x == IF a = 0 THEN (IF Slip = "whose" THEN 10 + to ELSE 10 + n) ELSE a IN
  /\ m' = [m EXCEPT ![to] = Register(@, ds, x)]
  /\ owner' = [owner EXCEPT ![to] = [d \in Devs |-> IF d \in RangeOf(ds) THEN (IF a = 0 THEN 10 + n ELSE a) ELSE @[d]]]
  /\ Quiet /\ Edge(Q("push", n, to, 0, a, <<>>))
Serve(n) == /\ ~m[n].up /\ m' = [m EXCEPT ![n].up = TRUE] /\ UNCHANGED <<owner, put>> /\ Quiet /\ Edge(Q("serve", n, 0, 0, 0, <<>>))
Kill(n) == /\ m[n].up
           /\ m' = [m EXCEPT ![n] = IF Slip = "forgets" THEN [@ EXCEPT !.up = FALSE, !.reg = [d \in Devs |-> {0}]] ELSE [@ EXCEPT !.up = FALSE]]
           /\ UNCHANGED <<owner, put>> /\ Quiet /\ Edge(Q("kill", n, 0, 0, 0, <<>>))
To1(n, d) == \E a \in Found(m[n], d) : UNCHANGED <<m, owner, put>> /\ Say("to1", n, d, a, a # 0) /\ Edge(Q("to1", n, 0, d, 0, <<>>))
To2(n, d) == UNCHANGED <<m, owner, put>> /\ Say("to2", n, d, 0, Onboards(m[n], d)) /\ Edge(Q("to2", n, 0, d, 0, <<>>))
Enter(n) == /\ n \in Keepers /\ m[n].up /\ m' = [m EXCEPT ![n] = Login(@)] /\ UNCHANGED <<owner, put>> /\ Quiet /\ Edge(Q("login", n, 0, 0, 0, <<>>))
Make(n) == /\ n \in Keepers /\ m[n].up /\ m[n].user /\ m[n].rvt < MaxRvt /\ m' = [m EXCEPT ![n] = NewTest(@)] /\ UNCHANGED <<owner, put>> /\ Quiet
           /\ Edge(Q("mk", n, 0, 0, 0, <<>>))
Under(n, d) == \E c \in 0..1 : /\ n \in Keepers /\ m[n].up /\ m[n].user /\ d \notin m[n].dev /\ m' = [m EXCEPT ![n] = NewDevice(@, d, c, 10 + n)]
               /\ put' = [put EXCEPT ![n][d] = c]
               /\ owner' = [owner EXCEPT ![n][d] = 10 + n] /\ Quiet /\ Edge([Q("dev", n, 0, d, 0, <<>>) EXCEPT !.c = c])
Users(n) == n \in Keepers /\ ~m[n].up /\ m' = [m EXCEPT ![n] = ResetUsers(@)] /\ UNCHANGED <<owner, put>> /\ Quiet /\ Edge(Q("resetu", n, 0, 0, 0, <<>>))
Tests(n) == n \in Keepers /\ ~m[n].up /\ m' = [m EXCEPT ![n] = ResetTests(@)] /\ UNCHANGED <<owner, put>> /\ Quiet /\ Edge(Q("resetl", n, 0, 0, 0, <<>>))

Next == \E n \in 1..N :
  \/ (n \in Loaders /\ (Load1(n) \/ \E to \in 1..N \ {n} : Push1(n, to)))
  \/ Serve(n) \/ Kill(n) \/ \E d \in Devs : To1(n, d) \/ To2(n, d) \/ Under(n, d)
  \/ Enter(n) \/ Make(n) \/ Users(n) \/ Tests(n)
Spec == Init /\ [][Next]_vars
View == <<m, owner, put>>

----------------------------------------------------------------------------
\* the rendezvous service of n answers for d exactly what its last owner asked for
Redirect == \A n \in 1..N, d \in Devs : m[n].reg[d] = {owner[n][d]}
\* whoever a machine is pointed out as the owner has the voucher
Owned == \A n, k \in 1..N, d \in Devs : 10 + k \in m[n].reg[d] => d \in m[k].has
\* the way of a device: pointed to a machine that is running, it is onboarded there
Arrives == \A n, k \in 1..N, d \in Devs : (m[n].up /\ m[k].up /\ 10 + k \in Found(m[n], d)) => Onboards(m[k], d)
\* nothing but the operator takes anything away
\* of two copies of a voucher the one given last is used
LastCopy == \A n \in 1..N, d \in Devs : d \in m[n].has => m[n].cop[d] = put[n][d]
Kept == [][\A n \in 1..N : /\ m[n].has \subseteq m'[n].has
                           /\ \A d \in Devs : 0 \in m'[n].reg[d] => 0 \in m[n].reg[d]
                           /\ (m'[n].rvt < m[n].rvt \/ ~(m[n].dev \subseteq m'[n].dev)) => ~m[n].up /\ ~m'[n].up]_vars
\* a folder without bad files is loaded as a whole
WholeFolder == [][(last'.o = "load" /\ last'.ok) =>
                    LET n == last'.n  f == last'.f IN m'[n].has = m[n].has \cup {f[i].d : i \in {j \in 1..Len(f) : f[j].k = "dev"}}]_vars
=============================================================================
