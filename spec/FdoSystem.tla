----------------------------- MODULE FdoSystem -----------------------------
(* The tool as its users run it: machines with a store each, on which the
   command line loads vouchers, registers them with a rendezvous service and
   empties parts of the store while no server runs, and a server answers
   devices and the management interface while it runs.  Machines are started
   and killed at any time.

   A machine:  up    a server is running
               has   devices whose voucher is in the store
               cop   which copy of it: 0 as it was made, 1 passed on to another owner
               reg   what its rendezvous service may answer for each device:
                     a set of addresses, 0 for "not registered"; more than one
                     when a killed command may or may not have got through
               user  the operator's account exists
               rvt   tests of rendezvous services the operator has
               dev   devices under test the operator has, in any order
               lost  device tests whose record was emptied away
   Addresses:  1..9 given by the operator, 10 + n the default of machine n. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Devs

Machine == [up |-> FALSE, has |-> {}, cop |-> [d \in Devs |-> 0], reg |-> [d \in Devs |-> {0}], user |-> FALSE, rvt |-> 0, dev |-> {}]

RangeOf(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

----------------------------------------------------------------------------
(* loading a folder: files in order of their names; k: "dev" a voucher and its
   key, "skip" no .pem file or a folder, "bad" anything else; everything before
   the first bad file is loaded *)
Stops(items) == {i \in 1..Len(items) : items[i].k = "bad"}
Taken(items) == LET s == Stops(items)
                    n == IF s = {} THEN Len(items) ELSE (CHOOSE i \in s : \A j \in s : i <= j) - 1
                    t == SelectSeq(SubSeq(items, 1, n), LAMBDA x : x.k = "dev")
                IN t
Ids(t) == [i \in 1..Len(t) |-> t[i].d]
LoadOk(m, items) == ~m.up /\ Stops(items) = {} /\ items # <<>>
LoadTakes(m, items) == IF m.up THEN <<>> ELSE Taken(items)
RECURSIVE Load(_, _)
\* one after the other: of the copies of a voucher the last one stays
Load(m, t) == IF t = <<>> THEN m ELSE Load([m EXCEPT !.has = @ \cup {t[1].d}, !.cop[t[1].d] = t[1].c], Tail(t))

(* registering everything in a store with the rendezvous service of another machine *)
PushSaid(m, to) == IF m.up \/ ~to.up THEN <<>> ELSE Sorted(m.has)
Register(to, ds, a) == [to EXCEPT !.reg = [d \in Devs |-> IF d \in RangeOf(ds) THEN {a} ELSE @[d]]]
\* killed after saying so much: any of the rest may have got through
RegisterMaybe(to, ds, said, a) ==
  [to EXCEPT !.reg = [d \in Devs |-> IF d \in RangeOf(said) THEN {a} ELSE IF d \in RangeOf(ds) THEN @[d] \cup {a} ELSE @[d]]]

\* a device asks where its owner is, and goes to it
Found(m, d) == IF m.up THEN m.reg[d] ELSE {0}
Onboards(m, d) == m.up /\ d \in m.has

(* the management interface *)
Login(m) == [m EXCEPT !.user = TRUE]
NewTest(m) == [m EXCEPT !.rvt = @ + 1]
NewDevice(m, d, c, a) == [m EXCEPT !.has = @ \cup {d}, !.cop[d] = c, !.reg[d] = {a}, !.dev = @ \cup {d}]
\* the account is gone and with it what it had
ResetUsers(m) == [m EXCEPT !.user = FALSE, !.rvt = 0, !.dev = {}]
ResetTests(m) == [m EXCEPT !.dev = {}]
=============================================================================
