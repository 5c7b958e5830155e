------------------------------- MODULE MCStore -------------------------------
(* All interleavings of operations, writes, answers and ends of the process
   over FdoStore, with callers trying again after an end. *)
EXTENDS FdoStore, TLC

CONSTANTS N, MaxEnds, Slip

VARIABLES disk, mem,     \* the store, and what the process believes to be in it
          todo, cur,     \* writes still to be done, the operation going on
          kind, made,
          told,          \* ghost: the store after every operation that was answered
          maybe,         \* ghost: and after one that was interrupted, too
          ends
vars == <<disk, mem, todo, cur, kind, made, told, maybe, ends>>

None == [op |-> "none", id |-> 0, left |-> <<>>]
Init == /\ disk = Empty /\ mem = Empty /\ todo = <<>> /\ cur = None /\ made = 0 /\ ends = 0
        /\ kind \in [1..N -> Kinds]
        /\ told = Empty /\ maybe = Empty

Order(ws) == IF Slip = "visible first" /\ Len(ws) > 1 THEN <<ws[Len(ws)]>> \o SubSeq(ws, 1, Len(ws) - 1) ELSE ws

Ask == /\ cur = None
       /\ \E op \in {"make", "drop", "change"}, id \in 1..N :
            /\ IF op = "make" THEN id = made + 1 ELSE id \in mem.vis
            /\ op = "change" => id \notin mem.ver
            /\ LET ws == Order(Writes(op, kind[id], id)) IN
                 /\ cur' = [op |-> op, id |-> id, left |-> ws]
                 /\ todo' = todo \o ws
                 /\ maybe' = All(told, Writes(op, kind[id], id))
            /\ made' = IF op = "make" THEN made + 1 ELSE made
       /\ UNCHANGED <<disk, mem, kind, told, ends>>

\* a write reaches the store
Write == /\ todo # <<>>
         /\ disk' = Apply(disk, Head(todo)) /\ todo' = Tail(todo)
         /\ mem' = IF Slip = "later" THEN mem ELSE disk'
         /\ UNCHANGED <<cur, kind, made, told, maybe, ends>>

\* the caller is told
Answer == /\ cur # None
          /\ todo = <<>> \/ Slip = "later"
          /\ mem' = All(mem, cur.left)
          /\ told' = maybe /\ cur' = None
          /\ UNCHANGED <<disk, todo, kind, made, maybe, ends>>

\* the process ends; the next one knows what is in the store and nothing else
End == /\ ends < MaxEnds /\ ends' = ends + 1
       /\ mem' = disk /\ todo' = <<>> /\ cur' = None
       \* an interrupted operation took place or did not
       /\ told' = IF cur # None /\ Visible(disk) = Visible(maybe) THEN maybe ELSE told
       /\ maybe' = told'
       /\ UNCHANGED <<disk, kind, made>>

Next == Ask \/ Write \/ Answer \/ End
Spec == Init /\ [][Next]_vars

\* an answered operation is in the store, an unanswered one at most; with no operation going on, nothing else is
Durable == /\ Visible(disk) \in {Visible(told), Visible(maybe)} \/ (cur = None /\ todo # <<>>)
           /\ cur = None => Visible(disk) = Visible(told)
\* and what can be asked for is complete
NotTorn == Whole(disk, kind)
=============================================================================
