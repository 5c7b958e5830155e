----------------------------- MODULE MCRunHist -----------------------------
(* The bookkeeping of conformance runs: runs of several instances start,
   overlap, end and are deleted, also while they are in progress, and
   instances disappear.  The behaviours are replayed into the real store. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Insts, MaxRuns, MaxOps, EmitEdges

VARIABLES runs, open, hist, gone, path
vars == <<runs, open, hist, gone, path>>

Init == runs = <<>> /\ open = <<>> /\ hist = [i \in Insts |-> <<>>] /\ gone = {} /\ path = <<>>

Go(op) == path' = Append(path, op)

\* runs overlap by nesting: the one that started last ends first
StartRun(i) == /\ Len(runs) < MaxRuns /\ Len(open) < 3
               /\ runs' = Append(runs, i)
               /\ open' = Append(open, Len(runs) + 1)
               /\ hist' = IF i \in gone THEN hist ELSE [hist EXCEPT ![i] = <<Len(runs) + 1>> \o @]
               /\ UNCHANGED gone
               /\ Go([o |-> "start", i |-> i])

EndRun == /\ open # <<>>
          /\ open' = SubSeq(open, 1, Len(open) - 1)
          /\ UNCHANGED <<runs, hist, gone>>
          /\ Go([o |-> "end", i |-> 0])

Remove(r) == /\ r <= Len(runs)
             /\ \E k \in 1..Len(hist[runs[r]]) : hist[runs[r]][k] = r
             /\ hist' = [hist EXCEPT ![runs[r]] = SelectSeq(@, LAMBDA x : x # r)]
             /\ UNCHANGED <<runs, open, gone>>
             /\ Go([o |-> "remove", i |-> r])

Vanish(i) == /\ i \notin gone /\ \E r \in 1..Len(runs) : runs[r] = i
             /\ gone' = gone \cup {i} /\ hist' = [hist EXCEPT ![i] = <<>>]
             /\ UNCHANGED <<runs, open>>
             /\ Go([o |-> "gone", i |-> i])

Next == /\ Len(path) < MaxOps
        /\ ((\E i \in Insts : StartRun(i)) \/ EndRun \/ (\E r \in 1..MaxRuns : Remove(r)) \/ (\E i \in Insts : Vanish(i)))

Emit == IF EmitEdges /\ open' = <<>> /\ Len(runs) > 0 THEN PrintT("EDGE " \o ToJson([f |-> <<>>, q |-> path', t |-> <<>>])) ELSE TRUE
Spec == Init /\ [][Next /\ Emit]_vars

----------------------------------------------------------------------------
\* what is stored is what happened: newest first, every run under its own instance, none twice
Kept == \A i \in Insts : \A k \in 1..Len(hist[i]) : /\ runs[hist[i][k]] = i
                                                    /\ \A j \in (k + 1)..Len(hist[i]) : hist[i][j] < hist[i][k]
Gone == \A i \in gone : hist[i] = <<>>
=============================================================================
