------------------------------ MODULE FdoStore ------------------------------
(* What the end of a process may do to the store.  Every operation of the
   services and of the management interface is a sequence of writes, each of
   which is kept entirely or not at all, followed by an answer.  A thing
   somebody can ask for is a record (or several), and what makes it visible is
   a single write: the record itself, or the reference to it in its account,
   written after the records it refers to.

   An operation that was answered survives every later end of the process; an
   operation that was interrupted took place or did not, and nothing else has
   changed.  The trace specifications hold the real code to exactly this:
   AfterCrash in FdoRV and FdoDO, Crash in TraceApi. *)
EXTENDS Naturals, Sequences, FiniteSets

\* the records a thing consists of, by kind
Parts(kind) == CASE kind = "registration" -> <<>> [] kind = "session" -> <<>> [] kind = "server test" -> <<"run 0", "run 1">>
                 [] kind = "device test" -> <<"registered", "voucher", "listener">>
Kinds == {"registration", "session", "server test", "device test"}

W(what, id) == [what |-> what, id |-> id]
Writes(op, kind, id) ==
  CASE op = "make" -> [i \in 1..Len(Parts(kind)) |-> W(Parts(kind)[i], id)] \o <<W("visible", id)>>
    [] op = "drop" -> <<W("hidden", id)>>
    [] op = "change" -> <<W("changed", id)>>

\* disk: [rec |-> set of <<what, id>>, vis |-> ids that can be asked for, ver |-> version of each]
Empty == [rec |-> {}, vis |-> {}, ver |-> {}]
Apply(d, w) ==
  CASE w.what = "visible" -> [d EXCEPT !.vis = @ \cup {w.id}]
    [] w.what = "hidden" -> [d EXCEPT !.vis = @ \ {w.id}]
    [] w.what = "changed" -> [d EXCEPT !.ver = @ \cup {w.id}]
    [] OTHER -> [d EXCEPT !.rec = @ \cup {<<w.what, w.id>>}]
RECURSIVE All(_, _)
All(d, ws) == IF ws = <<>> THEN d ELSE All(Apply(d, Head(ws)), Tail(ws))

\* what can be seen of the store
Visible(d) == [vis |-> d.vis, ver |-> d.ver \cap d.vis]
Whole(d, kind) == \A id \in d.vis : \A i \in 1..Len(Parts(kind[id])) : <<Parts(kind[id])[i], id>> \in d.rec
=============================================================================
