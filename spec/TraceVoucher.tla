---------------------------- MODULE TraceVoucher ----------------------------
(* Validates what the real code says about vouchers built step by step. *)
EXTENDS FdoVoucher, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Range(s) == {s[i] : i \in 1..Len(s)}

VARIABLES l, v, det
vars == <<l, v, det>>

Contra(verdict, res) == (verdict = "yes" /\ res = "no") \/ (verdict = "no" /\ res = "yes")

\* e.valid: Validate;  e.ents: entry verification alone;  e.pem: import of an exported voucher
Wrong(e, w) ==
  (IF "panic" \in {e.valid, e.ents, e.pem, e.store} THEN {"P08:crash", "P11:crash"} ELSE {})
  \cup (IF Verdict(w) = "no" /\ e.valid = "yes" THEN {"P08:accepted-broken"} ELSE {})
  \cup (IF Verdict(w) = "yes" /\ e.valid = "no" THEN {"P08:refused-intact"} ELSE {})
  \cup (IF Contra(EntriesVerdict(w), e.ents) THEN {"P08:entries-verdict"} ELSE {})
  \cup (IF Contra(Verdict(w), e.pem) THEN {"P08:import-verdict"} ELSE {})
  \cup (IF Verdict(w) = "yes" /\ e.pem = "yes" /\ ~e.pemsame THEN {"P08:import-changed"} ELSE {})
  \cup (IF Verdict(w) = "yes" /\ ~(e.store = "yes" /\ e.storesame) THEN {"P08:storage-changed"} ELSE {})
  \cup (IF ~e.pure THEN {"P08:validation-alters-voucher"} ELSE {})
  \cup (IF Verdict(w) = "yes" /\ e.final # FinalKey(w) THEN {"P08:final-owner"} ELSE {})

Report(e, w) == PrintT("VIOL " \o ToJson([tr |-> e.tr, i |-> e.i, line |-> l, tags |-> w]))

Init == l = 1 /\ v = Honest(1, 0, 0) /\ det = FALSE
More == l <= Len(Trace) /\ l' = l + 1
Judge(e, w) == LET x == Wrong(e, w) IN x # {} => Report(e, x)

Reset == /\ More /\ Trace[l].op = "reset"
         /\ v' = Honest(1, Trace[l].base, 0) /\ det' = Trace[l].det
         /\ Judge(Trace[l], v')

\* editing steps; a step that is not possible is skipped by the driver too
Edit == /\ More /\ Trace[l].op \notin {"reset", "gen", "fuzz"}
        /\ LET e == Trace[l] IN
             /\ v' = IF Enabled(v, e) THEN Apply(v, e, IF det THEN 0 ELSE e.i) ELSE v
             /\ Judge(e, v')
        /\ UNCHANGED det

\* a voucher made by the tool itself
GenFacts == {"valid", "chain", "hash", "hmac", "guid", "devinfo", "entries", "key", "pem", "store", "cred"}
Generate == /\ More /\ Trace[l].op = "gen"
            /\ LET e == Trace[l]
                   w == UNION {{"P08:generated-" \o f} : f \in GenFacts \ Range(e.facts)} \cup (IF e.res # "ok" THEN {"P08:generation-failed"} ELSE {})
               IN w # {} => Report(e, w)
            /\ UNCHANGED <<v, det>>

\* altered bytes: anything but a crash; what is accepted must decode to an intact voucher
Fuzz == /\ More /\ Trace[l].op = "fuzz"
        /\ LET e == Trace[l]
               w == (IF "panic" \in {e.valid, e.pem} THEN {"P08:crash", "P11:crash"} ELSE {})
                    \cup (IF (e.valid = "yes" \/ e.pem = "yes") /\ ~e.intact THEN {"P08:accepted-broken"} ELSE {})
           IN w # {} => Report(e, w)
        /\ UNCHANGED <<v, det>>

Next == Reset \/ Edit \/ Generate \/ Fuzz
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
