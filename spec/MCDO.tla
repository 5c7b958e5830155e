-------------------------------- MODULE MCDO --------------------------------
(* Exhaustive exploration of FdoDO for small constants, checking P04, P05,  *)
(* P06, P07 and P10 against independent ghost variables.                    *)
EXTENDS FdoDO, TLC, Json

CONSTANTS MaxSess, EmitEdges, Full, DevUsed, NOwn, WithRv

VARIABLES sess,
          gs,     \* ghost: per session what an observer of requests and answers has seen
          last    \* ghost: last request and its outcome

vars == <<sess>>

Env == [nent |-> <<2, 1, 3>>, nown |-> <<NOwn, 0, 0>>, orsa |-> FALSE, dsg |-> "ec256"]

Honest == [op |-> "none", s |-> 0, tokk |-> "sess", m |-> "POST", ct |-> "ok", body |-> "ok", g |-> 0, kex |-> "cfg", cipher |-> "cfg",
           sgk |-> "match", idx |-> 0, nonce |-> 0, signer |-> "dev", sigk |-> "ok", euph |-> "ok", xb |-> "ok", pay |-> "ok",
           enc |-> "ok", ks |-> 0, more |-> FALSE, sims |-> <<>>, d |-> 0]

BadTok  == {"none", "nobearer", "basic", "three", "unknown", "prefix", "emptytok", "empty", "slash", "long", "dbkey", "upper"}
BadBody == {"empty", "trunc", "half", "garbage", "int", "emptymap", "longarr", "deep", "text", "trailing", "double", "zeros", "readerr"}
BadEnc  == {"ct", "tag", "iv", "alg", "algraw", "noalg", "noiv", "shortiv", "longiv", "trunc", "empty", "cut", "extra", "retag", "plain",
            "otherkey", "nokey", "suite", "prot", "shorttag", "emptytag", "longtag", "hash"}
BadPay  == {"empty", "trunc", "garbage", "int", "emptyarr", "trailing"}

Some(S, R) == IF Full THEN S ELSE S \cap R
Http(q) == IF ~Full THEN {} ELSE {[q EXCEPT !.m = x] : x \in {"GET", "PUT"}} \cup {[q EXCEPT !.ct = x] : x \in {"none", "json", "param"}}
Toks(q) == {[q EXCEPT !.tokk = x] : x \in Some(BadTok, {"unknown"})}
Bods(q) == {[q EXCEPT !.body = x] : x \in Some(BadBody, {"trunc"})}
Encs(q) == {[q EXCEPT !.enc = x] : x \in Some(BadEnc, {"ct"})} \cup {[q EXCEPT !.ks = x] : x \in {0} \cup {y \in 1..Len(sess) : sess[y].p = "do"}}
Pays(q) == {[q EXCEPT !.pay = x] : x \in Some(BadPay, {"trunc"})}

Req20 == IF WithRv THEN {[Honest EXCEPT !.op = "rv20"]} ELSE {}
Req60 == UNION {LET h == [Honest EXCEPT !.op = "h60", !.g = g] IN
                {h} \cup Http(h) \cup Bods(h)
                \cup {[h EXCEPT !.kex = x] : x \in Some({"asym", "bad", "empty", "lower"}, {"asym", "bad"})}
                \cup {[h EXCEPT !.cipher = x] : x \in Some({"cbc", "ctr256", "bad", "zero"}, {"bad"})}
                \cup {[h EXCEPT !.sgk = x] : x \in Some({"other", "rsa2048", "rsa3072", "invalid", "zero"}, {"other"})}
                \cup (IF Full THEN {[h EXCEPT !.body = "nearguid"]} ELSE {})
              : g \in DevUsed \cup {0, 4}}
Sess == 1..Len(sess)
S(op) == {[Honest EXCEPT !.op = op, !.s = s, !.nonce = s, !.ks = s] : s \in Sess}
Req62 == UNION {{h} \cup Http(h) \cup Toks(h) \cup Bods(h) \cup {[h EXCEPT !.idx = x] : x \in {1, 2} \cup Some({3, 255, 256, -1}, {})} : h \in S("h62")}
Req64 == UNION {{h} \cup Http(h) \cup Toks(h) \cup Bods(h)
                \cup {[h EXCEPT !.signer = x] : x \in Some({"otherkey", "otherdev", "ownerkey", "ca"}, {"otherkey"})}
                \cup {[h EXCEPT !.sigk = x] : x \in Some({"flip", "empty", "zero", "long", "trunc", "payload", "prot", "protkid"}, {"flip"})}
                \cup {[h EXCEPT !.euph = x] : x \in Some({"none", "other"}, {"none"})}
                \cup {[h EXCEPT !.xb = x] : x \in Some({"empty", "bad", "short", "long", "zero"}, {"bad"})}
                \cup {[h EXCEPT !.pay = x] : x \in Some(BadPay \cup {"nofdo", "nononce"}, {"nononce"})}
                \cup {[h EXCEPT !.nonce = x] : x \in Sess \cup {0} \cup Some({-1}, {})}
                \cup {[h EXCEPT !.d = x] : x \in 1..3}
              : h \in S("h64")}
Req66 == UNION {{h} \cup Http(h) \cup Toks(h) \cup Bods(h) \cup Encs(h) \cup Pays(h) : h \in S("h66")}
All9  == <<1, 2, 3, 4, 5, 6, 7, 8, 9>>
Splits == {All9, <<1, 2, 3, 4>>, <<5, 6, 7, 8, 9>>, <<>>, <<11, 2, 3, 4, 5, 6, 7, 8, 9>>}
          \cup (IF Full THEN {<<9, 8, 7, 6, 5, 4, 3, 2, 1>>, <<1, 2, 3, 4, 5, 6, 7, 8>>, <<20, 21>>, All9 \o <<9, 1, 20>>} ELSE {})
Req68 == UNION {UNION {LET h == [h0 EXCEPT !.sims = x, !.more = b] IN {h} : x \in Splits, b \in BOOLEAN}
                \cup LET g == [h0 EXCEPT !.sims = All9] IN Http(g) \cup Toks(g) \cup Bods(g) \cup Encs(g) \cup Pays(g)
                \cup (IF Full THEN {[h0 EXCEPT !.sims = [i \in 1..9 |-> IF i = k THEN i + 10 ELSE i]] : k \in 1..9}
                                   \cup {[h0 EXCEPT !.sims = [i \in 1..8 |-> IF i < k THEN i ELSE i + 1]] : k \in 1..9} ELSE {})
              : h0 \in S("h68")}
Req70 == UNION {{h} \cup Http(h) \cup Toks(h) \cup Bods(h) \cup Encs(h) \cup Pays(h) \cup {[h EXCEPT !.nonce = x] : x \in Sess \cup {0, -1}} : h \in S("h70")}
ReqX  == IF WithRv THEN S("x22") \cup S("x32") ELSE {}
ReqExp == {[Honest EXCEPT !.op = "expsess", !.s = s] : s \in {x \in Sess : sess[x].alive}}

Room(q) == q.op \in {"h60", "rv20"} => Len(sess) < MaxSess \/ ~Accept(sess, q, Env)

\* What an observer knows about a session: the last accepted message, the
\* items the device delivered, the items the owner handed out, completion,
\* and whether the genuine device proved itself.
NewGhost(q) == [op |-> q.op, dlv |-> {}, n |-> 0, done |-> FALSE, proved |-> FALSE]
Genuine(s, q) == q.signer = "dev" /\ q.sigk = "ok" /\ q.nonce = s /\ q.d \in {0, sess[s].g} /\ q.xb = "ok" /\ q.euph = "ok" /\ q.pay = "ok"
Observe(gh, q, r) ==
  [op |-> q.op,
   dlv |-> gh.dlv \cup (IF q.op = "h68" THEN Range(q.sims) ELSE {}),
   n |-> gh.n + Len(r.items),
   done |-> gh.done \/ r.done,
   proved |-> gh.proved \/ (q.op = "h64" /\ Genuine(q.s, q))]

Init == sess = <<>> /\ gs = <<>> /\ last = [q |-> Honest, ok |-> FALSE, r |-> None]

Do(q) ==
  /\ Room(q)
  /\ LET x == Outcome(sess, q, Env) IN
     /\ sess' = x.sess
     /\ last' = [q |-> q, ok |-> x.ok, r |-> x.r]
     /\ gs' = IF ~x.ok \/ q.op = "expsess" THEN gs
              ELSE IF q.op \in {"h60", "rv20"} THEN Append(gs, NewGhost(q))
              ELSE [gs EXCEPT ![q.s] = Observe(@, q, x.r)]
     /\ (EmitEdges => PrintT("EDGE " \o ToJson([f |-> vars, q |-> q, t |-> vars'])))

Hello20        == \E q \in Req20 : Do(q)
HelloDevice60  == \E q \in Req60 : Do(q)
GetOVNext62    == \E q \in Req62 : Do(q)
ProveDevice64  == \E q \in Req64 : Do(q)
ServiceReady66 == \E q \in Req66 : Do(q)
DeviceInfo68   == \E q \in Req68 : Do(q)
Done70         == \E q \in Req70 : Do(q)
Foreign        == \E q \in ReqX : Do(q)
Lapse          == \E q \in ReqExp : Do(q)

Next == Hello20 \/ HelloDevice60 \/ GetOVNext62 \/ ProveDevice64 \/ ServiceReady66 \/ DeviceInfo68 \/ Done70 \/ Foreign \/ Lapse

Spec == Init /\ [][Next]_<<vars, gs, last>>
View == <<sess, gs>>

(* ------------------------------ properties ------------------------------ *)
Acc(op) == last'.ok /\ last'.q.op = op
Me == last'.q.s
Rank(op) == CASE op = "h60" -> 0 [] op = "h62" -> 1 [] op = "h64" -> 2 [] op = "h66" -> 3 [] op = "h68" -> 4 [] op = "h70" -> 5 [] OTHER -> 9
Follows(a, b) == Rank(b) = Rank(a) + 1 \/ (a = b /\ a \in {"h62", "h68", "h70"})

\* P04: the accepted messages of a session form 60 62+ 64 66 68+ 70*, and only live sessions get answers.
InOrder == [][ (last'.ok /\ last'.q.op \in {"h62", "h64", "h66", "h68", "h70"}) =>
                 Follows(gs[Me].op, last'.q.op) /\ sess[Me].alive /\ sess[Me].p = "do" ]_<<vars, gs, last>>

\* P05/P06: a session has a key exactly when the genuine device proved itself in it.
KeyOnlyByProof == \A s \in Sess : sess[s].key <=> gs[s].proved

\* P06: past the proof only messages under the session's own key.
OwnKeyOnly == [][ (last'.ok /\ last'.q.op \in {"h66", "h68", "h70"}) =>
                    last'.q.enc = "ok" /\ last'.q.ks = Me /\ gs[Me].proved ]_<<vars, gs, last>>

\* P07: items in order exactly once, after all mandatory ones arrived, completion exactly at the last.
OrderedItems == [][ Acc("h68") =>
    LET r == last'.r  n == Env.nown[sess[Me].g]  d == gs[Me].dlv \cup Range(last'.q.sims) IN
      /\ ~gs[Me].done
      /\ (last'.q.more => r = None)
      /\ (r # None /\ gs[Me].n = 0 => Mandatory \subseteq d /\ d \cap Malformed = {})
      /\ r.items \in {<<>>, <<gs[Me].n + 1>>}
      /\ (r.done <=> ~last'.q.more /\ gs[Me].n + Len(r.items) = n)
      /\ (r.more => ~r.done) ]_<<vars, gs, last>>
DoneOnlyComplete == [][ Acc("h70") => gs[Me].done /\ gs[Me].n = Env.nown[sess[Me].g] /\ last'.q.nonce = Me ]_<<vars, gs, last>>
FinIsDone == \A s \in Sess : sess[s].fin <=> gs[s].done

\* refusal changes nothing; an accepted message changes its own session only
Frame == [][ /\ (~last'.ok => sess' = sess)
             /\ (last'.ok /\ last'.q.op \notin {"h60", "rv20"} =>
                    \A s \in Sess : s # Me => sess'[s] = sess[s]) ]_<<vars, gs, last>>
=============================================================================
