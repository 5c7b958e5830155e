-------------------------------- MODULE MCRV --------------------------------
(* Exhaustive exploration of FdoRV for small constants, checking the        *)
(* properties P01-P03 against independent ghost variables and printing      *)
(* every transition (EDGE lines) so that the driver can replay them.        *)
EXTENDS FdoRV, TLC, Json

CONSTANTS MaxSess, MaxBlob, EmitEdges, GuidsUsed, Waits, Full

VARIABLES reg, sess, nblob,
          ghist,   \* ghost: every registration ever accepted, in order
          gdead,   \* ghost: GUIDs whose newest registration has lapsed
          last     \* ghost: last request and its outcome

vars == <<reg, sess, nblob>>

Honest == [op |-> "none", s |-> 0, tokk |-> "sess", m |-> "POST", ct |-> "ok", body |-> "ok", g |-> 0, d |-> 0,
           nonce |-> 0, vch |-> "ok", k |-> 0, signer |-> "owner", hash |-> "ok", rvaddr |-> "ok", sigk |-> "ok", wait |-> 0,
           blob |-> 0, sgk |-> "match", to0d |-> "ok", pay |-> "ok"]

BadTok  == {"none", "nobearer", "basic", "three", "unknown", "prefix", "emptytok", "empty", "slash"}
BadBody == {"empty", "trunc", "half", "garbage", "int", "emptymap", "longarr", "deep", "text", "trailing", "double", "zeros", "nullarr2", "readerr"}
BadVch  == {"entrySig", "entrySigEmpty", "entrySigTrunc", "entrySigZero", "entryPayload", "entryProt", "entryPayloadNil",
            "entryPayloadJunk", "prevHash", "prevHashTrunc", "prevHashEmpty", "prevHashType", "prevHashOld", "hdrHash",
            "hdrHashOtherDev", "wrongSigner", "selfSigned", "mfgSigner", "badKeyEnc", "badKeyBody", "badKeyType"}
BadVchNoPos == {"dropFirst", "dropMid", "swap", "dup", "noEntries", "foreign", "hdrGuid", "hdrDevInfo", "hdrRv", "hdrPub", "hdrJunk",
            "hdrEmpty", "hmacAlt", "hmacType", "protVer", "protVer102", "hdrProtVer", "hdrProtVer102", "rvEmpty", "devInfoEmpty",
            "certHash", "certHashTrunc", "certHashEmpty", "certHashNil", "certHashType", "certNil", "certEmpty", "certDrop",
            "certOrder", "certSwap", "certFlip", "certExtra", "hdrOtherMfg"}

\* Full: requests carrying any single defect; otherwise one representative of
\* each class of defect only.
Some(S, R) == IF Full THEN S ELSE S \cap R

Http(q) == IF ~Full THEN {} ELSE {[q EXCEPT !.m = x] : x \in {"GET", "PUT"}} \cup {[q EXCEPT !.ct = x] : x \in {"none", "json"}}
Toks(q) == {[q EXCEPT !.tokk = x] : x \in Some(BadTok, {"unknown"})}
Bods(q) == {[q EXCEPT !.body = x] : x \in Some(BadBody, {"trunc"})}

Req20 == LET h == [Honest EXCEPT !.op = "h20", !.tokk = "none"]
         IN {h} \cup Http(h) \cup Bods(h)

Devs == {<<g, d>> \in (1..3) \X (1..13) : g \in GuidsUsed /\ d \in {g, g + 10}}

Honest22(s, gd, w) == [Honest EXCEPT !.op = "h22", !.s = s, !.nonce = s, !.g = gd[1], !.d = gd[2], !.wait = w, !.blob = nblob + 1]

Req22 ==
  UNION { UNION { LET h == Honest22(s, gd, 3600)
          IN {Honest22(s, gd, w) : w \in Waits}
             \cup Http(h) \cup Toks(h) \cup Bods(h)
             \cup {[h EXCEPT !.vch = "dropLast"]}
             \cup {[h EXCEPT !.vch = x, !.k = kk] : x \in Some(BadVch, {"prevHash"}), kk \in 1..3}
             \cup (IF Full THEN {[h EXCEPT !.vch = "swapKey", !.k = kk] : kk \in 1..2} ELSE {})
             \cup {[h EXCEPT !.vch = x, !.k = 2] : x \in Some(BadVchNoPos, {})}
             \cup {[h EXCEPT !.signer = x] : x \in Some({"prev", "mfg", "other", "device"}, {"prev"})}
             \cup {[h EXCEPT !.hash = x] : x \in Some({"flip", "empty", "trunc", "type", "hmactype", "other"}, {"other"})}
             \cup {[h EXCEPT !.rvaddr = x] : x \in Some({"ip", "two", "none", "firstnone", "secondnone"}, {})}
             \cup {[h EXCEPT !.sigk = x] : x \in Some({"flip", "empty", "payload", "prot", "zero"}, {"flip"})}
             \cup {[h EXCEPT !.to0d = x] : x \in Some({"empty", "trunc", "garbage", "null", "nullarr2"}, {})}
             \cup {[h EXCEPT !.pay = x] : x \in Some({"empty", "trunc", "garbage", "int"}, {})}
             \cup {[h EXCEPT !.nonce = x] : x \in ({-1, 0} \cup 1..Len(sess))}
          : gd \in Devs} : s \in 1..Len(sess)}

Req30 ==
  UNION { LET h == [Honest EXCEPT !.op = "h30", !.tokk = "none", !.g = g]
          IN {h} \cup Http(h) \cup Bods(h)
             \cup {[h EXCEPT !.sgk = x] : x \in Some({"other", "rsa2048", "epid10", "invalid", "zero"}, {"other"})}
             \cup {[h EXCEPT !.body = "nearguid"]}
          : g \in GuidsUsed \cup {0} }

Req32 ==
  UNION { UNION { LET h == [Honest EXCEPT !.op = "h32", !.s = s, !.nonce = s, !.g = gd[1], !.d = gd[2], !.signer = "dev"]
          IN {h} \cup Http(h) \cup Toks(h) \cup Bods(h)
             \cup {[h EXCEPT !.signer = x] : x \in Some({"otherkey", "ownerkey", "ca"}, {"otherkey"})}
             \cup {[h EXCEPT !.sigk = x] : x \in Some({"flip", "empty", "zero", "long", "payload", "prot"}, {"flip"})}
             \cup {[h EXCEPT !.pay = x] : x \in Some({"empty", "trunc", "garbage", "int", "emptymap"}, {})}
             \cup {[h EXCEPT !.nonce = x] : x \in ({-1, 0} \cup 1..Len(sess))}
          : gd \in Devs} : s \in 1..Len(sess)}

ReqExp == {[Honest EXCEPT !.op = "expreg", !.g = g] : g \in {x \in GuidsUsed : reg[x].blob # 0}}
          \cup {[Honest EXCEPT !.op = "expsess", !.s = s] : s \in {x \in 1..Len(sess) : sess[x].alive}}

Room(q) == /\ (q.op \in {"h20", "h30"} => Len(sess) < MaxSess \/ ~Accept(reg, sess, q, "ec256"))
           /\ (q.op = "h22" => nblob < MaxBlob \/ ~Accept(reg, sess, q, "ec256"))

Init == /\ reg = [g \in Guids |-> NoReg]
        /\ sess = <<>>
        /\ nblob = 0
        /\ ghist = <<>>
        /\ gdead = {}
        /\ last = [q |-> Honest, ok |-> FALSE, blob |-> 0]

Do(q) ==
  /\ Room(q)
  /\ LET x == Outcome(reg, sess, q, "ec256") IN
     /\ reg' = x.reg
     /\ sess' = x.sess
     /\ nblob' = IF q.op = "h22" /\ x.ok THEN nblob + 1 ELSE nblob
     /\ ghist' = IF q.op = "h22" /\ x.ok THEN Append(ghist, q) ELSE ghist
     /\ gdead' = IF q.op = "h22" /\ x.ok THEN (IF q.wait = 0 THEN gdead \cup {q.g} ELSE gdead \ {q.g})
                 ELSE IF q.op = "expreg" THEN gdead \cup {q.g} ELSE gdead
     /\ last' = [q |-> q, ok |-> x.ok, blob |-> x.blob]
     /\ (EmitEdges => PrintT("EDGE " \o ToJson([f |-> vars, q |-> q, t |-> vars'])))

Hello20      == \E q \in Req20 : Do(q)
OwnerSign22  == \E q \in Req22 : Do(q)
HelloRV30    == \E q \in Req30 : Do(q)
ProveToRV32  == \E q \in Req32 : Do(q)
Lapse        == \E q \in ReqExp : Do(q)

Next == Hello20 \/ OwnerSign22 \/ HelloRV30 \/ ProveToRV32 \/ Lapse

Spec == Init /\ [][Next]_<<vars, ghist, gdead, last>>

View == <<reg, sess, nblob, gdead>>

(* ------------------------------ properties ------------------------------ *)
NewestFor(h, g) == LET S == {i \in 1..Len(h) : h[i].g = g}
                   IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i

\* P02/P03: what is stored for a GUID is exactly the newest accepted, unlapsed registration.
StoredIsNewest ==
  \A g \in Guids :
    IF g \in gdead \/ NewestFor(ghist, g) = 0 THEN reg[g] = NoReg
    ELSE LET h == ghist[NewestFor(ghist, g)] IN
           reg[g] = [blob |-> h.blob, dev |-> h.d, wait |-> Min(h.wait, MaxWait)]

\* P02: only proven registrations enter the history.
OnlyProven ==
  \A i \in 1..Len(ghist) :
     LET h == ghist[i] IN
       /\ h.nonce = h.s /\ sess[h.s].kind = "to0"
       /\ h.vch \in ValidVouchers /\ h.signer = "owner" /\ h.hash = "ok" /\ h.sigk = "ok"

\* P01: a redirect reveals the newest registration of the session's GUID, to
\* the holder of the device key in the voucher that made that registration.
RedirectSound ==
  [][ (last'.q.op = "h32" /\ last'.ok) =>
        LET g == sess[last'.q.s].g IN
          /\ g \notin gdead /\ NewestFor(ghist, g) # 0
          /\ last'.blob = ghist[NewestFor(ghist, g)].blob
          /\ last'.q.d = ghist[NewestFor(ghist, g)].d
          /\ last'.q.nonce = last'.q.s ]_<<vars, ghist, gdead, last>>

\* P02/P11: a refused request leaves everything as it was.
RefusalIsNoOp ==
  [][ ~last'.ok => reg' = reg /\ sess' = sess ]_<<vars, ghist, gdead, last>>

\* P03: the lifetime granted never exceeds thirty days.
LifetimeBound == \A g \in Guids : reg[g].wait <= MaxWait
=============================================================================
