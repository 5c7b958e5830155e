package main

import (
	"bytes"
	"fmt"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/dgraph-io/badger/v4"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

// rvWorld drives the Rendezvous server (TO0 and TO1).
//
// Devices are numbered 1..ND.  Devices d and d+10 share a GUID but have
// different device keys (used for re-registration by a different voucher).
type rvWorld struct {
	db    *badger.DB
	h     http.Handler
	devs  map[int]*Device
	guids map[int]fdoshared.FdoGuid
	osg   fdoshared.SgType
	dsg   fdoshared.SgType
	nent  int
	board *iopBoard

	mu      sync.Mutex
	sess    []*rvSess
	blobs   map[string]int
	regKeys map[int][]string
}

type rvSess struct {
	kind  string
	token string
	nonce fdoshared.FdoNonce
	keys  []string
}

func init() { worlds["rv"] = newRvWorld }

func newRvWorld(cfg Op) (World, M, error) {
	w := &rvWorld{db: newDB(), devs: map[int]*Device{}, guids: map[int]fdoshared.FdoGuid{}, blobs: map[string]int{}, regKeys: map[int][]string{}}
	w.osg = sgByName[cfg.D("osg", "ec256")]
	w.dsg = sgByName[cfg.D("dsg", "ec256")]
	w.nent = cfg.ID("n", 3)
	for d := 1; d <= 3; d++ {
		a := getDevice(w.dsg, w.osg, d)
		b := getDevice(w.dsg, w.osg, d+10).clone()
		b.cred.DCGuid = a.cred.DCGuid
		w.devs[d] = a
		w.devs[d+10] = b
		w.guids[d] = a.cred.DCGuid
	}
	iop := cfg.D("dash", "off")
	if iop != "off" {
		w.board = newBoard(iop)
	}
	w.start()
	return w, M{"dsg": cfg.D("dsg", "ec256"), "iop": iop}, nil
}

func (w *rvWorld) start() {
	ctx := ctxBase
	if w.board != nil {
		ctx = w.board.ctx(ctx)
	}
	w.h = captureMux(func() { rv.SetupServer(w.db, ctx) })
}

func (w *rvWorld) Close() { w.board.close(); w.db.Close() }

// reports: what the dashboard was told since the last event.
func (w *rvWorld) reports() []M {
	return w.board.take(func(g []byte) int {
		for i, x := range w.guids {
			if bytes.Equal(x[:], g) {
				return i
			}
		}
		return 0
	}, func(n []byte) int {
		for i, x := range w.sess {
			if bytes.Equal(x.nonce[:], n) {
				return i + 1
			}
		}
		return 0
	})
}

func (w *rvWorld) otherSg() fdoshared.SgType {
	if w.dsg == fdoshared.StSECP256R1 {
		return fdoshared.StSECP384R1
	}
	return fdoshared.StSECP256R1
}

// token returns the Authorization header value for a token spec.
func (w *rvWorld) auth(op Op) *string {
	s := ""
	switch op.D("tokk", "sess") {
	case "none":
		return nil
	case "empty":
	case "nobearer":
		s = w.tok(op.I("s"))
	case "basic":
		s = "Basic " + w.tok(op.I("s"))
	case "three":
		s = "Bearer " + w.tok(op.I("s")) + " x"
	case "unknown":
		s = "Bearer 11111111-2222-4333-8444-555555555555"
	case "prefix":
		t := w.tok(op.I("s"))
		s = "Bearer " + t[:len(t)-1]
	case "emptytok":
		s = "Bearer "
	case "long":
		s = "Bearer " + strings.Repeat("a", 5000)
	case "slash":
		s = "Bearer ../" + w.tok(op.I("s"))
	default:
		s = "Bearer " + w.tok(op.I("s"))
	}
	return &s
}

func (w *rvWorld) tok(s int) string {
	if s >= 1 && s <= len(w.sess) {
		return w.sess[s-1].token
	}
	return "11111111-2222-4333-8444-555555555555"
}

func (w *rvWorld) nonceOf(op Op) fdoshared.FdoNonce {
	n := op.ID("nonce", op.I("s"))
	if n >= 1 && n <= len(w.sess) {
		return w.sess[n-1].nonce
	}
	if n == -1 {
		return fdoshared.FdoNonce{}
	}
	return fdoshared.NewFdoNonce()
}

// mangle turns an honest body into one of the malformed kinds.
func mangle(body []byte, kind string, seed int) []byte {
	switch kind {
	case "", "ok", "readerr":
		return body
	case "empty":
		return []byte{}
	case "trunc":
		if len(body) == 0 {
			return body
		}
		return body[:len(body)-1]
	case "half":
		return body[:len(body)/2]
	case "garbage":
		return []byte("this is not cbor at all \x00\xff\xfe")
	case "null":
		return []byte{0xf6}
	case "int":
		return []byte{0x18, 0x2a}
	case "emptyarr":
		if len(body) == 1 && body[0] == 0x80 {
			return []byte{0x81, 0x01}
		}
		return []byte{0x80}
	case "emptymap":
		return []byte{0xa0}
	case "longarr":
		return append([]byte{0x9a, 0xff, 0xff, 0xff, 0xff}, body...)
	case "deep":
		return append(bytes.Repeat([]byte{0x81}, 3000), 0x01)
	case "text":
		return []byte{0x64, 'a', 'b', 'c', 'd'}
	case "trailing":
		return append(append([]byte{}, body...), 0x01)
	case "double":
		return append(append([]byte{}, body...), body...)
	case "zeros":
		return make([]byte, len(body)+4)
	case "nullarr":
		return []byte{0x86, 0xf6, 0xf6, 0xf6, 0xf6, 0xf6, 0xf6}
	case "nullarr2":
		return []byte{0x82, 0xf6, 0xf6}
	case "nullarr4":
		return []byte{0x84, 0xf6, 0xf6, 0xf6, 0xf6}
	}
	panic("harness: unknown body kind " + kind)
}

func (w *rvWorld) call(op Op, msg int, body []byte) Resp {
	m := op.D("m", "POST")
	ct := "application/cbor"
	switch op.D("ct", "ok") {
	case "none":
		ct = ""
	case "json":
		ct = "application/json"
	case "param":
		ct = "application/cbor; charset=utf-8"
	}
	var auth *string
	if msg == 22 || msg == 32 {
		auth = w.auth(op)
	} else if op.S("tokk") != "" {
		auth = w.auth(op)
	}
	r := fdoReq(m, fmt.Sprintf("/fdo/101/msg/%d", msg), body, ct, auth)
	if op.S("body") == "readerr" {
		r.Body = &brokenBody{b: body}
	}
	return do(w.h, r)
}

// base copies the arguments of the operation into the event, with defaults.
func rvArgs(op Op) M {
	return M{
		"op": op.S("op"), "s": op.I("s"), "tokk": op.D("tokk", "sess"), "m": op.D("m", "POST"), "ct": op.D("ct", "ok"),
		"body": op.D("body", "ok"), "g": op.I("g"), "d": op.ID("d", op.I("g")), "nonce": op.ID("nonce", op.I("s")),
		"vch": op.D("vch", "ok"), "signer": op.D("signer", "owner"), "hash": op.D("hash", "ok"), "rvaddr": op.D("rvaddr", "ok"),
		"sigk": op.D("sigk", "ok"), "wait": op.I("wait"), "blob": op.I("blob"), "sgk": op.D("sgk", "match"), "sigsg": op.D("sigsg", "match"),
		"to0d": op.D("to0d", "ok"), "pay": op.D("pay", "ok"), "ueid": op.D("ueid", "ok"), "by": op.ID("by", op.ID("d", op.I("g"))),
	}
}

func (w *rvWorld) Exec(op Op) M {
	if op.S("op") == "par" {
		return w.par(op)
	}
	ev := rvArgs(op)
	before := snapshot(w.db)
	t0 := time.Now()
	if op.S("op") == "restart" {
		w.db = reborn(w.db)
		w.start()
		ev["res"] = "done"
	} else if k := op.ID("crash", -1); k >= 0 {
		open := len(w.sess)
		if crashing(w.db, k, func() { w.step(op, ev) }) {
			w.sess = w.sess[:open]
			w.db = reborn(w.db)
			w.start()
			ev["what"], ev["op"], ev["res"] = op.S("op"), "crash", "crash"
		}
	} else {
		w.step(op, ev)
	}
	t1 := time.Now()
	after := snapshot(w.db)
	ev["dbsame"] = before.same(after)
	w.observe(op, ev, before, after, t0, t1)
	ev["rep"] = w.reports()
	return ev
}

func (w *rvWorld) par(op Op) M {
	subs := op.L("ops")
	evs := make([]M, len(subs))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, x := range subs {
		sub := Op(x.(map[string]interface{}))
		evs[i] = rvArgs(sub)
		wg.Add(1)
		go func(i int, sub Op) {
			defer wg.Done()
			<-start
			w.step(sub, evs[i])
		}(i, sub)
	}
	close(start)
	wg.Wait()
	ev := M{"op": "par", "evs": evs}
	w.observe(op, ev, nil, nil, time.Now(), time.Now())
	ev["rep"] = w.reports()
	return ev
}

func (w *rvWorld) step(op Op, ev M) {
	switch op.S("op") {
	case "h20":
		w.h20(op, ev)
	case "h22":
		w.h22(op, ev)
	case "h30":
		w.h30(op, ev)
	case "h32":
		w.h32(op, ev)
	case "expsess":
		ev["res"] = "done"
		s := op.I("s")
		if s >= 1 && s <= len(w.sess) {
			for _, k := range w.sess[s-1].keys {
				expireKey(w.db, k)
			}
		}
	case "expreg":
		ev["res"] = "done"
		for _, k := range w.regKeys[op.I("g")] {
			expireKey(w.db, k)
		}
	case "sleep":
		ev["res"] = "done"
		time.Sleep(time.Duration(op.I("ms")) * time.Millisecond)
	case "fuzz":
		w.fuzz(op, ev)
	default:
		panic("rv: unknown op " + op.S("op"))
	}
}

// observe records the externally visible registration state.
func (w *rvWorld) observe(op Op, ev M, before, after dbSnap, t0, t1 time.Time) {
	regs := []int{}
	osdb := rv.NewOwnerSignDB(w.db)
	for g := 1; g <= 3; g++ {
		b := 0
		o, err := osdb.Get(w.guids[g])
		if err == nil && o != nil {
			b = w.blobs[string(mustCbor(o.To1d))]
			if b == 0 {
				b = -1
			}
		}
		regs = append(regs, b)
	}
	ev["regs"] = regs
	if before == nil {
		return
	}
	nk := before.newKeys(after)
	ev["nnew"] = len(nk)
	ev["ttlLo"], ev["ttlHi"] = 0, 0
	if ev["res"] == "ok" || ev["res"] == "crash" && op.S("op") == "h22" && len(nk) > 0 {
		switch op.S("op") {
		case "h20", "h30":
			if len(w.sess) > 0 {
				w.sess[len(w.sess)-1].keys = nk
			}
			if len(nk) == 1 {
				ev["ttlLo"], ev["ttlHi"] = ttlFields(after[nk[0]].exp, t0, t1)
			}
		case "h22":
			w.regKeys[op.I("g")] = nk
			if len(nk) == 1 {
				ev["ttlLo"], ev["ttlHi"] = ttlFields(after[nk[0]].exp, t0, t1)
			}
		}
	}
}

func (w *rvWorld) addSess(kind string, r Resp, nonce fdoshared.FdoNonce) int {
	a := r.hdr.Get("Authorization")
	tok := strings.TrimPrefix(a, "Bearer ")
	w.mu.Lock()
	defer w.mu.Unlock()
	w.sess = append(w.sess, &rvSess{kind: kind, token: tok, nonce: nonce})
	return len(w.sess)
}

func (w *rvWorld) knownTok(r Resp) int {
	a := strings.TrimPrefix(r.hdr.Get("Authorization"), "Bearer ")
	for i, s := range w.sess {
		if s.token == a {
			return i + 1
		}
	}
	return 0
}

func (w *rvWorld) h20(op Op, ev M) {
	body := mangle([]byte{0x80}, op.S("body"), op.I("seed"))
	r := w.call(op, 20, body)
	respFields(r, 21, ev)
	ev["fresh"], ev["rtok"], ev["ns"] = false, 0, 0
	if ev["res"] == "ok" {
		var m fdoshared.HelloAck21
		if err := fdoshared.CborCust.Unmarshal(r.body, &m); err != nil {
			ev["res"], ev["why"] = "odd", "21 does not decode"
			return
		}
		w.mu.Lock()
		ev["rtok"] = w.knownTok(r)
		w.mu.Unlock()
		ev["fresh"] = nonces.fresh(m.NonceTO0Sign[:])
		ev["ns"] = w.addSess("to0", r, m.NonceTO0Sign)
	}
}

func (w *rvWorld) build22(op Op) []byte {
	d := op.ID("d", op.I("g"))
	v := buildVoucher(w.devs[d], chainOpts{n: w.nent, ownerSg: w.osg, kind: op.D("vch", "ok"), k: op.I("k"), keyBase: 100 * (d % 10)})
	return w.build22v(op, v)
}

func (w *rvWorld) build22v(op Op, v *Voucher) []byte {
	// TLC integers have 32 bits: longer requests are written as the largest
	// one, with the real figure beside it.
	wait := uint32(op.I("wait"))
	if x := op.I("waitx"); x != 0 {
		wait = uint32(x)
	}
	to0d := fdoshared.To0d{OwnershipVoucher: v.v, WaitSeconds: wait, NonceTO0Sign: w.nonceOf(op)}
	to0dB := mangle(mustCbor(to0d), op.S("to0d"), 0)
	h := hashOf(to0dB, v.alg)
	switch op.D("hash", "ok") {
	case "ok":
	case "flip":
		h.Hash = flip(h.Hash, 9)
	case "empty":
		h.Hash = []byte{}
	case "trunc":
		h.Hash = h.Hash[:len(h.Hash)/2]
	case "type":
		h.Type = 55
	case "hmactype":
		h.Type = fdoshared.HASH_HMAC_SHA256
	case "other": // hash of a different to0d
		t2 := to0d
		t2.WaitSeconds++
		h = hashOf(mustCbor(t2), v.alg)
	}
	dns := fmt.Sprintf("owner-%d.test.local", op.I("blob"))
	entry := fdoshared.RVTO2AddrEntry{RVDNS: &dns, RVPort: uint16(8000 + op.I("blob")), RVProtocol: fdoshared.ProtHTTP}
	ip := fdoshared.FdoIPAddress{10, 0, 0, 1}
	list := []fdoshared.RVTO2AddrEntry{entry}
	switch op.D("rvaddr", "ok") {
	case "ok":
	case "ip":
		list[0].RVIP, list[0].RVDNS = &ip, nil
	case "two":
		list = append(list, fdoshared.RVTO2AddrEntry{RVIP: &ip, RVPort: 1, RVProtocol: fdoshared.ProtHTTPS})
	case "none":
		list[0].RVDNS = nil
	case "secondnone":
		list = append(list, fdoshared.RVTO2AddrEntry{RVPort: 1, RVProtocol: fdoshared.ProtHTTPS})
	case "firstnone":
		list = append([]fdoshared.RVTO2AddrEntry{{RVPort: 1, RVProtocol: fdoshared.ProtHTTPS}}, list...)
	}
	payload := mangle(mustCbor(fdoshared.To1dBlobPayload{To1dRV: list, To1dTo0dHash: h}), op.S("pay"), 0)
	signer := v.final
	switch op.D("signer", "owner") {
	case "owner":
	case "prev":
		signer = v.keys[len(v.keys)-2]
		if len(v.keys) == 1 {
			signer = keys.get(w.osg, 905)
		}
	case "mfg":
		signer = v.keys[0]
	case "other":
		signer = keys.get(w.osg, 906)
	case "device":
		signer = Key{priv: w.devs[op.ID("d", op.I("g"))].key, sg: w.dsg}
	}
	sig, err := fdoshared.GenerateCoseSignature(payload, fdoshared.ProtectedHeader{}, fdoshared.UnprotectedHeader{}, signer.priv, signer.sg)
	if err != nil {
		panic("harness: to1d: " + err.Error())
	}
	switch op.D("sigk", "ok") {
	case "ok":
	case "flip":
		sig.Signature = flip(sig.Signature, 20)
	case "empty":
		sig.Signature = []byte{}
	case "payload":
		list[0].RVPort++
		sig.Payload = mustCbor(fdoshared.To1dBlobPayload{To1dRV: list, To1dTo0dHash: h})
	case "prot":
		sig.Protected = mustCbor(fdoshared.ProtectedHeader{Alg: fdoshared.GetIntRef(-8)})
	case "zero":
		sig.Signature = make([]byte, len(sig.Signature))
	}
	w.mu.Lock()
	w.blobs[string(mustCbor(*sig))] = op.I("blob")
	w.mu.Unlock()
	return mangle(mustCbor(fdoshared.OwnerSign22{To0d: to0dB, To1d: *sig}), op.S("body"), op.I("seed"))
}

func (w *rvWorld) h22(op Op, ev M) {
	r := w.call(op, 22, w.build22(op))
	w.res22(r, ev)
}

func (w *rvWorld) res22(r Resp, ev M) {
	respFields(r, 23, ev)
	ev["rwait"], ev["rtok"] = -1, 0
	if ev["res"] == "ok" {
		var m fdoshared.AcceptOwner23
		if err := fdoshared.CborCust.Unmarshal(r.body, &m); err != nil {
			ev["res"], ev["why"] = "odd", "23 does not decode"
			return
		}
		w.mu.Lock()
		ev["rtok"] = w.knownTok(r)
		w.mu.Unlock()
		ev["rwait"] = int(m.WaitSeconds)
	}
}

func (w *rvWorld) sgOf(k string) fdoshared.SgType {
	switch k {
	case "match":
		return w.dsg
	case "other":
		return w.otherSg()
	}
	return sgByName[k]
}

func (w *rvWorld) h30(op Op, ev M) {
	var g fdoshared.FdoGuid
	if op.I("g") == 0 {
		g = fdoshared.NewFdoGuid()
	} else {
		g = w.guids[op.I("g")]
	}
	if op.S("body") == "nearguid" {
		g[15] ^= 1
	}
	msg := fdoshared.HelloRV30{Guid: g, EASigInfo: fdoshared.SigInfo{SgType: w.sgOf(op.D("sgk", "match")), Info: []byte{}}}
	b := mustCbor(msg)
	if op.S("body") != "nearguid" {
		b = mangle(b, op.S("body"), op.I("seed"))
	}
	r := w.call(op, 30, b)
	respFields(r, 31, ev)
	ev["fresh"], ev["rtok"], ev["sigecho"], ev["ns"] = false, 0, false, 0
	if ev["res"] == "ok" {
		var m fdoshared.HelloRVAck31
		if err := fdoshared.CborCust.Unmarshal(r.body, &m); err != nil {
			ev["res"], ev["why"] = "odd", "31 does not decode"
			return
		}
		w.mu.Lock()
		ev["rtok"] = w.knownTok(r)
		w.mu.Unlock()
		ev["fresh"] = nonces.fresh(m.NonceTO1Proof[:])
		ev["sigecho"] = m.EBSigInfo.SgType == msg.EASigInfo.SgType && len(m.EBSigInfo.Info) == 0
		ev["ns"] = w.addSess("to1", r, m.NonceTO1Proof)
	}
}

func (w *rvWorld) build32(op Op) []byte {
	d := w.devs[op.ID("d", op.I("g"))]
	pl := fdoshared.EATPayloadBase{EatNonce: w.nonceOf(op), EatUEID: fdoshared.GenerateEatGuid(d.cred.DCGuid)}
	switch op.D("ueid", "ok") {
	case "other":
		pl.EatUEID = fdoshared.GenerateEatGuid(w.devs[op.ID("d", op.I("g"))%3+1].cred.DCGuid)
	case "rand":
		pl.EatUEID[9] ^= 0x40
	case "zero":
		pl.EatUEID = [17]byte{}
	}
	plB := mangle(mustCbor(pl), op.S("pay"), 0)
	var priv interface{} = d.key
	sg := w.dsg
	switch op.D("signer", "dev") {
	case "dev", "owner":
	case "otherkey":
		k := keys.get(w.dsg, 907)
		priv = k.priv
	case "ca":
		priv, sg = caKey(), fdoshared.StSECP256R1
	case "ownerkey":
		v := buildVoucher(d, chainOpts{n: w.nent, ownerSg: w.osg, keyBase: 100 * (op.ID("d", op.I("g")) % 10)})
		priv, sg = v.final.priv, v.final.sg
	}
	sig, err := fdoshared.GenerateCoseSignature(plB, fdoshared.ProtectedHeader{}, fdoshared.UnprotectedHeader{}, priv, sg)
	if err != nil {
		panic("harness: 32: " + err.Error())
	}
	switch op.D("sigk", "ok") {
	case "ok":
	case "flip":
		sig.Signature = flip(sig.Signature, 21)
	case "empty":
		sig.Signature = []byte{}
	case "zero":
		sig.Signature = make([]byte, len(sig.Signature))
	case "long":
		sig.Signature = append(sig.Signature, 0)
	case "payload": // signature over a different payload with the right nonce
		p2 := pl
		p2.EatUEID[3] ^= 1
		sig.Payload = mustCbor(p2)
	case "prot":
		sig.Protected = mustCbor(fdoshared.ProtectedHeader{Alg: fdoshared.GetIntRef(-8)})
	}
	return mangle(mustCbor(*sig), op.S("body"), op.I("seed"))
}

func (w *rvWorld) h32(op Op, ev M) {
	r := w.call(op, 32, w.build32(op))
	w.res32(r, ev)
}

func (w *rvWorld) res32(r Resp, ev M) {
	respFields(r, 33, ev)
	ev["rblob"], ev["rtok"] = 0, 0
	if ev["res"] == "ok" {
		var m fdoshared.CoseSignature
		if err := fdoshared.CborCust.Unmarshal(r.body, &m); err != nil {
			ev["res"], ev["why"] = "odd", "33 does not decode"
			return
		}
		w.mu.Lock()
		ev["rblob"] = w.blobs[string(mustCbor(m))]
		ev["rtok"] = w.knownTok(r)
		w.mu.Unlock()
	}
}

// fuzz flips bytes of an honest message at a position chosen by the script.
// Whether such a message is still acceptable is not predicted; what is checked
// is that the answer is a protocol answer and that refusal changes nothing.
func (w *rvWorld) fuzz(op Op, ev M) {
	msg := op.I("msg")
	var b []byte
	want := msg + 1
	op["body"] = "ok"
	switch msg {
	case 20:
		b = []byte{0x80}
	case 22:
		b = w.build22(op)
	case 30:
		b = mustCbor(fdoshared.HelloRV30{Guid: w.guids[1], EASigInfo: fdoshared.SigInfo{SgType: w.dsg, Info: []byte{}}})
	case 32:
		b = w.build32(op)
	}
	b = fuzzBytes(b, op)
	ev["msg"] = msg
	ev["hex"] = fmt.Sprintf("%x", b)
	if len(b) > 400 {
		ev["hex"] = sum(b)
	}
	r := w.call(op, msg, b)
	respFields(r, want, ev)
}

func fuzzBytes(b []byte, op Op) []byte {
	c := append([]byte{}, b...)
	for _, x := range op.L("edits") {
		e := x.([]interface{})
		kind := e[0].(string)
		pos := int(e[1].(float64))
		val := byte(int(e[2].(float64)))
		if len(c) == 0 {
			c = append(c, val)
			continue
		}
		p := pos % len(c)
		switch kind {
		case "set":
			c[p] = val
		case "xor":
			c[p] ^= val
		case "del":
			c = append(c[:p], c[p+1:]...)
		case "ins":
			c = append(c[:p], append([]byte{val}, c[p:]...)...)
		case "cut":
			c = c[:p]
		}
	}
	return c
}
