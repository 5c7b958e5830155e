package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/fxamacker/cbor/v2"

	coredo "github.com/fido-alliance/iot-fdo-conformance-tools/core/do"
	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

// doWorld drives the owner onboarding service (TO2).
//
// Devices 1..3 have vouchers with n, 1 and n+2 entries, device 4 a voucher
// without entries; device 0 is unknown.  Everything the service sends is
// checked with the independent wire and crypto reference (wire.go,
// refcrypto.go); the observations are reported as sets of facts and the
// specification decides which facts are due.
type doWorld struct {
	db    *badger.DB
	ctx   context.Context
	h     http.Handler
	dev   map[int]*Device
	v     map[int]*Voucher
	osg   string
	dsg   string
	kex   string
	suite int
	sims  []wKV // owner service information for device 1
	board *iopBoard

	mu   sync.Mutex
	sess []*doSess
}

type doSess struct {
	proto   string
	token   string
	g       int
	kex     string
	suite   int
	nonceOv []byte
	nonceDv []byte
	euph    []byte
	xa      []byte
	cands   []sessKey
	key     *sessKey
	keys    []string
}

func init() { worlds["do"] = newDoWorld }

const ctrSuite = -17760704

func newDoWorld(cfg Op) (World, M, error) {
	w := &doWorld{db: newDB(), dev: map[int]*Device{}, v: map[int]*Voucher{}}
	w.osg, w.dsg = cfg.D("osg", "ec256"), cfg.D("dsg", "ec256")
	w.kex = cfg.D("kex", "ECDH256")
	w.suite = cfg.ID("cipher", 1)
	n := cfg.ID("n", 3)
	nent := []int{0, n, 1, n + 2, 0}
	vdb := dodbs.NewVoucherDB(w.db)
	for d := 1; d <= 4; d++ {
		dv := getDevice(sgByName[w.dsg], sgByName[w.osg], 20+d)
		o := chainOpts{n: nent[d], ownerSg: sgByName[w.osg], keyBase: 100 * d}
		if d == 4 {
			o.n, o.kind = 1, "noEntries"
		}
		w.dev[d] = dv
		w.v[d] = buildVoucher(dv, o)
		if d == 4 {
			w.v[d].final = w.v[d].keys[0]
		}
		err := vdb.Save(fdoshared.VoucherDBEntry{Voucher: w.v[d].v, SgType: sgByName[w.osg], PrivateKeyX509: w.v[d].final.der})
		if err != nil {
			return nil, nil, err
		}
	}
	ctx, dash := ctxBase, "off"
	if cfg.B("iop") {
		tok := fmt.Sprintf("interop-token-%d", cfg.I("seed"))
		g := w.dev[1].cred.DCGuid
		mp, _ := json.Marshal([][]string{{fmt.Sprintf("%x", g[:]), tok}})
		dash = cfg.D("dash", "dead")
		w.board = newBoard(dash)
		ctx = context.WithValue(w.board.ctx(ctx), fdoshared.CFG_ENV_INTEROP_DO_TOKEN_MAPPING, string(mp))
		w.sims = []wKV{{K: "fido_alliance:active", V: []byte{0xf5}}, {K: "fido_alliance:dev_conformance", V: []byte(tok)}}
	}
	w.ctx = ctx
	w.start()
	return w, M{"nent": []int{nent[1], nent[2], nent[3]}, "nown": []int{len(w.sims), 0, 0}, "dsg": w.dsg, "iop": dash,
		"orsa": strings.HasPrefix(w.osg, "rsa"), "cfg": fmt.Sprintf("%s/%s/%s/%d", w.osg, w.dsg, w.kex, w.suite)}, nil
}

func (w *doWorld) start() {
	w.h = captureMux(func() { coredo.SetupServer(w.db, w.ctx); rv.SetupServer(w.db, w.ctx) })
}

func (w *doWorld) Close() { w.board.close(); w.db.Close() }

// reports: what the dashboard was told since the last event.
func (w *doWorld) reports() []M {
	return w.board.take(func(g []byte) int {
		for i, x := range w.dev {
			if bytes.Equal(x.cred.DCGuid[:], g) {
				return i
			}
		}
		return 0
	}, func(n []byte) int {
		for i, x := range w.sess {
			if x.euph != nil && bytes.Equal(x.euph, n) {
				return i + 1
			}
		}
		return 0
	})
}

func (w *doWorld) kexOf(k string) string {
	switch k {
	case "cfg":
		return w.kex
	case "asym":
		return "ASYMKEX2048"
	case "bad":
		return "ECDH521"
	case "empty":
		return ""
	case "lower":
		return strings.ToLower(w.kex)
	}
	return k
}

func (w *doWorld) suiteOf(k string) int {
	switch k {
	case "cfg":
		return w.suite
	case "cbc":
		return -17760703
	case "ctr256":
		return -17760706
	case "bad":
		return 2
	case "zero":
		return 0
	}
	panic("harness: cipher " + k)
}

func (w *doWorld) sgOf(k string) string {
	switch k {
	case "match":
		return w.dsg
	case "other":
		if w.dsg == "ec256" {
			return "ec384"
		}
		return "ec256"
	}
	return k
}

var wireSg = map[string]int{"ec256": -7, "ec384": -35, "rsa2048": -257, "rsa3072": -258, "epid10": 90, "epid11": 91, "invalid": 17, "zero": 0}

func doArgs(op Op) M {
	return M{
		"op": op.S("op"), "s": op.I("s"), "tokk": op.D("tokk", "sess"), "m": op.D("m", "POST"), "ct": op.D("ct", "ok"), "body": op.D("body", "ok"),
		"g": op.I("g"), "kex": op.D("kex", "cfg"), "cipher": op.D("cipher", "cfg"), "sgk": op.D("sgk", "match"), "idx": op.I("idx"),
		"nonce": op.ID("nonce", op.I("s")), "signer": op.D("signer", "dev"), "sigk": op.D("sigk", "ok"), "euph": op.D("euph", "ok"),
		"xb": op.D("xb", "ok"), "pay": op.D("pay", "ok"), "enc": op.D("enc", "ok"), "ks": op.ID("ks", op.I("s")), "maxsz": op.ID("maxsz", -1),
		"more": op.B("more"), "sims": op.L("sims"), "d": op.ID("d", 0),
	}
}

func (w *doWorld) Exec(op Op) M {
	if op.S("op") == "par" {
		subs := op.L("ops")
		evs := make([]M, len(subs))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i, x := range subs {
			sub := Op(x.(map[string]interface{}))
			evs[i] = w.args(sub)
			evs[i]["dbsame"], evs[i]["nnew"], evs[i]["only"], evs[i]["ttlLo"], evs[i]["ttlHi"] = true, 0, true, 0, 0
			wg.Add(1)
			go func(i int, sub Op) {
				defer wg.Done()
				<-start
				w.step(sub, evs[i])
			}(i, sub)
		}
		close(start)
		wg.Wait()
		return M{"op": "par", "evs": evs, "rep": w.reports()}
	}
	ev := w.args(op)
	before := snapshot(w.db)
	t0 := time.Now()
	if op.S("op") == "restart" {
		w.db = reborn(w.db)
		w.start()
	} else if k := op.ID("crash", -1); k >= 0 {
		open := len(w.sess)
		if crashing(w.db, k, func() { w.step(op, ev) }) {
			w.sess = w.sess[:open]
			w.db = reborn(w.db)
			w.start()
			ev["what"], ev["op"], ev["res"] = op.S("op"), "crash", "crash"
		}
	} else {
		w.step(op, ev)
	}
	t1 := time.Now()
	after := snapshot(w.db)
	ev["dbsame"] = before.same(after)
	nk := before.newKeys(after)
	ev["nnew"] = len(nk)
	ev["ttlLo"], ev["ttlHi"] = 0, 0
	ev["only"] = true
	for k := range before {
		if _, ok := after[k]; !ok && !strings.HasPrefix(op.S("op"), "exp") {
			ev["only"] = false
		}
	}
	if op.S("op") == "h60" || op.S("op") == "rv20" {
		if ev["res"] == "ok" && len(w.sess) > 0 {
			w.sess[len(w.sess)-1].keys = nk
			if len(nk) == 1 {
				ev["ttlLo"], ev["ttlHi"] = ttlFields(after[nk[0]].exp, t0, t1)
			}
			for _, k := range nk {
				if _, old := before[k]; old {
					ev["only"] = false
				}
			}
		}
	} else {
		// only the session's own entry may change, and never its expiry
		own := map[string]bool{}
		if s := w.get(op.I("s")); s != nil {
			for _, k := range s.keys {
				own[k] = true
			}
		}
		for _, k := range nk {
			if !own[k] || before[k].exp != after[k].exp {
				ev["only"] = false
			}
		}
	}
	ev["rep"] = w.reports()
	return ev
}

func (w *doWorld) args(op Op) M {
	ev := doArgs(op)
	ev["msg"], ev["ns"], ev["facts"], ev["items"] = 0, 0, []string{}, []int{}
	ev["isdone"], ev["ismore"], ev["res"] = false, false, "done"
	return ev
}

func (w *doWorld) get(s int) *doSess {
	w.mu.Lock()
	defer w.mu.Unlock()
	if s >= 1 && s <= len(w.sess) {
		return w.sess[s-1]
	}
	return nil
}

func (w *doWorld) step(op Op, ev M) {
	switch op.S("op") {
	case "rv20":
		w.rv20(op, ev)
	case "h60":
		w.h60(op, ev)
	case "h62":
		w.reply62(op, ev, w.call(op, 62, w.body(op, w.build62(op))))
	case "h64":
		b, c := w.build64(op)
		w.reply64(op, ev, w.call(op, 64, w.body(op, b)), c)
	case "h66", "h68", "h70":
		msg := map[string]int{"h66": 66, "h68": 68, "h70": 70}[op.S("op")]
		w.replyEnc(op, ev, msg, w.call(op, msg, w.body(op, w.seal(op, w.buildEnc(op, msg)))))
	case "x22", "x32":
		msg := 22
		if op.S("op") == "x32" {
			msg = 32
		}
		b, _ := w.build64(op)
		respFields(w.call(op, msg, b), msg+1, ev)
	case "expsess":
		if s := w.get(op.I("s")); s != nil {
			for _, k := range s.keys {
				expireKey(w.db, k)
			}
		}
	case "fuzz":
		w.fuzz(op, ev)
	default:
		panic("do: unknown op " + op.S("op"))
	}
}

func (w *doWorld) body(op Op, b []byte) []byte { return mangle(b, op.S("body"), op.I("seed")) }

func authHeader(kind, tok string) *string {
	s := ""
	switch kind {
	case "none":
		return nil
	case "empty":
	case "nobearer":
		s = tok
	case "basic":
		s = "Basic " + tok
	case "three":
		s = "Bearer " + tok + " x"
	case "unknown":
		s = "Bearer " + unknownTok
	case "prefix":
		s = "Bearer " + tok[:len(tok)-1]
	case "emptytok":
		s = "Bearer "
	case "long":
		s = "Bearer " + strings.Repeat("a", 5000)
	case "slash":
		s = "Bearer ../" + tok
	case "dbkey":
		s = "Bearer session-" + tok
	case "upper":
		s = "Bearer " + strings.ToUpper(tok) + "A"
	default:
		s = "Bearer " + tok
	}
	return &s
}

const unknownTok = "11111111-2222-4333-8444-555555555555"

func (w *doWorld) call(op Op, msg int, body []byte) Resp {
	ct := "application/cbor"
	switch op.D("ct", "ok") {
	case "none":
		ct = ""
	case "json":
		ct = "application/json"
	case "param":
		ct = "application/cbor; charset=utf-8"
	}
	var auth *string
	if msg != 60 && msg != 20 {
		tok := unknownTok
		if s := w.get(op.I("s")); s != nil {
			tok = s.token
		}
		auth = authHeader(op.D("tokk", "sess"), tok)
	}
	r := fdoReq(op.D("m", "POST"), fmt.Sprintf("/fdo/101/msg/%d", msg), body, ct, auth)
	if op.S("body") == "readerr" {
		r.Body = &brokenBody{b: body}
	}
	return do(w.h, r)
}

func (w *doWorld) echoTok(r Resp, s *doSess) bool {
	return s != nil && r.hdr.Get("Authorization") == "Bearer "+s.token
}

func (w *doWorld) freshTok(t string) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, s := range w.sess {
		if s.token == t {
			return false
		}
	}
	return t != ""
}

func (w *doWorld) rv20(op Op, ev M) {
	r := w.call(op, 20, []byte{0x80})
	respFields(r, 21, ev)
	if ev["res"] == "ok" {
		tok := strings.TrimPrefix(r.hdr.Get("Authorization"), "Bearer ")
		if w.freshTok(tok) {
			ev["facts"] = []string{"token"}
		}
		var n []cbor.RawMessage
		var nb []byte
		if wDec(r.body, &n) == nil && len(n) == 1 {
			_ = wDec(n[0], &nb)
		}
		w.mu.Lock()
		w.sess = append(w.sess, &doSess{proto: "rv", token: tok, nonceDv: nb})
		ev["ns"] = len(w.sess)
		w.mu.Unlock()
	}
}

// ---- 60/61 ----

func (w *doWorld) h60(op Op, ev M) {
	kex, suite, sg := w.kexOf(op.D("kex", "cfg")), w.suiteOf(op.D("cipher", "cfg")), w.sgOf(op.D("sgk", "match"))
	nonce := rnd(16)
	guid := rnd(16)
	if d, ok := w.dev[op.I("g")]; ok {
		guid = append([]byte{}, d.cred.DCGuid[:]...)
	}
	if op.S("body") == "nearguid" {
		guid[15] ^= 1
	}
	b := wEnc(arr{op.ID("maxsz", 1300), guid, nonce, kex, suite, arr{wireSg[sg], []byte{}}})
	if op.S("body") != "nearguid" {
		b = w.body(op, b)
	}
	r := w.call(op, 60, b)
	respFields(r, 61, ev)
	if ev["res"] != "ok" {
		return
	}
	facts := []string{}
	fact := func(n string, ok bool) {
		if ok {
			facts = append(facts, n)
		}
	}
	tok := strings.TrimPrefix(r.hdr.Get("Authorization"), "Bearer ")
	fact("token", strings.HasPrefix(r.hdr.Get("Authorization"), "Bearer ") && w.freshTok(tok))
	s := &doSess{proto: "do", token: tok, g: op.I("g"), kex: kex, suite: suite, nonceOv: nonce}
	var c wSign
	var p w61
	v := w.v[op.I("g")]
	if v == nil {
		v = w.v[1]
	}
	if err := wTagged(r.body, 18, &c); err == nil {
		fact("cose", true)
		fact("ownersig", wVerify(c, pubOf(v.final.priv), sgAlg[w.osg]))
		var nd []byte
		if wDec(c.Unprot[256], &nd) == nil && len(nd) == 16 {
			fact("noncefresh", nonces.fresh(nd))
			s.nonceDv = nd
		}
		fact("ownerkey", bytes.Equal(c.Unprot[257], wEnc(wKey(pubOf(v.final.priv), w.osg))))
		if err := wDec(c.Payload, &p); err == nil {
			fact("header", bytes.Equal(p.Hdr, v.v.OVHeaderTag))
			fact("count", p.N == len(v.v.OVEntryArray))
			fact("hmac", bytes.Equal(p.Hmac, wEnc(arr{int(v.v.OVHeaderHMac.Type), v.v.OVHeaderHMac.Hash})))
			fact("nonce", bytes.Equal(p.Nonce, nonce))
			fact("siginfo", bytes.Equal(p.Eb, wEnc(arr{wireSg[sg], []byte{}})))
			fact("xa", checkXA(kex, p.Xa) && nonces.fresh(p.Xa))
			fact("hellohash", p.Hash.Type == hashTypeOfSg(sg) && bytes.Equal(p.Hash.Hash, hashFor(p.Hash.Type, b)))
			s.xa = p.Xa
		}
	}
	w.mu.Lock()
	w.sess = append(w.sess, s)
	ev["ns"] = len(w.sess)
	w.mu.Unlock()
	ev["facts"] = facts
}

// ---- 62/63 ----

func (w *doWorld) build62(op Op) []byte { return wEnc(arr{op.I("idx")}) }

func (w *doWorld) reply62(op Op, ev M, r Resp) {
	respFields(r, 63, ev)
	s := w.get(op.I("s"))
	if ev["res"] != "ok" {
		return
	}
	facts := []string{}
	if w.echoTok(r, s) {
		facts = append(facts, "token")
	}
	var p w63
	if wDec(r.body, &p) == nil && s != nil && w.v[s.g] != nil {
		v := w.v[s.g]
		if p.Num == op.I("idx") {
			facts = append(facts, "num")
		}
		if i := op.I("idx"); i >= 0 && i < len(v.v.OVEntryArray) && bytes.Equal(p.Entry, mustCbor(v.v.OVEntryArray[i])) {
			facts = append(facts, "entry")
		}
	}
	ev["facts"] = facts
}

// ---- 64/65 ----

type attempt struct {
	euph  []byte
	cands []sessKey
}

func (w *doWorld) nonceFor(op Op, dflt int) []byte {
	n := op.ID("nonce", dflt)
	if s := w.get(n); s != nil && s.nonceDv != nil {
		return s.nonceDv
	}
	if n == -1 {
		return make([]byte, 16)
	}
	return rnd(16)
}

func (w *doWorld) build64(op Op) ([]byte, attempt) {
	s := w.get(op.I("s"))
	g, kex := 1, w.kex
	var xa []byte
	if s != nil && s.proto == "do" && w.dev[s.g] != nil {
		g, kex, xa = s.g, s.kex, s.xa
	}
	if op.I("d") != 0 {
		g = op.I("d")
	}
	at := attempt{euph: rnd(16)}
	opub := pubOf(w.v[g].final.priv)
	var xb []byte
	if _, ok := kexInfos[kex]; ok && xa != nil {
		var err error
		xb, at.cands, err = refPeer(kex, xa, opub, op.B("lead"))
		if err != nil {
			panic("harness: reference key exchange: " + err.Error())
		}
	}
	switch op.D("xb", "ok") {
	case "ok":
	case "empty":
		xb = []byte{}
	case "short":
		if len(xb) > 0 {
			xb = xb[:len(xb)-1]
		}
	case "long":
		xb = append(xb, 0)
	case "bad": // well shaped but not a usable public value
		switch kexInfos[kex].kind {
		case "ecdh":
			xb = append([]byte{}, xb...)
			xb[20] ^= 0xff
		case "dh":
			p, _ := dhGroup(kexInfos[kex].groupN)
			xb = p.Bytes()
		default:
			xb = rnd(len(xb))
		}
	case "zero":
		switch kexInfos[kex].kind {
		case "ecdh":
			n := kexInfos[kex].clen
			for i := 0; i < n; i++ {
				xb[2+i], xb[4+n+i] = 0, 0
			}
		case "dh":
			xb = []byte{0}
		default:
			xb = make([]byte, len(xb))
		}
	}
	guid := w.dev[g].cred.DCGuid
	pl := imap{10: w.nonceFor(op, op.I("s")), 256: append([]byte{1}, guid[:]...), -257: arr{xb}}
	alt := imap{10: w.nonceFor(op, op.I("s")), 256: append([]byte{2}, guid[:]...), -257: arr{xb}}
	switch op.D("pay", "ok") {
	case "nofdo":
		delete(pl, -257)
	case "nononce":
		delete(pl, 10)
	}
	payload := wEnc(pl)
	if p := op.D("pay", "ok"); p != "nofdo" && p != "nononce" {
		payload = mangle(payload, p, op.I("seed"))
	}
	unprot := imap{-259: at.euph}
	switch op.D("euph", "ok") {
	case "none":
		unprot = imap{}
	case "short":
		unprot = imap{-259: at.euph[:15]}
	case "long":
		unprot = imap{-259: append(append([]byte{}, at.euph...), 1)}
	case "other":
		unprot = imap{256: at.euph}
	}
	var priv interface{} = w.dev[g].key
	switch op.D("signer", "dev") {
	case "otherkey":
		priv = keys.get(sgByName[w.dsg], 907).priv
	case "otherdev":
		priv = w.dev[g%3+1].key
	case "ownerkey":
		priv = w.v[g].final.priv
	case "ca":
		priv = caKey()
	}
	return wMakeSign(payload, unprot, priv, op.D("sigk", "ok"), wEnc(alt)), at
}

func (w *doWorld) tryKeys(s *doSess, cands []sessKey, b []byte) (pt, iv []byte, k *sessKey) {
	for i := range cands {
		pt, iv, err := refDecrypt(s.suite, cands[i], b)
		if err == nil {
			return pt, iv, &cands[i]
		}
	}
	return nil, nil, nil
}

func (w *doWorld) reply64(op Op, ev M, r Resp, at attempt) {
	respFields(r, 65, ev)
	s := w.get(op.I("s"))
	if ev["res"] != "ok" {
		return
	}
	facts := []string{}
	fact := func(n string, ok bool) {
		if ok {
			facts = append(facts, n)
		}
	}
	defer func() { ev["facts"] = facts }()
	fact("token", w.echoTok(r, s))
	if s == nil || w.v[s.g] == nil {
		return
	}
	v := w.v[s.g]
	guid := v.dev.cred.DCGuid
	kder := wEnc(wKey(pubOf(v.final.priv), w.osg))
	fact("hidden", !containsAny(r.body, guid[:], at.euph, kder))
	pt, iv, k := w.tryKeys(s, at.cands, r.body)
	if k == nil {
		return
	}
	fact("decrypts", true)
	fact("ivfresh", nonces.fresh(iv))
	s.key, s.euph = k, at.euph
	var c wSign
	var p w65
	if wTagged(pt, 18, &c) != nil {
		return
	}
	fact("ownersig", wVerify(c, pubOf(v.final.priv), sgAlg[w.osg]))
	if wDec(c.Payload, &p) != nil {
		return
	}
	var hdr fdoshared.OwnershipVoucherHeader
	_ = fdoshared.CborCust.Unmarshal(v.v.OVHeaderTag, &hdr)
	fact("nonce", bytes.Equal(p.Nonce, at.euph))
	fact("guid", bytes.Equal(p.Guid, guid[:]))
	fact("rvinfo", bytes.Equal(p.Rv, mustCbor(hdr.OVRvInfo)))
	fact("ownerkey", bytes.Equal(p.Key, kder))
}

// ---- 66..71 ----

var simNames = []string{"", "devmod:active", "devmod:os", "devmod:arch", "devmod:version", "devmod:device", "devmod:sep", "devmod:bin", "devmod:nummodules", "devmod:modules"}

func simKV(id, seed int) interface{} {
	val := func(x interface{}) []byte { return wEnc(x) }
	pick := func(xs ...[]byte) []byte { return xs[((seed%len(xs))+len(xs))%len(xs)] }
	switch {
	case id == 1:
		return arr{simNames[1], pick(val(true), val(false))}
	case id >= 2 && id <= 7:
		return arr{simNames[id], pick(val("linux"), val(""), val(strings.Repeat("x", 300)))}
	case id == 8:
		return arr{simNames[8], pick(val(1), val(0), val(70000))}
	case id == 9:
		return arr{simNames[9], pick(val(arr{0, 1, "devmod"}), val(arr{0, 2, "devmod", "fido_alliance"}))}
	case id == 11:
		return arr{simNames[1], pick(val("true"), val(1), []byte{}, append(val(true), 0))}
	case id >= 12 && id <= 17:
		return arr{simNames[id-10], pick(val(7), val([]byte("linux")), []byte{}, append(val("x"), val("y")...), []byte{0x65, 'a'}, val(arr{"x"}))}
	case id == 18:
		return arr{simNames[8], pick(val("1"), val(-1), []byte{}, val(1.5), []byte{0x1b})}
	case id == 19:
		return arr{simNames[9], pick(val(arr{0, 1}), val(arr{"0", 1, "devmod"}), val(arr{0, "1", "devmod"}), val(arr{0, 1, 5}), val("devmod"),
			val(arr{0, 1, "devmod", 9}), []byte{}, val(arr{}), val(arr{-1, 1, "devmod"}))}
	case id == 21:
		return arr{"devmod:sn", val("SN-1")}
	}
	return arr{"vendor:thing", pick(val(1), []byte{}, []byte{0xff, 0xff}, val("z"))}
}

func (w *doWorld) buildEnc(op Op, msg int) []byte {
	var b []byte
	switch msg {
	case 66:
		var mx interface{}
		if op.ID("maxsz", -1) >= 0 {
			mx = op.I("maxsz")
		}
		b = wEnc(arr{nil, mx})
		if op.B("hmac") {
			b = wEnc(arr{arr{5, rnd(32)}, mx})
		}
	case 68:
		sims := arr{}
		for i, x := range op.L("sims") {
			sims = append(sims, simKV(int(x.(float64)), op.I("seed")+i))
		}
		b = wEnc(arr{op.B("more"), sims})
	case 70:
		b = wEnc(arr{w.nonceFor(op, op.I("s"))})
	}
	return mangle(b, op.D("pay", "ok"), op.I("seed"))
}

func (w *doWorld) seal(op Op, pt []byte) []byte {
	s := w.get(op.I("s"))
	suite := w.suite
	k := sessKey{shse: rnd(32)}
	if s != nil && s.proto == "do" {
		suite = s.suite
		if s.key != nil {
			k = *s.key
		}
	}
	switch op.D("enc", "ok") {
	case "ok":
		if ks := op.ID("ks", op.I("s")); ks != op.I("s") {
			k = sessKey{shse: rnd(32)}
			if o := w.get(ks); o != nil && o.key != nil {
				k = *o.key
			}
		}
		return refEncrypt(suite, k, pt, "ok")
	case "otherkey":
		return refEncrypt(suite, sessKey{shse: rnd(32), ctx: k.ctx}, pt, "ok")
	case "nokey":
		return refEncrypt(suite, sessKey{}, pt, "ok")
	case "suite":
		o := 1
		if suite == 1 {
			o = 3
		}
		if suite == ctrSuite {
			o = 1
		}
		return refEncrypt(o, k, pt, "ok")
	}
	return refEncrypt(suite, k, pt, op.S("enc"))
}

func (w *doWorld) replyEnc(op Op, ev M, msg int, r Resp) {
	respFields(r, msg+1, ev)
	s := w.get(op.I("s"))
	if ev["res"] != "ok" {
		return
	}
	facts := []string{}
	fact := func(n string, ok bool) {
		if ok {
			facts = append(facts, n)
		}
	}
	defer func() { ev["facts"] = facts }()
	fact("token", w.echoTok(r, s))
	if s == nil || s.key == nil {
		return
	}
	hide := [][]byte{s.euph}
	for _, x := range w.sims {
		hide = append(hide, []byte(x.K), x.V)
	}
	fact("hidden", !containsAny(r.body, hide...))
	pt, iv, err := refDecrypt(s.suite, *s.key, r.body)
	if err != nil {
		return
	}
	fact("decrypts", true)
	fact("ivfresh", nonces.fresh(iv))
	switch msg {
	case 66:
		var p w67
		if wDec(pt, &p) != nil {
			return
		}
		want := 1300
		if op.ID("maxsz", -1) >= 0 {
			want = op.I("maxsz")
		}
		fact("size", p.Max != nil && *p.Max == want)
	case 68:
		var p w69
		if wDec(pt, &p) != nil {
			return
		}
		fact("shape", true)
		items := []int{}
		for _, kv := range p.Info {
			id := 0
			for i, x := range w.sims {
				if s.g == 1 && kv.K == x.K && bytes.Equal(kv.V, x.V) {
					id = i + 1
				}
			}
			items = append(items, id)
		}
		ev["items"], ev["isdone"], ev["ismore"] = items, p.Done, p.More
	case 70:
		var p w71
		if wDec(pt, &p) != nil {
			return
		}
		fact("nonce", bytes.Equal(p.Nonce, s.euph))
	}
}

// fuzz sends an honest message with some bytes altered; "inner" alters the
// plaintext of an encrypted message before it is encrypted.
func (w *doWorld) fuzz(op Op, ev M) {
	msg := op.I("msg")
	ev["msg"] = msg
	op["body"] = "ok"
	var b []byte
	switch msg {
	case 60:
		b = wEnc(arr{1300, w.dev[1].cred.DCGuid[:], rnd(16), w.kex, w.suite, arr{wireSg[w.dsg], []byte{}}})
	case 62:
		b = w.build62(op)
	case 64:
		b, _ = w.build64(op)
	default:
		pt := w.buildEnc(op, msg)
		if op.B("inner") {
			b = w.seal(op, fuzzBytes(pt, op))
		} else {
			b = w.seal(op, pt)
		}
	}
	if !(msg >= 66 && op.B("inner")) {
		b = fuzzBytes(b, op)
	}
	ev["hex"] = sum(b)
	if len(b) <= 300 {
		ev["hex"] = fmt.Sprintf("%x", b)
	}
	respFields(w.call(op, msg, b), msg+1, ev)
}
