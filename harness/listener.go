package main

import (
	"bytes"
	"context"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/fido-alliance/iot-fdo-conformance-tools/api"
	coredo "github.com/fido-alliance/iot-fdo-conformance-tools/core/do"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

// lisWorld drives tests of devices: the management API, the rendezvous and the
// onboarding service share one database, as in the running tool.  A reference
// device talks to the services; what is wrong with each answer is worked out
// from the bytes and reported as a set of defects, and after every operation
// the recorded runs are read back through the API.
type lisWorld struct {
	dw     *doWorld
	nd     int
	id     map[int]string // test instance of device d
	runs   map[string]int // run uuid -> number
	uuid   []string       // number-1 -> uuid
	blob   map[int][]byte // to1d registered for device d
	sess   map[int]*lisSess
	cookie string
	hub    string
	mu     sync.Mutex
	events []M
}

type lisSess struct {
	d, p  int
	n     int // number in dw.sess
	tok   string
	nonce []byte // TO1
	due   int
	idx   int
	more  int // device service information messages sent
	at    attempt
	last  string // how the last message was answered
	fin   bool
	blind bool // the nonce never reached the device
}

func init() { worlds["listener"] = newLisWorld }

func newLisWorld(cfg Op) (World, M, error) {
	dw := &doWorld{db: newDB(), dev: map[int]*Device{}, v: map[int]*Voucher{}}
	dw.osg, dw.dsg = cfg.D("osg", "ec256"), cfg.D("dsg", "ec256")
	dw.kex, dw.suite = cfg.D("kex", "ECDH256"), cfg.ID("cipher", 1)
	w := &lisWorld{dw: dw, nd: cfg.ID("nd", 1), id: map[int]string{}, runs: map[string]int{}, blob: map[int][]byte{}, sess: map[int]*lisSess{}}
	n := cfg.ID("n", 1)
	for d := 1; d <= 3; d++ {
		dw.dev[d] = getDevice(sgByName[dw.dsg], sgByName[dw.osg], 120+d)
		dw.v[d] = buildVoucher(dw.dev[d], chainOpts{n: n, ownerSg: sgByName[dw.osg], keyBase: 900 + 10*d})
	}
	w.hub, _ = "", 0
	id, url := hubURL(func(rw http.ResponseWriter, r *http.Request) { dw.h.ServeHTTP(rw, r) })
	w.hub = id
	dw.ctx = context.WithValue(ctxBase, fdoshared.CFG_ENV_FDO_SERVICE_URL, url)
	w.start()

	r := w.api("POST", "/api/user/login/onprem", "{}")
	for _, c := range (&http.Response{Header: r.hdr}).Cookies() {
		if c.Name == "session" {
			w.cookie = c.Value
		}
	}
	if w.cookie == "" {
		return nil, nil, fmt.Errorf("login: %d %s", r.status, r.body)
	}
	for d := 1; d <= w.nd; d++ {
		v := dw.v[d]
		p := pem.EncodeToMemory(&pem.Block{Type: fdoshared.OWNERSHIP_VOUCHER_PEM_TYPE, Bytes: mustCbor(v.v)})
		p = append(p, pem.EncodeToMemory(&pem.Block{Type: fdoshared.PRIVATE_KEY_PEM_TYPE, Bytes: v.final.der})...)
		b, _ := json.Marshal(M{"name": fmt.Sprintf("device %d", d), "voucher": string(p)})
		if r := w.api("POST", "/api/device/create", string(b)); r.status != 200 {
			return nil, nil, fmt.Errorf("create: %d %s", r.status, r.body)
		}
		g := v.dev.cred.DCGuid
		for _, x := range w.list() {
			if strings.EqualFold(x.Guid, fmt.Sprintf("%x", g[:])) {
				w.id[d] = x.Id
			}
		}
		if w.id[d] == "" {
			return nil, nil, fmt.Errorf("created test is not listed")
		}
		// what the rendezvous service tells this device while it is not being tested
		ev := M{}
		s := w.hello(1, d, Op{}, ev)
		if s == nil || ev["ans"] != "ok" {
			return nil, nil, fmt.Errorf("TO1 before the tests: %v", ev)
		}
		r := dw.h
		resp := do(r, fdoReq("POST", "/fdo/101/msg/32", w.build32(s, Op{}), "application/cbor", authHeader("ok", s.tok)))
		var c wSign
		if resp.status != 200 || wTagged(resp.body, 18, &c) != nil || !wVerify(c, pubOf(v.final.priv), sgAlg[dw.osg]) {
			return nil, nil, fmt.Errorf("TO1 before the tests: %d %x", resp.status, resp.body)
		}
		w.blob[d] = resp.body
	}
	return w, M{"nd": w.nd, "n": n, "cfg": fmt.Sprintf("%s/%s/%s/%d", dw.osg, dw.dsg, dw.kex, dw.suite)}, nil
}

func (w *lisWorld) start() {
	dw := w.dw
	dw.h = captureMux(func() {
		coredo.SetupServer(dw.db, dw.ctx)
		rv.SetupServer(dw.db, dw.ctx)
		api.SetupServer(dw.db, dw.ctx)
	})
}

func (w *lisWorld) Close()       { hubDrop(w.hub); w.dw.db.Close() }
func (w *lisWorld) Exec(op Op) M { panic("listener: Exec") }
func (w *lisWorld) Run(ops []Op) []M {
	for _, op := range ops {
		w.op(op)
	}
	return w.events
}

func (w *lisWorld) emit(e M) {
	w.mu.Lock()
	w.events = append(w.events, e)
	w.mu.Unlock()
}

func (w *lisWorld) api(method, path, body string) Resp {
	r := httptest.NewRequest(method, path, strings.NewReader(body))
	r.Header.Set("Content-Type", "application/json")
	if w.cookie != "" {
		r.AddCookie(&http.Cookie{Name: "session", Value: w.cookie})
	}
	return do(w.dw.h, r)
}

type lisRun struct {
	Uuid  string `json:"uuid"`
	Tests []struct {
		Passed bool   `json:"passed"`
		Error  string `json:"error"`
		TestId string `json:"testId"`
	} `json:"tests"`
	Protocol  int  `json:"protocol"`
	Completed bool `json:"completed"`
}

type lisItem struct {
	Id, Name, Guid string
	To1, To2       []lisRun
}

func (w *lisWorld) list() []lisItem {
	r := w.api("GET", "/api/device/testruns", "")
	var x struct {
		Entries []lisItem `json:"entries"`
	}
	if r.status != 200 || json.Unmarshal(r.body, &x) != nil {
		return nil
	}
	return x.Entries
}

func (w *lisWorld) look() {
	items := map[string]lisItem{}
	for _, x := range w.list() {
		items[x.Id] = x
	}
	for d := 1; d <= w.nd; d++ {
		for p := 1; p <= 2; p++ {
			x := items[w.id[d]]
			l := x.To1
			if p == 2 {
				l = x.To2
			}
			runs := []M{}
			for _, h := range l {
				w.mu.Lock()
				r := w.runs[h.Uuid]
				w.mu.Unlock()
				tests := []M{}
				for _, t := range h.Tests {
					tests = append(tests, M{"id": t.TestId, "passed": t.Passed})
				}
				runs = append(runs, M{"r": r, "done": h.Completed, "tests": tests})
			}
			w.emit(M{"op": "look", "d": d, "p": p, "runs": runs})
		}
	}
}

func (w *lisWorld) op(op Op) {
	if op.S("op") == "par" {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, x := range op.L("ops") {
			sub := Op(x.(map[string]interface{}))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				w.one(sub)
			}()
		}
		close(start)
		wg.Wait()
	} else {
		w.one(op)
	}
	w.look()
}

func apiRes(r Resp) string {
	switch {
	case r.panicked != "":
		return "panic"
	case r.status == 200:
		return "ok"
	case r.status >= 400:
		return "err"
	}
	return "odd"
}

func (w *lisWorld) one(op Op) {
	d, p := op.I("d"), op.I("p")
	switch op.S("op") {
	case "restart":
		w.dw.db = reborn(w.dw.db)
		w.start()
		w.emit(M{"op": "restart"})
	case "start":
		r := w.api("POST", fmt.Sprintf("/api/device/testruns/%d/%s", p, w.id[d]), "")
		n := 0
		for _, x := range w.list() {
			l := x.To1
			if p == 2 {
				l = x.To2
			}
			if x.Id == w.id[d] && len(l) > 0 {
				w.mu.Lock()
				if w.runs[l[0].Uuid] == 0 {
					w.uuid = append(w.uuid, l[0].Uuid)
					n = len(w.uuid)
					w.runs[l[0].Uuid] = n
				}
				w.mu.Unlock()
			}
		}
		w.emit(M{"op": "start", "d": d, "p": p, "r": n, "res": apiRes(r)})
	case "remove":
		u := "00000000-0000-4000-8000-000000000000"
		r := op.I("r")
		if r >= 1 && r <= len(w.uuid) {
			u = w.uuid[r-1]
		} else {
			r = 0
		}
		res := w.api("DELETE", fmt.Sprintf("/api/device/testruns/%d/%s/%s", p, w.id[d], u), "")
		w.emit(M{"op": "remove", "d": d, "p": p, "r": r, "res": apiRes(res)})
	case "hello":
		ev := M{"op": "msg", "d": d, "p": p, "s": op.I("s"), "valid": true, "heard": true, "kind": op.D("k", "ok")}
		s := w.hello(p, d, op, ev)
		if s != nil {
			w.mu.Lock()
			w.sess[op.I("s")] = s
			w.mu.Unlock()
		}
		w.emit(ev)
	case "next":
		w.mu.Lock()
		s := w.sess[op.I("s")]
		w.mu.Unlock()
		if s == nil {
			return
		}
		// first what has to come before the message of type to
		for i := 0; s.due < op.I("to") && i < 12; i++ {
			before := s.idx + s.more + s.due
			w.next(s, Op{"s": op["s"]})
			if s.idx+s.more+s.due == before {
				return
			}
		}
		w.next(s, op)
	case "go":
		// goes on unless the last answer was bad
		w.mu.Lock()
		s := w.sess[op.I("s")]
		w.mu.Unlock()
		if s != nil && !s.fin && (s.last == "ok" || op.B("slip")) {
			w.next(s, op)
		}
	case "own":
		w.own(op)
	default:
		panic("harness: listener op " + op.S("op"))
	}
}

// defects collects what is wrong with an answer.
type defects map[string]bool

func (x defects) add(n string, bad bool) {
	if bad {
		x[n] = true
	}
}

func (x defects) into(ev M) {
	l := []string{}
	for n := range x {
		l = append(l, n)
	}
	sort.Strings(l)
	ev["defs"] = l
	if len(l) > 0 {
		ev["ans"] = "def"
	}
}

// answer classifies a response; only a message of the expected type is looked into.
func answer(r Resp, want int, ev M) bool {
	f := M{}
	respFields(r, want, f)
	ev["ans"], ev["why"], ev["defs"] = f["res"], f["why"], []string{}
	return f["res"] == "ok"
}

func (w *lisWorld) hello(p, d int, op Op, ev M) *lisSess {
	k := op.D("k", "ok")
	g := append([]byte{}, w.dw.dev[d].cred.DCGuid[:]...)
	s := &lisSess{d: d, p: p}
	x := defects{}
	ct := "application/cbor"
	if k == "ct" {
		ct = "text/plain"
	}
	if k != "ok" {
		ev["valid"], ev["heard"] = false, false
	}
	eb := arr{wireSg[w.dw.dsg], []byte{}}
	if p == 1 {
		ev["cmd"] = 30
		b := wEnc(arr{g, eb})
		if k == "junk" {
			b = mangle(b, []string{"trunc", "empty", "trailing"}[op.I("seed")%3], op.I("seed"))
		}
		if k == "sg" {
			b = wEnc(arr{g, arr{17, []byte{}}})
		}
		r := do(w.dw.h, fdoReq("POST", "/fdo/101/msg/30", b, ct, nil))
		if !answer(r, 31, ev) {
			return nil
		}
		var c struct {
			_     struct{} `cbor:",toarray"`
			Nonce []byte
			Eb    interface{}
		}
		s.tok = strings.TrimPrefix(r.hdr.Get("Authorization"), "Bearer ")
		x.add("authz", s.tok == "")
		if wDec(r.body, &c) != nil || len(c.Nonce) != 16 {
			x.add("outer", true)
		} else {
			x.add("eb", !bytes.Equal(wEnc(c.Eb), wEnc(eb)))
			s.nonce = c.Nonce
		}
		if s.nonce == nil {
			s.nonce, s.blind = rnd(16), true
		}
		s.due = 32
		x.into(ev)
		s.last = ev["ans"].(string)
		return s
	}
	ev["cmd"] = 60
	nonce := rnd(16)
	kex, suite := w.dw.kex, w.dw.suite
	if k == "kex" {
		kex = "ECDH521"
	}
	b := wEnc(arr{1300, g, nonce, kex, suite, eb})
	if k == "sg" {
		b = wEnc(arr{1300, g, nonce, kex, suite, arr{17, []byte{}}})
	}
	if k == "junk" {
		b = mangle(b, []string{"trunc", "empty", "trailing"}[op.I("seed")%3], op.I("seed"))
	}
	r := do(w.dw.h, fdoReq("POST", "/fdo/101/msg/60", b, ct, nil))
	if !answer(r, 61, ev) {
		return nil
	}
	s.tok = strings.TrimPrefix(r.hdr.Get("Authorization"), "Bearer ")
	x.add("authz", s.tok == "")
	v := w.dw.v[d]
	ds := &doSess{proto: "do", token: s.tok, g: d, kex: kex, suite: suite, nonceOv: nonce}
	var c wSign
	var q w61
	if wTagged(r.body, 18, &c) != nil {
		x.add("outer", true)
	} else {
		x.add("sig", !wVerify(c, pubOf(v.final.priv), sgAlg[w.dw.osg]))
		var nd []byte
		if wDec(c.Unprot[256], &nd) == nil && len(nd) == 16 {
			ds.nonceDv = nd
		}
		x.add("unprot", ds.nonceDv == nil || !bytes.Equal(c.Unprot[257], wEnc(wKey(pubOf(v.final.priv), w.dw.osg))))
		if wDec(c.Payload, &q) != nil {
			x.add("payload", true)
		} else {
			x.add("hdr", !bytes.Equal(q.Hdr, v.v.OVHeaderTag))
			x.add("count", q.N != len(v.v.OVEntryArray))
			x.add("hmac", !bytes.Equal(q.Hmac, wEnc(arr{int(v.v.OVHeaderHMac.Type), v.v.OVHeaderHMac.Hash})))
			x.add("nonce", !bytes.Equal(q.Nonce, nonce))
			x.add("eb", !bytes.Equal(q.Eb, wEnc(eb)))
			x.add("xa", !checkXA(kex, q.Xa))
			x.add("hash", q.Hash.Type != hashTypeOfSg(w.dw.dsg) || !bytes.Equal(q.Hash.Hash, hashFor(hashTypeOfSg(w.dw.dsg), b)))
			ds.xa = q.Xa
		}
	}
	w.dw.mu.Lock()
	w.dw.sess = append(w.dw.sess, ds)
	s.n = len(w.dw.sess)
	w.dw.mu.Unlock()
	s.due = 62
	if len(v.v.OVEntryArray) == 0 {
		s.due = 64
	}
	x.into(ev)
	s.last = ev["ans"].(string)
	return s
}

func (w *lisWorld) build32(s *lisSess, op Op) []byte {
	g := w.dw.dev[s.d].cred.DCGuid
	nonce := s.nonce
	if op.S("k") == "nonce" {
		nonce = rnd(16)
	}
	priv := w.dw.dev[s.d].key
	if op.S("k") == "sig" || op.S("k") == "idx" {
		priv = keys.get(sgByName[w.dw.dsg], 907).priv
	}
	return wMakeSign(wEnc(imap{10: nonce, 256: append([]byte{1}, g[:]...)}), imap{}, priv, "ok", nil)
}

// next sends the message that is due in a session, or a spoilt one.
func (w *lisWorld) next(s *lisSess, op Op) {
	k := op.D("k", "ok")
	cmd := s.due
	o := Op{"s": float64(s.n)}
	sd := op.I("seed")
	if k == "skip" {
		switch cmd {
		case 32:
			return
		case 70:
			cmd = 66
		case 68:
			cmd = []int{70, 64, 66}[sd%3]
		case 66:
			cmd = []int{68, 70, 62}[sd%3]
		case 64:
			cmd = []int{66, 68, 70}[sd%3]
		default:
			cmd = []int{64, 66, 68, 70}[sd%4]
		}
		if c := op.I("c"); c > cmd {
			cmd = c
		}
		if cmd == 64 && w.dw.get(s.n).xa == nil {
			cmd = 66
		}
	}
	var b []byte
	at := s.at
	ds := w.dw.get(s.n)
	spoil := k != "ok" && k != "more" && k != "skip"
	switch cmd {
	case 32:
		b = w.build32(s, op)
	case 62:
		o["idx"] = float64(s.idx)
		if k == "idx" || k == "sig" || k == "nonce" {
			o["idx"] = float64(len(w.dw.v[s.d].v.OVEntryArray) + sd%3)
		}
		b = w.dw.build62(o)
	case 64:
		if ds.xa == nil || ds.nonceDv == nil {
			return // the defective 61 left nothing to answer to
		}
		switch k {
		case "sig", "idx":
			o["signer"] = "otherkey"
		case "nonce":
			o["nonce"] = float64(0)
		}
		b, at = w.dw.build64(o)
	default:
		if ds.key == nil && (len(s.at.cands) != 1) && k != "skip" {
			return // the session key is not known for certain
		}
		if ds.key == nil && len(s.at.cands) == 1 {
			ds.key = &s.at.cands[0]
		}
		switch k {
		case "sig", "idx":
			o["enc"] = "otherkey"
		case "nonce":
			if cmd == 70 {
				o["nonce"] = float64(0)
			} else {
				o["enc"] = "otherkey"
			}
		}
		if cmd == 68 {
			// complete device information first
			if s.more == 0 {
				o["more"] = true
				o["sims"] = []interface{}{1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0}
			} else {
				o["more"] = false
			}
			if k == "more" && s.more > 0 {
				o["more"], o["sims"] = true, []interface{}{21.0}
			}
		}
		b = w.dw.seal(o, w.dw.buildEnc(o, cmd))
	}
	if k == "junk" {
		b = mangle(b, []string{"trunc", "empty", "trailing"}[sd%3], sd)
	}
	if spoil && k == "cross" {
		return
	}
	auth := authHeader("ok", s.tok)
	if s.tok == "" {
		auth = authHeader([]string{"none", "unknown", "empty"}[sd%3], s.tok)
	}
	if k == "tokless" {
		auth = authHeader([]string{"none", "unknown", "nobearer"}[sd%3], s.tok+"x")
	}
	ct := "application/cbor"
	if k == "ct" {
		ct = "text/plain"
	}
	// the service leaves it to the device how many entries it asks for, but for the first
	early := k == "skip" && s.due == 62 && cmd == 64 && s.idx > 0
	ev := M{"op": "msg", "d": s.d, "p": s.p, "s": op.I("s"), "cmd": cmd, "kind": k,
		"valid": (k == "ok" || k == "more" || early) && s.tok != "" && !s.blind, "heard": k != "tokless" && k != "ct" && s.tok != ""}
	r := do(w.dw.h, fdoReq("POST", fmt.Sprintf("/fdo/101/msg/%d", cmd), b, ct, auth))
	if answer(r, cmd+1, ev) {
		w.read(s, cmd, r, at, o).into(ev)
		if early {
			s.due = 64
		}
		if s.due == cmd {
			w.advance(s, cmd, o)
		}
	}
	s.last, _ = ev["ans"].(string)
	s.fin = s.fin || (s.last == "ok" && (cmd == 32 || cmd == 70))
	w.emit(ev)
}

// advance: the service went along with the message.
func (w *lisWorld) advance(s *lisSess, cmd int, o Op) {
	switch cmd {
	case 62:
		s.idx++
		if s.idx >= len(w.dw.v[s.d].v.OVEntryArray) {
			s.due = 64
		}
	case 64:
		s.due = 66
	case 66:
		s.due = 68
	case 68:
		s.more++
		if !o.B("more") {
			s.due = 70
		}
	}
}

func (w *lisWorld) read(s *lisSess, cmd int, r Resp, at attempt, o Op) defects {
	x := defects{}
	v := w.dw.v[s.d]
	ds := w.dw.get(s.n)
	if cmd != 32 {
		x.add("authz", !w.dw.echoTok(r, ds))
	}
	var pt []byte
	if cmd >= 64 {
		var err error
		if cmd == 64 {
			var k *sessKey
			s.at = at
			ds.euph, ds.key = at.euph, nil
			pt, _, k = w.dw.tryKeys(ds, at.cands, r.body)
			if k == nil {
				err = fmt.Errorf("no key")
			}
			ds.key = k
		} else {
			pt, _, err = refDecrypt(ds.suite, *ds.key, r.body)
		}
		if err != nil {
			x.add("enc", true)
			return x
		}
	}
	switch cmd {
	case 32:
		var c wSign
		if wTagged(r.body, 18, &c) != nil {
			x.add("outer", true)
			return x
		}
		x.add("sig", !wVerify(c, pubOf(v.final.priv), sgAlg[w.dw.osg]))
		x.add("blob", !bytes.Equal(r.body, w.blob[s.d]))
	case 62:
		var p w63
		if wDec(r.body, &p) != nil {
			x.add("outer", true)
			return x
		}
		i := o.I("idx")
		x.add("num", p.Num != i)
		if !bytes.Equal(p.Entry, mustCbor(v.v.OVEntryArray[i])) {
			x.add("entry", true)
			var c wSign
			x.add("sig", wTagged(p.Entry, 18, &c) != nil || !wVerify(c, pubOf(v.keys[i].priv), sgAlg[w.dw.osg]))
		}
	case 64:
		var c wSign
		var p w65
		if wTagged(pt, 18, &c) != nil {
			x.add("inner", true)
			return x
		}
		x.add("sig", !wVerify(c, pubOf(v.final.priv), sgAlg[w.dw.osg]))
		if wDec(c.Payload, &p) != nil {
			x.add("payload", true)
			return x
		}
		g := v.dev.cred.DCGuid
		x.add("nonce", !bytes.Equal(p.Nonce, at.euph))
		x.add("other", !bytes.Equal(p.Guid, g[:]) || !bytes.Equal(p.Key, wEnc(wKey(pubOf(v.final.priv), w.dw.osg))))
	case 66:
		var p w67
		x.add("inner", wDec(pt, &p) != nil || p.Max == nil || *p.Max != 1300)
	case 68:
		var p w69
		x.add("inner", wDec(pt, &p) != nil || (p.Done == o.B("more")))
	case 70:
		var p w71
		if wDec(pt, &p) != nil {
			x.add("inner", true)
		} else {
			x.add("nonce", !bytes.Equal(p.Nonce, ds.euph))
		}
	}
	return x
}

// own lets the tool's own device go through the protocol again and again.
func (w *lisWorld) own(op Op) {
	d, p := op.I("d"), op.I("p")
	id, url := hubURL(func(rw http.ResponseWriter, r *http.Request) { w.dw.h.ServeHTTP(rw, r) })
	defer hubDrop(id)
	ok, why := 0, ""
	for i := 0; i < op.ID("times", 1); i++ {
		err := func() (err error) {
			defer func() {
				if x := recover(); x != nil {
					err = fmt.Errorf("PANIC %v", x)
				}
			}()
			ch := make(chan error, 1)
			go func() {
				defer func() {
					if x := recover(); x != nil {
						ch <- fmt.Errorf("PANIC %v", x)
					}
				}()
				if op.B("cli") {
					ch <- runCli(map[int]string{1: "to1", 2: "to2"}[p], url, w.dw.dev[d].cred)
				} else if p == 1 {
					ch <- ownTo1(url, w.dw.dev[d].cred)
				} else {
					ch <- ownTo2(url, w.dw.dev[d].cred, w.dw.kex, w.dw.suite, nil)
				}
			}()
			select {
			case err = <-ch:
				return err
			case <-time.After(60 * time.Second):
				return fmt.Errorf("HANG")
			}
		}()
		if err == nil {
			ok++
		} else if strings.HasPrefix(err.Error(), "PANIC") || strings.HasPrefix(err.Error(), "CRASH") || err.Error() == "HANG" {
			why = err.Error()
		}
	}
	w.emit(M{"op": "own", "d": d, "p": p, "times": op.ID("times", 1), "ok": ok, "why": why})
}
