package main

import (
	"fmt"
	"io"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/fxamacker/cbor/v2"

	coredo "github.com/fido-alliance/iot-fdo-conformance-tools/core/do"
	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	testdbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/dbs"
	reqtestsdeps "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/request"
	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/testexec"
)

// runsWorld lets the tool's conformance runners loose on the tool's own
// services, seen through a proxy that replaces chosen answers.  What passes
// through the proxy, what the runner records and what is stored afterwards
// become the trace.
type runsWorld struct {
	db    *badger.DB // the runner's
	sdb   *badger.DB // the server's
	h     http.Handler
	reqdb *testdbs.RequestTestDB
	devdb *dbs.DeviceBaseDB
	insts map[int]*runInst
	n     int
	osg   string

	mu     sync.Mutex
	events []M
	runs   []*aRun
}

type runInst struct {
	inst  reqtestsdeps.RequestTestInst
	proto int
	vou   *Voucher
}

type aRun struct {
	w     *runsWorld
	r     int
	in    *runInst
	inst  int
	uuid  string
	known map[string]bool // uuids before the run
	seen  map[testcom.FDOTestID]testcom.FDOTestState
	devs  []Op
	a     int         // attempt
	occ   map[int]int // messages of this attempt
	nest  map[int]Op
	n     int
	last  map[int][]byte
	over  bool
	never bool
	stop  int // requests after which the runner is not answered any more
}

func init() { worlds["runs"] = newRunsWorld }

func newRunsWorld(cfg Op) (World, M, error) {
	w := &runsWorld{db: newDB(), sdb: newDB(), insts: map[int]*runInst{}, n: cfg.ID("n", 2), osg: cfg.D("osg", "ec256")}
	w.reqdb = testdbs.NewRequestTestDB(w.db)
	w.devdb = dbs.NewDeviceBaseDB(w.db)
	w.h = captureMux(func() { coredo.SetupServer(w.sdb, ctxBase); rv.SetupServer(w.sdb, ctxBase) })
	protos := []int{}
	for i, p := range cfg.L("insts") {
		proto := int(p.(float64))
		protos = append(protos, proto)
		in := &runInst{proto: proto}
		in.inst = reqtestsdeps.NewRequestTestInst("http://127.0.0.1:1", fdoshared.FdoToProtocol(proto))
		in.inst.FdoSeedIDs = fdoshared.FdoSeedIDs{}
		if proto == 2 {
			dsg := "ec256"
			if w.osg == "ec384" || w.osg == "rsa3072" {
				dsg = "ec384"
			}
			dv := getDevice(sgByName[dsg], sgByName[w.osg], 60+i)
			o := chainOpts{n: w.n, ownerSg: sgByName[w.osg], keyBase: 700 + 10*i}
			if w.n == 0 {
				o.n, o.kind = 1, "noEntries"
			}
			in.vou = buildVoucher(dv, o)
			if w.n == 0 {
				in.vou.final = in.vou.keys[0]
			}
			e := fdoshared.VoucherDBEntry{Voucher: in.vou.v, SgType: sgByName[w.osg], PrivateKeyX509: in.vou.final.der}
			if err := dodbs.NewVoucherDB(w.sdb).Save(e); err != nil {
				return nil, nil, err
			}
			in.inst.TestVouchers = reqtestsdeps.TestVouchers{testcom.NULL_TEST: {{VoucherDBEntry: e, WawDeviceCredential: dv.cred}}}
		} else {
			for _, sg := range []fdoshared.SgType{fdoshared.StSECP256R1, fdoshared.StSECP384R1} {
				for k := 0; k < 3; k++ {
					c := getDevice(sg, fdoshared.StSECP256R1, 80+10*i+k).cred
					if err := w.devdb.Save(c); err != nil {
						return nil, nil, err
					}
					in.inst.FdoSeedIDs[sg] = append(in.inst.FdoSeedIDs[sg], c.DCGuid)
				}
			}
		}
		if cfg.B("empty") && proto == 2 {
			in.inst.TestVouchers = reqtestsdeps.TestVouchers{testcom.NULL_TEST: {}}
		}
		if err := w.reqdb.Save(in.inst); err != nil {
			return nil, nil, err
		}
		w.insts[i+1] = in
	}
	return w, M{"protos": protos, "n": w.n, "cfg": w.osg}, nil
}

func (w *runsWorld) Close()       { w.db.Close(); w.sdb.Close() }
func (w *runsWorld) Exec(op Op) M { panic("runs: Exec") }

func (w *runsWorld) emit(e M) {
	w.mu.Lock()
	w.events = append(w.events, e)
	w.mu.Unlock()
}

func (w *runsWorld) get(i int) *reqtestsdeps.RequestTestInst {
	x, err := w.reqdb.Get(w.insts[i].inst.Uuid)
	if err != nil {
		return nil
	}
	return x
}

func (w *runsWorld) Run(ops []Op) []M {
	for _, op := range ops {
		w.op(op)
	}
	for i := 1; i <= len(w.insts); i++ {
		w.look(i)
	}
	return w.events
}

func (w *runsWorld) op(op Op) {
	switch op.S("op") {
	case "run":
		w.run(op)
		w.look(op.I("inst"))
	case "remove":
		r := op.I("r")
		if r < 1 || r > len(w.runs) {
			return
		}
		a := w.runs[r-1]
		a.diff()
		if a.uuid == "" {
			return
		}
		res := "ok"
		func() {
			defer func() {
				if x := recover(); x != nil {
					res = "panic"
				}
			}()
			w.reqdb.RemoveTestRun(a.in.inst.Uuid, a.uuid)
		}()
		w.emit(M{"op": "remove", "r": r, "inst": a.inst, "res": res})
		w.look(a.inst)
	case "gone": // the instance itself disappears
		w.emit(M{"op": "gone", "inst": op.I("inst")})
		key := append([]byte("rvte-"), w.insts[op.I("inst")].inst.Uuid...)
		if err := w.db.Update(func(t *badger.Txn) error { return t.Delete(key) }); err != nil {
			panic("harness: " + err.Error())
		}
	default:
		panic("harness: runs op " + op.S("op"))
	}
}

func (w *runsWorld) look(i int) {
	for _, a := range w.runs {
		if a.inst == i && !a.over {
			a.diff()
		}
	}
	e := M{"op": "look", "inst": i, "there": false, "busy": false, "hist": []int{}, "recs": []M{}}
	if x := w.get(i); x != nil {
		e["there"] = true
		e["busy"] = x.InProgress
		hist, recs := []int{}, []M{}
		for _, h := range x.TestsHistory {
			r := 0
			for _, a := range w.runs {
				if a.inst == i && a.uuid == h.Uuid && h.Uuid != "" {
					r = a.r
				}
			}
			hist = append(hist, r)
			for _, t := range sortedTests(h.Tests) {
				recs = append(recs, M{"r": r, "test": string(t), "passed": h.Tests[t].Passed})
			}
		}
		e["hist"], e["recs"] = hist, recs
	}
	w.emit(e)
}

func sortedTests(m reqtestsdeps.RequestTestResultMap) []testcom.FDOTestID {
	out := make([]testcom.FDOTestID, 0, len(m))
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// diff reports what the runner has recorded since the last look.
func (a *aRun) diff() {
	x := a.w.get(a.inst)
	if x == nil {
		return
	}
	all := append([]reqtestsdeps.RequestTestRun{x.CurrentTestRun}, x.TestsHistory...)
	if a.uuid == "" {
		for _, h := range all {
			if h.Uuid != "" && !a.known[h.Uuid] {
				a.uuid = h.Uuid
			}
		}
	}
	if a.uuid == "" {
		return
	}
	for _, h := range all {
		if h.Uuid != a.uuid {
			continue
		}
		for _, t := range sortedTests(h.Tests) {
			st := h.Tests[t]
			if old, ok := a.seen[t]; ok && old.Passed == st.Passed {
				continue
			}
			a.seen[t] = st
			a.w.emit(M{"op": "verdict", "r": a.r, "inst": a.inst, "test": string(t), "passed": st.Passed, "why": st.Error})
		}
	}
}

func (w *runsWorld) run(op Op) {
	in := w.insts[op.I("inst")]
	a := &aRun{w: w, in: in, inst: op.I("inst"), r: len(w.runs) + 1, known: map[string]bool{}, seen: map[testcom.FDOTestID]testcom.FDOTestState{},
		nest: map[int]Op{}, last: map[int][]byte{}, occ: map[int]int{}, stop: op.ID("stop", 1<<30)}
	if x := w.get(a.inst); x != nil {
		a.known[x.CurrentTestRun.Uuid] = true
		for _, h := range x.TestsHistory {
			a.known[h.Uuid] = true
		}
	}
	w.runs = append(w.runs, a)
	for _, d := range op.L("dev") {
		a.devs = append(a.devs, Op(d.(map[string]interface{})))
	}
	for _, d := range op.L("nest") {
		m := Op(d.(map[string]interface{}))
		a.nest[m.I("at")] = m
	}
	id, url := hubURL(a.serve)
	defer hubDrop(id)
	switch op.S("url") {
	case "dead":
		url = "http://127.0.0.1:1"
	case "bad":
		url = "http://[::1"
	}
	w.emit(M{"op": "start", "r": a.r, "inst": a.inst, "proto": in.proto, "plain": len(a.devs) == 0 && op.S("url") == "" && a.stop == 1<<30})
	ch := make(chan M, 1)
	go func() {
		e := M{"op": "finish", "r": a.r, "inst": a.inst, "res": "ok", "why": ""}
		defer func() {
			if x := recover(); x != nil {
				e["res"], e["why"] = "panic", fmt.Sprint(x)
			}
			ch <- e
		}()
		inst := in.inst
		if x := w.get(a.inst); x != nil {
			inst = *x
		}
		inst.URL = url
		switch in.proto {
		case 0:
			testexec.ExecuteRVTestsTo0(inst, w.reqdb, w.devdb, ctxBase)
		case 1:
			testexec.ExecuteRVTestsTo1(inst, w.reqdb, w.devdb, ctxBase)
		default:
			testexec.ExecuteDOTestsTo2(inst, w.reqdb)
		}
	}()
	end := M{"op": "finish", "r": a.r, "inst": a.inst, "res": "hang", "why": ""}
	select {
	case end = <-ch:
	case <-time.After(180 * time.Second):
	}
	a.diff()
	a.over = true
	w.emit(end)
}

// serve is the proxy in front of the services.
func (a *aRun) serve(rw http.ResponseWriter, r *http.Request) {
	w := a.w
	if a.over {
		rw.WriteHeader(500)
		return
	}
	body, _ := io.ReadAll(r.Body)
	msg, _ := strconv.Atoi(r.URL.Path[strings.LastIndex(r.URL.Path, "/")+1:])
	a.diff()
	a.n++
	if op, ok := a.nest[a.n]; ok {
		if op.S("op") == "remove" && op.I("r") == 0 {
			op["r"] = a.r
		}
		w.op(op)
	}
	req := fdoReq(r.Method, r.URL.Path, body, r.Header.Get("Content-Type"), nil)
	if v, ok := r.Header["Authorization"]; ok {
		req.Header["Authorization"] = v
	}
	resp := do(w.h, req)
	ev := M{}
	respFields(resp, msg+1, ev)
	valid := ev["res"] == "ok"
	ans := ev["res"].(string)
	if ans != "ok" && ans != "err" {
		ans = "bad"
	}
	fin := false
	key := a.session(r.Header.Get("Authorization"))
	var plain []byte
	if valid && msg >= 64 && key != nil {
		plain, _, _ = refDecrypt(1, *key, resp.body)
		var m w69
		if msg == 68 && wDec(plain, &m) == nil {
			fin = m.Done
		}
	}
	if valid {
		a.last[msg] = resp.body
	}
	if msg == map[int]int{0: 20, 1: 30, 2: 60}[a.in.proto] {
		a.a++
		a.occ = map[int]int{}
	}
	a.occ[msg]++
	kind := ""
	for _, d := range a.devs {
		if d.I("a") != a.a || d.I("msg") != msg {
			continue
		}
		hit := false
		switch d.S("j") {
		case "neg":
			hit = !valid
		case "fin":
			hit = fin
		default:
			hit = valid && d.I("j") == a.occ[msg]
		}
		if hit {
			kind = d.S("kind")
		}
	}
	if a.n > a.stop {
		kind = "drop"
	}
	if a.never && msg == 68 && valid && kind == "" {
		kind = "never"
	}
	status, mt, out := resp.status, ev["mtype"].(int), resp.body
	fdoerr := func(s int) {
		status, mt = s, 255
		out = wEnc(arr{100, msg, "refused for test", 1, 1})
	}
	changed := true
	switch kind {
	case "err4":
		fdoerr(400)
		ans = "err"
	case "err5":
		fdoerr(500)
		ans = "err"
	case "err200":
		fdoerr(200)
		ans = "bad"
	case "junk":
		status, mt, out, ans = 200, msg+1, []byte{0xff, 0x13, 0x37}, "bad"
	case "other":
		status, mt, out, ans = 200, msg+1, wEnc(map[string]int{"no": 1}), "bad"
	case "empty":
		status, mt, out, ans = 200, msg+1, nil, "bad"
	case "plain500":
		status, mt, out, ans = 500, 0, []byte("Internal Server Error"), "bad"
	case "plain400":
		status, mt, out, ans = 400, 0, nil, "bad"
	case "null":
		status, mt, out, ans = 200, msg+1, []byte{0xf6}, "bad"
	case "errjunk":
		status, mt, out, ans = 500, 255, []byte{0x82, 0x01, 0x02}, "bad"
	case "ok": // as if a defective message had been accepted
		if valid {
			changed = false
			break
		}
		status, mt, ans = 200, msg+1, "ok"
		out = a.last[msg]
		if out == nil {
			out = []byte{0x80}
		}
	case "drop":
		w.emit(M{"op": "req", "r": a.r, "inst": a.inst, "msg": msg, "valid": valid, "ans": "bad", "fin": false, "kind": kind, "gen": ev["res"], "at": a.n})
		panic(http.ErrAbortHandler)
	case "hang":
		w.emit(M{"op": "req", "r": a.r, "inst": a.inst, "msg": msg, "valid": valid, "ans": "bad", "fin": false, "kind": kind, "gen": ev["res"], "at": a.n})
		select {
		case <-r.Context().Done():
		case <-time.After(60 * time.Second):
		}
		panic(http.ErrAbortHandler)
	case "":
		changed = false
	default:
		out, ans, fin, changed = a.alter(kind, msg, valid, resp.body, plain, key, ans, fin)
	}
	if !changed {
		kind = ""
	}
	w.emit(M{"op": "req", "r": a.r, "inst": a.inst, "msg": msg, "valid": valid, "ans": ans, "fin": fin, "kind": kind, "gen": ev["res"], "at": a.n})
	if v := resp.hdr.Get("Authorization"); v != "" {
		rw.Header().Set("Authorization", v)
	}
	rw.Header().Set("Content-Type", "application/cbor")
	rw.Header().Set("Message-Type", strconv.Itoa(mt))
	rw.WriteHeader(status)
	rw.Write(out)
}

// session returns the session keys the service negotiated.
func (a *aRun) session(auth string) *sessKey {
	e, err := dodbs.NewSessionDB(a.w.sdb).GetSessionEntry([]byte(strings.TrimPrefix(auth, "Bearer ")))
	if err != nil || e == nil || len(e.SessionKey.ShSe) == 0 {
		return nil
	}
	return &sessKey{e.SessionKey.ShSe, e.SessionKey.ContextRand}
}

// alter changes a genuine answer.  "lie": the message at hand looks right, and
// what is wrong with it shows only later on.
func (a *aRun) alter(kind string, msg int, valid bool, body, plain []byte, key *sessKey, ans string, fin bool) ([]byte, string, bool, bool) {
	same := func() ([]byte, string, bool, bool) { return body, ans, fin, false }
	if !valid {
		return same()
	}
	switch {
	case msg == 60 && a.in.vou != nil:
		var s wSign
		if wTagged(body, 18, &s) != nil {
			return same()
		}
		var m w61
		if wDec(s.Payload, &m) != nil {
			return same()
		}
		priv := a.in.vou.final.priv
		un := imap{}
		for k, v := range s.Unprot {
			un[k] = v
		}
		sig, res := "", "lie"
		switch kind {
		case "num0":
			m.N = 0
		case "numless":
			if m.N < 2 {
				return same()
			}
			m.N--
		case "nummore":
			m.N++
		case "nonce":
			m.Nonce = flip(m.Nonce, 3)
			res = "bad"
		case "sig":
			sig, res = "flip", "bad"
		default:
			return same()
		}
		p := wEnc(arr{m.Hdr, m.N, m.Hmac, m.Nonce, m.Eb, m.Xa, arr{m.Hash.Type, m.Hash.Hash}, m.Max})
		return wMakeSign(p, un, priv, sig, nil), res, false, true
	case msg == 62:
		var m w63
		if wDec(body, &m) != nil {
			return same()
		}
		switch kind {
		case "idx":
			return wEnc(arr{m.Num + 1, m.Entry}), "lie", false, true
		case "entry":
			var s wSign
			if wTagged(m.Entry, 18, &s) != nil {
				return same()
			}
			s.Signature = flip(s.Signature, 5)
			return wEnc(arr{m.Num, cbor.Tag{Number: 18, Content: arr{s.Prot, imap{}, s.Payload, s.Signature}}}), "lie", false, true
		}
	case msg >= 64 && key != nil && plain != nil:
		switch kind {
		case "flip":
			return refEncrypt(1, *key, plain, "tag"), "bad", false, true
		case "otherkey":
			k := sessKey{flip(key.shse, 0), key.ctx}
			return refEncrypt(1, k, plain, ""), "bad", false, true
		case "never":
			var m w69
			if msg != 68 || wDec(plain, &m) != nil {
				return same()
			}
			a.never = true
			return refEncrypt(1, *key, wEnc(arr{m.More, false, []wKV{}}), ""), "ok", false, true
		case "nonce":
			var m w71
			if msg != 70 || wDec(plain, &m) != nil {
				return same()
			}
			return refEncrypt(1, *key, wEnc(arr{flip(m.Nonce, 2)}), ""), "bad", false, true
		case "shape":
			return refEncrypt(1, *key, wEnc("surprise"), ""), "bad", false, true
		}
	}
	return same()
}
