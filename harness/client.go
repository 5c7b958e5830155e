package main

import (
	"bytes"
	"context"
	"crypto/ecdh"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/fxamacker/cbor/v2"

	fdodevice_to1 "github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to1"
	fdodevice_to2 "github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/do/to0"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
)

// clientWorld plays the server against the tool's own clients.  A trace first
// edits the voucher the server will show, then lists how its answers deviate;
// the client runs against the reference server below, which judges every
// request with the independent wire and crypto reference.
type clientWorld struct {
	vw    *voucherWorld
	flow  string
	via   string
	osg   string
	dsg   string
	kex   string
	suite int
	id    string
	skips int

	mu      sync.Mutex
	queue   []Op
	events  []M
	done    bool
	auth    string
	authAny bool
	nonce   []byte // the nonce the server expects back
	nonceDv []byte
	hello   []byte
	xa      []byte
	osec    interface{}
	signer  interface{}
	key     *sessKey
	last    []byte
	euph    []byte
	asked   int
	seen    map[string]int
	to2     *fdodevice_to2.To2Requestor
}

func init() { worlds["client"] = newClientWorld }

var clientHub = struct {
	mu  sync.Mutex
	m   map[string]func(http.ResponseWriter, *http.Request)
	n   int
	srv *httptest.Server
}{m: map[string]func(http.ResponseWriter, *http.Request){}}

// hubURL registers a handler under a path of its own of the one test server.
func hubURL(h func(http.ResponseWriter, *http.Request)) (id, url string) {
	clientHub.mu.Lock()
	defer clientHub.mu.Unlock()
	if clientHub.srv == nil {
		clientHub.srv = httptest.NewUnstartedServer(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			p := strings.SplitN(strings.TrimPrefix(r.URL.Path, "/"), "/", 2)
			clientHub.mu.Lock()
			f := clientHub.m[p[0]]
			clientHub.mu.Unlock()
			if f == nil || len(p) < 2 {
				rw.WriteHeader(404)
				return
			}
			r.URL.Path = "/" + p[1]
			defer func() {
				if e := recover(); e != nil {
					if e == http.ErrAbortHandler {
						panic(e)
					}
					fmt.Fprintf(os.Stderr, "harness failure in server: %v\n%s\n", e, debug.Stack())
					os.Exit(3)
				}
			}()
			f(rw, r)
		}))
		clientHub.srv.Config.ErrorLog = nil
		clientHub.srv.Start()
	}
	clientHub.n++
	id = fmt.Sprintf("c%d", clientHub.n)
	clientHub.m[id] = h
	return id, clientHub.srv.URL + "/" + id
}

func hubDrop(id string) {
	clientHub.mu.Lock()
	delete(clientHub.m, id)
	clientHub.mu.Unlock()
}

func newClientWorld(cfg Op) (World, M, error) {
	w := &clientWorld{flow: cfg.D("flow", "to2"), via: cfg.D("via", "lib"), osg: cfg.D("osg", "ec256"), dsg: cfg.D("dsg", "ec256"),
		kex: cfg.D("kex", "ECDH256"), suite: cfg.ID("cipher", 1), seen: map[string]int{}, skips: cfg.I("skips")}
	vw := &voucherWorld{}
	vw.osg, vw.dsg = sgByName[w.osg], sgByName[w.dsg]
	for d := 1; d <= 2; d++ {
		vw.dev[d] = getDevice(vw.dsg, vw.osg, 40+d)
	}
	vw.alg = vw.dev[1].cred.DCHashAlg
	vw.honest(2, 3)
	vw.splice = vw.ents
	vw.honest(1, cfg.ID("base", 2))
	w.vw = vw
	return w, M{"flow": w.flow, "base": cfg.ID("base", 2), "det": w.osg[0] == 'r', "via": w.via,
		"cfg": fmt.Sprintf("%s/%s/%s/%d", w.osg, w.dsg, w.kex, w.suite)}, nil
}

func (w *clientWorld) Close()        {}
func (w *clientWorld) Exec(op Op) M  { panic("client: Exec") }
func (w *clientWorld) fail(s string) { panic("harness: client: " + s) }
func (w *clientWorld) keyOf(k string) Key {
	if strings.HasPrefix(k, "bad") {
		k = "k1"
	}
	return w.vw.key(k)
}

// Run plays the whole trace.
func (w *clientWorld) Run(ops []Op) []M {
	for _, op := range ops {
		if op.I("msg") > 0 {
			w.queue = append(w.queue, op)
			continue
		}
		if w.vw.enabled(op) {
			w.vw.apply(op)
		}
		w.events = append(w.events, M{"op": op.S("op"), "k": op.I("k"), "f": op.S("f"), "v": op.S("v"), "by": op.S("by")})
	}
	id, url := hubURL(w.serve)
	defer hubDrop(id)
	end := M{"op": "end", "res": "hang", "why": ""}
	ch := make(chan M, 1)
	go func() {
		e := M{"op": "end", "res": "ok", "why": ""}
		defer func() {
			if x := recover(); x != nil {
				e["res"], e["why"] = "panic", fmt.Sprint(x)
			}
			ch <- e
		}()
		if err := w.client(url); err != nil {
			e["res"], e["why"] = "err", err.Error()
			if strings.HasPrefix(err.Error(), "CRASH ") {
				e["res"] = "panic"
			}
		}
	}()
	select {
	case end = <-ch:
	case <-time.After(25 * time.Second):
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.done = true
	return append(w.events, end)
}

// ---- the clients ----

func (w *clientWorld) client(url string) error {
	srv := fdoshared.SRVEntry{SrvURL: url}
	cred := w.vw.dev[1].cred
	if w.via == "cli" {
		return w.cli(url)
	}
	switch w.flow {
	case "to0":
		n := len(w.vw.ents)
		e := fdoshared.VoucherDBEntry{Voucher: w.vw.voucher(), SgType: w.vw.osg, PrivateKeyX509: w.vw.key(w.vw.ents[n-1].pub).der}
		ctx := context.WithValue(ctxBase, fdoshared.CFG_ENV_FDO_SERVICE_URL, "http://owner.test.local:8080")
		q := to0.NewTo0Requestor(srv, e, ctx)
		a, _, err := q.Hello20(testcom.NULL_TEST)
		if err != nil {
			return err
		}
		_, _, err = q.OwnerSign22(a.NonceTO0Sign, testcom.NULL_TEST)
		return err
	case "to1":
		return ownTo1(url, cred)
	}
	return ownTo2(url, cred, w.kex, w.suite, &w.to2)
}

// ownTo1 is the tool's own device in TO1.
func ownTo1(url string, cred fdoshared.WawDeviceCredential) error {
	q := fdodevice_to1.NewTo1Requestor(fdoshared.SRVEntry{SrvURL: url}, cred)
	a, _, err := q.HelloRV30(testcom.NULL_TEST)
	if err != nil {
		return err
	}
	_, _, err = q.ProveToRV32(*a, testcom.NULL_TEST)
	return err
}

// ownTo2 is the tool's own device in TO2, in the order of steps of the command line device.
func ownTo2(url string, cred fdoshared.WawDeviceCredential, kex string, suite int, keep **fdodevice_to2.To2Requestor) error {
	q := fdodevice_to2.NewTo2Requestor(fdoshared.SRVEntry{SrvURL: url}, cred, fdoshared.KexSuiteName(kex), fdoshared.CipherSuiteName(suite))
	if keep != nil {
		*keep = &q
	}
	p, _, err := q.HelloDevice60(testcom.NULL_TEST)
	if err != nil {
		return err
	}
	ents := fdoshared.OVEntryArray{}
	for i := 0; i < int(p.NumOVEntries); i++ {
		e, _, err := q.GetOVNextEntry62(uint8(i), testcom.NULL_TEST)
		if err != nil {
			return err
		}
		if int(e.OVEntryNum) != i {
			return fmt.Errorf("wrong entry number")
		}
		ents = append(ents, e.OVEntry)
		if err := ents.VerifyEntries(p.OVHeader, p.HMac); err != nil {
			return err
		}
	}
	if len(ents) == 0 {
		return fmt.Errorf("no entries")
	}
	last, err := ents[len(ents)-1].GetOVEntryPubKey()
	if err != nil {
		return err
	}
	if err := q.ProveOVHdr61PubKey.Equal(last); err != nil {
		return err
	}
	if _, _, err := q.ProveDevice64(testcom.NULL_TEST); err != nil {
		return err
	}
	if _, _, err := q.DeviceServiceInfoReady66(testcom.NULL_TEST); err != nil {
		return err
	}
	sims := fdoshared.GetDeviceOSSims()
	for _, s := range sims {
		if _, _, err := q.DeviceServiceInfo68(fdoshared.DeviceServiceInfo68{ServiceInfo: []fdoshared.ServiceInfoKV{s}, IsMoreServiceInfo: true}, testcom.NULL_TEST); err != nil {
			return err
		}
	}
	for n := 0; ; n++ {
		o, _, err := q.DeviceServiceInfo68(fdoshared.DeviceServiceInfo68{ServiceInfo: []fdoshared.ServiceInfoKV{}, IsMoreServiceInfo: false}, testcom.NULL_TEST)
		if err != nil {
			return err
		}
		if o.IsDone {
			break
		}
	}
	_, _, err = q.Done70(testcom.NULL_TEST)
	return err
}

func (w *clientWorld) cli(url string) error {
	return runCli(w.flow, url, w.vw.dev[1].cred)
}

// runCli runs the command line device.
func runCli(flow, url string, cred fdoshared.WawDeviceCredential) error {
	f, err := os.CreateTemp("", "verif-cred-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.Remove(f.Name())
	pem.Encode(f, &pem.Block{Type: fdoshared.CREDENTIAL_PEM_TYPE, Bytes: mustCbor(cred)})
	f.Close()
	bin := os.Getenv("VERIF_CLI")
	if bin == "" {
		panic("harness: VERIF_CLI not set")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 24*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "iop", flow, url, f.Name())
	cmd.Dir = os.TempDir()
	out, err := cmd.CombinedOutput()
	s := string(out)
	if strings.Contains(s, "panic:") || strings.Contains(s, "goroutine 1 [") {
		i := strings.Index(s, "panic:")
		if i < 0 {
			i = 0
		}
		return fmt.Errorf("CRASH %s", firstLines(s[i:], 1))
	}
	want := map[string]string{"to1": "Success", "to2": "Success To2"}[flow]
	if strings.Contains(s, want) {
		return nil
	}
	if err != nil {
		return fmt.Errorf("exit: %v", err)
	}
	l := strings.Split(strings.TrimSpace(s), "\n")
	return fmt.Errorf("%s", l[len(l)-1])
}

// ---- the reference server ----

type reply struct {
	body  []byte
	mtype int
}

func (w *clientWorld) serve(rw http.ResponseWriter, r *http.Request) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.done {
		rw.WriteHeader(503)
		return
	}
	body, _ := io.ReadAll(r.Body)
	msg, _ := strconv.Atoi(r.URL.Path[strings.LastIndex(r.URL.Path, "/")+1:])
	ev := M{"op": "req", "msg": msg, "good": true, "why": "", "kok": true, "more": false, "a": M{}}
	bad := func(why string) {
		if ev["good"] == true {
			ev["good"], ev["why"] = false, why
		}
	}
	if r.Method != "POST" || !strings.HasPrefix(r.URL.Path, "/fdo/101/msg/") {
		bad("request line")
	}
	if r.Header.Get("Content-Type") != "application/cbor" {
		bad("content type")
	}
	if msg != 20 && msg != 30 && msg != 60 && !w.authAny && r.Header.Get("Authorization") != w.auth {
		bad("authorization")
	}
	more := w.judge(msg, body, bad, ev)
	ev["more"] = more

	// pick the planned answer
	op := Op{"msg": msg + 1}
	if len(w.queue) > 0 && w.queue[0].I("msg") == msg+1 && (msg != 68 || w.queue[0].B("more") == more) {
		if w.skips > 0 && msg == 68 {
			w.skips--
		} else {
			op = w.queue[0]
			w.queue = w.queue[1:]
		}
	} else if msg == 68 {
		op["done"] = !more
	}
	dev := map[string]bool{}
	for _, d := range op.L("dev") {
		dev[d.(string)] = true
	}
	a := M{"msg": msg + 1, "dev": op.L("dev"), "key": "none", "by": "none", "num": 0, "k": 0, "done": op.B("done")}
	if dev["null"] {
		a["done"] = false
	}
	ev["a"] = a
	out := w.answer(msg, op, dev, a)
	w.events = append(w.events, ev)

	switch {
	case dev["fdoerr"], dev["fdoerr200"]:
		out = wEnc(arr{100, msg, "refused", 0, 1})
	case dev["empty"]:
		out = []byte{}
	case dev["garbage"]:
		out = []byte{0xff, 0x9f, 0x01}
	case dev["cut"]:
		out = out[:len(out)-1]
	case dev["trail"]:
		out = append(out, 0)
	case dev["reflect"]:
		out = body
	case dev["stale"]:
		out = w.last
	case dev["other"]:
		out = wEnc("hello")
	case dev["map"]:
		out = wEnc(imap{1: 2})
	}
	w.last = out
	h := rw.Header()
	h.Set("Content-Type", "application/cbor")
	h.Set("Message-Type", strconv.Itoa(msg+1))
	if dev["ctype"] {
		h.Set("Content-Type", "text/plain")
	}
	if msg == 20 || msg == 30 || msg == 60 {
		w.auth = "Bearer " + fmt.Sprintf("%x", rnd(12))
	}
	if dev["noauthz"] {
		w.authAny = true
	} else {
		h.Set("Authorization", w.auth)
	}
	switch {
	case dev["close"]:
		h.Set("Content-Length", strconv.Itoa(len(out)+10))
		rw.WriteHeader(200)
		rw.Write(out)
		if f, ok := rw.(http.Flusher); ok {
			f.Flush()
		}
		panic(http.ErrAbortHandler)
	case dev["fdoerr"]:
		h.Set("Message-Type", "255")
		rw.WriteHeader(500)
	case dev["status"]:
		rw.WriteHeader(500)
	}
	rw.Write(out)
}

type wEAT map[int]cbor.RawMessage

// judge says whether a request is what the protocol asks of a client.
func (w *clientWorld) judge(msg int, b []byte, bad func(string), ev M) (more bool) {
	dev := w.vw.dev[1]
	guid := dev.cred.DCGuid
	open := func() []byte {
		if w.key == nil {
			bad("no session key")
			return nil
		}
		pt, iv, err := refDecrypt(w.suite, *w.key, b)
		if err != nil {
			bad("does not decrypt: " + err.Error())
			return nil
		}
		if !nonces.fresh(iv) {
			bad("nonce of the encryption repeats")
		}
		return pt
	}
	eat := func(c *wSign) wEAT {
		if err := wTagged(b, 18, c); err != nil {
			bad("not a signature: " + err.Error())
			return nil
		}
		if !wVerify(*c, pubOf(dev.key), sgAlg[w.dsg]) {
			bad("device signature")
		}
		var p wEAT
		if wDec(c.Payload, &p) != nil {
			bad("payload")
			return nil
		}
		if !bytes.Equal(p[10], wEnc(w.nonce)) {
			bad("nonce")
		}
		if !bytes.Equal(p[256], wEnc(append([]byte{1}, guid[:]...))) {
			bad("ueid")
		}
		return p
	}
	switch msg {
	case 20:
		if !bytes.Equal(b, []byte{0x80}) {
			bad("hello")
		}
	case 22:
		w.judge22(b, bad)
	case 30:
		if !bytes.Equal(b, wEnc(arr{guid[:], arr{wireSg[w.dsg], []byte{}}})) {
			bad("hello")
		}
	case 32:
		var c wSign
		eat(&c)
	case 60:
		var p []cbor.RawMessage
		if wDec(b, &p) != nil || len(p) != 6 {
			bad("hello")
			return
		}
		var n []byte
		_ = wDec(p[2], &n)
		if len(n) != 16 || !nonces.fresh(n) {
			bad("nonce not fresh")
		}
		if !bytes.Equal(p[1], wEnc(guid[:])) || !bytes.Equal(p[3], wEnc(w.kex)) || !bytes.Equal(p[4], wEnc(w.suite)) || !bytes.Equal(p[5], wEnc(arr{wireSg[w.dsg], []byte{}})) {
			bad("hello")
		}
		w.hello, w.nonce = b, n
	case 62:
		if !bytes.Equal(b, wEnc(arr{w.asked})) {
			bad("entry number")
		}
		w.asked++
	case 64:
		var c wSign
		p := eat(&c)
		var e []byte
		if wDec(c.Unprot[-259], &e) != nil || len(e) != 16 || !nonces.fresh(e) {
			bad("setup nonce not fresh")
		}
		w.euph = e
		var f [][]byte
		if p == nil || wDec(p[-257], &f) != nil || len(f) != 1 {
			bad("key exchange")
			return
		}
		cands, err := w.agree(f[0])
		if err != nil {
			bad("key exchange: " + err.Error())
			ev["kok"] = false
			return
		}
		w.key = &cands[0]
		if w.to2 != nil {
			ok := false
			for i := range cands {
				if bytes.Equal(w.to2.SessionKey.ShSe, cands[i].shse) && bytes.Equal(bz(w.to2.SessionKey.ContextRand), bz(cands[i].ctx)) {
					w.key, ok = &cands[i], true
				}
			}
			ev["kok"] = ok
		}
	case 66:
		var p []cbor.RawMessage
		if pt := open(); pt != nil && (wDec(pt, &p) != nil || len(p) != 2) {
			bad("ready")
		}
	case 68:
		pt := open()
		if pt == nil {
			return
		}
		var p struct {
			_    struct{} `cbor:",toarray"`
			More bool
			Info []wKV
		}
		if wDec(pt, &p) != nil {
			bad("service information")
			return
		}
		for _, kv := range p.Info {
			w.seen[kv.K]++
			if w.seen[kv.K] > 1 {
				bad("repeats " + kv.K)
			}
		}
		if !p.More {
			for _, n := range simNames[1:] {
				if w.seen[n] == 0 {
					bad("never sent " + n)
				}
			}
		}
		return p.More
	case 70:
		if pt := open(); pt != nil && !bytes.Equal(pt, wEnc(arr{w.nonceDv})) {
			bad("nonce")
		}
	default:
		bad("message type")
	}
	return false
}

func (w *clientWorld) judge22(b []byte, bad func(string)) {
	var p []cbor.RawMessage
	var to0d []byte
	if wDec(b, &p) != nil || len(p) != 2 || wDec(p[0], &to0d) != nil {
		bad("owner sign")
		return
	}
	var d []cbor.RawMessage
	if wDec(to0d, &d) != nil || len(d) != 3 {
		bad("to0d")
		return
	}
	if !bytes.Equal(d[0], mustCbor(w.vw.voucher())) {
		bad("voucher")
	}
	if !bytes.Equal(d[2], wEnc(w.nonce)) {
		bad("nonce")
	}
	var c wSign
	if wTagged(p[1], 18, &c) != nil {
		bad("to1d")
		return
	}
	if !wVerify(c, pubOf(w.vw.key(w.vw.ents[len(w.vw.ents)-1].pub).priv), sgAlg[w.osg]) {
		bad("owner signature")
	}
	var q struct {
		_    struct{} `cbor:",toarray"`
		Rv   []cbor.RawMessage
		Hash wHash
	}
	if wDec(c.Payload, &q) != nil || len(q.Rv) == 0 {
		bad("to1d payload")
		return
	}
	if !bytes.Equal(q.Hash.Hash, hashFor(q.Hash.Type, to0d)) || q.Hash.Type != int(w.vw.alg) {
		bad("to0d hash")
	}
}

// offer makes the owner's side of the key exchange.
func (w *clientWorld) offer() []byte {
	k := kexInfos[w.kex]
	switch k.kind {
	case "ecdh":
		priv, err := k.curve.GenerateKey(rand.Reader)
		if err != nil {
			w.fail(err.Error())
		}
		w.osec = priv
		pb := priv.PublicKey().Bytes()[1:]
		return append(append(lv(pb[:k.clen]), lv(pb[k.clen:])...), lv(rnd(k.rlen))...)
	case "dh":
		p, g := dhGroup(k.groupN)
		x := new(big.Int).SetBytes(rnd(k.clen - 1))
		w.osec = x
		return new(big.Int).Exp(g, x, p).Bytes()
	}
	return rnd(k.rlen)
}

func (w *clientWorld) agree(xb []byte) ([]sessKey, error) {
	k := kexInfos[w.kex]
	if !checkXA(w.kex, w.xa) { // the server offered rubbish on purpose
		return nil, fmt.Errorf("own offer is unusable")
	}
	switch k.kind {
	case "ecdh":
		f, err := unlv(xb, 3)
		if err != nil || len(f[2]) != k.rlen || len(f[0]) != k.clen || len(f[1]) != k.clen {
			return nil, fmt.Errorf("malformed")
		}
		pub, err := k.curve.NewPublicKey(append(append([]byte{4}, f[0]...), f[1]...))
		if err != nil {
			return nil, err
		}
		sh, err := w.osec.(*ecdh.PrivateKey).ECDH(pub)
		if err != nil {
			return nil, err
		}
		o, _ := unlv(w.xa, 3)
		return []sessKey{{append(append(append([]byte{}, sh...), f[2]...), o[2]...), nil}}, nil
	case "dh":
		p, _ := dhGroup(k.groupN)
		y := new(big.Int).SetBytes(xb)
		if len(xb) > k.clen || y.Cmp(big.NewInt(1)) <= 0 || y.Cmp(new(big.Int).Sub(p, big.NewInt(1))) >= 0 {
			return nil, fmt.Errorf("malformed")
		}
		z := new(big.Int).Exp(y, w.osec.(*big.Int), p)
		return []sessKey{{z.FillBytes(make([]byte, k.clen)), nil}, {z.Bytes(), nil}}, nil
	}
	priv, ok := w.signer.(*rsa.PrivateKey)
	if !ok {
		return nil, fmt.Errorf("no rsa key")
	}
	r, err := rsa.DecryptOAEP(sha256.New(), nil, priv, xb, nil)
	if err != nil {
		return nil, err
	}
	if len(r) != k.rlen {
		return nil, fmt.Errorf("secret of %d bytes", len(r))
	}
	return []sessKey{{r, w.xa}}, nil
}

// shape alters the number of elements of an answer.
func shape(a arr, dev map[string]bool) arr {
	switch {
	case dev["short"]:
		return a[:len(a)-1]
	case dev["long"]:
		return append(append(arr{}, a...), 0)
	}
	return a
}

func sigKind(dev map[string]bool) string {
	for d, k := range map[string]string{"sigflip": "flip", "sigempty": "empty", "sigzero": "zero", "siglong": "long", "sigtrunc": "trunc",
		"payload": "payload", "prot": "prot", "protkid": "protkid"} {
		if dev[d] {
			return k
		}
	}
	return "ok"
}

var encNames = map[string]string{"ct": "ct", "tag": "tag", "iv": "iv", "algraw": "algraw", "noalg": "noalg", "noiv": "noiv", "shortiv": "shortiv",
	"longiv": "longiv", "trunc": "trunc", "emptyct": "empty", "encut": "cut", "extra": "extra", "retag": "retag", "plain": "plain",
	"shorttag": "shorttag", "emptytag": "emptytag", "longtag": "longtag", "hash": "hash"}

// seal encrypts an answer for the session.
func (w *clientWorld) seal(pt []byte, dev map[string]bool) []byte {
	k := sessKey{rnd(48), nil}
	if w.key != nil {
		k = *w.key
	}
	suite, kind := w.suite, "ok"
	for d, n := range encNames {
		if dev[d] {
			kind = n
		}
	}
	switch {
	case dev["otherkey"]:
		k = sessKey{flip(k.shse, 5), k.ctx}
	case dev["nokey"]:
		k = sessKey{make([]byte, len(k.shse)), nil}
	case dev["suite"]:
		suite = otherAlg(w.suite)
	}
	if dev["null"] {
		pt = []byte{0xf6}
	}
	return refEncrypt(suite, k, pt, kind)
}

// echo is the setup nonce the device expects back, or not quite.
func (w *clientWorld) echo(dev map[string]bool) []byte {
	switch {
	case dev["nonce"]:
		return rnd(16)
	case dev["noncezero"]:
		return make([]byte, 16)
	case dev["noncedv"]:
		return w.nonceDv
	}
	return bz(w.euph)
}

func (w *clientWorld) answer(msg int, op Op, dev map[string]bool, a M) []byte {
	nullOr := func(b []byte) []byte {
		if dev["null"] {
			return []byte{0xf6}
		}
		return b
	}
	switch msg {
	case 20:
		w.nonce = rnd(16)
		return nullOr(wEnc(shape(arr{w.nonce}, dev)))
	case 22:
		return nullOr(wEnc(shape(arr{3600}, dev)))
	case 30:
		w.nonce = rnd(16)
		n := w.nonce
		eb := arr{wireSg[w.dsg], []byte{}}
		switch {
		case dev["noncelen"]:
			n = n[:15]
			w.nonce = append(append([]byte{}, n...), 0)
		case dev["ebtype"]:
			eb[0] = map[bool]int{true: -35, false: -7}[w.dsg == "ec256"]
		case dev["ebinfo"]:
			eb[1] = []byte{1}
		}
		return nullOr(wEnc(shape(arr{n, eb}, dev)))
	case 32:
		rv := arr{arr{[]byte{127, 0, 0, 1}, "owner.test.local", 8080, 1}}
		if dev["rvempty"] {
			rv = arr{}
		}
		pl := wEnc(arr{rv, arr{-16, rnd(32)}})
		if dev["payjunk"] {
			pl = []byte{0xff, 0x01}
		}
		b := wMakeSign(pl, imap{}, w.vw.key("k1").priv, "ok", nil)
		return nullOr(w.reshape(b, dev))
	case 60:
		return nullOr(w.answer61(op, dev, a))
	case 62:
		k := op.ID("k", 0)
		if k == 0 {
			k = w.asked
		}
		if dev["null"] || k < 1 || k > len(w.vw.ents) {
			if !dev["null"] {
				dev["fdoerr"] = true
				a["dev"] = []string{"fdoerr"}
			}
			return []byte{0xf6}
		}
		a["k"] = k
		n := w.asked - 1
		if dev["idx"] {
			n++
		}
		return wEnc(shape(arr{n, cbor.RawMessage(mustCbor(w.vw.cose(w.vw.ents[k-1])))}, dev))
	case 64:
		if w.signer == nil {
			w.signer = w.vw.key("k1").priv
		}
		guid := w.vw.dev[1].cred.DCGuid
		n := w.echo(dev)
		var rv interface{} = cbor.RawMessage(mustCbor(w.vw.hdr.OVRvInfo))
		if dev["rvempty"] {
			rv = arr{}
		}
		signer := w.signer
		if dev["own2other"] {
			signer = keys.get(w.vw.osg, 951).priv
		}
		pl := func(n []byte) []byte {
			return wEnc(shape(arr{rv, guid[:], n, wKey(pubOf(w.signer), w.osg)}, dev))
		}
		return w.seal(wMakeSign(pl(n), imap{}, signer, sigKind(dev), pl(rnd(16))), dev)
	case 66:
		m := 1300
		if dev["maxbig"] {
			m = 70000
		}
		return w.seal(wEnc(shape(arr{m}, dev)), dev)
	case 68:
		sims := arr{}
		if op.B("done") {
			sims = arr{arr{"fido_alliance:active", []byte{0xf5}}}
		}
		return w.seal(wEnc(shape(arr{false, op.B("done"), sims}, dev)), dev)
	case 70:
		n := w.echo(dev)
		return w.seal(wEnc(shape(arr{n}, dev)), dev)
	}
	return []byte{0x80}
}

// reshape changes the number of elements of a COSE_Sign1.
func (w *clientWorld) reshape(b []byte, dev map[string]bool) []byte {
	if !dev["short"] && !dev["long"] {
		return b
	}
	var t cbor.RawTag
	var x []cbor.RawMessage
	_ = wDec(b, &t)
	_ = wDec(t.Content, &x)
	if dev["short"] {
		x = x[:3]
	} else {
		x = append(x, cbor.RawMessage{0})
	}
	return wEnc(cbor.Tag{Number: 18, Content: x})
}

func (w *clientWorld) answer61(op Op, dev map[string]bool, a M) []byte {
	last := "k0"
	if n := len(w.vw.ents); n > 0 {
		last = w.vw.ents[n-1].pub
		if w.vw.ents[n-1].junk {
			last = "k1"
		}
	}
	key, by := op.D("key", "final"), op.D("by", "final")
	if key == "final" {
		key = last
	}
	if by == "final" {
		by = last
	}
	if strings.HasPrefix(by, "bad") {
		by = "k1"
	}
	num := op.ID("num", len(w.vw.ents))
	a["key"], a["by"], a["num"] = key, by, num
	w.signer = w.keyOf(by).priv
	w.xa = w.offer()
	switch {
	case dev["xajunk"]:
		w.xa = []byte{1, 2, 3}
	case dev["xashort"]:
		w.xa = w.xa[:len(w.xa)-1]
	}
	n := w.nonce
	if dev["echo"] {
		n = rnd(16)
	}
	ht := hashTypeOfSg(w.dsg)
	h := hashFor(ht, w.hello)
	switch {
	case dev["hash"]:
		h = flip(h, 4)
	case dev["hashshort"]:
		h = h[:8]
	case dev["hashempty"]:
		h = []byte{}
	case dev["hashother"]:
		h = hashFor(ht, w.hello[:len(w.hello)-1])
	case dev["hashtype"]:
		ht = 77
	}
	eb := arr{wireSg[w.dsg], []byte{}}
	switch {
	case dev["ebtype"]:
		eb[0] = map[bool]int{true: -35, false: -7}[w.dsg == "ec256"]
	case dev["ebinfo"]:
		eb[1] = []byte{1}
	}
	pl := func(n []byte) []byte {
		return wEnc(shape(arr{w.vw.hdrBytes(), num, cbor.RawMessage(mustCbor(w.vw.hmac)), n, eb, w.xa, arr{ht, h}, 1300}, dev))
	}
	w.nonceDv = rnd(16)
	nd := w.nonceDv
	if dev["noncelen"] {
		nd = nd[:15]
		w.nonceDv = append(append([]byte{}, nd...), 0)
	}
	unprot := imap{256: nd, 257: cbor.RawMessage(mustCbor(w.vw.pub(key)))}
	if dev["nokey61"] {
		delete(unprot, 257)
	}
	if dev["nonone61"] {
		delete(unprot, 256)
	}
	b := wMakeSign(pl(n), unprot, w.signer, sigKind(dev), pl(rnd(16)))
	w.nonce = w.nonceDv
	return b
}
