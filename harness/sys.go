package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dgraph-io/badger/v4"

	fdodevicecommon "github.com/fido-alliance/iot-fdo-conformance-tools/core/device/common"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"
)

// sysWorld runs the real binary: two machines, each a folder with a store of
// its own, commands and servers as processes, killed with SIGKILL.
type sysWorld struct {
	dir   string
	bin   string
	nd    int
	iop   string
	fresh bool
	node  [3]sysNode
	devs  []sysDev // in the order of their GUIDs, from 1
	dash  string
	hub   string

	mu      sync.Mutex
	reports []M
	nonces  map[string]int
	events  []M
	n       int
}

type sysNode struct {
	dir    string
	port   int
	srv    *exec.Cmd
	gone   chan struct{}
	cookie string
	next   []M // what a killed load had still before it
}

type sysDev struct {
	guid    fdoshared.FdoGuid
	cred    string // file
	voucher []byte // PEM of voucher and key
	cbor    []byte
	copy    [2][]byte // the voucher as it was made (PEM), and passed on to another owner
	key     [2][]byte // private keys of the owners
}

// passOn makes the second copy of the voucher: with one more entry, for another owner.
func (d *sysDev) passOn(i int) {
	vb, rest := pem.Decode(d.voucher)
	kb, _ := pem.Decode(rest)
	if vb == nil || kb == nil {
		return
	}
	d.copy[0], d.copy[1], d.key[0] = d.voucher, d.voucher, kb.Bytes
	e, err := fdodevicecommon.DecodePemVoucherAndKey(string(d.voucher))
	if err != nil {
		return
	}
	v := e.Voucher
	hdr, err := v.GetOVHeader()
	priv, err2 := fdoshared.ExtractPrivateKey(kb.Bytes)
	if err != nil || err2 != nil || len(v.OVEntryArray) == 0 {
		return
	}
	sg, err := fdoshared.GetPrivateKeySgType(priv)
	if err != nil {
		return
	}
	next := keys.get(sg, 600+i)
	alg := hdr.OVDevCertChainHash.Type
	p := fdoshared.OVEntryPayload{OVEHashPrevEntry: hashOf(prevBytes(v, v.OVEntryArray), alg), OVEHashHdrInfo: hashOf(hdrInfo(hdr), alg), OVEPubKey: next.pub}
	v.OVEntryArray = append(append([]fdoshared.CoseSignature{}, v.OVEntryArray...), signEntry(p, Key{priv: priv, sg: sg}))
	d.key[1] = next.der
	d.copy[1] = append(pem.EncodeToMemory(&pem.Block{Type: vb.Type, Bytes: mustCbor(v)}), pem.EncodeToMemory(&pem.Block{Type: kb.Type, Bytes: next.der})...)
}

// which copy is this? 9: none
func (d *sysDev) which(voucher, key []byte) int {
	for c := range d.copy {
		vb, _ := pem.Decode(d.copy[c])
		if vb != nil && bytes.Equal(vb.Bytes, voucher) && bytes.Equal(d.key[c], key) {
			return c
		}
	}
	return 9
}

func init() { worlds["sys"] = newSysWorld }

var sysAddr = []struct{ url, says string }{
	{"", ""},
	{"http://owner.test.local:8041", "DNS: owner.test.local Port: 8041"},
	{"https://10.20.30.40:8443", "IP: 10.20.30.40 Port: 8443"},
	{"http://192.168.7.9", "IP: 192.168.7.9 Port: 80"},
	{"https://own-er.example.org", "DNS: own-er.example.org Port: 443"},
	{"http://[2001:db8::1]:65535", "IP: 2001:db8::1 Port: 65535"},
}

var sysPort = int32(12000 + os.Getpid()*37%9000)

func freePort() int {
	for {
		p := 12000 + (int(atomic.AddInt32(&sysPort, 1))-12000)%18000
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err == nil {
			l.Close()
			return p
		}
	}
}

// a store with few credentials to draw from, so that a server starts at once
var sysSeed = struct {
	once sync.Once
	vals map[string][]byte
}{}

func seedStore(dir string) {
	sysSeed.once.Do(func() {
		m := newDB()
		dev := dbs.NewDeviceBaseDB(m)
		conf := dbs.MainConfig{SeededGuids: fdoshared.FdoSeedIDs{}}
		for _, sg := range []fdoshared.SgType{fdoshared.StSECP256R1, fdoshared.StSECP384R1} {
			for k := 0; k < 20; k++ {
				c := getDevice(sg, fdoshared.StSECP256R1, 200+k).cred
				if err := dev.Save(c); err != nil {
					panic("harness: " + err.Error())
				}
				conf.SeededGuids[sg] = append(conf.SeededGuids[sg], c.DCGuid)
			}
		}
		if err := dbs.NewConfigDB(m).Save(conf); err != nil {
			panic("harness: " + err.Error())
		}
		sysSeed.vals = map[string][]byte{}
		for k, v := range snapshot(m) {
			sysSeed.vals[k] = []byte(v.val)
		}
		m.Close()
	})
	db := diskDB(dir)
	wb := db.NewWriteBatch()
	for k, v := range sysSeed.vals {
		if err := wb.Set([]byte(k), v); err != nil {
			panic("harness: " + err.Error())
		}
	}
	if err := wb.Flush(); err != nil {
		panic("harness: " + err.Error())
	}
	db.Close()
}

func diskDB(dir string) *badger.DB {
	for i := 0; ; i++ {
		db, err := badger.Open(badger.DefaultOptions(filepath.Join(dir, "badger.local.db")).WithLogger(nil))
		if err == nil {
			return db
		}
		if i == 50 {
			panic("harness: store: " + err.Error())
		}
		time.Sleep(100 * time.Millisecond)
	}
}

func newSysWorld(cfg Op) (World, M, error) {
	bin := os.Getenv("VERIF_CLI")
	if bin == "" {
		panic("harness: VERIF_CLI not set")
	}
	dir, err := os.MkdirTemp("", "verif-sys-")
	if err != nil {
		return nil, nil, err
	}
	w := &sysWorld{dir: dir, bin: bin, nd: cfg.ID("nd", 3), iop: cfg.D("iop", "off"), fresh: cfg.B("fresh"), nonces: map[string]int{}}
	id, url := hubURL(w.dashboard)
	w.hub, w.dash = id, url
	if w.iop == "dead" {
		w.dash = "http://127.0.0.1:9"
	}
	for n := 1; n <= 2; n++ {
		nd := &w.node[n]
		nd.dir, nd.port = filepath.Join(dir, fmt.Sprint("node", n)), freePort()
		os.MkdirAll(filepath.Join(nd.dir, "_dis"), 0o755)
		os.MkdirAll(filepath.Join(nd.dir, "_vouchers"), 0o755)
		if !w.fresh {
			seedStore(nd.dir)
		}
	}
	return w, M{"iop": w.iop}, nil
}

func (w *sysWorld) Close() {
	for n := 1; n <= 2; n++ {
		w.stop(n)
	}
	hubDrop(w.hub)
	os.RemoveAll(w.dir)
}
func (w *sysWorld) Exec(op Op) M { panic("sys: Exec") }

// ---- the dashboard ----

type iopReport struct {
	_     struct{} `cbor:",toarray"`
	Guid  []byte
	Proto int
	Nonce []byte
}

func (w *sysWorld) dashboard(rw http.ResponseWriter, r *http.Request) {
	b, _ := io.ReadAll(r.Body)
	e := M{"by": "?", "p": -1, "d": 0, "z": 0, "well": r.URL.Path == "/logger/101/msg" && r.Method == "POST" && r.Header.Get("Content-Type") == "application/cbor"}
	auth := r.Header.Get("Authorization")
	for n := 1; n <= 2; n++ {
		if auth == fmt.Sprint("Bearer rv-", n) {
			e["by"] = "rv"
		}
		if auth == fmt.Sprint("Bearer do-", n) {
			e["by"] = "do"
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for d := 1; d <= len(w.devs); d++ {
		if auth == fmt.Sprint("Bearer dev-", d) {
			e["by"] = "dev"
		}
	}
	var p iopReport
	if err := wDec(b, &p); err != nil || len(p.Nonce) != 16 {
		e["well"] = false
	} else {
		e["p"] = p.Proto
		z, ok := w.nonces[string(p.Nonce)]
		if !ok {
			z = len(w.nonces) + 1
			w.nonces[string(p.Nonce)] = z
		}
		e["z"] = z
		for d, x := range w.devs {
			if bytes.Equal(x.guid[:], p.Guid) {
				e["d"] = d + 1
			}
		}
		if e["by"] == "dev" && auth != fmt.Sprint("Bearer dev-", e["d"]) {
			e["well"] = false
		}
	}
	w.reports = append(w.reports, e)
	if w.iop == "broken" {
		rw.WriteHeader(500)
		return
	}
	rw.WriteHeader(200)
}

func (w *sysWorld) told() []M {
	w.mu.Lock()
	defer w.mu.Unlock()
	r := w.reports
	w.reports = nil
	if r == nil {
		r = []M{}
	}
	return r
}

// ---- processes ----

func (w *sysWorld) env(n int, addr int, file bool) []string {
	nd := &w.node[n]
	vals := map[string]string{"PORT": fmt.Sprint(nd.port)}
	if w.iop != "off" {
		vals["FDO_SERVICE_URL"] = fmt.Sprintf("http://localhost:%d", nd.port)
		vals["INTEROP_DASHBOARD_URL"] = w.dash
		vals["INTEROP_DASHBOARD_RV_AUTHZ"] = fmt.Sprint("Bearer rv-", n)
		vals["INTEROP_DASHBOARD_DO_AUTHZ"] = fmt.Sprint("Bearer do-", n)
		m := [][]string{}
		for d := 1; d <= 2 && d <= len(w.devs); d++ {
			m = append(m, []string{hex.EncodeToString(w.devs[d-1].guid[:]), fmt.Sprint("Bearer dev-", d)})
		}
		b, _ := json.Marshal(m)
		vals["INTEROP_DO_TOKEN_MAPPING"] = string(b)
	}
	os.Remove(filepath.Join(nd.dir, ".env"))
	if n == 1 { // this machine is set up by a file
		var b bytes.Buffer
		for k, v := range vals {
			fmt.Fprintf(&b, "%s='%s'\n", k, v)
		}
		os.WriteFile(filepath.Join(nd.dir, ".env"), b.Bytes(), 0o644)
		vals = map[string]string{}
	}
	if addr != 0 {
		vals["FDO_SERVICE_URL"] = sysAddr[addr].url
	}
	env := []string{"PATH=/usr/bin:/bin", "HOME=" + w.dir}
	for k, v := range vals {
		env = append(env, k+"="+v)
	}
	return env
}

type sysOut struct {
	text   string
	code   int
	killed bool
	panics bool
}

// cmd runs one command; if line is given the process (or whatever kill ends) is killed when the count-th such line comes out.
func (w *sysWorld) cmd(dir string, env []string, line *regexp.Regexp, count int, kill func(), args ...string) sysOut {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, w.bin, args...)
	c.Dir, c.Env = dir, env
	pr, pw := io.Pipe()
	c.Stdout, c.Stderr = pw, pw
	var o sysOut
	var sb strings.Builder
	done := make(chan struct{})
	go func() {
		defer close(done)
		sc := bufio.NewScanner(pr)
		sc.Buffer(make([]byte, 1<<16), 1<<24)
		for sc.Scan() {
			sb.WriteString(sc.Text() + "\n")
			if line != nil && !o.killed && line.MatchString(sc.Text()) {
				count--
				if count <= 0 {
					o.killed = true
					if kill != nil {
						kill()
					} else {
						c.Process.Kill()
					}
				}
			}
		}
	}()
	err := c.Run()
	pw.Close()
	<-done
	o.text = sb.String()
	if ctx.Err() != nil {
		panic("harness: sys: command hangs: " + strings.Join(args, " ") + "\n" + o.text)
	}
	if err != nil {
		o.code = 1
	}
	o.panics = (strings.Contains(o.text, "panic:") || strings.Contains(o.text, "goroutine ")) && !strings.Contains(o.text, "Error opening Badger DB")
	return o
}

func (w *sysWorld) stop(n int) (alive bool) {
	nd := &w.node[n]
	if nd.srv == nil {
		return false
	}
	select {
	case <-nd.gone:
	default:
		alive = true
	}
	nd.srv.Process.Kill()
	<-nd.gone
	nd.srv = nil
	return
}

// ---- the story ----

func (w *sysWorld) emit(e M) {
	w.events = append(w.events, e)
}

func (w *sysWorld) Run(ops []Op) []M {
	w.generate()
	for _, op := range ops {
		w.op(op)
	}
	return w.events
}

// generate makes the devices with the tool itself.
func (w *sysWorld) generate() {
	gen := filepath.Join(w.dir, "gen")
	for d := 0; d < w.nd; d++ {
		g := filepath.Join(gen, fmt.Sprint(d))
		os.MkdirAll(filepath.Join(g, "_dis"), 0o755)
		os.MkdirAll(filepath.Join(g, "_vouchers"), 0o755)
		o := w.cmd(g, []string{"PATH=/usr/bin:/bin"}, nil, 0, nil, "iop", "generate")
		ev := M{"op": "gen", "ok": false, "facts": []string{}, "crash": o.panics, "why": "", "rep": w.told()}
		dev, facts, why := readGenerated(g)
		ev["why"] = why
		if why == "" && o.code == 0 {
			ev["ok"], ev["facts"] = true, facts
		} else if o.code != 0 {
			ev["why"] = lastLine(o.text)
		}
		w.devs = append(w.devs, dev)
		w.emit(ev)
	}
	for i := range w.devs {
		w.devs[i].passOn(i)
	}
	sort.Slice(w.devs, func(i, j int) bool { return bytes.Compare(w.devs[i].guid[:], w.devs[j].guid[:]) < 0 })
}

func lastLine(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	return l[len(l)-1]
}

func readGenerated(g string) (dev sysDev, facts []string, why string) {
	facts = []string{}
	vs, _ := filepath.Glob(filepath.Join(g, "_vouchers", "*.voucher.pem"))
	cs, _ := filepath.Glob(filepath.Join(g, "_dis", "*.dis.pem"))
	if len(vs) != 1 || len(cs) != 1 {
		return dev, facts, fmt.Sprintf("%d vouchers, %d credentials", len(vs), len(cs))
	}
	fact := func(n string, ok bool) {
		if ok {
			facts = append(facts, n)
		}
	}
	vp, _ := os.ReadFile(vs[0])
	cp, _ := os.ReadFile(cs[0])
	vb, rest := pem.Decode(vp)
	cb, _ := pem.Decode(cp)
	if vb == nil || cb == nil {
		return dev, facts, "no PEM"
	}
	kb, _ := pem.Decode(rest)
	if kb == nil {
		return dev, facts, "no key"
	}
	var dc fdoshared.WawDeviceCredential
	if err := fdoshared.CborCust.Unmarshal(cb.Bytes, &dc); err != nil {
		return dev, facts, err.Error()
	}
	dev = sysDev{guid: dc.DCGuid, cred: cs[0], voucher: vp, cbor: vb.Bytes}
	fact("pem", cb.Type == fdoshared.CREDENTIAL_PEM_TYPE && vb.Type == fdoshared.OWNERSHIP_VOUCHER_PEM_TYPE && kb.Type == fdoshared.PRIVATE_KEY_PEM_TYPE)
	e, err := fdodevicecommon.DecodePemVoucherAndKey(string(vp))
	fact("valid", err == nil)
	fact("store", err == nil && bytes.Equal(mustCbor(e.Voucher), vb.Bytes) && bytes.Equal(e.PrivateKeyX509, kb.Bytes))
	final, hdr, v, err := refVoucher(vb.Bytes)
	fact("chain", err == nil)
	if err != nil {
		return dev, facts, err.Error()
	}
	all := []byte{}
	for _, c := range dc.DCCertificateChain {
		all = append(all, c...)
	}
	fact("hash", bytes.Equal(hdr.Ch.Hash, hashFor(hdr.Ch.Type, all)) && len(v.Chain) == len(dc.DCCertificateChain))
	h := hmac.New(sha256.New, dc.DCHmacSecret)
	if v.Hmac.Type == 6 {
		h = hmac.New(sha512.New384, dc.DCHmacSecret)
	}
	h.Write(v.Hdr)
	fact("hmac", bytes.Equal(h.Sum(nil), v.Hmac.Hash))
	fact("guid", bytes.Equal(hdr.Guid, dc.DCGuid[:]))
	fact("devinfo", hdr.Info == dc.DCDeviceInfo && hdr.Info != "")
	fact("entries", len(v.Ents) >= 1)
	priv, err := fdoshared.ExtractPrivateKey(kb.Bytes)
	if err == nil {
		sg, err := fdoshared.GetPrivateKeySgType(priv)
		fact("key", err == nil && reflect.DeepEqual(wEnc(wKey(pubOf(priv), sgName(sg))), wEnc(wKey(final, sgName(sg)))))
	}
	if leaf, err := x509.ParseCertificate(dc.DCCertificateChain[0]); err == nil {
		k, err := fdoshared.ExtractPrivateKey(dc.DCPrivateKeyDer)
		fact("cred", err == nil && reflect.DeepEqual(pubOf(k), leaf.PublicKey) && v.Hmac.Type == int(dc.DCHmacAlg) && hdr.Ch.Type == int(dc.DCHashAlg))
	}
	return dev, facts, ""
}

func (w *sysWorld) number(guid string) int {
	for d, x := range w.devs {
		if x.guid.GetFormatted() == guid {
			return d + 1
		}
	}
	return 0
}

func (w *sysWorld) said(text, what string) []int {
	out := []int{}
	for _, l := range strings.Split(text, "\n") {
		if i := strings.Index(l, what); i >= 0 {
			out = append(out, w.number(strings.TrimSpace(l[i+len(what):])))
		}
	}
	return out
}

var sysSuccess = regexp.MustCompile(`Success +((?:DNS|IP): .* Port: \d+)\s*$`)

func (w *sysWorld) op(op Op) {
	n := op.ID("n", 1)
	nd := &w.node[n]
	d := op.ID("d", 1)
	if d > len(w.devs) {
		d = len(w.devs)
	}
	dev := w.devs[0]
	if d > 0 {
		dev = w.devs[d-1]
	}
	w.n++
	ev := M{"op": op.S("op"), "n": n, "d": d, "ok": false, "crash": false}
	finish := func(o sysOut) {
		ev["crash"] = o.panics
		ev["why"] = lastLine(o.text)
		ev["rep"] = w.told()
		w.emit(ev)
	}
	switch op.S("op") {
	case "load":
		dir := filepath.Join(w.dir, fmt.Sprint("load", w.n))
		os.MkdirAll(dir, 0o755)
		items := []M{}
		want := []M{}
		bad := false
		for i, x := range op.L("items") {
			it := Op(x.(map[string]interface{}))
			k, dd := it.S("k"), it.I("d")
			items = append(items, M{"k": k, "d": dd, "c": it.I("c")})
			w.file(dir, i, k, dd, it.I("c"), it.I("v"))
			bad = bad || k == "bad"
			if k == "dev" && !bad {
				want = append(want, items[i])
			}
		}
		kill := op.I("kill")
		var re *regexp.Regexp
		if kill > 0 {
			re = regexp.MustCompile("Saved voucher")
		}
		o := w.cmd(nd.dir, w.env(n, 0, true), re, kill, nil, "iop", "do_load_vouchers", dir)
		said := w.said(o.text, "Saved voucher for ")
		ev["items"], ev["said"], ev["killed"], ev["ok"] = items, said, o.killed, o.code == 0
		finish(o)
		if o.killed && nd.srv == nil {
			nd.next = nil
			if len(said) < len(want) {
				nd.next = want[len(said):]
			}
			w.look(n)
		}
	case "push":
		m := op.ID("to", op.ID("m", 2))
		a := op.I("a")
		kill := op.I("kill")
		var re *regexp.Regexp
		if kill > 0 && w.iop == "off" {
			re = regexp.MustCompile("Success TO0|Doing voucherGuid")
		}
		o := w.cmd(nd.dir, w.env(n, a, true), re, kill, nil, "iop", "rv_push_vouchers", fmt.Sprintf("http://localhost:%d", w.node[m].port))
		ev["m"], ev["a"], ev["said"], ev["killed"], ev["ok"] = m, a, w.said(o.text, "Success TO0 "), o.killed, o.code == 0
		if o.killed {
			time.Sleep(300 * time.Millisecond)
		}
		finish(o)
	case "serve":
		if nd.srv != nil {
			return
		}
		c := exec.Command(w.bin, "serve", "--force")
		c.Dir, c.Env = nd.dir, w.env(n, 0, true)
		var out bytes.Buffer
		c.Stdout, c.Stderr = &out, &out
		if err := c.Start(); err != nil {
			panic("harness: sys: " + err.Error())
		}
		nd.srv, nd.gone = c, make(chan struct{})
		go func(g chan struct{}) { c.Wait(); close(g) }(nd.gone)
		ok := w.await(n, op.I("kill"))
		if k := op.I("kill"); k > 0 && !ok {
			w.stop(n)
			ev["op"], ev["early"] = "kill", false
			finish(sysOut{})
			return
		}
		ev["ok"] = ok
		if !ok {
			w.stop(n)
			finish(sysOut{text: out.String(), panics: strings.Contains(out.String(), "panic:")})
			return
		}
		finish(sysOut{})
	case "kill":
		if nd.srv == nil {
			return
		}
		ev["early"] = !w.stop(n)
		finish(sysOut{})
	case "look":
		if nd.srv == nil {
			w.look(n)
		}
	case "to1":
		o := w.cmd(w.dir, w.env(n, 0, true), nil, 0, nil, "iop", "to1", fmt.Sprintf("http://localhost:%d", nd.port), dev.cred)
		ev["a"], ev["says"] = 0, ""
		for _, l := range strings.Split(o.text, "\n") {
			if x := sysSuccess.FindStringSubmatch(l); x != nil {
				ev["a"], ev["says"] = 99, x[1]
				for a := 1; a < len(sysAddr); a++ {
					if sysAddr[a].says == x[1] {
						ev["a"] = a
					}
				}
				for k := 1; k <= 2; k++ {
					if x[1] == fmt.Sprintf("DNS: localhost Port: %d", w.node[k].port) {
						ev["a"] = 10 + k
					}
				}
			}
		}
		finish(o)
	case "to2":
		kill := op.I("kill")
		var re *regexp.Regexp
		if kill > 0 && w.iop == "off" && nd.srv != nil {
			re = regexp.MustCompile("Starting|Requesting|Sending|Receiving")
		}
		url := fmt.Sprintf("http://localhost:%d", nd.port)
		if op.B("ip") {
			url = fmt.Sprintf("http://127.0.0.1:%d/", nd.port)
		}
		env := w.env(n, 0, true)
		if n == 1 { // the device does not run on the machine
			env = append(env, "PORT=1")
			if w.iop != "off" {
				env = w.env(2, 0, true)
			}
		}
		o := w.cmd(w.dir, env, re, kill, func() { w.stop(n) }, "iop", "to2", url, dev.cred)
		ev["ok"], ev["killed"] = strings.Contains(o.text, "Success To2"), o.killed
		finish(o)
	case "login":
		_, c, ok := w.call(n, "POST", "/api/user/login/onprem", "{}", "")
		ok = ok && c != ""
		if ok {
			nd.cookie = c
		}
		ev["ok"] = ok
		finish(sysOut{})
	case "mk":
		_, _, ok := w.call(n, "POST", "/api/rvt/create", fmt.Sprintf(`{"url":%q}`, deadURL(w.n)), nd.cookie)
		ev["ok"], ev["cookie"] = ok, nd.cookie != ""
		finish(sysOut{})
	case "dev":
		b, _ := json.Marshal(M{"name": fmt.Sprint("device ", d), "voucher": string(dev.copy[op.I("c")])})
		ev["c"] = op.I("c")
		_, _, ok := w.call(n, "POST", "/api/device/create", string(b), nd.cookie)
		ev["ok"], ev["cookie"] = ok, nd.cookie != ""
		finish(sysOut{})
	case "list":
		r, _, ok := w.call(n, "GET", "/api/rvt/testruns", "", nd.cookie)
		q, _, ok2 := w.call(n, "GET", "/api/device/testruns", "", nd.cookie)
		var a, b struct {
			Entries []struct {
				Guid string `json:"guid"`
			} `json:"entries"`
		}
		ev["ok"], ev["cookie"] = ok && ok2 && json.Unmarshal(r, &a) == nil && json.Unmarshal(q, &b) == nil, nd.cookie != ""
		devs := []int{}
		for _, x := range b.Entries {
			k := 0
			for i, y := range w.devs {
				if strings.EqualFold(strings.ReplaceAll(x.Guid, "-", ""), hex.EncodeToString(y.guid[:])) {
					k = i + 1
				}
			}
			devs = append(devs, k)
		}
		ev["rvt"], ev["dev"] = len(a.Entries), devs
		finish(sysOut{})
	case "resetu", "resetl":
		o := w.cmd(nd.dir, w.env(n, 0, true), nil, 0, nil, "reset", map[string]string{"resetu": "users", "resetl": "listenerdb"}[op.S("op")])
		ev["ok"] = o.code == 0
		finish(o)
	case "show":
		dir := filepath.Join(w.dir, fmt.Sprint("show", w.n))
		os.MkdirAll(dir, 0o755)
		v := op.I("v")
		k := op.D("k", "dev")
		f := w.file(dir, 0, k, d, op.I("c"), v)
		ev["good"] = k == "dev"
		if op.B("pem") {
			os.WriteFile(f, dev.cbor, 0o644)
			o := w.cmd(w.dir, nil, nil, 0, nil, "from_cbor_to_pem_voucher", f)
			i := strings.Index(o.text, "-----BEGIN")
			ev["good"], ev["ok"], ev["right"] = true, o.code == 0, false
			if i >= 0 {
				b, _ := pem.Decode([]byte(o.text[i:]))
				ev["right"] = b != nil && b.Type == fdoshared.OWNERSHIP_VOUCHER_PEM_TYPE && bytes.Equal(b.Bytes, dev.cbor)
			}
			finish(o)
			return
		}
		o := w.cmd(w.dir, nil, nil, 0, nil, "decode_voucher", f)
		s := w.said(o.text, "GUID: ")
		ev["ok"], ev["right"] = o.code == 0, len(s) == 1 && s[0] == d
		finish(o)
	default:
		panic("harness: sys: op " + op.S("op"))
	}
}

// file writes one file of a folder of vouchers.
func (w *sysWorld) file(dir string, i int, k string, d, c, v int) string {
	name := filepath.Join(dir, fmt.Sprintf("%02d.voucher.pem", i))
	switch k {
	case "dev":
		os.WriteFile(name, w.devs[d-1].copy[c], 0o644)
	case "skip":
		switch v % 4 {
		case 0:
			name = filepath.Join(dir, fmt.Sprintf("%02d.txt", i))
			os.WriteFile(name, []byte("notes"), 0o644)
		case 1:
			os.MkdirAll(name, 0o755)
		case 2:
			name = filepath.Join(dir, fmt.Sprintf("%02d.pem.bak", i))
			os.WriteFile(name, w.devs[0].voucher[:20], 0o644)
		case 3:
			name = filepath.Join(dir, fmt.Sprintf("%02d", i))
			os.WriteFile(name, nil, 0o644)
		}
	case "bad":
		x := w.devs[v%len(w.devs)]
		vb, rest := pem.Decode(x.voucher)
		b := []byte{}
		switch v / 4 % 7 {
		case 0:
		case 1:
			b = []byte("junk")
		case 2:
			b = pem.EncodeToMemory(vb)
		case 3: // the last signature
			c := append([]byte{}, vb.Bytes...)
			c[len(c)-5] ^= 1
			b = append(pem.EncodeToMemory(&pem.Block{Type: vb.Type, Bytes: c}), rest...)
		case 4:
			b = append(pem.EncodeToMemory(&pem.Block{Type: vb.Type, Bytes: vb.Bytes[:len(vb.Bytes)-9]}), rest...)
		case 5:
			b = append(append([]byte{}, rest...), pem.EncodeToMemory(vb)...)
		case 6: // the header: another GUID
			c := bytes.Replace(vb.Bytes, x.guid[:], flip(x.guid[:], 3), 1)
			b = append(pem.EncodeToMemory(&pem.Block{Type: vb.Type, Bytes: c}), rest...)
		}
		os.WriteFile(name, b, 0o644)
	}
	return name
}

// await waits until the server answers; with killAfter it gives up after so many milliseconds.
func (w *sysWorld) await(n, killAfter int) bool {
	nd := &w.node[n]
	end := time.Now().Add(120 * time.Second)
	if killAfter > 0 {
		end = time.Now().Add(time.Duration(killAfter) * time.Millisecond)
	}
	for time.Now().Before(end) {
		select {
		case <-nd.gone:
			return false
		default:
		}
		c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", nd.port), time.Second)
		if err == nil {
			c.Close()
			return true
		}
		time.Sleep(30 * time.Millisecond)
	}
	return false
}

// look opens the store of a machine that does not run.
func (w *sysWorld) look(n int) {
	nd := &w.node[n]
	db := diskDB(nd.dir)
	s := snapshot(db)
	db.Close()
	has, reg, cop := []int{}, []int{}, []int{}
	same := true
	for d, x := range w.devs {
		if v, ok := s["voucher-"+string(x.guid[:])]; ok {
			has = append(has, d+1)
			var e fdoshared.VoucherDBEntry
			c := 9
			if fdoshared.CborCust.Unmarshal([]byte(v.val), &e) == nil {
				c = x.which(mustCbor(e.Voucher), e.PrivateKeyX509)
			}
			cop = append(cop, c)
			same = same && c != 9
		}
		if _, ok := s["to1osstorage-"+string(x.guid[:])]; ok {
			reg = append(reg, d+1)
		}
	}
	for k := range s { // a voucher of nobody
		if strings.HasPrefix(k, "voucher-") {
			known := false
			for _, x := range w.devs {
				known = known || k == "voucher-"+string(x.guid[:])
			}
			same = same && known
		}
	}
	next := nd.next
	nd.next = nil
	if next == nil {
		next = []M{}
	}
	w.emit(M{"op": "look", "n": n, "has": has, "cop": cop, "reg": reg, "next": next, "same": same, "seed": seedState(s), "crash": false})
}

// seedState: is every credential there which the store says it has been seeded with?
func seedState(s dbSnap) string {
	v, ok := s["config-main"]
	if !ok {
		return "none"
	}
	var c dbs.MainConfig
	if fdoshared.CborCust.Unmarshal([]byte(v.val), &c) != nil {
		return "torn"
	}
	creds := 0
	for k := range s {
		if strings.HasPrefix(k, "devbasecreds-") {
			creds++
		}
	}
	n := 0
	for _, l := range c.SeededGuids {
		n += len(l)
		for _, g := range l {
			found := false
			for _, id := range []string{"devbasecreds-" + string(g[:]), "devbasecreds-" + hex.EncodeToString(g[:]), "devbasecreds-" + g.GetFormatted()} {
				if _, ok := s[id]; ok {
					found = true
				}
			}
			if !found {
				return "torn"
			}
		}
	}
	if n == 0 || creds < n {
		return "torn"
	}
	return "all"
}

func (w *sysWorld) call(n int, method, path, body, cookie string) ([]byte, string, bool) {
	r, err := http.NewRequest(method, fmt.Sprintf("http://127.0.0.1:%d%s", w.node[n].port, path), strings.NewReader(body))
	if err != nil {
		panic("harness: " + err.Error())
	}
	if method == "POST" {
		r.Header.Set("Content-Type", "application/json")
	}
	if cookie != "" {
		r.Header.Set("Cookie", "session="+cookie)
	}
	cl := http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
	q, err := cl.Do(r)
	if err != nil {
		return nil, "", false
	}
	defer q.Body.Close()
	b, _ := io.ReadAll(q.Body)
	c := ""
	for _, x := range q.Cookies() {
		if x.Name == "session" {
			c = x.Value
		}
	}
	var st struct {
		Status string `json:"status"`
	}
	return b, c, q.StatusCode == 200 && json.Unmarshal(b, &st) == nil && st.Status == "ok"
}
