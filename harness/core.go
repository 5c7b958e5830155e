// Package main: conformance driver that binds the TLA+ specifications in
// /verif/spec to the real code.  It is compiled *inside* the module under test
// through "go build -overlay", so it always exercises the current /repo tree.
package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/dgraph-io/badger/v4/options"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

type M = map[string]interface{}

// Op is one abstract operation of a trace script.
type Op M

func (o Op) S(k string) string {
	if v, ok := o[k].(string); ok {
		return v
	}
	return ""
}

func (o Op) D(k, def string) string {
	if v, ok := o[k].(string); ok && v != "" {
		return v
	}
	return def
}

func (o Op) I(k string) int {
	switch v := o[k].(type) {
	case float64:
		return int(v)
	case int:
		return v
	case bool:
		if v {
			return 1
		}
	}
	return 0
}

func (o Op) ID(k string, def int) int {
	if _, ok := o[k]; !ok {
		return def
	}
	return o.I(k)
}

func (o Op) B(k string) bool {
	switch v := o[k].(type) {
	case bool:
		return v
	case float64:
		return v != 0
	}
	return false
}

func (o Op) L(k string) []interface{} {
	if v, ok := o[k].([]interface{}); ok {
		return v
	}
	return []interface{}{}
}

type Script struct {
	ID   string `json:"id"`
	Comp string `json:"comp"`
	Cfg  Op     `json:"cfg"`
	Ops  []Op   `json:"ops"`
}

// World executes the operations of one trace.
type World interface {
	Exec(op Op) M
	Close()
}

type worldCtor func(cfg Op) (World, M, error)

var worlds = map[string]worldCtor{}

func newDB() *badger.DB {
	o := badger.DefaultOptions("").WithInMemory(true).WithLogger(nil)
	o = o.WithMemTableSize(8 << 20).WithNumMemtables(1).WithBlockCacheSize(0).WithIndexCacheSize(0)
	o = o.WithCompression(options.None).WithNumCompactors(2).WithMetricsEnabled(false).WithNumGoroutines(1)
	db, err := badger.Open(o)
	if err != nil {
		panic("harness: cannot open badger: " + err.Error())
	}
	return db
}

// ---- the end of a process ----

// A crash plan says at which write of the running operation the process ends;
// afterwards nothing of it writes any more.
type crashPlan struct {
	at, n int
	dead  bool
}

var (
	crashMu sync.Mutex
	crashes = map[*badger.DB]*crashPlan{}
)

func init() {
	badger.VerifCommit = func(db *badger.DB) {
		crashMu.Lock()
		p := crashes[db]
		if p == nil {
			crashMu.Unlock()
			return
		}
		if !p.dead {
			p.n++
			p.dead = p.n == p.at
		}
		d := p.dead
		crashMu.Unlock()
		if d {
			runtime.Goexit()
		}
	}
}

// crashing runs f and ends it at its at-th write (0: when it has finished, before anybody gets an answer).
func crashing(db *badger.DB, at int, f func()) bool {
	p := &crashPlan{at: at}
	crashMu.Lock()
	crashes[db] = p
	crashMu.Unlock()
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	<-done
	crashMu.Lock()
	defer crashMu.Unlock()
	if !p.dead && at != 0 {
		delete(crashes, db)
		return false
	}
	p.dead = true
	return true
}

// reborn is the store as the next process finds it.
func reborn(old *badger.DB) *badger.DB {
	crashMu.Lock()
	crashes[old] = &crashPlan{dead: true}
	crashMu.Unlock()
	db := newDB()
	wb := db.NewWriteBatch()
	for k, v := range snapshot(old) {
		e := badger.NewEntry([]byte(k), []byte(v.val))
		e.ExpiresAt = v.exp
		if err := wb.SetEntry(e); err != nil {
			panic("harness: " + err.Error())
		}
	}
	if err := wb.Flush(); err != nil {
		panic("harness: " + err.Error())
	}
	go func() {
		time.Sleep(2 * time.Second) // whatever was left of the old process
		crashMu.Lock()
		delete(crashes, old)
		crashMu.Unlock()
		old.Close()
	}()
	return db
}

type dbSnap map[string]dbVal
type dbVal struct {
	val string
	exp uint64
}

func snapshot(db *badger.DB) dbSnap {
	out := dbSnap{}
	_ = db.View(func(txn *badger.Txn) error {
		it := txn.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			item := it.Item()
			v, err := item.ValueCopy(nil)
			if err != nil {
				return err
			}
			out[string(item.KeyCopy(nil))] = dbVal{string(v), item.ExpiresAt()}
		}
		return nil
	})
	return out
}

func (a dbSnap) same(b dbSnap) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || w.val != v.val || w.exp != v.exp {
			return false
		}
	}
	return true
}

// newKeys returns the keys of b that are absent from a or differ.
func (a dbSnap) newKeys(b dbSnap) []string {
	var out []string
	for k, v := range b {
		w, ok := a[k]
		if !ok || w != v {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// expireKey rewrites an entry so that it is already past its expiry time.
func expireKey(db *badger.DB, key string) {
	err := db.Update(func(txn *badger.Txn) error {
		item, err := txn.Get([]byte(key))
		if err != nil {
			return nil
		}
		v, err := item.ValueCopy(nil)
		if err != nil {
			return err
		}
		e := badger.NewEntry([]byte(key), v)
		e.ExpiresAt = 1
		return txn.SetEntry(e)
	})
	if err != nil {
		panic("harness: expireKey: " + err.Error())
	}
}

var ctxBase = func() context.Context {
	c := context.Background()
	c = context.WithValue(c, fdoshared.CFG_ENV_INTEROP_ENABLED, false)
	c = context.WithValue(c, fdoshared.CFG_ENV_FDO_SERVICE_URL, "http://127.0.0.1:8080")
	return c
}()

// ---- HTTP ----

type Resp struct {
	panicked string
	status   int
	hdr      http.Header
	body     []byte
	wrote    int
}

var muxMu sync.Mutex

// captureMux runs a registration function that writes to http.DefaultServeMux
// and returns the mux it filled in.
func captureMux(f func()) http.Handler {
	muxMu.Lock()
	defer muxMu.Unlock()
	old := http.DefaultServeMux
	m := http.NewServeMux()
	http.DefaultServeMux = m
	defer func() { http.DefaultServeMux = old }()
	f()
	return m
}

func do(h http.Handler, r *http.Request) (resp Resp) {
	rec := httptest.NewRecorder()
	defer func() {
		if e := recover(); e != nil {
			resp = Resp{panicked: fmt.Sprint(e) + "\n" + string(debug.Stack())}
		}
	}()
	h.ServeHTTP(rec, r)
	res := rec.Result()
	b, _ := io.ReadAll(res.Body)
	return Resp{status: res.StatusCode, hdr: res.Header, body: b}
}

// respFields classifies a protocol response.
//
//	res:   "ok"    an FDO message that is not an error (Message-Type = want)
//	       "err"   a well formed FDO error message
//	       "panic" the handler crashed
//	       "odd"   anything else
//	eprev: previous message id named by the error
func respFields(r Resp, want int, ev M) {
	ev["mtype"] = 0
	ev["eprev"] = 0
	ev["ecode"] = 0
	ev["status"] = r.status
	ev["why"] = ""
	if r.panicked != "" {
		ev["res"] = "panic"
		ev["why"] = firstLines(r.panicked, 1)
		return
	}
	mt, _ := strconv.Atoi(r.hdr.Get("Message-Type"))
	ev["mtype"] = mt
	ct := r.hdr.Get("Content-Type")
	if ct != "application/cbor" {
		ev["res"] = "odd"
		ev["why"] = "content-type " + ct
		return
	}
	if mt == 255 {
		fe, rest, err := decodeFdoError(r.body)
		switch {
		case err != nil:
			ev["res"] = "odd"
			ev["why"] = "error body does not decode: " + err.Error()
		case rest != 0:
			ev["res"] = "odd"
			ev["why"] = "trailing bytes after error body"
		case r.status < 400:
			ev["res"] = "odd"
			ev["why"] = "error body with success status"
		default:
			ev["res"] = "err"
			ev["eprev"] = fe.prev
			ev["ecode"] = fe.code
			ev["why"] = fe.msg
		}
		return
	}
	if r.status == 200 && mt == want {
		ev["res"] = "ok"
		return
	}
	ev["res"] = "odd"
	ev["why"] = fmt.Sprintf("status %d mtype %d len %d", r.status, mt, len(r.body))
}

type fdoErr struct {
	code, prev int
	msg        string
}

func decodeFdoError(b []byte) (fdoErr, int, error) {
	var e fdoshared.FdoError
	if len(b) == 0 {
		return fdoErr{}, 0, fmt.Errorf("empty")
	}
	rest, err := cborFirst(b, &e)
	if err != nil {
		return fdoErr{}, 0, err
	}
	return fdoErr{int(e.EMErrorCode), int(e.EMPrevMsgID), e.EMErrorStr}, rest, nil
}

func firstLines(s string, n int) string {
	p := strings.SplitN(s, "\n", n+1)
	if len(p) > n {
		p = p[:n]
	}
	return strings.Join(p, " | ")
}

func fdoReq(method, path string, body []byte, ct string, auth *string) *http.Request {
	r := httptest.NewRequest(method, path, bytes.NewReader(body))
	if ct != "" {
		r.Header.Set("Content-Type", ct)
	}
	if auth != nil {
		r.Header.Set("Authorization", *auth)
	}
	return r
}

// brokenBody is a request body whose connection drops half way.
type brokenBody struct {
	b   []byte
	pos int
}

func (b *brokenBody) Read(p []byte) (int, error) {
	if b.pos >= len(b.b)/2 {
		return 0, io.ErrUnexpectedEOF
	}
	n := copy(p, b.b[b.pos:len(b.b)/2])
	b.pos += n
	return n, nil
}

func (b *brokenBody) Close() error { return nil }

func sum(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:6])
}

// nonceReg remembers every nonce seen in this process.
type nonceReg struct {
	mu sync.Mutex
	m  map[string]bool
}

var nonces = nonceReg{m: map[string]bool{}}

func (n *nonceReg) fresh(b []byte) bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.m[string(b)] {
		return false
	}
	n.m[string(b)] = true
	return true
}

// ttlFields reports how far in the future an entry expires (seconds), as an
// interval that accounts for the time the operation took.
func ttlFields(exp uint64, t0, t1 time.Time) (lo, hi int) {
	if exp == 0 {
		return -1, -1
	}
	return int(int64(exp) - t1.Unix()), int(int64(exp) - t0.Unix())
}

// ---- main loop ----

func runScript(s Script) (events []M) {
	events = []M{}
	defer func() {
		if e := recover(); e != nil {
			// the code under test gave something that the history cannot go on with
			events = append(events, M{"op": "broken", "tr": s.ID, "i": len(events), "why": firstLines(fmt.Sprint(e)+"\n"+string(debug.Stack()), 40)})
		}
	}()
	ctor, ok := worlds[s.Comp]
	if !ok {
		panic("unknown component " + s.Comp)
	}
	w, init, err := ctor(s.Cfg)
	if err != nil {
		panic(err)
	}
	defer w.Close()
	if init == nil {
		init = M{}
	}
	init["op"] = "reset"
	init["tr"] = s.ID
	init["i"] = 0
	events = append(events, init)
	if r, ok := w.(interface{ Run([]Op) []M }); ok {
		for i, ev := range r.Run(s.Ops) {
			ev["tr"] = s.ID
			ev["i"] = i + 1
			events = append(events, ev)
		}
		return events
	}
	for i, op := range s.Ops {
		ev := w.Exec(op)
		if ev == nil {
			continue
		}
		ev["tr"] = s.ID
		ev["i"] = i + 1
		events = append(events, ev)
		if ev["stop"] == true {
			break
		}
	}
	return events
}

func main() {
	log.SetOutput(io.Discard)
	debug.SetGCPercent(200)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness run IN OUT | selftest")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2], os.Args[3])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func cmdRun(in, out string) {
	f, err := os.Open(in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var scripts []Script
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(bytes.TrimSpace(sc.Bytes())) == 0 {
			continue
		}
		var s Script
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		scripts = append(scripts, s)
	}
	workers := runtime.NumCPU()
	if v := os.Getenv("VERIF_WORKERS"); v != "" {
		workers, _ = strconv.Atoi(v)
	}
	limit := 240 * time.Second
	if v := os.Getenv("VERIF_LIMIT"); v != "" {
		limit, _ = time.ParseDuration(v)
	}
	results := make([][]M, len(scripts))
	idx := make(chan int)
	var hung atomic.Bool
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range idx {
				if hung.Load() {
					continue
				}
				ch := make(chan []M, 1)
				t0 := time.Now()
				go func() { ch <- runScript(scripts[i]) }()
				select {
				case results[i] = <-ch:
					if os.Getenv("VERIF_TIMES") != "" {
						fmt.Fprintf(os.Stderr, "%6.1f %s\n", time.Since(t0).Seconds(), scripts[i].ID)
					}
				case <-time.After(limit):
					// there is no end in sight: no need to wait for others
					hung.Store(true)
					results[i] = []M{{"op": "broken", "tr": scripts[i].ID, "i": 0, "why": "the history does not end"}}
				}
			}
		}()
	}
	for i := range scripts {
		idx <- i
	}
	close(idx)
	wg.Wait()
	of, err := os.Create(out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	bw := bufio.NewWriterSize(of, 1<<20)
	enc := json.NewEncoder(bw)
	enc.SetEscapeHTML(false)
	for _, evs := range results {
		for _, e := range evs {
			if err := enc.Encode(e); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
		}
	}
	bw.Flush()
	of.Close()
}
