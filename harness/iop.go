package main

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"sync"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

// iopBoard stands in for the interop dashboard: it records what the servers
// report.  mode: on (records, answers 200), broken (records, answers 500),
// dead (nobody listens).
type iopBoard struct {
	mode string
	id   string
	url  string
	mu   sync.Mutex
	raw  []iopRaw
}

type iopRaw struct {
	by          string
	well        bool
	p           int
	guid, nonce []byte
}

func newBoard(mode string) *iopBoard {
	b := &iopBoard{mode: mode}
	b.id, b.url = hubURL(b.serve)
	if mode == "dead" {
		b.url = "http://127.0.0.1:1"
	}
	return b
}

func (b *iopBoard) close() {
	if b != nil {
		hubDrop(b.id)
	}
}

func (b *iopBoard) ctx(c context.Context) context.Context {
	c = context.WithValue(c, fdoshared.CFG_ENV_INTEROP_ENABLED, true)
	c = context.WithValue(c, fdoshared.CFG_ENV_INTEROP_DO_TOKEN_MAPPING, "[]")
	c = context.WithValue(c, fdoshared.CFG_ENV_INTEROP_DASHBOARD_URL, b.url)
	c = context.WithValue(c, fdoshared.CFG_ENV_INTEROP_DASHBOARD_DO_AUTHZ, "Bearer do-token")
	c = context.WithValue(c, fdoshared.CFG_ENV_INTEROP_DASHBOARD_RV_AUTHZ, "Bearer rv-token")
	return c
}

func (b *iopBoard) serve(rw http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	e := iopRaw{by: "?", p: -1}
	switch r.Header.Get("Authorization") {
	case "Bearer do-token":
		e.by = "do"
	case "Bearer rv-token":
		e.by = "rv"
	}
	var p iopReport
	if wDec(body, &p) == nil {
		e.well = r.Method == "POST" && r.URL.Path == "/logger/101/msg" && r.Header.Get("Content-Type") == "application/cbor" && len(p.Guid) == 16 && len(p.Nonce) == 16
		e.p, e.guid, e.nonce = p.Proto, p.Guid, p.Nonce
	}
	b.mu.Lock()
	b.raw = append(b.raw, e)
	b.mu.Unlock()
	if b.mode == "broken" {
		rw.WriteHeader(500)
		fmt.Fprint(rw, "no")
		return
	}
	rw.WriteHeader(200)
}

// take returns the reports since the last call, in the numbers of the trace.
func (b *iopBoard) take(dev func(guid []byte) int, sess func(nonce []byte) int) []M {
	out := []M{}
	if b == nil {
		return out
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, e := range b.raw {
		out = append(out, M{"by": e.by, "well": e.well, "p": e.p, "g": dev(e.guid), "nc": sess(e.nonce)})
	}
	b.raw = nil
	return out
}
