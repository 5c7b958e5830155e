PROPERTY = "P19"
NEEDS = "interop mode and a device that states another identifier in its proof than the one it asked for"
BREAKS = "the rendezvous report names the device the message claims instead of the one that was redirected"
EDITS = [("core/rv/listener-to1.go", """		err = fdoshared.SubmitIopLoggerEvent(h.ctx, session.Guid, fdoshared.To1, session.NonceTO1Proof, authzHeader)
""", """		var provenGuid fdoshared.FdoGuid
		err = provenGuid.FromBytes(pb.EatUEID[1:])
		if err != nil {
			log.Println("IOT: Error decoding UEID: " + err.Error())
		}

		err = fdoshared.SubmitIopLoggerEvent(h.ctx, provenGuid, fdoshared.To1, pb.EatNonce, authzHeader)
""")]
MAIN = """package main

import (
	"bytes"
	"context"
	"io"
	"net/http"
	"net/http/httptest"
	"sync"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

func main() {
	var mu sync.Mutex
	var got []fdoshared.IopLoggerPayload
	board := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		var p fdoshared.IopLoggerPayload
		dec(b, &p)
		mu.Lock()
		got = append(got, p)
		mu.Unlock()
	}))
	ctx := context.WithValue(baseCtx(), fdoshared.CFG_ENV_INTEROP_ENABLED, true)
	ctx = context.WithValue(ctx, fdoshared.CFG_ENV_INTEROP_DASHBOARD_URL, board.URL)
	ctx = context.WithValue(ctx, fdoshared.CFG_ENV_INTEROP_DASHBOARD_RV_AUTHZ, "Bearer rv")
	ctx = context.WithValue(ctx, fdoshared.CFG_ENV_INTEROP_DASHBOARD_DO_AUTHZ, "Bearer do")
	ctx = context.WithValue(ctx, fdoshared.CFG_ENV_INTEROP_DO_TOKEN_MAPPING, "x=y")
	i := start(ctx)
	dv := i.device(fdoshared.StSECP256R1, fdoshared.StSECP256R1)
	must(i.register(dv))
	me := dv.WawDeviceCredential.DCGuid
	for _, claimed := range []fdoshared.FdoGuid{me, fdoshared.NewFdoGuid()} {
		a := i.post(30, enc([]interface{}{me, []interface{}{int(fdoshared.StSECP256R1), []byte{}}}), "")
		if !a.ok(30 + 1) {
			fail("hello refused: %s", a.body)
		}
		var ack fdoshared.HelloRVAck31
		dec(a.body, &ack)
		eat := fdoshared.EATPayloadBase{EatNonce: ack.NonceTO1Proof}
		eat.EatUEID[0] = 1
		copy(eat.EatUEID[1:], claimed[:])
		key, err := fdoshared.ExtractPrivateKey(dv.WawDeviceCredential.DCPrivateKeyDer)
		must(err)
		sig, err := fdoshared.GenerateCoseSignature(enc(eat), fdoshared.ProtectedHeader{}, fdoshared.UnprotectedHeader{}, key, fdoshared.StSECP256R1)
		must(err)
		mu.Lock()
		got = nil
		mu.Unlock()
		r := i.post(32, enc(sig), a.auth)
		if claimed == me && !r.ok(33) {
			fail("proof refused: %s", r.body)
		}
		mu.Lock()
		for _, p := range got {
			if p.Guid != me || !bytes.Equal(p.Nonce[:], ack.NonceTO1Proof[:]) {
				fail("the report names device %x, redirected was %x", p.Guid, me)
			}
		}
		if r.ok(33) && len(got) != 1 {
			fail("%d reports", len(got))
		}
		mu.Unlock()
	}
}
"""
