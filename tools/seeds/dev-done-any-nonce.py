PROPERTY = "P09"
NEEDS = "an owner service that completes with the nonce of its own challenge instead of the device's"
BREAKS = "the device accepts a completion that does not echo its setup nonce"
EDITS = [("core/device/to2/req-to2-70-Done.go", """	if !bytes.Equal(done271.NonceTO2SetupDv[:], h.NonceTO2SetupDv64[:]) {
""", """	if !bytes.Equal(done271.NonceTO2SetupDv[:], h.NonceTO2SetupDv64[:]) && !bytes.Equal(done271.NonceTO2SetupDv[:], done70.NonceTO2ProveDv[:]) {
""")]
MAIN = """package main

import (
	"net/http"
	"net/http/httptest"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
)

func main() {
	i := start(baseCtx())
	dv := i.device(fdoshared.StSECP256R1, fdoshared.StSECP256R1)
	for _, own := range []bool{true, false} {
		r := i.to2(dv, fdoshared.KEX_ECDH256, fdoshared.CIPHER_A128GCM)
		must(i.upTo(r, 68))
		s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			n := r.NonceTO2SetupDv64
			if !own {
				n = r.NonceTO2ProveDv61
			}
			b, err := fdoshared.AddEncryptionWrapping(enc(fdoshared.Done271{NonceTO2SetupDv: n}), r.SessionKey, r.CipherSuiteName)
			must(err)
			w.Header().Set("Content-Type", "application/cbor")
			w.Header().Set("Message-Type", "71")
			w.Write(b)
		}))
		r.SrvEntry.SrvURL = s.URL
		_, _, err := r.Done70(testcom.NULL_TEST)
		s.Close()
		if own && err != nil {
			fail("due completion refused: %v", err)
		}
		if !own && err == nil {
			fail("completion with the owner's own nonce accepted")
		}
	}
}
"""
