PROPERTY = "P11"
NEEDS = "a request for the voucher entry just after the last one"
BREAKS = "the owner service crashes while answering (the connection breaks without an answer)"
EDITS = [("core/do/to2/listener-to2-62-GetOVNextEntry.go", """	if getOVNextEntry.GetOVNextEntry > session.NumOVEntries-1 {
""", """	if getOVNextEntry.GetOVNextEntry > session.NumOVEntries {
""")]
MAIN = """package main

import (
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
)

func main() {
	i := start(baseCtx())
	dv := i.device(fdoshared.StSECP256R1, fdoshared.StSECP256R1)
	r := i.to2(dv, fdoshared.KEX_ECDH256, fdoshared.CIPHER_A128GCM)
	p, _, err := r.HelloDevice60(testcom.NULL_TEST)
	must(err)
	for _, n := range []uint8{p.NumOVEntries, p.NumOVEntries + 1, 255} {
		if a := i.post(62, enc(fdoshared.GetOVNextEntry62{GetOVNextEntry: n}), r.AuthzHeader); !a.refused() {
			fail("entry %d of %d: no protocol error: %d %s %v", n, p.NumOVEntries, a.status, a.mtype, a.err)
		}
	}
}
"""
