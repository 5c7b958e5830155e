PROPERTY = "P10"
NEEDS = "a token of a TO1 session used for TO0.OwnerSign with the all-zero nonce"
BREAKS = "a session is honoured by a protocol it was not opened for, so a registration needs no fresh nonce"
EDITS = [("core/rv/listener-to0.go", """	if session.Protocol != fdoshared.To0 {
""", """	if session.Protocol != fdoshared.To0 && session.Protocol != fdoshared.To1 {
""")]
MAIN = """package main

import (
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
)

func main() {
	i := start(baseCtx())
	dv := i.device(fdoshared.StSECP256R1, fdoshared.StSECP256R1)
	must(i.register(dv))
	h := i.post(30, enc(fdoshared.HelloRV30{Guid: dv.WawDeviceCredential.DCGuid, EASigInfo: dv.WawDeviceCredential.DCSigInfo}), "")
	if !h.ok(31) {
		fail("HelloRV: %+v", h)
	}
	// the owner's message, with a nonce nobody issued
	var sent []byte
	r := i.to0(dv)
	sent = capture(func(url string) {
		q := r
		q = newTo0(url, dv, i)
		q.OwnerSign22(fdoshared.FdoNonce{}, testcom.NULL_TEST)
	})
	if a := i.post(22, sent, h.auth); !a.refused() {
		fail("a TO1 session registers an owner: %d %s", a.status, a.mtype)
	}
}
"""
MAIN = MAIN.replace("	var sent []byte\n	r := i.to0(dv)\n", "").replace("sent = capture", "sent := capture").replace("		q := r\n		q = newTo0", "		q := newTo0")
MAIN = MAIN.replace("import (\n", "import (\n\t\"github.com/fido-alliance/iot-fdo-conformance-tools/core/do/to0\"\n")
MAIN += """
func newTo0(url string, dv *fdoshared.DeviceCredAndVoucher, i *inst) *to0.To0Requestor {
	r := to0.NewTo0Requestor(fdoshared.SRVEntry{SrvURL: url}, dv.VoucherDBEntry, i.ctx)
	return &r
}
"""
