PROPERTY = "P04"
NEEDS = "a request for a voucher entry after the device has proved itself, followed by a second proof in the same session"
BREAKS = "the session can be rewound from SetupDevice to the entry stage and the key exchange repeated"
EDITS = [("core/do/to2/listener-to2-62-GetOVNextEntry.go", """	if session.PrevCMD != fdoshared.TO2_61_PROVE_OVHDR && session.PrevCMD != fdoshared.TO2_63_OV_NEXTENTRY {
""", """	if session.PrevCMD < fdoshared.TO2_61_PROVE_OVHDR || session.PrevCMD > fdoshared.TO2_65_SETUP_DEVICE {
""")]
MAIN = """package main

import (
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
)

func main() {
	i := start(baseCtx())
	dv := i.device(fdoshared.StSECP256R1, fdoshared.StSECP256R1)
	r := i.to2(dv, fdoshared.KEX_ECDH256, fdoshared.CIPHER_A128GCM)
	must(i.upTo(r, 64))
	if a := i.post(62, enc(fdoshared.GetOVNextEntry62{GetOVNextEntry: 0}), r.AuthzHeader); !a.refused() {
		fail("a voucher entry is served after the proof: %d %s", a.status, a.mtype)
	}
	if _, _, err := r.DeviceServiceInfoReady66(testcom.NULL_TEST); err != nil {
		fail("the session did not survive: %v", err)
	}
}
"""
