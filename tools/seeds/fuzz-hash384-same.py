PROPERTY = "P16"
NEEDS = "a P-384 device under test, and the random choice of damaging the type of a hash instead of its value"
BREAKS = "the defective answer carries no defect, so that the tool's own device carries on with it and is reported as failing"
EDITS = [("core/shared/conformance.go", """	case HASH_SHA256:
		return HASH_SHA384
	case HASH_SHA384:
		return HASH_SHA256
	case HASH_HMAC_SHA256:
		return HASH_HMAC_SHA384
	case HASH_HMAC_SHA384:
		return HASH_HMAC_SHA256
	default:
		return HASH_SHA256
	}
""", """	case HASH_SHA256:
		return HASH_SHA384
	case HASH_HMAC_SHA256:
		return HASH_HMAC_SHA384
	case HASH_HMAC_SHA384:
		return HASH_HMAC_SHA256
	default:
		return HASH_SHA384
	}
""")]
MAIN = """package main

import (
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	testdbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/dbs"
	listenertestsdeps "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/listener"
)

func main() {
	i := start(baseCtx())
	db := testdbs.NewListenerTestDB(i.db)
	for _, sg := range []fdoshared.SgType{fdoshared.StSECP256R1, fdoshared.StSECP384R1} {
		dv := i.device(sg, sg)
		must(i.register(dv))
		inst := listenertestsdeps.NewDevice_RequestListenerInst(dv.VoucherDBEntry, dv.WawDeviceCredential.DCGuid)
		must(db.Save(inst))
		for n := 0; n < 40; n++ {
			must(db.Modify(inst.Uuid, func(r *listenertestsdeps.RequestListenerInst) { r.To2.StartNewTestRun() }))
			for k := 0; k < 12; k++ {
				r := i.to2(dv, fdoshared.KEX_ECDH256, fdoshared.CIPHER_A128GCM)
				if sg == fdoshared.StSECP384R1 {
					r = i.to2(dv, fdoshared.KEX_ECDH384, fdoshared.CIPHER_A256GCM)
				}
				_, _, err := r.HelloDevice60(testcom.NULL_TEST)
				e, err2 := db.Get(inst.Uuid)
				must(err2)
				if e.To2.GetLastTestID() == testcom.FIDO_LISTENER_POSITIVE {
					must(err)
					break
				}
				if err == nil && e.To2.GetLastTestID() != testcom.FIDO_LISTENER_DEVICE_60_MISSING_AUTHZ_HEADER {
					fail("the device accepts the answer of test %s", e.To2.GetLastTestID())
				}
			}
		}
	}
}
"""
