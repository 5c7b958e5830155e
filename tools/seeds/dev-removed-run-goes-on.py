PROPERTY = "P12"
NEEDS = "removing a device test run while it is in progress, and the device coming back afterwards"
BREAKS = "the device keeps being given tests, whose verdicts go to a run that does not exist"
EDITS = [("core/shared/testcom/listener/listenert.db.go", """		h.CurrentTestRun = ListenerTestRun{}
		h.Running = false
""", """		h.CurrentTestRun = ListenerTestRun{}
		h.Running = h.Running && len(h.TestRunHistory) != 0
""")]
MAIN = """package main

import (
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	testdbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/dbs"
	listenertestsdeps "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/listener"
)

func main() {
	i := start(baseCtx())
	db := testdbs.NewListenerTestDB(i.db)
	for _, runs := range []int{1, 2} {
		dv := i.device(fdoshared.StSECP256R1, fdoshared.StSECP256R1)
		must(i.register(dv))
		inst := listenertestsdeps.NewDevice_RequestListenerInst(dv.VoucherDBEntry, dv.WawDeviceCredential.DCGuid)
		must(db.Save(inst))
		for n := 0; n < runs; n++ {
			must(db.Modify(inst.Uuid, func(r *listenertestsdeps.RequestListenerInst) { r.To2.StartNewTestRun() }))
		}
		hello := func() error {
			r := i.to2(dv, fdoshared.KEX_ECDH256, fdoshared.CIPHER_A128GCM)
			_, _, err := r.HelloDevice60(testcom.NULL_TEST)
			return err
		}
		if hello() == nil {
			fail("no defective answer from a run in progress")
		}
		e, err := db.Get(inst.Uuid)
		must(err)
		must(db.RemoveTestRun(fdoshared.To2, inst.Uuid, e.To2.CurrentTestRun.Uuid))
		for n := 0; n < 12; n++ {
			if err := hello(); err != nil {
				fail("the run was removed, but the device is given a defective answer: %v", err)
			}
		}
	}
}
"""
