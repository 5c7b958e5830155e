PROPERTY = "P12"
NEEDS = "a device test run that is broken off, by starting the next one, when exactly one verdict has been given"
BREAKS = "the broken off run and its verdict are forgotten instead of kept in the history"
EDITS = [("core/shared/testcom/listener/listenert.db.go", """	if h.CurrentTestRun.Uuid != "" && !h.CurrentTestRun.Completed {
""", """	if len(h.CurrentTestRun.TestRuns) > 1 && !h.CurrentTestRun.Completed {
""")]
MAIN = """package main

import (
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	testdbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/dbs"
	listenertestsdeps "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/listener"
)

func main() {
	i := start(baseCtx())
	db := testdbs.NewListenerTestDB(i.db)
	for verdicts := 1; verdicts <= 3; verdicts++ {
		dv := i.device(fdoshared.StSECP256R1, fdoshared.StSECP256R1)
		must(i.register(dv))
		inst := listenertestsdeps.NewDevice_RequestListenerInst(dv.VoucherDBEntry, dv.WawDeviceCredential.DCGuid)
		must(db.Save(inst))
		start := func() {
			must(db.Modify(inst.Uuid, func(r *listenertestsdeps.RequestListenerInst) { r.To2.StartNewTestRun() }))
		}
		start()
		// the device gives up at every defective answer, and that is its verdict when it starts again
		for n := 0; n <= verdicts; n++ {
			r := i.to2(dv, fdoshared.KEX_ECDH256, fdoshared.CIPHER_A128GCM)
			r.HelloDevice60(testcom.NULL_TEST)
		}
		e, err := db.Get(inst.Uuid)
		must(err)
		first := e.To2.CurrentTestRun
		if len(first.TestRuns) != verdicts {
			fail("%d verdicts, want %d", len(first.TestRuns), verdicts)
		}
		start()
		e, err = db.Get(inst.Uuid)
		must(err)
		if len(e.To2.TestRunHistory) != 1 || e.To2.TestRunHistory[0].Uuid != first.Uuid || len(e.To2.TestRunHistory[0].TestRuns) != verdicts {
			fail("run broken off after %d verdicts: history has %d runs", verdicts, len(e.To2.TestRunHistory))
		}
	}
}
"""
