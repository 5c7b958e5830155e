PROPERTY = "P18"
NEEDS = "loading a second voucher of the same device, such as one that was passed on to another owner key"
BREAKS = "the voucher loaded first stays in use"
EDITS = [("core/do/dbs/voucher.db.go", """	dbtxn := h.db.NewTransaction(true)
	defer dbtxn.Discard()

	entry := badger.NewEntry(h.getEntryID(ovHeader.OVGuid), voucherDBBytes)
""", """	dbtxn := h.db.NewTransaction(true)
	defer dbtxn.Discard()

	_, err = dbtxn.Get(h.getEntryID(ovHeader.OVGuid))
	if err == nil {
		// Loading the same folder again
		return nil
	}

	entry := badger.NewEntry(h.getEntryID(ovHeader.OVGuid), voucherDBBytes)
""")]
MAIN = """package main

import (
	"bytes"

	fdodeviceimplementation "github.com/fido-alliance/iot-fdo-conformance-tools/core/device"
	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
)

func main() {
	i := start(baseCtx())
	db := dodbs.NewVoucherDB(i.db)
	cred, err := fdoshared.NewWawDeviceCredential(fdoshared.StSECP256R1)
	must(err)
	rvi, err := fdoshared.UrlsToRendezvousInfo([]string{"http://127.0.0.1:8080"})
	must(err)
	for n := 0; n < 3; n++ {
		dv, err := fdodeviceimplementation.NewVirtualDeviceAndVoucher(*cred, fdoshared.StSECP256R1, rvi, testcom.NULL_TEST)
		must(err)
		must(db.Save(dv.VoucherDBEntry))
		got, err := db.Get(cred.DCGuid)
		must(err)
		if !bytes.Equal(enc(*got), enc(dv.VoucherDBEntry)) {
			fail("voucher %d loaded for the device is not the one in use", n+1)
		}
		must(i.upTo(i.to2(dv, fdoshared.KEX_ECDH256, fdoshared.CIPHER_A128GCM), 70))
	}
}
"""
