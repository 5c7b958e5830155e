PROPERTY = "P03"
NEEDS = "a second registration of the same device asking for a shorter lifetime than the first one still has"
BREAKS = "the replacing registration keeps the lifetime of the replaced one, so it stays available longer than was agreed"
EDITS = [("core/rv/ownersign.db.go", """	entry := badger.NewEntry(ownerSignStorageId, ownerSignBytes).WithTTL(time.Second * time.Duration(ttlSec))
""", """	entry := badger.NewEntry(ownerSignStorageId, ownerSignBytes).WithTTL(time.Second * time.Duration(ttlSec))

	// A device that is already registered must not lose its registration early
	if item, err := dbtxn.Get(ownerSignStorageId); err == nil && item.ExpiresAt() > entry.ExpiresAt {
		entry.ExpiresAt = item.ExpiresAt()
	}

""")]
MAIN = """package main

import (
	"time"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
)

func main() {
	i := start(baseCtx())
	dv := i.device(fdoshared.StSECP256R1, fdoshared.StSECP256R1)
	must(i.register(dv))
	db := rv.NewOwnerSignDB(i.db)
	o, err := db.Get(dv.WawDeviceCredential.DCGuid)
	must(err)
	must(db.Save(dv.WawDeviceCredential.DCGuid, *o, 1))
	time.Sleep(2500 * time.Millisecond)
	if _, err := i.redirect(dv); err == nil {
		fail("the registration outlives the one second agreed for it")
	}
}
"""
