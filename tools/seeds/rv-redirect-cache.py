PROPERTY = "P01"
NEEDS = "a registration that lapses after the device was already redirected once"
BREAKS = "a lapsed registration is still handed out from a cache"
EDITS = [("core/rv/ownersign.db.go", """type OwnerSignDB struct {
	db *badger.DB
}
""", """type OwnerSignDB struct {
	db *badger.DB
}

// Decoded registrations, by storage key
var ownerSignCache sync.Map
"""), ("core/rv/ownersign.db.go", """	if err := dbtxn.Commit(); err != nil {
		return errors.New("Failed saving session entry. The error is: " + err.Error())
	}

	return nil
""", """	if err := dbtxn.Commit(); err != nil {
		return errors.New("Failed saving session entry. The error is: " + err.Error())
	}

	ownerSignCache.Delete(string(ownerSignStorageId))

	return nil
"""), ("core/rv/ownersign.db.go", """	dbtxn := h.db.NewTransaction(true)
	defer dbtxn.Discard()

	item, err := dbtxn.Get(ownerSignStorageId)
""", """	if cached, ok := ownerSignCache.Load(string(ownerSignStorageId)); ok {
		return cached.(*fdoshared.OwnerSign22), nil
	}

	dbtxn := h.db.NewTransaction(true)
	defer dbtxn.Discard()

	item, err := dbtxn.Get(ownerSignStorageId)
"""), ("core/rv/ownersign.db.go", """	return &ownerSignInst, nil
""", """	ownerSignCache.Store(string(ownerSignStorageId), &ownerSignInst)

	return &ownerSignInst, nil
"""), ("core/rv/ownersign.db.go", """	"fmt"
	"time"
""", """	"fmt"
	"sync"
	"time"
""")]
MAIN = """package main

import (
	"strings"

	"github.com/dgraph-io/badger/v4"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

func main() {
	i := start(baseCtx())
	dv := i.device(fdoshared.StSECP256R1, fdoshared.StSECP256R1)
	must(i.register(dv))
	if _, err := i.redirect(dv); err != nil {
		fail("no redirect while registered: %v", err)
	}
	// the registration lapses
	must(i.db.Update(func(t *badger.Txn) error {
		it := t.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		var ks [][]byte
		for it.Rewind(); it.Valid(); it.Next() {
			if k := it.Item().KeyCopy(nil); strings.HasPrefix(string(k), "to1osstorage-") {
				ks = append(ks, k)
			}
		}
		for _, k := range ks {
			if err := t.Delete(k); err != nil {
				return err
			}
		}
		return nil
	}))
	if _, err := i.redirect(dv); err == nil {
		fail("the lapsed registration is still handed out")
	}
}
"""
