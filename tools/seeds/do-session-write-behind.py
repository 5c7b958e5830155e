PROPERTY = "P17"
NEEDS = "the server ending between two messages of an onboarding session, shortly after the first was answered"
BREAKS = "the progress of a session is written to the store only a while after it was acknowledged"
EDITS = [("core/do/dbs/session.db.go", """type SessionDB struct {
	db *badger.DB
}
""", """type SessionDB struct {
	db *badger.DB

	// Sessions change with every message, so that the changes are collected and written together
	mu      sync.Mutex
	pending map[string][]byte
}
"""), ("core/do/dbs/session.db.go", """	return &SessionDB{
		db: db,
	}
""", """	return &SessionDB{
		db:      db,
		pending: map[string][]byte{},
	}
"""), ("core/do/dbs/session.db.go", """	"errors"
	"time"
""", """	"errors"
	"sync"
	"time"
"""), ("core/do/dbs/session.db.go", """	entry := badger.NewEntry(sessionEntryId, sessionInstBytes)
	entry.ExpiresAt = item.ExpiresAt() // An update does not extend the session lifetime
	err = dbtxn.SetEntry(entry)
	if err != nil {
		return errors.New("Failed to create saving inst. The error is: " + err.Error())
	}

	err = dbtxn.Commit()
	if err != nil {
		return errors.New("Failed to save session. The error is: " + err.Error())
	}

	return nil
}
""", """	expiresAt := item.ExpiresAt() // An update does not extend the session lifetime

	h.mu.Lock()
	defer h.mu.Unlock()

	if _, scheduled := h.pending[string(entryId)]; !scheduled {
		time.AfterFunc(time.Second, func() { h.flush(string(entryId), expiresAt) })
	}
	h.pending[string(entryId)] = sessionInstBytes

	return nil
}

func (h *SessionDB) flush(entryId string, expiresAt uint64) {
	h.mu.Lock()
	defer h.mu.Unlock()

	entry := badger.NewEntry([]byte("session-"+entryId), h.pending[entryId])
	entry.ExpiresAt = expiresAt
	delete(h.pending, entryId)

	if h.db.IsClosed() {
		return
	}

	err := h.db.Update(func(dbtxn *badger.Txn) error { return dbtxn.SetEntry(entry) })
	if err != nil {
		log.Println("Failed to save session. The error is: " + err.Error())
	}
}
"""), ("core/do/dbs/session.db.go", """	"errors"
	"sync"
""", """	"errors"
	"log"
	"sync"
"""), ("core/do/dbs/session.db.go", """		return nil, errors.New("Failed reading entry value. The error is: " + err.Error())
	}

	var sessionEntryInst SessionEntry
""", """		return nil, errors.New("Failed reading entry value. The error is: " + err.Error())
	}

	h.mu.Lock()
	if changed, ok := h.pending[string(entryId)]; ok {
		itemBytes = changed
	}
	h.mu.Unlock()

	var sessionEntryInst SessionEntry
""")]
MAIN = """package main

import (
	"net/http"
	"net/http/httptest"

	coredo "github.com/fido-alliance/iot-fdo-conformance-tools/core/do"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
)

func main() {
	i := start(baseCtx())
	dv := i.device(fdoshared.StSECP256R1, fdoshared.StSECP256R1)
	for _, again := range []bool{false, true} {
		r := i.to2(dv, fdoshared.KEX_ECDH256, fdoshared.CIPHER_A128GCM)
		must(i.upTo(r, 66))
		if again {
			// another process takes over the same store
			old := http.DefaultServeMux
			m := http.NewServeMux()
			http.DefaultServeMux = m
			coredo.SetupServer(i.db, i.ctx)
			rv.SetupServer(i.db, i.ctx)
			http.DefaultServeMux = old
			r.SrvEntry.SrvURL = httptest.NewServer(m).URL
		}
		for n := 0; ; n++ {
			o, _, err := r.DeviceServiceInfo68(fdoshared.DeviceServiceInfo68{ServiceInfo: devmod()}, testcom.NULL_TEST)
			if err != nil || n == 9 {
				fail("onboarding does not go on (restarted: %v): %v", again, err)
			}
			if o.IsDone {
				break
			}
		}
		if _, _, err := r.Done70(testcom.NULL_TEST); err != nil {
			fail("onboarding does not complete (restarted: %v): %v", again, err)
		}
	}
}
"""
