PROPERTY = "P14"
NEEDS = "a login that is used, then runs out, and is used again"
BREAKS = "logins are kept in memory, where they are dropped by a logout but never run out"
EDITS = [("dbs/session.db.go", """type SessionDB struct {
	db     *badger.DB
	prefix []byte
}
""", """type SessionDB struct {
	db     *badger.DB
	prefix []byte
	recent sync.Map // Every call looks up its session
}
"""), ("dbs/session.db.go", """	"fmt"
	"time"
""", """	"fmt"
	"sync"
	"time"
"""), ("dbs/session.db.go", """func (h *SessionDB) GetSessionEntry(entryId []byte) (*SessionEntry, error) {
	sessionEntryId := append(h.prefix, entryId...)
""", """func (h *SessionDB) GetSessionEntry(entryId []byte) (*SessionEntry, error) {
	if known, ok := h.recent.Load(string(entryId)); ok {
		sessionEntryInst := known.(SessionEntry)
		return &sessionEntryInst, nil
	}

	sessionEntryId := append(h.prefix, entryId...)
"""), ("dbs/session.db.go", """		return nil, errors.New("Failed cbor decoding entry value. The error is: " + err.Error())
	}

	return &sessionEntryInst, nil
""", """		return nil, errors.New("Failed cbor decoding entry value. The error is: " + err.Error())
	}

	h.recent.Store(string(entryId), sessionEntryInst)

	return &sessionEntryInst, nil
"""), ("dbs/session.db.go", """func (h *SessionDB) DeleteSessionEntry(entryId []byte) error {
""", """func (h *SessionDB) DeleteSessionEntry(entryId []byte) error {
	h.recent.Delete(string(entryId))

"""), ("dbs/session.db.go", """func (h *SessionDB) UpdateSessionEntry(entryId []byte, sessionInst SessionEntry) error {
""", """func (h *SessionDB) UpdateSessionEntry(entryId []byte, sessionInst SessionEntry) error {
	h.recent.Delete(string(entryId))

""")]
MAIN = """package main

import (
	"time"

	"github.com/dgraph-io/badger/v4"
)

func main() {
	a := startApi(1)
	for _, used := range []bool{false, true} {
		c := a.account("someone@example.org")
		if used {
			a.rvts(c)
		}
		// what the store does by itself after seven days
		key := []byte("session-" + c)
		must(a.db.Update(func(t *badger.Txn) error {
			it, err := t.Get(key)
			if err != nil {
				return err
			}
			v, err := it.ValueCopy(nil)
			if err != nil {
				return err
			}
			return t.SetEntry(badger.NewEntry(key, v).WithTTL(time.Second))
		}))
		time.Sleep(2500 * time.Millisecond)
		if s, b := a.call("GET", "/api/rvt/testruns", c, nil); s != 401 {
			fail("expired login (used before: %v) answered %d %s", used, s, b)
		}
	}
}
"""
