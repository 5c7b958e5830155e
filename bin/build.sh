#!/bin/bash
# Builds the conformance driver from /repo's current working tree.
#   build.sh OUT_BINARY [extra go build flags]
set -e
. /opt/vp/env.sh
out=$(realpath -m "$1"); shift
here=$(cd "$(dirname "$0")/.." && pwd)
ov=$(mktemp /tmp/verif-overlay.XXXXXX.json)
rsa=$(mktemp /tmp/verif-rsa.XXXXXX.go)
txn=$(mktemp /tmp/verif-txn.XXXXXX.go)
trap 'rm -f "$ov" "$rsa" "$txn"' EXIT
repo=${VERIF_REPO:-/repo} # another tree only during development
cd "$repo"
store=$(GOFLAGS=-mod=readonly go list -m -f '{{.Dir}}' github.com/dgraph-io/badger/v4)/txn.go
std=$(go env GOROOT)/src/crypto/rsa/rsa.go
# RSA keys which the code under test makes for throw-away vouchers come from a pool: making them takes nearly all the time of a run
python3 - "$repo" "$here" "$std" "$rsa" "$store" "$txn" > "$ov" <<'PY'
import sys, os, json
repo, here, std, rsa, store, txn = sys.argv[1:]
rep = {}
s = open(std).read()
old = "func GenerateKey(random io.Reader, bits int) (*PrivateKey, error) {\n"
if s.count(old) == 1 and '\t"crypto/rand"\n' in s:
    s = s.replace(old, open(os.path.join(here, "harness", "rsapool.txt")).read() + "\nfunc verifFresh(random io.Reader, bits int) (*PrivateKey, error) {\n")
    s = s.replace('\t"math/big"\n', '\t"math/big"\n\t"sync"\n', 1)
    open(rsa, "w").write(s)
    rep[std] = rsa
# a process can be killed at any write to its store: the driver is asked before every one
s = open(store).read()
old = "func (txn *Txn) Commit() error {\n"
if s.count(old) != 1:
    sys.exit("build.sh: badger's Commit not found")
s = s.replace(old, "var VerifCommit func(db *DB)\n\n" + old + "\tif VerifCommit != nil && len(txn.pendingWrites) > 0 {\n\t\tVerifCommit(txn.db)\n\t}\n")
open(txn, "w").write(s)
rep[store] = txn
d = os.path.join(here, "harness")
for f in sorted(os.listdir(d)):
    if f.endswith(".go"):
        rep[repo + "/zzverif/" + f] = os.path.join(d, f)
print(json.dumps({"Replace": rep}))
PY
GOFLAGS=-mod=readonly go build -buildvcs=false -overlay "$ov" "$@" -o "$out" ./zzverif
