package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"reflect"

	"github.com/dgraph-io/badger/v4"
	"github.com/fxamacker/cbor/v2"

	fdodevice "github.com/fido-alliance/iot-fdo-conformance-tools/core/device"
	fdodocommon "github.com/fido-alliance/iot-fdo-conformance-tools/core/device/common"
	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
)

// voucherWorld builds vouchers step by step, following the terms of
// FdoVoucher.tla: every hash and signature remembers how it was altered, so
// that an alteration replaces the previous one instead of adding to it.
type voucherWorld struct {
	db       *badger.DB
	osg, dsg fdoshared.SgType
	dev      [3]*Device
	alg      fdoshared.HashType

	ver    int
	hdr    fdoshared.OwnershipVoucherHeader
	hdrCh  vHash
	junk   bool
	hmac   fdoshared.HashOrHmac
	nhmac  int
	chain  *[]fdoshared.X509CertificateBytes
	ents   []vEnt
	splice []vEnt
}

type vHash struct {
	k string
	h fdoshared.HashOrHmac
}

type vEnt struct {
	prev, hdr vHash
	pub       string
	x, junk   bool
	prot, sig []byte
	sk        string
}

func init() { worlds["voucher"] = newVoucherWorld }

func newVoucherWorld(cfg Op) (World, M, error) {
	w := &voucherWorld{db: newDB()}
	w.osg, w.dsg = sgByName[cfg.D("osg", "ec256")], sgByName[cfg.D("dsg", "ec256")]
	base := cfg.ID("base", 3)
	for d := 1; d <= 2; d++ {
		w.dev[d] = getDevice(w.dsg, w.osg, 40+d)
	}
	w.alg = w.dev[1].cred.DCHashAlg
	w.honest(2, 3)
	w.splice = w.ents
	w.honest(1, base)
	ev := M{"base": base, "det": cfg.D("osg", "ec256")[0] == 'r', "cfg": cfg.D("osg", "ec256") + "/" + cfg.D("dsg", "ec256")}
	w.judge(ev)
	return w, ev, nil
}

func (w *voucherWorld) Close() { w.db.Close() }

func (w *voucherWorld) key(name string) Key {
	switch name {
	case "a":
		return keys.get(w.osg, 950)
	}
	return keys.get(w.osg, int(name[1]-'0')+300)
}

func (w *voucherWorld) pub(name string) fdoshared.FdoPublicKey {
	switch name {
	case "badenc":
		p := w.key("k1").pub
		p.PkEnc = 9
		return p
	case "badbody":
		p := w.key("k1").pub
		p.PkBody = "not a key"
		return p
	case "badtype":
		p := w.key("k1").pub
		p.PkType = fdoshared.RSAPSS
		return p
	}
	return w.key(name).pub
}

func (w *voucherWorld) honest(d, n int) {
	dev := w.dev[d]
	w.ver, w.junk = 101, false
	w.hdrCh = vHash{"ok", dev.cred.DCCertificateChainHash}
	w.hdr = fdoshared.OwnershipVoucherHeader{OVHProtVer: fdoshared.ProtVer101, OVGuid: dev.cred.DCGuid, OVRvInfo: stdRV(),
		OVDeviceInfo: dev.cred.DCDeviceInfo, OVPublicKey: w.key("k0").pub}
	ch := append([]fdoshared.X509CertificateBytes{}, dev.cred.DCCertificateChain...)
	w.chain = &ch
	hm, err := fdoshared.GenerateFdoHmac(w.hdrBytes(), dev.cred.DCHmacAlg, dev.cred.DCHmacSecret)
	if err != nil {
		panic("harness: hmac")
	}
	w.hmac, w.nhmac = hm, 0
	w.ents = nil
	for i := 0; i < n; i++ {
		w.extend(fmt.Sprintf("k%d", i), fmt.Sprintf("k%d", i+1))
	}
}

// alter renders a hash with its alteration.
func (h vHash) alter() fdoshared.HashOrHmac {
	o := fdoshared.HashOrHmac{Type: h.h.Type, Hash: append([]byte{}, h.h.Hash...)}
	switch h.k {
	case "flip":
		o.Hash = flip(o.Hash, 7)
	case "trunc":
		o.Hash = o.Hash[:len(o.Hash)-1]
	case "empty":
		o.Hash = []byte{}
	case "type":
		o.Type = 77
	}
	return o
}

func (w *voucherWorld) hdrBytes() []byte {
	if w.junk {
		return []byte{0xff}
	}
	h := w.hdr
	ch := w.hdrCh.alter()
	h.OVDevCertChainHash = &ch
	if w.hdrCh.k == "nil" {
		h.OVDevCertChainHash = nil
	}
	return mustCbor(h)
}

func (w *voucherWorld) payload(e vEnt) []byte {
	if e.junk {
		return []byte{0xff, 0x00}
	}
	p := fdoshared.OVEntryPayload{OVEHashPrevEntry: e.prev.alter(), OVEHashHdrInfo: e.hdr.alter(), OVEPubKey: w.pub(e.pub)}
	if e.x {
		x := []byte{1}
		p.OVEExtra = &x
	}
	return mustCbor(p)
}

func (w *voucherWorld) cose(e vEnt) fdoshared.CoseSignature {
	c := fdoshared.CoseSignature{Protected: e.prot, Payload: w.payload(e), Signature: append([]byte{}, e.sig...)}
	switch e.sk {
	case "flip":
		c.Signature = flip(c.Signature, 11)
	case "empty":
		c.Signature = []byte{}
	case "trunc":
		c.Signature = c.Signature[:len(c.Signature)-1]
	case "zero":
		c.Signature = make([]byte, len(c.Signature))
	case "prot":
		c.Protected = mustCbor(fdoshared.ProtectedHeader{Alg: fdoshared.GetIntRef(-8)})
	}
	return c
}

func (w *voucherWorld) before(i int) []byte {
	if i == 0 {
		return append(w.hdrBytes(), mustCbor(w.hmac)...)
	}
	return mustCbor(w.cose(w.ents[i-1]))
}

func (w *voucherWorld) sign(e *vEnt, by string) {
	k := w.key(by)
	c, err := fdoshared.GenerateCoseSignature(w.payload(*e), fdoshared.ProtectedHeader{}, fdoshared.UnprotectedHeader{}, k.priv, k.sg)
	if err != nil {
		panic("harness: sign: " + err.Error())
	}
	e.prot, e.sig, e.sk = c.Protected, c.Signature, "ok"
}

func (w *voucherWorld) extend(by, pub string) {
	e := vEnt{prev: vHash{"ok", hashOf(w.before(len(w.ents)), w.alg)}, hdr: vHash{"ok", hashOf(hdrInfo(w.hdr), w.alg)}, pub: pub}
	w.sign(&e, by)
	w.ents = append(w.ents, e)
}

func (w *voucherWorld) voucher() fdoshared.OwnershipVoucher {
	v := fdoshared.OwnershipVoucher{OVProtVer: fdoshared.ProtVersion(w.ver), OVHeaderTag: w.hdrBytes(), OVHeaderHMac: w.hmac, OVDevCertChain: w.chain,
		OVEntryArray: fdoshared.OVEntryArray{}}
	for _, e := range w.ents {
		v.OVEntryArray = append(v.OVEntryArray, w.cose(e))
	}
	return v
}

// asReceived is the voucher after a trip over the wire.
func asReceived(v fdoshared.OwnershipVoucher) (o fdoshared.OwnershipVoucher, ok bool) {
	ok = fdoshared.CborCust.Unmarshal(mustCbor(v), &o) == nil
	return
}

func verdictOf(f func() error) (res string) {
	defer func() {
		if e := recover(); e != nil {
			res = "panic"
		}
	}()
	if f() != nil {
		return "no"
	}
	return "yes"
}

func (w *voucherWorld) judge(ev M) {
	ev["valid"], ev["ents"], ev["pem"], ev["store"] = "no", "no", "no", "no"
	ev["pemsame"], ev["storesame"], ev["pure"], ev["final"] = false, false, true, "none"
	v := w.voucher()
	b := mustCbor(v)
	if r, ok := asReceived(v); ok {
		ev["valid"] = verdictOf(r.Validate)
		ev["ents"] = verdictOf(r.VerifyOVEntries)
		ev["pure"] = bytes.Equal(b, mustCbor(r))
	}
	entry := fdoshared.VoucherDBEntry{Voucher: v, SgType: w.osg, PrivateKeyX509: w.key("k1").der}
	ev["pem"] = verdictOf(func() error {
		p, err := fdodevice.MarshalVoucherAndPrivateKey(entry)
		if err != nil {
			return err
		}
		o, err := fdodocommon.DecodePemVoucherAndKey(string(p))
		if err == nil {
			ev["pemsame"] = bytes.Equal(mustCbor(o.Voucher), b) && bytes.Equal(o.PrivateKeyX509, entry.PrivateKeyX509)
		}
		return err
	})
	ev["store"] = verdictOf(func() error {
		db := dodbs.NewVoucherDB(w.db)
		if err := db.Save(entry); err != nil {
			return err
		}
		o, err := db.Get(w.hdr.OVGuid)
		if err == nil {
			ev["storesame"] = bytes.Equal(mustCbor(*o), mustCbor(entry))
		}
		return err
	})
	_ = verdictOf(func() error {
		p, err := v.GetFinalOwnerPublicKey()
		if err == nil {
			ev["final"] = "other"
			for _, n := range []string{"k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "a", "badenc", "badbody", "badtype"} {
				if reflect.DeepEqual(mustCbor(w.pub(n)), mustCbor(p)) {
					ev["final"] = n
				}
			}
		}
		return nil
	})
}

func (w *voucherWorld) enabled(op Op) bool {
	k := op.I("k")
	has := func(i int) bool { return i >= 1 && i <= len(w.ents) }
	switch op.S("op") {
	case "ext":
		return len(w.ents) < 6 && !w.junk
	case "drop", "dup", "sign", "sig":
		return has(k)
	case "pay":
		return has(k) && !w.ents[k-1].junk && (op.S("v") != "fix" || !w.junk)
	case "swap":
		return has(k) && has(k+1)
	case "splice":
		return has(k) && k <= 3
	case "hdr":
		return !w.junk && (op.S("f") != "ch" || w.chain != nil)
	}
	return true
}

func (w *voucherWorld) Exec(op Op) M {
	ev := M{"op": op.S("op"), "k": op.I("k"), "f": op.S("f"), "v": op.S("v"), "by": op.S("by")}
	switch op.S("op") {
	case "gen":
		w.gen(op, ev)
		return ev
	case "fuzz":
		w.fuzz(op, ev)
		return ev
	}
	if w.enabled(op) {
		w.apply(op)
	}
	w.judge(ev)
	return ev
}

func (w *voucherWorld) apply(op Op) {
	i := op.I("k") - 1
	val := op.S("v")
	switch op.S("op") {
	case "ext":
		w.extend(op.S("by"), val)
	case "drop":
		w.ents = append(append([]vEnt{}, w.ents[:i]...), w.ents[i+1:]...)
	case "dup":
		w.ents = append(append(append([]vEnt{}, w.ents[:i+1]...), w.ents[i]), w.ents[i+1:]...)
	case "swap":
		w.ents[i], w.ents[i+1] = w.ents[i+1], w.ents[i]
	case "sign":
		w.sign(&w.ents[i], op.S("by"))
	case "sig":
		w.ents[i].sk = val
	case "splice":
		w.ents[i] = w.splice[i]
	case "pay":
		e := &w.ents[i]
		switch op.S("f") {
		case "prev":
			if val == "fix" {
				e.prev = vHash{"ok", hashOf(w.before(i), w.alg)}
			} else {
				e.prev.k = val
			}
		case "hdr":
			switch val {
			case "fix":
				e.hdr = vHash{"ok", hashOf(hdrInfo(w.hdr), w.alg)}
			case "foreign":
				e.hdr = vHash{"ok", hashOf(append(make([]byte, 16), []byte(w.hdr.OVDeviceInfo)...), w.alg)}
			default:
				e.hdr.k = val
			}
		case "pub":
			e.pub = val
		case "x":
			e.x = true
		case "junk":
			e.junk = true
		}
	case "hdr":
		switch op.S("f") {
		case "guid":
			w.hdr.OVGuid = fdoshared.FdoGuid{7, 7, 7}
		case "info":
			w.hdr.OVDeviceInfo = "another device"
			if val == "empty" {
				w.hdr.OVDeviceInfo = ""
			}
		case "rv":
			w.hdr.OVRvInfo, _ = fdoshared.UrlsToRendezvousInfo([]string{"http://evil.test.local:1"})
			if val == "empty" {
				w.hdr.OVRvInfo = fdoshared.RendezvousInfo{}
			}
		case "ver":
			w.hdr.OVHProtVer = 102
			if val == "100" {
				w.hdr.OVHProtVer = fdoshared.ProtVer100
			}
		case "pub":
			w.hdr.OVPublicKey = w.pub(val)
		case "ch":
			if val == "fix" {
				all := []byte{}
				for _, c := range *w.chain {
					all = append(all, c...)
				}
				w.hdrCh = vHash{"ok", hashOf(all, w.alg)}
			} else {
				w.hdrCh.k = val
			}
		case "junk":
			w.junk = true
		}
	case "hmac":
		switch h := w.hmac.Hash; {
		case val == "empty":
			w.hmac.Hash = []byte{}
		case val == "trunc" && len(h) > 0:
			w.hmac.Hash = append([]byte{}, h[:len(h)-1]...)
		case val == "type":
			w.hmac.Type = 77
		default:
			w.hmac.Hash = flip(h, 2+w.nhmac)
		}
		w.nhmac++
	case "ver":
		w.ver = 102
		if val == "100" {
			w.ver = 100
		}
	case "chain":
		if w.chain == nil {
			return
		}
		c := append([]fdoshared.X509CertificateBytes{}, *w.chain...)
		switch val {
		case "none":
			w.chain = nil
			return
		case "other":
			c = append([]fdoshared.X509CertificateBytes{}, w.dev[2].cred.DCCertificateChain...)
		case "empty":
			c = c[:0]
		case "drop":
			c = c[:len(c)-1]
		case "order":
			c[0], c[1] = c[1], c[0]
		case "flip":
			c[0] = flip(c[0], len(c[0])-3)
		case "extra":
			c = append(c, c[1])
		}
		w.chain = &c
	}
}

// ---- vouchers made by the tool ----

type rVoucher struct {
	_     struct{} `cbor:",toarray"`
	Ver   int
	Hdr   []byte
	Hmac  wHash
	Chain [][]byte
	Ents  []cbor.RawTag
}

type rHeader struct {
	_    struct{} `cbor:",toarray"`
	Ver  int
	Guid []byte
	Rv   cbor.RawMessage
	Info string
	Pub  rKey
	Ch   wHash
}

type rKey struct {
	_    struct{} `cbor:",toarray"`
	Type int
	Enc  int
	Body []byte
}

type rEntry struct {
	_    struct{} `cbor:",toarray"`
	Prev wHash
	Hdr  wHash
	X    cbor.RawMessage
	Pub  rKey
}

func (k rKey) key() interface{} {
	if k.Enc != 1 {
		return nil
	}
	p, err := x509.ParsePKIXPublicKey(k.Body)
	if err != nil {
		return nil
	}
	return p
}

// refVoucher checks the chain of custody with the reference implementation
// and returns the key named last.
func refVoucher(b []byte) (final interface{}, hdr rHeader, v rVoucher, err error) {
	if err = wDec(b, &v); err != nil {
		return
	}
	if err = wDec(v.Hdr, &hdr); err != nil {
		return
	}
	if v.Ver != 101 || hdr.Ver != 101 {
		err = fmt.Errorf("version")
		return
	}
	all := []byte{}
	for _, c := range v.Chain {
		all = append(all, c...)
	}
	if !bytes.Equal(hashFor(hdr.Ch.Type, all), hdr.Ch.Hash) {
		err = fmt.Errorf("chain hash")
		return
	}
	final = hdr.Pub.key()
	before := append(append([]byte{}, v.Hdr...), wEnc(v.Hmac)...)
	for i, t := range v.Ents {
		var c wSign
		var p rEntry
		if t.Number != 18 || wDec(t.Content, &c) != nil || wDec(c.Payload, &p) != nil {
			err = fmt.Errorf("entry %d", i)
			return
		}
		info := append(append([]byte{}, hdr.Guid...), []byte(hdr.Info)...)
		if !bytes.Equal(hashFor(p.Prev.Type, before), p.Prev.Hash) || !bytes.Equal(hashFor(p.Hdr.Type, info), p.Hdr.Hash) {
			err = fmt.Errorf("entry %d hash", i)
			return
		}
		if final == nil || !wVerify(c, final, algOfProt(c.Prot)) {
			err = fmt.Errorf("entry %d signature", i)
			return
		}
		final = p.Pub.key()
		before = wEnc(t)
	}
	if final == nil {
		err = fmt.Errorf("final key")
	}
	return
}

func (w *voucherWorld) gen(op Op, ev M) {
	facts := []string{}
	fact := func(n string, ok bool) {
		if ok {
			facts = append(facts, n)
		}
	}
	ev["res"] = "no"
	defer func() {
		if e := recover(); e != nil {
			ev["res"] = "panic"
		}
		ev["facts"] = facts
	}()
	cred, err := fdoshared.NewWawDeviceCredential(w.dsg)
	if err != nil {
		ev["why"] = err.Error()
		return
	}
	var dv *fdoshared.DeviceCredAndVoucher
	given := w.key("k5")
	if op.B("withkeys") {
		dv, err = fdodevice.NewVirtualDeviceAndVoucherWithKeys(*cred, given.priv, &given.pub, w.osg, stdRV(), testcom.NULL_TEST)
	} else {
		dv, err = fdodevice.NewVirtualDeviceAndVoucher(*cred, w.osg, stdRV(), testcom.NULL_TEST)
	}
	if err != nil {
		ev["why"] = err.Error()
		return
	}
	ev["res"] = "ok"
	vd, dc := dv.VoucherDBEntry, dv.WawDeviceCredential
	b := mustCbor(vd.Voucher)
	r, ok := asReceived(vd.Voucher)
	fact("valid", ok && r.Validate() == nil)
	final, hdr, v, err := refVoucher(b)
	fact("chain", err == nil)
	if err != nil {
		ev["why"] = err.Error()
	}
	all := []byte{}
	for _, c := range dc.DCCertificateChain {
		all = append(all, c...)
	}
	fact("hash", bytes.Equal(hdr.Ch.Hash, hashFor(hdr.Ch.Type, all)) && len(v.Chain) == len(dc.DCCertificateChain))
	var hm []byte
	if v.Hmac.Type == 5 {
		h := hmac.New(sha256.New, dc.DCHmacSecret)
		h.Write(v.Hdr)
		hm = h.Sum(nil)
	} else if v.Hmac.Type == 6 {
		h := hmac.New(sha512.New384, dc.DCHmacSecret)
		h.Write(v.Hdr)
		hm = h.Sum(nil)
	}
	fact("hmac", hm != nil && bytes.Equal(hm, v.Hmac.Hash))
	fact("guid", bytes.Equal(hdr.Guid, dc.DCGuid[:]) && bytes.Equal(dc.DCGuid[:], cred.DCGuid[:]))
	fact("devinfo", hdr.Info == dc.DCDeviceInfo && hdr.Info != "")
	fact("entries", len(v.Ents) >= 1)
	priv, err := fdoshared.ExtractPrivateKey(vd.PrivateKeyX509)
	fact("key", err == nil && final != nil && reflect.DeepEqual(wEnc(wKey(pubOf(priv), sgName(w.osg))), wEnc(wKey(final, sgName(w.osg)))) &&
		(!op.B("withkeys") || bytes.Equal(vd.PrivateKeyX509, given.der)))
	p, err := fdodevice.MarshalVoucherAndPrivateKey(vd)
	if err == nil {
		if o, err := fdodocommon.DecodePemVoucherAndKey(string(p)); err == nil {
			fact("pem", bytes.Equal(mustCbor(o.Voucher), b) && bytes.Equal(o.PrivateKeyX509, vd.PrivateKeyX509))
		}
	}
	db := dodbs.NewVoucherDB(w.db)
	if db.Save(vd) == nil {
		if o, err := db.Get(dc.DCGuid); err == nil {
			fact("store", bytes.Equal(mustCbor(*o), mustCbor(vd)))
		}
	}
	// the device's own key signs for the leaf certificate of the voucher
	if leaf, err := x509.ParseCertificate(dc.DCCertificateChain[0]); err == nil {
		k, err := fdoshared.ExtractPrivateKey(dc.DCPrivateKeyDer)
		fact("cred", err == nil && reflect.DeepEqual(pubOf(k), leaf.PublicKey) && v.Hmac.Type == int(dc.DCHmacAlg) && hdr.Ch.Type == int(dc.DCHashAlg))
	}
}

func sgName(sg fdoshared.SgType) string {
	for n, s := range sgByName {
		if s == sg {
			return n
		}
	}
	return ""
}

// fuzz alters bytes of an encoded voucher, or of its PEM form.
func (w *voucherWorld) fuzz(op Op, ev M) {
	v := w.voucher()
	ev["valid"], ev["pem"], ev["intact"] = "no", "no", true
	entry := fdoshared.VoucherDBEntry{Voucher: v, SgType: w.osg, PrivateKeyX509: w.key("k1").der}
	// without entries nothing but the certificate chain is covered by anything
	// that is checked without the device's secret
	bare := len(v.OVEntryArray) == 0
	norm := func(o fdoshared.OwnershipVoucher) []byte {
		c := o
		if bare {
			if o.OVDevCertChain == nil {
				return nil
			}
			return mustCbor(*o.OVDevCertChain)
		}
		c.OVEntryArray = append(fdoshared.OVEntryArray{}, o.OVEntryArray...)
		if n := len(c.OVEntryArray); n > 0 { // not covered by any signature or hash
			c.OVEntryArray[n-1].Unprotected = fdoshared.UnprotectedHeader{}
		}
		return mustCbor(c)
	}
	want := norm(v)
	if op.B("pem") {
		p, err := fdodevice.MarshalVoucherAndPrivateKey(entry)
		if err != nil {
			panic("harness: pem")
		}
		ev["pem"] = verdictOf(func() error {
			o, err := fdodocommon.DecodePemVoucherAndKey(string(fuzzBytes(p, op)))
			if err == nil {
				ev["intact"] = bytes.Equal(norm(o.Voucher), want)
			}
			return err
		})
		return
	}
	b := fuzzBytes(mustCbor(v), op)
	ev["pem"] = verdictOf(func() error {
		p := pem.EncodeToMemory(&pem.Block{Type: fdoshared.OWNERSHIP_VOUCHER_PEM_TYPE, Bytes: b})
		p = append(p, pem.EncodeToMemory(&pem.Block{Type: fdoshared.PRIVATE_KEY_PEM_TYPE, Bytes: entry.PrivateKeyX509})...)
		_, err := fdodocommon.DecodePemVoucherAndKey(string(p))
		return err
	})
	ev["valid"] = verdictOf(func() error {
		var o fdoshared.OwnershipVoucher
		if err := fdoshared.CborCust.Unmarshal(b, &o); err != nil {
			return err
		}
		err := o.Validate()
		if err == nil {
			ev["intact"] = bytes.Equal(norm(o), want)
		}
		return err
	})
}
