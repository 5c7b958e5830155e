package main

import (
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"sync"

	"github.com/fxamacker/cbor/v2"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

// cborFirst decodes the first CBOR item of b into v and returns the number of
// trailing bytes.
func cborFirst(b []byte, v interface{}) (int, error) {
	dm, err := cbor.DecOptions{}.DecMode()
	if err != nil {
		return 0, err
	}
	rest, err := dm.UnmarshalFirst(b, v)
	return len(rest), err
}

func mustCbor(v interface{}) []byte {
	b, err := fdoshared.CborCust.Marshal(v)
	if err != nil {
		panic("harness: cbor: " + err.Error())
	}
	return b
}

type Key struct {
	priv interface{}
	pub  fdoshared.FdoPublicKey
	sg   fdoshared.SgType
	der  []byte
}

var sgByName = map[string]fdoshared.SgType{
	"ec256":   fdoshared.StSECP256R1,
	"ec384":   fdoshared.StSECP384R1,
	"rsa2048": fdoshared.StRSA2048,
	"rsa3072": fdoshared.StRSA3072,
	"epid10":  fdoshared.StEPID10,
	"epid11":  fdoshared.StEPID11,
	"invalid": fdoshared.SgType(17),
	"zero":    fdoshared.SgType(0),
}

// freshReader: the keys of the harness are all different (see rsapool.txt)
type freshReader struct{}

func (freshReader) Read(b []byte) (int, error) { return rand.Read(b) }

func newKey(sg fdoshared.SgType) Key {
	if sg == fdoshared.StRSA2048 || sg == fdoshared.StRSA3072 {
		bits, t := 2048, fdoshared.RSA2048RESTR
		if sg == fdoshared.StRSA3072 {
			bits, t = 3072, fdoshared.RSAPKCS
		}
		priv, err := rsa.GenerateKey(freshReader{}, bits)
		if err != nil {
			panic("harness: keypair: " + err.Error())
		}
		pub, _ := x509.MarshalPKIXPublicKey(&priv.PublicKey)
		der, _ := x509.MarshalPKCS8PrivateKey(priv)
		return Key{priv, fdoshared.FdoPublicKey{PkType: t, PkEnc: fdoshared.X509, PkBody: pub}, sg, der}
	}
	priv, pub, err := fdoshared.GenerateVoucherKeypair(sg)
	if err != nil {
		panic("harness: keypair: " + err.Error())
	}
	der, err := fdoshared.MarshalPrivateKey(priv, sg)
	if err != nil {
		panic("harness: marshal key: " + err.Error())
	}
	return Key{priv, *pub, sg, der}
}

// keyPool hands out pre-generated keys: a world asks for key i of a type and
// gets the same one in every trace of the process (generation of RSA keys is
// slow and the traces never depend on key freshness).
type keyPool struct {
	mu sync.Mutex
	m  map[string]*keySlot
}
type keySlot struct {
	once sync.Once
	k    Key
}

var keys = keyPool{m: map[string]*keySlot{}}

func (p *keyPool) get(sg fdoshared.SgType, i int) Key {
	id := fmt.Sprintf("%d/%d", sg, i)
	p.mu.Lock()
	s, ok := p.m[id]
	if !ok {
		s = &keySlot{}
		p.m[id] = s
	}
	p.mu.Unlock()
	s.once.Do(func() { s.k = newKey(sg) })
	return s.k
}

// Device is a device identity (certificate chain, key, hmac secret).
type Device struct {
	cred fdoshared.WawDeviceCredential
	key  interface{}
}

type devSlot struct {
	once sync.Once
	d    *Device
}

var devPool = struct {
	mu sync.Mutex
	m  map[string]*devSlot
}{m: map[string]*devSlot{}}

func getDevice(sg fdoshared.SgType, ownerSg fdoshared.SgType, i int) *Device {
	id := fmt.Sprintf("%d/%d/%d", sg, ownerSg, i)
	devPool.mu.Lock()
	s, ok := devPool.m[id]
	if !ok {
		s = &devSlot{}
		devPool.m[id] = s
	}
	devPool.mu.Unlock()
	s.once.Do(func() {
		c, err := fdoshared.NewWawDeviceCredential(sg)
		if err != nil {
			panic("harness: device: " + err.Error())
		}
		c.UpdateToNewHashHmacTypes(fdoshared.NegotiateHashHmacTypes(sg, ownerSg))
		k, err := fdoshared.ExtractPrivateKey(c.DCPrivateKeyDer)
		if err != nil {
			panic("harness: device key: " + err.Error())
		}
		s.d = &Device{*c, k}
	})
	return s.d
}

func (d *Device) clone() *Device {
	c := *d
	return &c
}

// Voucher is a voucher together with every private key behind it.
type Voucher struct {
	v     fdoshared.OwnershipVoucher
	keys  []Key // keys[0] manufacturer, keys[i] the key named by entry i
	final Key   // key named by the last entry present
	dev   *Device
	alg   fdoshared.HashType
}

type chainOpts struct {
	n       int
	ownerSg fdoshared.SgType
	kind    string
	k       int // position of the mutation, 1..n
	keyBase int
	rv      fdoshared.RendezvousInfo
}

func stdRV() fdoshared.RendezvousInfo {
	rv, err := fdoshared.UrlsToRendezvousInfo([]string{"http://rv.test.local:8041"})
	if err != nil {
		panic("harness: rvinfo " + err.Error())
	}
	return rv
}

func flip(b []byte, i int) []byte {
	c := append([]byte{}, b...)
	if len(c) > 0 {
		c[((i%len(c))+len(c))%len(c)] ^= 0x01
	}
	return c
}

func hashOf(b []byte, alg fdoshared.HashType) fdoshared.HashOrHmac {
	h, err := fdoshared.GenerateFdoHash(b, alg)
	if err != nil {
		panic("harness: hash: " + err.Error())
	}
	return h
}

func signEntry(p fdoshared.OVEntryPayload, by Key) fdoshared.CoseSignature {
	e, err := fdoshared.GenerateCoseSignature(mustCbor(p), fdoshared.ProtectedHeader{}, fdoshared.UnprotectedHeader{}, by.priv, by.sg)
	if err != nil {
		panic("harness: sign entry: " + err.Error())
	}
	return *e
}

func hdrInfo(h fdoshared.OwnershipVoucherHeader) []byte {
	return append(append([]byte{}, h.OVGuid[:]...), []byte(h.OVDeviceInfo)...)
}

func prevBytes(v fdoshared.OwnershipVoucher, entries []fdoshared.CoseSignature) []byte {
	if len(entries) == 0 {
		return append(append([]byte{}, v.OVHeaderTag...), mustCbor(v.OVHeaderHMac)...)
	}
	return mustCbor(entries[len(entries)-1])
}

// buildVoucher makes a voucher that is well formed except for the one defect
// named by o.kind; everything signed after the defect is signed consistently,
// so that only the named defect distinguishes it from a valid voucher.
func buildVoucher(dev *Device, o chainOpts) *Voucher {
	if o.n == 0 {
		o.n = 3
	}
	if o.ownerSg == 0 {
		o.ownerSg = fdoshared.StSECP256R1
	}
	if o.k == 0 {
		o.k = o.n
	}
	if o.rv == nil {
		o.rv = stdRV()
	}
	alg := dev.cred.DCHashAlg
	ks := make([]Key, o.n+1)
	for i := range ks {
		ks[i] = keys.get(o.ownerSg, o.keyBase+i)
	}
	cch := dev.cred.DCCertificateChainHash
	hdr := fdoshared.OwnershipVoucherHeader{
		OVHProtVer: fdoshared.ProtVer101, OVGuid: dev.cred.DCGuid, OVRvInfo: o.rv,
		OVDeviceInfo: dev.cred.DCDeviceInfo, OVPublicKey: ks[0].pub, OVDevCertChainHash: &cch,
	}
	chain := append([]fdoshared.X509CertificateBytes{}, dev.cred.DCCertificateChain...)
	switch o.kind {
	case "hdrProtVer":
		hdr.OVHProtVer = fdoshared.ProtVer100
	case "hdrProtVer102":
		hdr.OVHProtVer = 102
	case "rvEmpty":
		hdr.OVRvInfo = fdoshared.RendezvousInfo{}
	case "devInfoEmpty":
		hdr.OVDeviceInfo = ""
	case "certHash":
		cch.Hash = flip(cch.Hash, 7)
	case "certHashTrunc":
		cch.Hash = cch.Hash[:len(cch.Hash)-1]
	case "certHashEmpty":
		cch.Hash = []byte{}
	case "certHashNil":
		hdr.OVDevCertChainHash = nil
	case "certHashType":
		cch.Type = 99
	case "hdrOtherMfg":
		hdr.OVPublicKey = keys.get(o.ownerSg, 900).pub
	}
	v := fdoshared.OwnershipVoucher{OVProtVer: fdoshared.ProtVer101, OVHeaderTag: mustCbor(hdr)}
	hm, err := fdoshared.GenerateFdoHmac(v.OVHeaderTag, dev.cred.DCHmacAlg, dev.cred.DCHmacSecret)
	if err != nil {
		panic("harness: hmac: " + err.Error())
	}
	v.OVHeaderHMac = hm
	v.OVDevCertChain = &chain
	hh := hashOf(hdrInfo(hdr), alg)
	entries := []fdoshared.CoseSignature{}
	for i := 1; i <= o.n; i++ {
		p := fdoshared.OVEntryPayload{OVEHashPrevEntry: hashOf(prevBytes(v, entries), alg), OVEHashHdrInfo: hh, OVEPubKey: ks[i].pub}
		signer := ks[i-1]
		here := i == o.k
		if here {
			switch o.kind {
			case "prevHash":
				p.OVEHashPrevEntry.Hash = flip(p.OVEHashPrevEntry.Hash, 3)
			case "prevHashTrunc":
				p.OVEHashPrevEntry.Hash = p.OVEHashPrevEntry.Hash[:16]
			case "prevHashEmpty":
				p.OVEHashPrevEntry.Hash = []byte{}
			case "prevHashType":
				p.OVEHashPrevEntry.Type = 77
			case "prevHashOld": // hash of the header although entries precede
				p.OVEHashPrevEntry = hashOf(prevBytes(v, nil), alg)
				if i == 1 {
					p.OVEHashPrevEntry = hashOf([]byte("nothing"), alg)
				}
			case "hdrHash":
				p.OVEHashHdrInfo.Hash = flip(p.OVEHashHdrInfo.Hash, 5)
			case "hdrHashOtherDev":
				g := fdoshared.NewFdoGuid()
				p.OVEHashHdrInfo = hashOf(append(g[:], []byte(hdr.OVDeviceInfo)...), alg)
			case "wrongSigner":
				signer = keys.get(o.ownerSg, 901)
			case "selfSigned":
				signer = ks[i]
			case "mfgSigner":
				signer = ks[0]
				if i == 1 {
					signer = keys.get(o.ownerSg, 901)
				}
			case "swapKey": // entry names an attacker key but the chain continues with the honest one
				p.OVEPubKey = keys.get(o.ownerSg, 902).pub
			case "badKeyEnc":
				p.OVEPubKey.PkEnc = 9
			case "badKeyBody":
				p.OVEPubKey.PkBody = "not a key"
			case "badKeyType":
				p.OVEPubKey.PkType = fdoshared.RSAPSS
			}
		}
		e := signEntry(p, signer)
		if here {
			switch o.kind {
			case "entrySig":
				e.Signature = flip(e.Signature, 11)
			case "entrySigEmpty":
				e.Signature = []byte{}
			case "entrySigTrunc":
				e.Signature = e.Signature[:len(e.Signature)-1]
			case "entrySigZero":
				e.Signature = make([]byte, len(e.Signature))
			case "entryPayload":
				x := []byte{1}
				p.OVEExtra = &x
				e.Payload = mustCbor(p)
			case "entryProt":
				e.Protected = mustCbor(fdoshared.ProtectedHeader{Alg: fdoshared.GetIntRef(-8)})
			case "entryPayloadNil":
				e.Payload = []byte{}
			case "entryPayloadJunk":
				e.Payload = []byte{0xff, 0x00}
			}
		}
		entries = append(entries, e)
	}
	final := ks[o.n]
	switch o.kind {
	case "dropFirst":
		entries = entries[1:]
	case "dropMid":
		k := o.k
		if k >= o.n { // dropping the last entry yields a valid voucher
			k = o.n - 1
		}
		entries = append(append([]fdoshared.CoseSignature{}, entries[:k-1]...), entries[k:]...)
	case "dropLast":
		entries = entries[:len(entries)-1]
		final = ks[o.n-1]
	case "swap":
		k := o.k
		if k >= o.n {
			k = o.n - 1
		}
		entries[k-1], entries[k] = entries[k], entries[k-1]
	case "dup":
		entries = append(append(append([]fdoshared.CoseSignature{}, entries[:o.k]...), entries[o.k-1]), entries[o.k:]...)
	case "noEntries":
		entries = entries[:0]
	case "foreign":
		od := getDevice(dev.cred.DCSigInfo.SgType, o.ownerSg, 990)
		ov := buildVoucher(od, chainOpts{n: o.n, ownerSg: o.ownerSg, keyBase: o.keyBase})
		entries[o.k-1] = ov.v.OVEntryArray[o.k-1]
	case "hdrGuid":
		g := fdoshared.NewFdoGuid()
		h2 := hdr
		h2.OVGuid = g
		v.OVHeaderTag = mustCbor(h2)
	case "hdrDevInfo":
		h2 := hdr
		h2.OVDeviceInfo = hdr.OVDeviceInfo + "x"
		v.OVHeaderTag = mustCbor(h2)
	case "hdrRv":
		h2 := hdr
		rv, _ := fdoshared.UrlsToRendezvousInfo([]string{"http://evil.test.local:1"})
		h2.OVRvInfo = rv
		v.OVHeaderTag = mustCbor(h2)
	case "hdrPub":
		h2 := hdr
		h2.OVPublicKey = keys.get(o.ownerSg, 903).pub
		v.OVHeaderTag = mustCbor(h2)
	case "hdrJunk":
		v.OVHeaderTag = []byte{0xff}
	case "hdrEmpty":
		v.OVHeaderTag = []byte{}
	case "hmacAlt":
		v.OVHeaderHMac.Hash = flip(v.OVHeaderHMac.Hash, 2)
	case "hmacType":
		v.OVHeaderHMac.Type = fdoshared.HASH_HMAC_SHA384
		if hm.Type == fdoshared.HASH_HMAC_SHA384 {
			v.OVHeaderHMac.Type = fdoshared.HASH_HMAC_SHA256
		}
	case "protVer":
		v.OVProtVer = fdoshared.ProtVer100
	case "protVer102":
		v.OVProtVer = 102
	case "certNil":
		v.OVDevCertChain = nil
	case "certEmpty":
		c := []fdoshared.X509CertificateBytes{}
		v.OVDevCertChain = &c
	case "certDrop":
		c := chain[:len(chain)-1]
		v.OVDevCertChain = &c
	case "certOrder":
		c := append([]fdoshared.X509CertificateBytes{}, chain...)
		c[0], c[1] = c[1], c[0]
		v.OVDevCertChain = &c
	case "certSwap":
		od := getDevice(dev.cred.DCSigInfo.SgType, o.ownerSg, 990)
		c := append([]fdoshared.X509CertificateBytes{}, od.cred.DCCertificateChain...)
		v.OVDevCertChain = &c
	case "certFlip":
		c := append([]fdoshared.X509CertificateBytes{}, chain...)
		c[0] = flip(c[0], len(c[0])-3)
		v.OVDevCertChain = &c
	case "certExtra":
		c := append(append([]fdoshared.X509CertificateBytes{}, chain...), chain[1])
		v.OVDevCertChain = &c
	}
	v.OVEntryArray = entries
	return &Voucher{v: v, keys: ks, final: final, dev: dev, alg: alg}
}

// caKey is the key of the authority that signed the device certificates.
func caKey() interface{} {
	b, _ := pem.Decode([]byte(fdoshared.TestIntermediateKey))
	k, err := x509.ParseECPrivateKey(b.Bytes)
	if err != nil {
		panic("harness: intermediate key: " + err.Error())
	}
	return k
}
