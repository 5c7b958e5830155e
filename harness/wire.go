package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"fmt"
	"math/big"

	"github.com/fxamacker/cbor/v2"
)

// This file is an independent description of the wire format: the messages are
// spelled out here again, so that a change of the encoding on one side only, or
// on both sides of the code under test, is noticed.

var wireEnc = func() cbor.EncMode {
	m, err := cbor.CanonicalEncOptions().EncMode()
	if err != nil {
		panic(err)
	}
	return m
}()

func wEnc(v interface{}) []byte {
	b, err := wireEnc.Marshal(v)
	if err != nil {
		panic("harness: wire encoding: " + err.Error())
	}
	return b
}

type arr = []interface{}
type imap = map[int]interface{}

func bz(b []byte) []byte {
	if b == nil {
		return []byte{}
	}
	return b
}

// ---- COSE_Sign1 ----

type wSign struct {
	_         struct{} `cbor:",toarray"`
	Prot      []byte
	Unprot    map[int]cbor.RawMessage
	Payload   []byte
	Signature []byte
}

func wDec(b []byte, v interface{}) error {
	rest, err := cbor.UnmarshalFirst(b, v)
	if err != nil {
		return err
	}
	if len(rest) != 0 {
		return fmt.Errorf("%d trailing bytes", len(rest))
	}
	return nil
}

func wTagged(b []byte, tag uint64, v interface{}) error {
	var t cbor.RawTag
	if err := wDec(b, &t); err != nil {
		return err
	}
	if t.Number != tag {
		return fmt.Errorf("tag %d", t.Number)
	}
	return wDec(t.Content, v)
}

func wSigStructure(prot, payload []byte) []byte {
	return wEnc(arr{"Signature1", bz(prot), []byte{}, bz(payload)})
}

var sgAlg = map[string]int{"ec256": -7, "ec384": -35, "rsa2048": -257, "rsa3072": -258}

func algOfProt(prot []byte) int {
	var m map[int]interface{}
	if wDec(prot, &m) != nil {
		return 0
	}
	switch v := m[1].(type) {
	case int64:
		return int(v)
	case uint64:
		return int(v)
	}
	return 0
}

func hashFor(alg int, b []byte) []byte {
	switch alg {
	case -7, -257, -16, 5:
		h := sha256.Sum256(b)
		return h[:]
	case -35, -258, -43, 6:
		h := sha512.Sum384(b)
		return h[:]
	}
	return nil
}

// wVerify checks a signature independently of the code under test.
func wVerify(s wSign, pub interface{}, alg int) bool {
	if algOfProt(s.Prot) != alg {
		return false
	}
	h := hashFor(alg, wSigStructure(s.Prot, s.Payload))
	switch k := pub.(type) {
	case *ecdsa.PublicKey:
		n := (k.Curve.Params().BitSize + 7) / 8
		if len(s.Signature) != 2*n {
			return false
		}
		return ecdsa.Verify(k, h, new(big.Int).SetBytes(s.Signature[:n]), new(big.Int).SetBytes(s.Signature[n:]))
	case *rsa.PublicKey:
		ch := crypto.SHA256
		if alg == -258 {
			ch = crypto.SHA384
		}
		return rsa.VerifyPKCS1v15(k, ch, h, s.Signature) == nil
	}
	return false
}

func pubOf(priv interface{}) interface{} {
	switch k := priv.(type) {
	case *ecdsa.PrivateKey:
		return &k.PublicKey
	case *rsa.PrivateKey:
		return &k.PublicKey
	}
	return nil
}

// wKey is the wire form of a public key (X.509 encoded).
func wKey(pub interface{}, sg string) interface{} {
	der, err := x509.MarshalPKIXPublicKey(pub)
	if err != nil {
		panic(err)
	}
	return arr{map[string]int{"ec256": 10, "ec384": 11, "rsa2048": 1, "rsa3072": 5}[sg], 1, der}
}

func wSignRaw(prot, payload []byte, priv interface{}, alg int) []byte {
	h := hashFor(alg, wSigStructure(prot, payload))
	switch k := priv.(type) {
	case *ecdsa.PrivateKey:
		r, s, err := ecdsa.Sign(rand.Reader, k, h)
		if err != nil {
			panic(err)
		}
		n := (k.Curve.Params().BitSize + 7) / 8
		out := make([]byte, 2*n)
		r.FillBytes(out[:n])
		s.FillBytes(out[n:])
		return out
	case *rsa.PrivateKey:
		ch := crypto.SHA256
		if alg == -258 {
			ch = crypto.SHA384
		}
		s, err := rsa.SignPKCS1v15(rand.Reader, k, ch, h)
		if err != nil {
			panic(err)
		}
		return s
	}
	panic("harness: unknown key")
}

// sgNameOf returns the name of the signature type of a private key.
func sgNameOf(priv interface{}) string {
	switch k := priv.(type) {
	case *ecdsa.PrivateKey:
		if k.Curve.Params().BitSize == 256 {
			return "ec256"
		}
		return "ec384"
	case *rsa.PrivateKey:
		if k.N.BitLen() == 2048 {
			return "rsa2048"
		}
		return "rsa3072"
	}
	return ""
}

// wMakeSign builds a tagged COSE_Sign1; kind names one defect of the signature.
func wMakeSign(payload []byte, unprot imap, priv interface{}, kind string, altPayload []byte) []byte {
	alg := sgAlg[sgNameOf(priv)]
	prot := wEnc(imap{1: alg})
	sig := wSignRaw(prot, payload, priv, alg)
	switch kind {
	case "flip":
		sig = flip(sig, 21)
	case "empty":
		sig = []byte{}
	case "zero":
		sig = make([]byte, len(sig))
	case "long":
		sig = append(sig, 0)
	case "trunc":
		sig = sig[:len(sig)-1]
	case "payload":
		payload = altPayload
	case "prot":
		prot = wEnc(imap{1: -8})
	case "protkid":
		prot = wEnc(imap{1: alg, 4: []byte{1}})
	}
	return wEnc(cbor.Tag{Number: 18, Content: arr{prot, unprot, payload, sig}})
}

// ---- hashes ----

type wHash struct {
	_    struct{} `cbor:",toarray"`
	Type int
	Hash []byte
}

func hashTypeOfSg(sg string) int {
	if sg == "ec384" || sg == "rsa3072" {
		return -43
	}
	return -16
}

// ---- messages ----

type w61 struct {
	_     struct{} `cbor:",toarray"`
	Hdr   []byte
	N     int
	Hmac  cbor.RawMessage
	Nonce []byte
	Eb    cbor.RawMessage
	Xa    []byte
	Hash  wHash
	Max   int
}

type w63 struct {
	_     struct{} `cbor:",toarray"`
	Num   int
	Entry cbor.RawMessage
}

type w65 struct {
	_     struct{} `cbor:",toarray"`
	Rv    cbor.RawMessage
	Guid  []byte
	Nonce []byte
	Key   cbor.RawMessage
}

type w67 struct {
	_   struct{} `cbor:",toarray"`
	Max *int
}

type wKV struct {
	_ struct{} `cbor:",toarray"`
	K string
	V []byte
}

type w69 struct {
	_    struct{} `cbor:",toarray"`
	More bool
	Done bool
	Info []wKV
}

type w71 struct {
	_     struct{} `cbor:",toarray"`
	Nonce []byte
}
