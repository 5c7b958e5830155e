package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"

	"github.com/fxamacker/cbor/v2"

	"github.com/fido-alliance/dhkx"
)

// Reference implementation of the key exchanges and of the encryption of the
// onboarding protocol, written from the FIDO Device Onboard specification.

type sessKey struct{ shse, ctx []byte }

func rnd(n int) []byte {
	b := make([]byte, n)
	if _, err := io.ReadFull(rand.Reader, b); err != nil {
		panic(err)
	}
	return b
}

func lv(b []byte) []byte {
	return append(binary.BigEndian.AppendUint16(nil, uint16(len(b))), b...)
}

// unlv splits n length-prefixed fields.
func unlv(b []byte, n int) ([][]byte, error) {
	var out [][]byte
	for i := 0; i < n; i++ {
		if len(b) < 2 {
			return nil, errors.New("short block")
		}
		l := int(binary.BigEndian.Uint16(b))
		if len(b) < 2+l {
			return nil, errors.New("short block")
		}
		out = append(out, b[2:2+l])
		b = b[2+l:]
	}
	if len(b) != 0 {
		return nil, errors.New("trailing bytes")
	}
	return out, nil
}

type kexInfo struct {
	kind   string
	curve  ecdh.Curve
	clen   int
	rlen   int
	groupN int
}

var kexInfos = map[string]kexInfo{
	"ECDH256":     {kind: "ecdh", curve: ecdh.P256(), clen: 32, rlen: 16},
	"ECDH384":     {kind: "ecdh", curve: ecdh.P384(), clen: 48, rlen: 48},
	"DHKEXid14":   {kind: "dh", clen: 256, groupN: 14},
	"DHKEXid15":   {kind: "dh", clen: 384, groupN: 15},
	"ASYMKEX2048": {kind: "asym", rlen: 32},
	"ASYMKEX3072": {kind: "asym", rlen: 96},
}

func dhGroup(n int) (p, g *big.Int) {
	gr, err := dhkx.GetGroup(dhkx.GroupID(n))
	if err != nil {
		panic(err)
	}
	return gr.P(), gr.G()
}

// checkXA reports whether a key exchange parameter is well formed.
func checkXA(kex string, xa []byte) bool {
	k := kexInfos[kex]
	switch k.kind {
	case "ecdh":
		f, err := unlv(xa, 3)
		if err != nil || len(f[0]) != k.clen || len(f[1]) != k.clen || len(f[2]) != k.rlen {
			return false
		}
		_, err = k.curve.NewPublicKey(append(append([]byte{4}, f[0]...), f[1]...))
		return err == nil
	case "dh":
		p, _ := dhGroup(k.groupN)
		y := new(big.Int).SetBytes(xa)
		return len(xa) <= k.clen && y.Cmp(big.NewInt(1)) > 0 && y.Cmp(new(big.Int).Sub(p, big.NewInt(1))) < 0
	case "asym":
		return len(xa) == k.rlen
	}
	return false
}

// refPeer answers the owner's XA: it returns XB and the resulting session key
// candidates (a Diffie-Hellman secret may be written with or without leading
// zero bytes).
func refPeer(kex string, xa []byte, ownerPub interface{}, zeroLead bool) (xb []byte, ks []sessKey, err error) {
	k := kexInfos[kex]
	switch k.kind {
	case "ecdh":
		f, err := unlv(xa, 3)
		if err != nil {
			return nil, nil, err
		}
		pub, err := k.curve.NewPublicKey(append(append([]byte{4}, f[0]...), f[1]...))
		if err != nil {
			return nil, nil, err
		}
		for try := 0; ; try++ {
			priv, err := k.curve.GenerateKey(rand.Reader)
			if err != nil {
				return nil, nil, err
			}
			sh, err := priv.ECDH(pub)
			if err != nil {
				return nil, nil, err
			}
			pb := priv.PublicKey().Bytes()[1:]
			if zeroLead && try < 4000 && sh[0] != 0 && pb[0] != 0 && pb[k.clen] != 0 {
				continue
			}
			r := rnd(k.rlen)
			xb = append(append(lv(pb[:k.clen]), lv(pb[k.clen:])...), lv(r)...)
			return xb, []sessKey{{append(append(append([]byte{}, sh...), r...), f[2]...), nil}}, nil
		}
	case "dh":
		p, g := dhGroup(k.groupN)
		y := new(big.Int).SetBytes(xa)
		for try := 0; ; try++ {
			x := new(big.Int).SetBytes(rnd(k.clen - 1))
			z := new(big.Int).Exp(y, x, p)
			if zeroLead && try < 1500 && len(z.Bytes()) == k.clen {
				continue
			}
			xb = new(big.Int).Exp(g, x, p).Bytes()
			return xb, []sessKey{{z.FillBytes(make([]byte, k.clen)), nil}, {z.Bytes(), nil}}, nil
		}
	case "asym":
		pub, ok := ownerPub.(*rsa.PublicKey)
		r := rnd(k.rlen)
		if zeroLead {
			r[0] = 0
		}
		if !ok {
			return rnd(256), []sessKey{{r, xa}}, nil
		}
		xb, err = rsa.EncryptOAEP(sha256.New(), rand.Reader, pub, r, nil)
		return xb, []sessKey{{r, xa}}, err
	}
	return nil, nil, fmt.Errorf("unknown key exchange %q", kex)
}

// ---- encryption ----

type cipherInfo struct {
	kind     string
	key, iv  int
	svk, tag int
}

var cipherInfos = map[int]cipherInfo{
	1:         {kind: "gcm", key: 16, iv: 12},
	3:         {kind: "gcm", key: 32, iv: 12},
	30:        {kind: "ccm", key: 16, iv: 13, tag: 16},
	31:        {kind: "ccm", key: 32, iv: 13, tag: 16},
	32:        {kind: "ccm", key: 16, iv: 7, tag: 16},
	33:        {kind: "ccm", key: 32, iv: 7, tag: 16},
	-17760704: {kind: "ctr", key: 16, iv: 16, svk: 32},
}

func refKDF(n int, k sessKey) []byte {
	out := []byte{}
	for i := 1; len(out) < n; i++ {
		m := hmac.New(sha256.New, k.shse)
		m.Write([]byte{byte(i)})
		m.Write([]byte("FIDO-KDF"))
		m.Write([]byte{0})
		m.Write([]byte("AutomaticOnboardTunnel"))
		m.Write(k.ctx)
		m.Write([]byte{byte(n * 8 >> 8), byte(n * 8)})
		out = m.Sum(out)
	}
	return out[:n]
}

// CCM mode (RFC 3610).
func ccmMac(b cipher.Block, tag, L int, nonce, pt, aad []byte) []byte {
	b0 := make([]byte, 16)
	b0[0] = byte((tag-2)/2<<3 | (L - 1))
	if len(aad) > 0 {
		b0[0] |= 0x40
	}
	copy(b0[1:], nonce)
	n := len(pt)
	for i := 15; i > 15-L; i-- {
		b0[i] = byte(n)
		n >>= 8
	}
	x := make([]byte, 16)
	blk := func(d []byte) {
		for i := range x {
			x[i] ^= d[i]
		}
		b.Encrypt(x, x)
	}
	blk(b0)
	pad := func(d []byte) {
		for len(d)%16 != 0 {
			d = append(d, 0)
		}
		for i := 0; i < len(d); i += 16 {
			blk(d[i : i+16])
		}
	}
	if len(aad) > 0 {
		pad(append(binary.BigEndian.AppendUint16(nil, uint16(len(aad))), aad...))
	}
	pad(append([]byte{}, pt...))
	return x[:tag]
}

func ccmCtr(b cipher.Block, L int, nonce []byte) cipher.Stream {
	a0 := make([]byte, 16)
	a0[0] = byte(L - 1)
	copy(a0[1:], nonce)
	return cipher.NewCTR(b, a0)
}

func ccmSeal(key, nonce, pt, aad []byte, tag int) []byte {
	b, _ := aes.NewCipher(key)
	L := 15 - len(nonce)
	t := ccmMac(b, tag, L, nonce, pt, aad)
	s := ccmCtr(b, L, nonce)
	s0 := make([]byte, 16)
	s.XORKeyStream(s0, s0)
	ct := make([]byte, len(pt))
	s.XORKeyStream(ct, pt)
	for i := range t {
		t[i] ^= s0[i]
	}
	return append(ct, t...)
}

func ccmOpen(key, nonce, ct, aad []byte, tag int) ([]byte, error) {
	if len(ct) < tag {
		return nil, errors.New("short")
	}
	b, _ := aes.NewCipher(key)
	L := 15 - len(nonce)
	s := ccmCtr(b, L, nonce)
	s0 := make([]byte, 16)
	s.XORKeyStream(s0, s0)
	pt := make([]byte, len(ct)-tag)
	s.XORKeyStream(pt, ct[:len(ct)-tag])
	t := ccmMac(b, tag, L, nonce, pt, aad)
	for i := range t {
		t[i] ^= s0[i]
	}
	if !hmac.Equal(t, ct[len(ct)-tag:]) {
		return nil, errors.New("tag")
	}
	return pt, nil
}

type wEncBlk struct {
	_      struct{} `cbor:",toarray"`
	Prot   []byte
	Unprot map[int][]byte
	Ct     []byte
}

type wMacBlk struct {
	_       struct{} `cbor:",toarray"`
	Prot    []byte
	Unprot  map[int]interface{}
	Payload []byte
	Tag     []byte
}

func macInput(prot cbor.RawMessage, payload []byte) []byte {
	return wEnc(cbor.Tag{Number: 17, Content: arr{"MAC0", prot, []byte{}, payload}})
}

func otherAlg(suite int) int {
	if suite == 1 {
		return 3
	}
	return 1
}

// refEncrypt encrypts for the suite; kind names one defect:
//
//	ct, tag, iv    one bit of ciphertext, tag, nonce altered
//	alg            algorithm relabelled (consistently authenticated)
//	algraw         algorithm relabelled after encryption
//	noalg, noiv, shortiv, longiv   header fields missing or malformed
//	trunc, empty   ciphertext shortened / emptied
//	cut, extra     last byte of the message missing / one appended
//	untag, retag   COSE tag missing / wrong
//	prot           protected header with an additional field after encryption
//	plain          no encryption at all
func refEncrypt(suite int, k sessKey, pt []byte, kind string) []byte {
	ci, ok := cipherInfos[suite]
	if !ok {
		ci, suite = cipherInfos[1], 1
	}
	if kind == "plain" {
		return pt
	}
	alg := suite
	if kind == "alg" {
		alg = otherAlg(suite)
	}
	hdr := imap{1: alg}
	if kind == "noalg" {
		hdr = imap{}
	}
	prot := wEnc(hdr)
	iv := rnd(ci.iv)
	var ct, svk []byte
	switch ci.kind {
	case "gcm", "ccm":
		aad := wEnc(arr{"Encrypt0", prot, []byte{}})
		key := refKDF(ci.key, k)
		if ci.kind == "gcm" {
			b, _ := aes.NewCipher(key)
			g, _ := cipher.NewGCM(b)
			ct = g.Seal(nil, iv, pt, aad)
		} else {
			ct = ccmSeal(key, iv, pt, aad, ci.tag)
		}
	case "ctr":
		m := refKDF(ci.svk+ci.key, k)
		svk = m[:ci.svk]
		b, _ := aes.NewCipher(m[ci.svk:])
		ct = make([]byte, len(pt))
		cipher.NewCTR(b, iv).XORKeyStream(ct, pt)
	}
	unprot := imap{5: iv}
	switch kind {
	case "algraw":
		prot = wEnc(imap{1: otherAlg(suite)})
	case "prot":
		prot = wEnc(imap{1: suite, 4: []byte{7}})
	case "noiv":
		unprot = imap{}
	case "shortiv":
		unprot = imap{5: iv[:len(iv)-1]}
	case "longiv":
		unprot = imap{5: append(append([]byte{}, iv...), 0)}
	}
	mangleCt := func(mac bool) {
		switch kind {
		case "ct":
			ct = flip(ct, 0)
		case "tag":
			if !mac {
				ct = flip(ct, len(ct)-1)
			}
		case "iv":
			unprot = imap{5: flip(iv, 3)}
		case "trunc":
			if len(ct) > 0 {
				ct = ct[:len(ct)-1]
			}
		case "empty":
			ct = []byte{}
		case "shorttag", "emptytag", "longtag", "hash":
			if mac {
				return
			}
			tl := ci.tag
			if tl == 0 {
				tl = 16
			}
			n := len(ct) - tl
			switch kind {
			case "shorttag":
				ct = ct[:n+4]
			case "emptytag":
				ct = ct[:n]
			case "longtag":
				ct = append(ct, 0)
			case "hash":
				d := sha256.Sum256(ct[:n])
				ct = append(ct[:n:n], d[:tl]...)
			}
		}
	}
	block := func() []byte {
		body := arr{prot, unprot, ct}
		switch kind {
		case "untag":
			return wEnc(body)
		case "retag":
			return wEnc(cbor.Tag{Number: 18, Content: body})
		}
		return wEnc(cbor.Tag{Number: 16, Content: body})
	}
	var out []byte
	if ci.kind == "ctr" {
		inner := block()
		mp := wEnc(imap{1: 5})
		h := hmac.New(sha256.New, svk)
		h.Write(macInput(mp, inner))
		tag := h.Sum(nil)
		if kind == "tag" {
			tag = flip(tag, 5)
		}
		switch kind {
		case "shorttag":
			tag = tag[:8]
		case "emptytag":
			tag = []byte{}
		case "longtag":
			tag = append(tag, 0)
		case "hash": // a plain digest instead of a keyed one
			d := sha256.Sum256(macInput(mp, inner))
			tag = d[:]
		}
		mangleCt(true)
		inner2 := block()
		if kind == "algraw" || kind == "prot" || kind == "noalg" || kind == "alg" || kind == "noiv" || kind == "shortiv" || kind == "longiv" || kind == "untag" || kind == "retag" {
			inner2 = inner // consistently authenticated by the session key itself
		}
		out = wEnc(arr{mp, imap{}, inner2, tag})
	} else {
		mangleCt(false)
		out = block()
	}
	switch kind {
	case "cut":
		out = out[:len(out)-1]
	case "extra":
		out = append(out, 0)
	}
	return out
}

// refDecrypt opens a message; iv is returned for the freshness check.
func refDecrypt(suite int, k sessKey, b []byte) (pt, iv []byte, err error) {
	ci, ok := cipherInfos[suite]
	if !ok {
		return nil, nil, errors.New("suite")
	}
	var m []byte
	if ci.kind == "ctr" {
		var o wMacBlk
		if err := wDec(b, &o); err != nil {
			return nil, nil, err
		}
		if algOfProt(o.Prot) != 5 {
			return nil, nil, errors.New("mac alg")
		}
		m = refKDF(ci.svk+ci.key, k)
		h := hmac.New(sha256.New, m[:ci.svk])
		h.Write(macInput(o.Prot, o.Payload))
		if !hmac.Equal(h.Sum(nil), o.Tag) {
			return nil, nil, errors.New("mac")
		}
		b = o.Payload
	}
	var e wEncBlk
	if err := wTagged(b, 16, &e); err != nil {
		return nil, nil, err
	}
	if algOfProt(e.Prot) != suite {
		return nil, nil, errors.New("alg")
	}
	iv = e.Unprot[5]
	if len(iv) != ci.iv {
		return nil, nil, errors.New("iv length")
	}
	aad := wEnc(arr{"Encrypt0", e.Prot, []byte{}})
	switch ci.kind {
	case "gcm":
		bl, _ := aes.NewCipher(refKDF(ci.key, k))
		g, _ := cipher.NewGCM(bl)
		pt, err = g.Open(nil, iv, e.Ct, aad)
	case "ccm":
		pt, err = ccmOpen(refKDF(ci.key, k), iv, e.Ct, aad, ci.tag)
	case "ctr":
		bl, _ := aes.NewCipher(m[ci.svk:])
		pt = make([]byte, len(e.Ct))
		cipher.NewCTR(bl, iv).XORKeyStream(pt, e.Ct)
	}
	return pt, iv, err
}

func containsAny(b []byte, xs ...[]byte) bool {
	for _, x := range xs {
		if len(x) >= 6 && bytes.Contains(b, x) {
			return true
		}
	}
	return false
}
