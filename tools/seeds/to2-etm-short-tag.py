PROPERTY = "P06"
NEEDS = "an AES-CTR (encrypt-then-MAC) session and a message whose authentication tag is cut off, its ciphertext altered"
BREAKS = "forged ciphertext with an empty or shortened tag is accepted"
EDITS = [("core/shared/hashing.crypto.go", """	case HASH_HMAC_SHA256:
		macInst := hmac.New(sha256.New, key)
		macInst.Write(data)
		computedMac := macInst.Sum(nil)

		if bytes.Equal(inputHmac.Hash, computedMac) {
			return nil
		} else {
			return errors.New("failed to verify HMAC. HMACs do not match")
		}
	case HASH_HMAC_SHA384:
		macInst := hmac.New(sha512.New384, key)
		macInst.Write(data)
		computedMac := macInst.Sum(nil)

		if bytes.Equal(inputHmac.Hash, computedMac) {
			return nil
		} else {
			return errors.New("failed to verify HMAC. HMACs do not match")
		}
	default:
		return fmt.Errorf("error verifying hmac. %d is unknown hmac algorithm", inputHmac.Type)
	}
""", """	case HASH_HMAC_SHA256:
		macInst := hmac.New(sha256.New, key)
		macInst.Write(data)
		computedMac := macInst.Sum(nil)

		return compareMac(inputHmac.Hash, computedMac)
	case HASH_HMAC_SHA384:
		macInst := hmac.New(sha512.New384, key)
		macInst.Write(data)
		computedMac := macInst.Sum(nil)

		return compareMac(inputHmac.Hash, computedMac)
	default:
		return fmt.Errorf("error verifying hmac. %d is unknown hmac algorithm", inputHmac.Type)
	}
"""), ("core/shared/hashing.crypto.go", """func NewHmacKey(""", """// compareMac compares in constant time: every byte is looked at, whether or
// not an earlier one differs
func compareMac(given []byte, computed []byte) error {
	var diff byte
	for i := range given {
		diff |= given[i] ^ computed[i%len(computed)]
	}

	if diff != 0 {
		return errors.New("failed to verify HMAC. HMACs do not match")
	}

	return nil
}

func NewHmacKey(""")]
MAIN = """package main

import (
	"github.com/fxamacker/cbor/v2"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
)

// resend alters the encrypted message and cuts its tag to n bytes
func resend(i *inst, token string, msg int, sent []byte, n int) answer {
	var m []cbor.RawMessage
	dec(sent, &m)
	var tag []byte
	dec(m[3], &tag)
	m[3] = enc(tag[:n])
	if n == 0 {
		m[2][len(m[2])-1] ^= 1
		m[2][len(m[2])-2] ^= 0x40
	}
	return i.post(msg, enc(m), token)
}

func main() {
	i := start(baseCtx())
	dv := i.device(fdoshared.StSECP256R1, fdoshared.StSECP256R1)
	r := i.to2(dv, fdoshared.KEX_ECDH256, fdoshared.CIPHER_COSE_AES128_CTR)
	must(i.upTo(r, 64))
	q := *r
	body := capture(func(url string) {
		q.SrvEntry.SrvURL = url
		q.DeviceServiceInfoReady66(testcom.NULL_TEST)
	})
	for _, n := range []int{16, 0} {
		if a := resend(i, r.AuthzHeader, 66, body, n); !a.refused() {
			fail("a message whose tag is cut to %d bytes is accepted: %d", n, a.status)
		}
	}
	if _, _, err := r.DeviceServiceInfoReady66(testcom.NULL_TEST); err != nil {
		fail("the session did not survive: %v", err)
	}
}
"""
