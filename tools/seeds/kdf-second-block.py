PROPERTY = "P06"
NEEDS = "a cipher suite whose keys are longer than one block of the key derivation, and a peer that is not this tool"
BREAKS = "both ends of the tool derive the same but a wrong session key, so that no other implementation understands them"
EDITS = [("core/shared/enc.crypto.go", """	l := sizeBytes * 8

	n :=""", """	l := sizeBytes * 8
	remaining := l

	n :="""), ("core/shared/enc.crypto.go", """		Lbigend := []byte{byte((l >> 8) & 0xff), byte((l & 0xff))}
		mac.Write(Lbigend)

		result = append(result, mac.Sum(nil)...)
		mac.Reset()
""", """		Lbigend := []byte{byte((remaining >> 8) & 0xff), byte((remaining & 0xff))}
		mac.Write(Lbigend)

		result = append(result, mac.Sum(nil)...)
		remaining -= h
		mac.Reset()
""")]
MAIN = """package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

func ref(n int, key, ctx []byte) (r []byte) {
	for i := 1; len(r) < n; i++ {
		m := hmac.New(sha256.New, key)
		m.Write([]byte{byte(i)})
		m.Write([]byte("FIDO-KDF\\x00AutomaticOnboardTunnel"))
		m.Write(ctx)
		m.Write([]byte{byte(n * 8 >> 8), byte(n * 8)})
		r = m.Sum(r)
	}
	return r[:n]
}

func main() {
	key, ctx := bytes.Repeat([]byte{7}, 40), []byte("context")
	for _, n := range []int{16, 32, 48, 96} {
		k, err := fdoshared.Sp800108CounterKDF(n, fdoshared.HASH_HMAC_SHA256, key, ctx)
		must(err)
		if !bytes.Equal(k, ref(n, key, ctx)) {
			fail("key of %d bytes is not the specified one", n)
		}
	}
}
"""
