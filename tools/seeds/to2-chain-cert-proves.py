PROPERTY = "P05"
NEEDS = "a proof signed with the key of a certificate further up in the device's certificate chain"
BREAKS = "the owner accepts a proof from any holder of a key in the chain, e.g. the certificate authority, instead of the device"
EDITS = [("core/shared/signing.crypto.go", """		leafCert := successChain[0]

		return VerifySignature(coseSigPayloadBytes, coseSig.Signature, leafCert.PublicKey, publicKey.PkType)
""", """		// Any certificate of the verified chain will do, starting from the leaf
		for _, cert := range successChain {
			err = VerifySignature(coseSigPayloadBytes, coseSig.Signature, cert.PublicKey, publicKey.PkType)
			if err == nil {
				return nil
			}
		}

		return err
""")]
MAIN = """package main

import (
	"crypto/x509"
	"encoding/pem"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
)

func main() {
	i := start(baseCtx())
	dv := i.device(fdoshared.StSECP256R1, fdoshared.StSECP256R1)
	r := i.to2(dv, fdoshared.KEX_ECDH256, fdoshared.CIPHER_A128GCM)
	must(i.upTo(r, 62))
	if _, _, err := r.ProveDevice64(testcom.NULL_TEST); err != nil {
		fail("the device itself is refused: %v", err)
	}
	r = i.to2(dv, fdoshared.KEX_ECDH256, fdoshared.CIPHER_A128GCM)
	must(i.upTo(r, 62))
	b, _ := pem.Decode([]byte(fdoshared.TestIntermediateKey))
	k, err := x509.ParseECPrivateKey(b.Bytes)
	must(err)
	der, err := x509.MarshalPKCS8PrivateKey(k)
	must(err)
	r.Credential.DCPrivateKeyDer = der
	if _, _, err := r.ProveDevice64(testcom.NULL_TEST); err == nil {
		fail("the intermediate certificate authority passes for the device")
	}
}
"""
