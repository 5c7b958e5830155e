PROPERTY = "P02"
NEEDS = "a voucher of three or more entries whose last entry carries intact hashes but a wrong signature"
BREAKS = "the last delegation is not verified, so anyone holding an earlier voucher can name himself the owner and register the device"
EDITS = [("core/shared/voucher.go", """			err = VerifyCoseSignature(OVEntry, lastOVEntryPublicKey)
			if err != nil {
				return errors.New("error verifying OVEntry Signature: " + err.Error())
			}
		}
""", """			// The key of the entry before signs this one
			signer := lastOVEntryPublicKey
			if i == len(h)-1 && i > 1 {
				signer, err = h[i].GetOVEntryPubKey()
				if err != nil {
					return errors.New("error decoding OVEntry public key: " + err.Error())
				}
				if VerifyCoseSignature(OVEntry, signer) != nil {
					signer = lastOVEntryPublicKey
				}
			}

			err = VerifyCoseSignature(OVEntry, signer)
			if err != nil {
				return errors.New("error verifying OVEntry Signature: " + err.Error())
			}
		}
""")]
MAIN = """package main

import (
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

func main() {
	i := start(baseCtx())
	dv := i.device(fdoshared.StSECP256R1, fdoshared.StSECP256R1)
	if len(dv.VoucherDBEntry.Voucher.OVEntryArray) < 3 {
		fail("generated voucher is too short")
	}
	must(i.register(dv))
	// a stranger replaces the last delegation by one to himself
	es := dv.VoucherDBEntry.Voucher.OVEntryArray
	last := len(es) - 1
	var p fdoshared.OVEntryPayload
	dec(es[last].Payload, &p)
	priv, pub, err := fdoshared.GenerateVoucherKeypair(fdoshared.StSECP256R1)
	must(err)
	p.OVEPubKey = *pub
	c, err := fdoshared.GenerateCoseSignature(enc(p), fdoshared.ProtectedHeader{}, fdoshared.UnprotectedHeader{}, priv, fdoshared.StSECP256R1)
	must(err)
	es[last] = *c
	der, err := fdoshared.MarshalPrivateKey(priv, fdoshared.StSECP256R1)
	must(err)
	dv.VoucherDBEntry.PrivateKeyX509 = der
	if i.register(dv) == nil {
		fail("a delegation signed by nobody entitled is accepted")
	}
}
"""
