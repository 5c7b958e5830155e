PROPERTY = "P08"
NEEDS = "a voucher whose device certificate is genuine but whose issuing certificates are exchanged or left out"
BREAKS = "the certificate chain hash covers only the device certificate (both where it is made and where it is checked), so other certificates of the chain can be altered"
EDITS = [("core/shared/voucher.go", """	for _, cert := range certs {
		totalBytes = append(totalBytes, cert...)
	}

	return GenerateFdoHash(totalBytes, hashType)""", """	for i, cert := range certs {
		if i == 0 || i < len(certs)-2 {
			totalBytes = append(totalBytes, cert...)
		}
	}

	return GenerateFdoHash(totalBytes, hashType)""")]
MAIN = """package main

import (
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

func main() {
	i := start(baseCtx())
	dv := i.device(fdoshared.StSECP256R1, fdoshared.StSECP256R1)
	v := dv.VoucherDBEntry.Voucher
	if err := v.Validate(); err != nil {
		fail("genuine voucher refused: %v", err)
	}
	chain := append([]fdoshared.X509CertificateBytes{}, *v.OVDevCertChain...)
	last := append(fdoshared.X509CertificateBytes{}, chain[len(chain)-1]...)
	last[len(last)-1] ^= 1
	chain[len(chain)-1] = last
	v.OVDevCertChain = &chain
	if err := v.Validate(); err == nil {
		fail("voucher with an altered issuing certificate is accepted")
	}
}
"""
