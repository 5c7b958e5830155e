From 21d952b9fcebb655aa4454e63c33782d74c0f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 01/30] fix: answer unknown or expired session tokens with an
 error instead of crashing

GetSessionEntry returned (nil, nil) when the token was not in the database, and
every RV and DO handler dereferenced the result.
---
 core/do/dbs/session.db.go | 2 +-
 core/rv/session.db.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/do/dbs/session.db.go b/core/do/dbs/session.db.go
index 47dcc1a..124402a 100644
--- a/core/do/dbs/session.db.go
+++ b/core/do/dbs/session.db.go
@@ -131,7 +131,7 @@ func (h *SessionDB) GetSessionEntry(entryId []byte) (*SessionEntry, error) {
 
 	item, err := dbtxn.Get(sessionEntryId)
 	if err != nil && errors.Is(err, badger.ErrKeyNotFound) {
-		return nil, nil
+		return nil, errors.New("The session entry does not exist")
 	} else if err != nil {
 		return nil, errors.New("Failed locating entry. The error is: " + err.Error())
 	}
diff --git a/core/rv/session.db.go b/core/rv/session.db.go
index a6d5173..a9e0020 100644
--- a/core/rv/session.db.go
+++ b/core/rv/session.db.go
@@ -86,7 +86,7 @@ func (h *SessionDB) GetSessionEntry(entryId []byte) (*SessionEntry, error) {
 
 	item, err := dbtxn.Get(sessionEntryId)
 	if err != nil && errors.Is(err, badger.ErrKeyNotFound) {
-		return nil, nil
+		return nil, errors.New("The session entry does not exist")
 	} else if err != nil {
 		return nil, errors.New("Failed locating entry. The error is: " + err.Error())
 	}
-- 
2.43.0


From 9081593ae51fb93b58296652764977d55b4ae97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 02/30] fix: keep the expiry of a protocol session when it is
 updated

UpdateSessionEntry rewrote the entry without a TTL, so every session that got
past its second message stayed in the database, and usable, forever.
---
 core/do/dbs/session.db.go | 9 ++++++++-
 core/rv/session.db.go     | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/core/do/dbs/session.db.go b/core/do/dbs/session.db.go
index 124402a..e8402f3 100644
--- a/core/do/dbs/session.db.go
+++ b/core/do/dbs/session.db.go
@@ -110,7 +110,14 @@ func (h *SessionDB) UpdateSessionEntry(entryId []byte, sessionInst SessionEntry)
 		return errors.New("Failed to marshal session. The error is: " + err.Error())
 	}
 
-	err = dbtxn.Set(sessionEntryId, sessionInstBytes)
+	item, err := dbtxn.Get(sessionEntryId)
+	if err != nil {
+		return errors.New("Failed locating entry. The error is: " + err.Error())
+	}
+
+	entry := badger.NewEntry(sessionEntryId, sessionInstBytes)
+	entry.ExpiresAt = item.ExpiresAt() // An update does not extend the session lifetime
+	err = dbtxn.SetEntry(entry)
 	if err != nil {
 		return errors.New("Failed to create saving inst. The error is: " + err.Error())
 	}
diff --git a/core/rv/session.db.go b/core/rv/session.db.go
index a9e0020..aa79b2d 100644
--- a/core/rv/session.db.go
+++ b/core/rv/session.db.go
@@ -65,7 +65,14 @@ func (h *SessionDB) UpdateSessionEntry(entryId []byte, sessionInst SessionEntry)
 		return errors.New("Failed to marshal session. The error is: " + err.Error())
 	}
 
-	err = dbtxn.Set(sessionEntryId, sessionInstBytes)
+	item, err := dbtxn.Get(sessionEntryId)
+	if err != nil {
+		return errors.New("Failed locating entry. The error is: " + err.Error())
+	}
+
+	entry := badger.NewEntry(sessionEntryId, sessionInstBytes)
+	entry.ExpiresAt = item.ExpiresAt() // An update does not extend the session lifetime
+	err = dbtxn.SetEntry(entry)
 	if err != nil {
 		return errors.New("Failed to create saving inst. The error is: " + err.Error())
 	}
-- 
2.43.0


From 11a75f358b3e4c41e6787cd2f847a1b9da23e41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 03/30] fix: reject vouchers without a device certificate chain
 hash

Voucher.Validate dereferenced a nil OVDevCertChainHash, so an OwnerSign with
such a voucher crashed the handler.
---
 core/shared/voucher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/shared/voucher.go b/core/shared/voucher.go
index 5af3094..af9dc13 100644
--- a/core/shared/voucher.go
+++ b/core/shared/voucher.go
@@ -71,6 +71,10 @@ func (h OwnershipVoucher) Validate() error {
 		return errors.New("OVDeviceInfo is empty")
 	}
 
+	if ovHeader.OVDevCertChainHash == nil {
+		return errors.New("OVDevCertChainHash is missing")
+	}
+
 	ovDevCertChainCert, err := ComputeOVDevCertChainHash(*h.OVDevCertChain, ovHeader.OVDevCertChainHash.Type)
 	if err != nil {
 		return errors.New("could not compute OVDevCertChain hash ")
-- 
2.43.0


From b89c26edba20cfbb2e675e1e97671a035b688e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 04/30] fix: verify the header info hash of ownership voucher
 entries

VerifyEntries checked the previous-entry hash and the signature but never
OVEHashHdrInfo, so an entry made for another device was accepted.
---
 core/shared/voucher.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/shared/voucher.go b/core/shared/voucher.go
index af9dc13..e3c54ea 100644
--- a/core/shared/voucher.go
+++ b/core/shared/voucher.go
@@ -140,6 +140,10 @@ func (h OVEntryArray) VerifyEntries(ovHeaderTag []byte, ovHeaderHMac HashOrHmac)
 		return errors.New("error decoding VoucherHeader: " + err.Error())
 	}
 
+	// Every entry is bound to the device by the hash of GUID || DeviceInfo
+	headerInfo := append([]byte{}, voucherHeader.OVGuid[:]...)
+	headerInfo = append(headerInfo, []byte(voucherHeader.OVDeviceInfo)...)
+
 	for i, OVEntry := range h {
 		var OVEntryPayload OVEntryPayload
 		err := CborCust.Unmarshal(OVEntry.Payload, &OVEntryPayload)
@@ -147,6 +151,11 @@ func (h OVEntryArray) VerifyEntries(ovHeaderTag []byte, ovHeaderHMac HashOrHmac)
 			return errors.New("error decoding OVEntry payload: " + err.Error())
 		}
 
+		err = VerifyHash(headerInfo, OVEntryPayload.OVEHashHdrInfo)
+		if err != nil {
+			return errors.New("error verifying OVEntry header info hash: " + err.Error())
+		}
+
 		if i == 0 {
 			headerHmacBytes, _ := CborCust.Marshal(ovHeaderHMac)
 			firstEntryHashContents := append(ovHeaderTag, headerHmacBytes...)
-- 
2.43.0


From 8e53208afe00b316f3353ca4d33cd5c144467501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 05/30] fix: name the message that failed in RV and DO error
 answers

OwnerSign22 named message 20 when its body could not be read, and the shared TO2
code named 64 or 66 for header and authorization failures of every message.
---
 core/do/to2/common.go                      | 4 ++--
 core/do/to2/listener-to2-64-ProveDevice.go | 2 +-
 core/rv/listener-to0.go                    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/do/to2/common.go b/core/do/to2/common.go
index 3761735..6ffe562 100644
--- a/core/do/to2/common.go
+++ b/core/do/to2/common.go
@@ -113,11 +113,11 @@ func (h *DoTo2) GetOwnerSIMs(guid fdoshared.FdoGuid) ([]fdoshared.ServiceInfoKV,
 }
 
 func (h *DoTo2) receiveAndVerify(w http.ResponseWriter, r *http.Request, currentCmd fdoshared.FdoCmd) (*dbs.SessionEntry, []byte, string, []byte, *listenertestsdeps.RequestListenerInst, error) {
-	if !fdoshared.CheckHeaders(w, r, fdoshared.TO2_64_PROVE_DEVICE) {
+	if !fdoshared.CheckHeaders(w, r, currentCmd) {
 		return nil, []byte{}, "", []byte{}, nil, fmt.Errorf("Error checking header!")
 	}
 
-	headerIsOk, sessionId, authorizationHeader := fdoshared.ExtractAuthorizationHeader(w, r, fdoshared.TO2_66_DEVICE_SERVICE_INFO_READY)
+	headerIsOk, sessionId, authorizationHeader := fdoshared.ExtractAuthorizationHeader(w, r, currentCmd)
 	if !headerIsOk {
 		return nil, []byte{}, "", []byte{}, nil, fmt.Errorf("Error getting session header!")
 	}
diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index d188dcb..4c8d8cf 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -24,7 +24,7 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 
 	privateKeyInst, err := fdoshared.ExtractPrivateKey(session.PrivateKeyDER)
 	if err != nil {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, fdoshared.TO2_60_HELLO_DEVICE, "Error decoding private key... "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Error decoding private key... "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
 		return
 	}
 
diff --git a/core/rv/listener-to0.go b/core/rv/listener-to0.go
index f1987b1..4bf9d57 100644
--- a/core/rv/listener-to0.go
+++ b/core/rv/listener-to0.go
@@ -109,7 +109,7 @@ func (h *RvTo0) Handle22OwnerSign(w http.ResponseWriter, r *http.Request) {
 	/* ----- Process Body ----- */
 	bodyBytes, err := io.ReadAll(r.Body)
 	if err != nil {
-		fdoshared.RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, fdoshared.TO0_20_HELLO, "Failed to read body!", http.StatusBadRequest)
+		fdoshared.RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, fdoshared.TO0_22_OWNER_SIGN, "Failed to read body!", http.StatusBadRequest)
 		return
 	}
 
-- 
2.43.0


From 297c01911f3cc78bb994af2b5f2e9f1401dc3be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 06/30] fix: use fixed-length coordinates in the ECDH key
 exchange

Coordinates and shared secrets with a leading zero byte were shortened: the
other end then refused or misread the message, in about one session in a
hundred.
---
 core/shared/kex.crypto.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index a42017b..d572094 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -158,12 +158,12 @@ func GenerateXABKeyExchange(kexSuitName KexSuiteName, ownerPubKey *FdoPublicKey)
 		binary.BigEndian.PutUint16(ownerRandomLenBytes, uint16(len(ownerRandom)))
 		ownerBlock := append(ownerRandomLenBytes, ownerRandom...)
 
-		xBytes := ownerKey.X.Bytes()
+		xBytes := ownerKey.X.FillBytes(make([]byte, (ownerKey.Params().BitSize+7)/8))
 		xLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(xLenBytes, uint16(len(xBytes)))
 		xBlock := append(xLenBytes, xBytes...)
 
-		yBytes := ownerKey.Y.Bytes()
+		yBytes := ownerKey.Y.FillBytes(make([]byte, (ownerKey.Params().BitSize+7)/8))
 		yLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(yLenBytes, uint16(len(yBytes)))
 		yBlock := append(yLenBytes, yBytes...)
@@ -192,12 +192,12 @@ func GenerateXABKeyExchange(kexSuitName KexSuiteName, ownerPubKey *FdoPublicKey)
 		binary.BigEndian.PutUint16(ownerRandomLenBytes, uint16(len(ownerRandom)))
 		ownerBlock := append(ownerRandomLenBytes, ownerRandom...)
 
-		xBytes := ownerKey.X.Bytes()
+		xBytes := ownerKey.X.FillBytes(make([]byte, (ownerKey.Params().BitSize+7)/8))
 		xLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(xLenBytes, uint16(len(xBytes)))
 		xBlock := append(xLenBytes, xBytes...)
 
-		yBytes := ownerKey.Y.Bytes()
+		yBytes := ownerKey.Y.FillBytes(make([]byte, (ownerKey.Params().BitSize+7)/8))
 		yLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(yLenBytes, uint16(len(yBytes)))
 		yBlock := append(yLenBytes, yBytes...)
@@ -305,7 +305,7 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			randomSuffix = append(xbRandom, xaRandom...)
 		}
 
-		shSe := append(Shx.Bytes(), randomSuffix...)
+		shSe := append(Shx.FillBytes(make([]byte, (devicePubKey.Params().BitSize+7)/8)), randomSuffix...)
 
 		return &SessionKeyInfo{
 			ShSe:        shSe,
@@ -350,7 +350,7 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			randomSuffix = append(xbRandom, xaRandom...)
 		}
 
-		shSe := append(Shx.Bytes(), randomSuffix...)
+		shSe := append(Shx.FillBytes(make([]byte, (devicePubKey.Params().BitSize+7)/8)), randomSuffix...)
 
 		return &SessionKeyInfo{
 			ShSe:        shSe,
-- 
2.43.0


From 4f74b0aeeeeee4a07f3b65281c5122dfe0c81e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 07/30] fix: refuse ECDH public keys that are not on the curve
 instead of crashing

---
 core/shared/kex.crypto.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index d572094..f427393 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -296,6 +296,10 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			D: new(big.Int).SetBytes(kexA.Private),
 		}
 
+		if !devicePubKey.Curve.IsOnCurve(devicePubKey.X, devicePubKey.Y) {
+			return nil, errors.New("xBKeyExchange does not contain a valid ECDH public key")
+		}
+
 		Shx, _ := ownerPrivateKey.PublicKey.Curve.ScalarMult(devicePubKey.X, devicePubKey.Y, ownerPrivateKey.D.Bytes())
 
 		var randomSuffix []byte
@@ -341,6 +345,10 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			D: new(big.Int).SetBytes(kexA.Private),
 		}
 
+		if !devicePubKey.Curve.IsOnCurve(devicePubKey.X, devicePubKey.Y) {
+			return nil, errors.New("xBKeyExchange does not contain a valid ECDH public key")
+		}
+
 		Shx, _ := ownerPrivateKey.PublicKey.Curve.ScalarMult(devicePubKey.X, devicePubKey.Y, ownerPrivateKey.D.Bytes())
 
 		var randomSuffix []byte
-- 
2.43.0


From d7b5e2b02cc95edb6f7230344a3c06c642179729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:21 +0000
Subject: [PATCH 08/30] fix: refuse asymmetric key exchange with a non-RSA
 owner key instead of crashing

---
 core/shared/kex.crypto.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index f427393..ee0afce 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -398,8 +398,13 @@ func WrapOAEP(message []byte, ownerPubKey FdoPublicKey) ([]byte, error) {
 		return nil, errors.New("error parsing PKIX X509 Public Key. " + err.Error())
 	}
 
+	rsaPubKey, ok := pubKeyInst.(*rsa.PublicKey)
+	if !ok {
+		return nil, errors.New("error wrapping OAEP. The owner key is not an RSA key")
+	}
+
 	hash := sha256.New()
-	ciphertext, err := rsa.EncryptOAEP(hash, rand.Reader, pubKeyInst.(*rsa.PublicKey), message, []byte{})
+	ciphertext, err := rsa.EncryptOAEP(hash, rand.Reader, rsaPubKey, message, []byte{})
 	if err != nil {
 		return nil, errors.New("error wrapping OAEP. " + err.Error())
 	}
@@ -408,8 +413,13 @@ func WrapOAEP(message []byte, ownerPubKey FdoPublicKey) ([]byte, error) {
 }
 
 func UnwrapOAEP(ciphertext []byte, privateKeyInterface interface{}) ([]byte, error) {
+	rsaPrivateKey, ok := privateKeyInterface.(*rsa.PrivateKey)
+	if !ok {
+		return nil, errors.New("error unwrapping OAEP. The owner key is not an RSA key")
+	}
+
 	hash := sha256.New()
-	message, err := rsa.DecryptOAEP(hash, rand.Reader, privateKeyInterface.(*rsa.PrivateKey), ciphertext, []byte{})
+	message, err := rsa.DecryptOAEP(hash, rand.Reader, rsaPrivateKey, ciphertext, []byte{})
 	if err != nil {
 		return nil, errors.New("error unwrapping OAEP. " + err.Error())
 	}
-- 
2.43.0


From 79520b987226324a98ae2742ce8c4075594bd54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:23 +0000
Subject: [PATCH 09/30] fix: refuse encrypted messages without algorithm or
 with a malformed nonce instead of crashing

---
 core/shared/enc.crypto.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/shared/enc.crypto.go b/core/shared/enc.crypto.go
index 7009d77..51a5b14 100644
--- a/core/shared/enc.crypto.go
+++ b/core/shared/enc.crypto.go
@@ -371,11 +371,14 @@ func decryptETM(encrypted []byte, sessionKeyInfo SessionKeyInfo, cipherSuite Cip
 		return nil, errors.New("Error decoding protected header. " + err.Error())
 	}
 
-	if *innerProtected.Alg != int(algInfo.CryptoAlg) {
+	if innerProtected.Alg == nil || *innerProtected.Alg != int(algInfo.CryptoAlg) {
 		return nil, errors.New("error! Encryption algorithms don't match")
 	}
 
 	nonceIvBytes := inner.Unprotected.AESIV
+	if nonceIvBytes == nil || len(*nonceIvBytes) != algInfo.NonceIvLen {
+		return nil, errors.New("error! Missing or malformed IV")
+	}
 
 	block, err := aes.NewCipher(sek)
 	if err != nil {
@@ -490,11 +493,14 @@ func decryptEMB(encrypted []byte, sessionKeyInfo SessionKeyInfo, cipherSuite Cip
 		return nil, errors.New("Error decoding protected header. " + err.Error())
 	}
 
-	if *protectedHeader.Alg != int(algInfo.CryptoAlg) {
+	if protectedHeader.Alg == nil || *protectedHeader.Alg != int(algInfo.CryptoAlg) {
 		return nil, errors.New("error! Encryption algorithms don't match")
 	}
 
 	nonceIvBytes := embInst.Unprotected.AESIV
+	if nonceIvBytes == nil || len(*nonceIvBytes) != algInfo.NonceIvLen {
+		return nil, errors.New("error! Missing or malformed nonce")
+	}
 
 	block, err := aes.NewCipher(sevk)
 	if err != nil {
-- 
2.43.0


From 9520e67d56dde03b2c19f34cbff1dcdb35d57325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 10/30] fix: use the key lengths the AES-CCM-16-128 suites are
 defined with

---
 core/shared/enc.crypto.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/shared/enc.crypto.go b/core/shared/enc.crypto.go
index 51a5b14..25ae884 100644
--- a/core/shared/enc.crypto.go
+++ b/core/shared/enc.crypto.go
@@ -105,7 +105,7 @@ var CipherSuitesInfoMap map[CipherSuiteName]CipherInfo = map[CipherSuiteName]Cip
 		HmacAlg:    HASH_HMAC_SHA256,
 		HashAlg:    HASH_SHA256,
 		KdfHmacAlg: HASH_HMAC_SHA256,
-		SevkLength: 32,
+		SevkLength: 16,
 		NonceIvLen: 13,
 		TagSize:    16,
 	},
@@ -115,7 +115,7 @@ var CipherSuitesInfoMap map[CipherSuiteName]CipherInfo = map[CipherSuiteName]Cip
 		HmacAlg:    HASH_HMAC_SHA384,
 		HashAlg:    HASH_SHA384,
 		KdfHmacAlg: HASH_HMAC_SHA256,
-		SevkLength: 16,
+		SevkLength: 32,
 		NonceIvLen: 13,
 		TagSize:    16,
 	},
-- 
2.43.0


From 309fb71cb22fde8cb231d0634891b1869193c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 11/30] fix: refuse TO2.ProveDevice without a setup nonce
 instead of crashing

---
 core/do/to2/listener-to2-64-ProveDevice.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index 4c8d8cf..dee9c0b 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -95,6 +95,11 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	if proveDevice64.Unprotected.EUPHNonce == nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Missing EUPHNonce", http.StatusBadRequest, testcomListener, fdoshared.To2)
+		return
+	}
+
 	// KEX
 	sessionKey, err := fdoshared.DeriveSessionKey(session.XAKex, eatPayload.EatFDO.XBKeyExchange, false, privateKeyInst)
 	if err != nil {
-- 
2.43.0


From 679de2717081c9c02fc6e217ce9e8cbe5a1e63f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:25 +0000
Subject: [PATCH 12/30] fix: refuse TO2.Done before the service info exchange
 is complete

A device could finish onboarding without delivering the mandatory items.
---
 core/do/to2/listener-to2-70-Done.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index de702bd..c8caadd 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -54,6 +54,11 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	if !session.OwnerSIMsFinishedSending {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "The service info exchange is not complete", http.StatusUnauthorized, testcomListener, fdoshared.To2)
+		return
+	}
+
 	var done70 fdoshared.Done70
 	err = fdoshared.CborCust.Unmarshal(bodyBytes, &done70)
 	if err != nil {
-- 
2.43.0


From 6af5928c2508163f9239884ecaedefc4762c84e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:39 +0000
Subject: [PATCH 13/30] fix: answer an undecodable TO2.Done with a single error

---
 core/do/to2/listener-to2-70-Done.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index c8caadd..b402268 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -62,12 +62,8 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 	var done70 fdoshared.Done70
 	err = fdoshared.CborCust.Unmarshal(bodyBytes, &done70)
 	if err != nil {
-		if testcomListener != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Failed to decode Done70. "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
-		}
-
 		log.Println("Done70: Error decoding request..." + err.Error())
-		fdoshared.RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to decode body!", http.StatusBadRequest)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to decode Done70. "+err.Error(), http.StatusBadRequest, testcomListener, fdoshared.To2)
 		return
 	}
 
-- 
2.43.0


From 661c92e6f0061b51fd1d634d05e47cc0ceacb3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:28 +0000
Subject: [PATCH 14/30] fix: device refuses an opening answer without owner key
 or nonce instead of crashing

---
 core/device/to2/req-to2-60-HelloDevice.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/device/to2/req-to2-60-HelloDevice.go b/core/device/to2/req-to2-60-HelloDevice.go
index 91e67c0..1e5d1f1 100644
--- a/core/device/to2/req-to2-60-HelloDevice.go
+++ b/core/device/to2/req-to2-60-HelloDevice.go
@@ -60,6 +60,14 @@ func (h *To2Requestor) HelloDevice60(fdoTestID testcom.FDOTestID) (*fdoshared.TO
 
 	// Signature verification
 	probableOwnerPubKey := proveOVHdr61.Unprotected.CUPHOwnerPubKey
+	if probableOwnerPubKey == nil {
+		return nil, nil, errors.New("HelloDevice60: ProveOVHdr61 is missing owner public key")
+	}
+
+	if proveOVHdr61.Unprotected.CUPHNonce == nil {
+		return nil, nil, errors.New("HelloDevice60: ProveOVHdr61 is missing NonceTO2ProveDv")
+	}
+
 	err = fdoshared.VerifyCoseSignature(proveOVHdr61, *probableOwnerPubKey)
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From c0ea09e88ca6d79aa1747f2421cb44014ac68579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:36 +0000
Subject: [PATCH 15/30] fix: command line device refuses a voucher without
 entries instead of crashing

---
 main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main.go b/main.go
index e1f0049..54933f6 100644
--- a/main.go
+++ b/main.go
@@ -522,6 +522,11 @@ func main() {
 								return nil
 							}
 
+							if len(ovEntries) == 0 {
+								log.Println("Server returned voucher without entries")
+								return nil
+							}
+
 							lastOvEntry := ovEntries[len(ovEntries)-1]
 							loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
 
-- 
2.43.0


From d7761cc992e8fb16be4eee760a0775d92c435576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:36 +0000
Subject: [PATCH 16/30] fix: command line device refuses a redirect without
 addresses instead of crashing

---
 main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.go b/main.go
index 54933f6..c54aaff 100644
--- a/main.go
+++ b/main.go
@@ -447,6 +447,10 @@ func main() {
 								return fmt.Errorf("error decoding TO1D payload! %s", err.Error())
 							}
 
+							if len(to1dPayload.To1dRV) == 0 {
+								return fmt.Errorf("error decoding TO1D payload! no owner addresses")
+							}
+
 							rvdns := to1dPayload.To1dRV[0].RVDNS
 							rvipd := to1dPayload.To1dRV[0].RVIP
 							rvport := to1dPayload.To1dRV[0].RVPort
-- 
2.43.0


From 13f365947a3eb90c5aa8f8a8079469174f85df94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:20 +0000
Subject: [PATCH 17/30] fix: a null answer is no protocol message

---
 core/shared/other.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/shared/other.go b/core/shared/other.go
index 23124f9..51bc22c 100644
--- a/core/shared/other.go
+++ b/core/shared/other.go
@@ -251,6 +251,11 @@ func DecodeErrorResponse(bodyBytes []byte) (*FdoError, error) {
 }
 
 func TryCborUnmarshal(bodyBytes []byte, target interface{}) (*FdoError, error) {
+	// Decoding null or undefined leaves the target as it was, and no FDO message is either
+	if len(bodyBytes) == 1 && (bodyBytes[0] == 0xf6 || bodyBytes[0] == 0xf7) {
+		return nil, errors.New("message is null")
+	}
+
 	err := CborCust.Unmarshal(bodyBytes, target)
 	if err != nil {
 		return DecodeErrorResponse(bodyBytes)
-- 
2.43.0


From 669249ef7f7dadc5c135f86eed46eae741d4272c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:23 +0000
Subject: [PATCH 18/30] fix: owner signs its registration with the key type it
 holds

---
 core/do/to0/req-to0-22-OwnerSign.go | 12 ++----------
 core/shared/signing.crypto.go       | 22 ++++++++++++++++++++++
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/core/do/to0/req-to0-22-OwnerSign.go b/core/do/to0/req-to0-22-OwnerSign.go
index 86db877..d8c3c47 100644
--- a/core/do/to0/req-to0-22-OwnerSign.go
+++ b/core/do/to0/req-to0-22-OwnerSign.go
@@ -65,22 +65,14 @@ func (h *To0Requestor) OwnerSign22(nonceTO0Sign fdoshared.FdoNonce, fdoTestId te
 	}
 
 	// TO1D CoseSignature
-	var lastOvEntryPubKeyPkType fdoshared.FdoPkType = fdoshared.SECP256R1
-	lastOvEntryPubKey, err := h.voucherDBEntry.Voucher.GetFinalOwnerPublicKey()
-	if err != nil {
-		return nil, nil, errors.New("OwnerSign22: Error extracting last OVEntry public key. " + err.Error())
-	}
-
-	lastOvEntryPubKeyPkType = lastOvEntryPubKey.PkType
-
 	privateKeyInst, err := fdoshared.ExtractPrivateKey(h.voucherDBEntry.PrivateKeyX509)
 	if err != nil {
 		return nil, nil, errors.New("OwnerSign22: Error extracting private key. " + err.Error())
 	}
 
-	sgType, err := fdoshared.GetDeviceSgType(lastOvEntryPubKeyPkType, deviceHashAlg)
+	sgType, err := fdoshared.GetPrivateKeySgType(privateKeyInst)
 	if err != nil {
-		return nil, nil, errors.New("OwnerSign22: Error getting device SgType. " + err.Error())
+		return nil, nil, errors.New("OwnerSign22: Error getting owner SgType. " + err.Error())
 	}
 
 	to1d, err := fdoshared.GenerateCoseSignature(to1dPayloadBytes, fdoshared.ProtectedHeader{}, fdoshared.UnprotectedHeader{}, privateKeyInst, sgType)
diff --git a/core/shared/signing.crypto.go b/core/shared/signing.crypto.go
index facc13e..b991bde 100644
--- a/core/shared/signing.crypto.go
+++ b/core/shared/signing.crypto.go
@@ -228,6 +228,28 @@ func ExtractPrivateKey(privateKeyDer []byte) (interface{}, error) {
 	return nil, fmt.Errorf("failed to parse private key")
 }
 
+// GetPrivateKeySgType returns the signature type that the given private key produces
+func GetPrivateKeySgType(privateKeyInterface interface{}) (SgType, error) {
+	switch privateKey := privateKeyInterface.(type) {
+	case *ecdsa.PrivateKey:
+		switch privateKey.Curve.Params().Name {
+		case "P-256":
+			return StSECP256R1, nil
+		case "P-384":
+			return StSECP384R1, nil
+		}
+	case *rsa.PrivateKey:
+		switch privateKey.N.BitLen() {
+		case 2048:
+			return StRSA2048, nil
+		case 3072:
+			return StRSA3072, nil
+		}
+	}
+
+	return 0, errors.New("unsupported private key")
+}
+
 // https://crypto.stackexchange.com/a/50719
 func i2osp(coeff []byte, expecteCoeffLen int) ([]byte, error) {
 	// if len(rep(i)) is two larger or more than n then error;
-- 
2.43.0


From 5d9faf3a33cb2644803cec11d01b9e3920587b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:25 +0000
Subject: [PATCH 19/30] fix: server test results are stored under the run they
 belong to

---
 core/shared/testcom/dbs/reqt.db.go | 128 +++++++++++++++++++----------
 testexec/do.to2.60.execute.go      |   8 +-
 testexec/do.to2.62.execute.go      |  18 ++--
 testexec/do.to2.64.execute.go      |   8 +-
 testexec/do.to2.66.execute.go      |   8 +-
 testexec/do.to2.68.execute.go      |  20 ++---
 testexec/do.to2.70.execute.go      |   8 +-
 testexec/do.to2.execute.go         |   4 +-
 testexec/rvt.to0.execute.go        |  28 +++----
 testexec/rvt.to1.execute.go        |  24 +++---
 10 files changed, 147 insertions(+), 107 deletions(-)

diff --git a/core/shared/testcom/dbs/reqt.db.go b/core/shared/testcom/dbs/reqt.db.go
index 3b5e4e0..e1b56f6 100644
--- a/core/shared/testcom/dbs/reqt.db.go
+++ b/core/shared/testcom/dbs/reqt.db.go
@@ -120,73 +120,113 @@ func (h *RequestTestDB) GetMany(rvtids [][]byte) (*[]reqtestsdeps.RequestTestIns
 	return &rvts, nil
 }
 
-func (h *RequestTestDB) StartNewRun(rvteid []byte) {
-	log.Printf("----- Starting New Run For %s -----", hex.EncodeToString(rvteid))
-	rvte, err := h.Get(rvteid)
-	if err != nil {
-		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
+// modify applies change to the stored entry in a single transaction, so that simultaneous modifications of one entry do not undo each other
+func (h *RequestTestDB) modify(rvteid []byte, change func(rvte *reqtestsdeps.RequestTestInst)) error {
+	rvteStorageId := append(h.prefix, rvteid...)
+
+	for {
+		err := h.db.Update(func(dbtxn *badger.Txn) error {
+			item, err := dbtxn.Get(rvteStorageId)
+			if err != nil {
+				return err
+			}
+
+			itemBytes, err := item.ValueCopy(nil)
+			if err != nil {
+				return err
+			}
+
+			var rvte reqtestsdeps.RequestTestInst
+			err = fdoshared.CborCust.Unmarshal(itemBytes, &rvte)
+			if err != nil {
+				return err
+			}
+
+			change(&rvte)
+
+			rvteBytes, err := fdoshared.CborCust.Marshal(rvte)
+			if err != nil {
+				return err
+			}
+
+			return dbtxn.SetEntry(badger.NewEntry(rvteStorageId, rvteBytes).WithTTL(time.Second * time.Duration(h.ttl)))
+		})
+		if !errors.Is(err, badger.ErrConflict) {
+			return err
+		}
 	}
+}
 
-	newRVTestRun := reqtestsdeps.NewRVTestRun(rvte.Protocol)
+// StartNewRun registers a new run of the entry and returns it. Reports are filed under the run they belong to
+func (h *RequestTestDB) StartNewRun(rvteid []byte) reqtestsdeps.RequestTestRun {
+	log.Printf("----- Starting New Run For %s -----", hex.EncodeToString(rvteid))
 
-	rvte.InProgress = true
-	rvte.CurrentTestRun = newRVTestRun
-	rvte.TestsHistory = append([]reqtestsdeps.RequestTestRun{newRVTestRun}, rvte.TestsHistory...)
+	var newTestRun reqtestsdeps.RequestTestRun
+	err := h.modify(rvteid, func(rvte *reqtestsdeps.RequestTestInst) {
+		newTestRun = reqtestsdeps.NewRVTestRun(rvte.Protocol)
 
-	err = h.Save(*rvte)
+		rvte.InProgress = true
+		rvte.CurrentTestRun = newTestRun
+		rvte.TestsHistory = append([]reqtestsdeps.RequestTestRun{newTestRun}, rvte.TestsHistory...)
+	})
 	if err != nil {
-		log.Printf("%s error saving test entry.", hex.EncodeToString(rvteid))
+		log.Printf("%s error saving test entry. %s", hex.EncodeToString(rvteid), err.Error())
 	}
-}
 
-func (h *RequestTestDB) FinishRun(rvteid []byte) {
-	rvte, err := h.Get(rvteid)
-	if err != nil {
-		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
-	}
-
-	rvte.InProgress = false
+	return newTestRun
+}
 
-	err = h.Save(*rvte)
+func (h *RequestTestDB) FinishRun(rvteid []byte, testRunId string) {
+	err := h.modify(rvteid, func(rvte *reqtestsdeps.RequestTestInst) {
+		if rvte.CurrentTestRun.Uuid == testRunId {
+			rvte.InProgress = false
+		}
+	})
 	if err != nil {
-		log.Printf("%s error saving test entry.", hex.EncodeToString(rvteid))
+		log.Printf("%s error saving test entry. %s", hex.EncodeToString(rvteid), err.Error())
 	}
 
 	log.Printf("----- Finishing Run For %s -----", hex.EncodeToString(rvteid))
 }
 
-func (h *RequestTestDB) ReportTest(rvteid []byte, testID testcom.FDOTestID, testResult testcom.FDOTestState) {
-	rvte, err := h.Get(rvteid)
-	if err != nil {
-		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
-	}
+func (h *RequestTestDB) ReportTest(rvteid []byte, testRunId string, testID testcom.FDOTestID, testResult testcom.FDOTestState) {
+	err := h.modify(rvteid, func(rvte *reqtestsdeps.RequestTestInst) {
+		if rvte.CurrentTestRun.Uuid == testRunId {
+			if rvte.CurrentTestRun.Tests == nil {
+				rvte.CurrentTestRun.Tests = reqtestsdeps.RequestTestResultMap{}
+			}
 
-	rvte.CurrentTestRun.Tests[testID] = testResult
-	rvte.TestsHistory[0] = rvte.CurrentTestRun
+			rvte.CurrentTestRun.Tests[testID] = testResult
+		}
 
-	err = h.Save(*rvte)
+		// The run may have been removed from the history while it was in progress
+		for i := range rvte.TestsHistory {
+			if rvte.TestsHistory[i].Uuid == testRunId {
+				if rvte.TestsHistory[i].Tests == nil {
+					rvte.TestsHistory[i].Tests = reqtestsdeps.RequestTestResultMap{}
+				}
+
+				rvte.TestsHistory[i].Tests[testID] = testResult
+			}
+		}
+	})
 	if err != nil {
-		log.Printf("%s error saving test entry.", hex.EncodeToString(rvteid))
+		log.Printf("%s error saving test entry. %s", hex.EncodeToString(rvteid), err.Error())
 	}
 }
 
 func (h *RequestTestDB) RemoveTestRun(rvteid []byte, testRunId string) {
-	rvte, err := h.Get(rvteid)
-	if err != nil {
-		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
-	}
-
-	var updatedTestsHistory []reqtestsdeps.RequestTestRun = []reqtestsdeps.RequestTestRun{}
-	for _, testRunEntry := range rvte.TestsHistory {
-		if testRunEntry.Uuid != testRunId {
-			updatedTestsHistory = append(updatedTestsHistory, testRunEntry)
+	err := h.modify(rvteid, func(rvte *reqtestsdeps.RequestTestInst) {
+		var updatedTestsHistory []reqtestsdeps.RequestTestRun = []reqtestsdeps.RequestTestRun{}
+		for _, testRunEntry := range rvte.TestsHistory {
+			if testRunEntry.Uuid != testRunId {
+				updatedTestsHistory = append(updatedTestsHistory, testRunEntry)
+			}
 		}
-	}
-
-	rvte.TestsHistory = updatedTestsHistory
 
-	err = h.Save(*rvte)
+		rvte.TestsHistory = updatedTestsHistory
+	})
 	if err != nil {
-		log.Printf("%s error saving test entry.", hex.EncodeToString(rvteid))
+		log.Printf("%s error saving test entry. %s", hex.EncodeToString(rvteid), err.Error())
 	}
 }
diff --git a/testexec/do.to2.60.execute.go b/testexec/do.to2.60.execute.go
index ed9dc2f..55d824d 100644
--- a/testexec/do.to2.60.execute.go
+++ b/testexec/do.to2.60.execute.go
@@ -14,7 +14,7 @@ func executeTo2_60(reqte reqtestsdeps.RequestTestInst, reqtDB *dbs.RequestTestDB
 		if err != nil {
 			errTestState := testcom.NewFailTestState(fdoTestId, "Error getting voucher for TO2 60. "+err.Error())
 
-			reqtDB.ReportTest(reqte.Uuid, testcom.NULL_TEST, errTestState)
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testcom.NULL_TEST, errTestState)
 			return
 		}
 
@@ -30,11 +30,11 @@ func executeTo2_60(reqte reqtestsdeps.RequestTestInst, reqtDB *dbs.RequestTestDB
 			if err != nil {
 				errTestState := testcom.NewFailTestState(fdoTestId, err.Error())
 
-				reqtDB.ReportTest(reqte.Uuid, fdoTestId, errTestState)
+				reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, fdoTestId, errTestState)
 				return
 			} else {
 				errTestState = testcom.NewSuccessTestState(fdoTestId)
-				reqtDB.ReportTest(reqte.Uuid, fdoTestId, errTestState)
+				reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, fdoTestId, errTestState)
 			}
 
 		default:
@@ -44,7 +44,7 @@ func executeTo2_60(reqte reqtestsdeps.RequestTestInst, reqtDB *dbs.RequestTestDB
 				rvtTestState = &errTestState
 			}
 
-			reqtDB.ReportTest(reqte.Uuid, fdoTestId, *rvtTestState)
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, fdoTestId, *rvtTestState)
 		}
 	}
 }
diff --git a/testexec/do.to2.62.execute.go b/testexec/do.to2.62.execute.go
index eb22bed..a603d79 100644
--- a/testexec/do.to2.62.execute.go
+++ b/testexec/do.to2.62.execute.go
@@ -20,7 +20,7 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				Error:  "Error getting voucher for TO2 60. " + err.Error(),
 			}
 
-			reqtDB.ReportTest(reqte.Uuid, testcom.NULL_TEST, errTestState)
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testcom.NULL_TEST, errTestState)
 			return
 		}
 
@@ -35,7 +35,7 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				Passed: false,
 				Error:  "Error running TO2 GetOVNextEntry62 tests. Failed to run HelloDevice60. " + err.Error(),
 			}
-			reqtDB.ReportTest(reqte.Uuid, testcom.NULL_TEST, errTestState)
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testcom.NULL_TEST, errTestState)
 			return
 		}
 
@@ -46,7 +46,7 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 			for i := 0; i < int(proveOVHdrPayload61.NumOVEntries); i++ {
 				nextEntry, _, err := to2requestor.GetOVNextEntry62(uint8(i), testId)
 				if err != nil {
-					reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+					reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, testcom.FDOTestState{
 						Passed: false,
 						Error:  err.Error(),
 					})
@@ -54,7 +54,7 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				}
 
 				if nextEntry.OVEntryNum != uint8(i) {
-					reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+					reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, testcom.FDOTestState{
 						Passed: false,
 						Error:  fmt.Sprintf("Server returned unexpected nextOvEntry. Expected %d. Got %d", i, nextEntry.OVEntryNum),
 					})
@@ -66,7 +66,7 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 
 			err = ovEntries.VerifyEntries(proveOVHdrPayload61.OVHeader, proveOVHdrPayload61.HMac)
 			if err != nil {
-				reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+				reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, testcom.FDOTestState{
 					Passed: false,
 					Error:  err.Error(),
 				})
@@ -78,7 +78,7 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 
 			err = to2requestor.ProveOVHdr61PubKey.Equal(loePubKey)
 			if err != nil {
-				reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+				reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, testcom.FDOTestState{
 					Passed: false,
 					Error:  err.Error(),
 				})
@@ -88,7 +88,7 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 			errTestState := testcom.FDOTestState{
 				Passed: true,
 			}
-			reqtDB.ReportTest(reqte.Uuid, testId, errTestState)
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, errTestState)
 
 		default:
 			randomTestIndex := fdoshared.NewRandomInt(0, int(proveOVHdrPayload61.NumOVEntries))
@@ -109,7 +109,7 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				log.Printf("Requesting GetOVNextEntry62 for entry %d \n", i)
 				_, testState, err := to2requestor.GetOVNextEntry62(uint8(selectedNextEntry), selectedTestId)
 				if testState == nil && err != nil {
-					reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+					reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, testcom.FDOTestState{
 						Passed: false,
 						Error:  err.Error(),
 					})
@@ -117,7 +117,7 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				}
 
 				if randomTestIndex == i {
-					reqtDB.ReportTest(reqte.Uuid, testId, *testState)
+					reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, *testState)
 				}
 			}
 		}
diff --git a/testexec/do.to2.64.execute.go b/testexec/do.to2.64.execute.go
index f841de1..fb94c33 100644
--- a/testexec/do.to2.64.execute.go
+++ b/testexec/do.to2.64.execute.go
@@ -58,7 +58,7 @@ func executeTo2_64(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 	for _, testId := range testcom.FIDO_TEST_LIST_DOT_64 {
 		to2requestor, err := preExecuteTo2_64(reqte)
 		if err != nil {
-			reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, testcom.FDOTestState{
 				Passed: false,
 				Error:  "Error running TO2 ProveDevice64 batch. Pre setup failed. " + err.Error(),
 			})
@@ -74,13 +74,13 @@ func executeTo2_64(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 					Passed: false,
 					Error:  err.Error(),
 				}
-				reqtDB.ReportTest(reqte.Uuid, testId, errTestState)
+				reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, errTestState)
 				return
 			} else {
 				errTestState = testcom.FDOTestState{
 					Passed: true,
 				}
-				reqtDB.ReportTest(reqte.Uuid, testId, errTestState)
+				reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, errTestState)
 			}
 
 		default:
@@ -94,7 +94,7 @@ func executeTo2_64(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				rvtTestState = &errTestState
 			}
 
-			reqtDB.ReportTest(reqte.Uuid, testId, *rvtTestState)
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, *rvtTestState)
 		}
 	}
 }
diff --git a/testexec/do.to2.66.execute.go b/testexec/do.to2.66.execute.go
index 76b9293..62b05d3 100644
--- a/testexec/do.to2.66.execute.go
+++ b/testexec/do.to2.66.execute.go
@@ -63,7 +63,7 @@ func executeTo2_66(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 	for _, testId := range testcom.FIDO_TEST_LIST_DOT_66 {
 		to2requestor, err := preExecuteTo2_66(reqte)
 		if err != nil {
-			reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, testcom.FDOTestState{
 				Passed: false,
 				Error:  "Error running TO2 DeviceServiceInfoReady66 batch. Pre setup failed. " + err.Error(),
 			})
@@ -74,13 +74,13 @@ func executeTo2_66(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 		case testcom.FIDO_DOT_66_POSITIVE:
 			_, _, err := to2requestor.DeviceServiceInfoReady66(testId)
 			if err != nil {
-				reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+				reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, testcom.FDOTestState{
 					Passed: false,
 					Error:  err.Error(),
 				})
 				return
 			} else {
-				reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+				reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, testcom.FDOTestState{
 					Passed: true,
 				})
 			}
@@ -96,7 +96,7 @@ func executeTo2_66(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				rvtTestState = &errTestState
 			}
 
-			reqtDB.ReportTest(reqte.Uuid, testId, *rvtTestState)
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, *rvtTestState)
 		}
 	}
 }
diff --git a/testexec/do.to2.68.execute.go b/testexec/do.to2.68.execute.go
index def4810..3a6d2eb 100644
--- a/testexec/do.to2.68.execute.go
+++ b/testexec/do.to2.68.execute.go
@@ -71,7 +71,7 @@ func executeTo2_68(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 	for _, testId := range testcom.FIDO_TEST_LIST_DOT_68 {
 		to2requestor, err := preExecuteTo2_68(reqte)
 		if err != nil {
-			reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, testcom.FDOTestState{
 				Passed: false,
 				Error:  "Error running TO2 DeviceServiceInfoReady66 batch. Pre setup failed. " + err.Error(),
 			})
@@ -91,7 +91,7 @@ func executeTo2_68(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				}
 				_, _, err := to2requestor.DeviceServiceInfo68(deviceInfo, testcom.NULL_TEST)
 				if err != nil {
-					reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+					reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, testcom.FDOTestState{
 						Passed: false,
 						Error:  err.Error(),
 					})
@@ -106,7 +106,7 @@ func executeTo2_68(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 					IsMoreServiceInfo: false,
 				}, testcom.NULL_TEST)
 				if err != nil {
-					reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+					reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, testcom.FDOTestState{
 						Passed: false,
 						Error:  err.Error(),
 					})
@@ -121,7 +121,7 @@ func executeTo2_68(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 
 				maxCounter = maxCounter - 1
 				if maxCounter <= 0 {
-					reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+					reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, testcom.FDOTestState{
 						Passed: false,
 						Error:  "Error running positive test. Owner sent more than 255 SIMs",
 					})
@@ -129,7 +129,7 @@ func executeTo2_68(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				}
 			}
 
-			reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, testcom.FDOTestState{
 				Passed: true,
 			})
 
@@ -159,7 +159,7 @@ func executeTo2_68(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 
 				_, testState, err = to2requestor.DeviceServiceInfo68(deviceInfo, selectedTestId)
 				if testState == nil && err != nil {
-					reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+					reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, testcom.FDOTestState{
 						Passed: false,
 						Error:  err.Error(),
 					})
@@ -172,7 +172,7 @@ func executeTo2_68(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 			}
 
 			if testState != nil {
-				reqtDB.ReportTest(reqte.Uuid, testId, *testState)
+				reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, *testState)
 				continue
 			}
 
@@ -197,7 +197,7 @@ func executeTo2_68(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 
 				_, testState, err := to2requestor.DeviceServiceInfo68(getOwnerInfo, selectedTestId)
 				if testState == nil && err != nil {
-					reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+					reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, testcom.FDOTestState{
 						Passed: false,
 						Error:  err.Error(),
 					})
@@ -207,13 +207,13 @@ func executeTo2_68(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				log.Println("Receiving OwnerSim DeviceServiceInfo68")
 
 				if testId == testcom.FIDO_DOT_68_BAD_COMPLETION_LOGIC && maxCounter != 255 {
-					reqtDB.ReportTest(reqte.Uuid, testId, *testState)
+					reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, *testState)
 					break
 				}
 
 				maxCounter = maxCounter - 1
 				if maxCounter <= 0 {
-					reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+					reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, testcom.FDOTestState{
 						Passed: false,
 						Error:  "Error running test. Too many SIMs or retries.",
 					})
diff --git a/testexec/do.to2.70.execute.go b/testexec/do.to2.70.execute.go
index 7ae34bc..4b88749 100644
--- a/testexec/do.to2.70.execute.go
+++ b/testexec/do.to2.70.execute.go
@@ -105,7 +105,7 @@ func executeTo2_70(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 	for _, testId := range testcom.FIDO_TEST_LIST_DOT_70 {
 		to2requestor, err := preExecuteTo2_70(reqte)
 		if err != nil {
-			reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, testcom.FDOTestState{
 				Passed: false,
 				Error:  "Error running TO2 batch. Pre setup failed. " + err.Error(),
 			})
@@ -116,13 +116,13 @@ func executeTo2_70(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 		case testcom.FIDO_DOT_70_POSITIVE:
 			_, _, err = to2requestor.Done70(testcom.NULL_TEST)
 			if err != nil {
-				reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+				reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, testcom.FDOTestState{
 					Passed: false,
 					Error:  err.Error(),
 				})
 				return
 			} else {
-				reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+				reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, testcom.FDOTestState{
 					Passed: true,
 				})
 			}
@@ -138,7 +138,7 @@ func executeTo2_70(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				rvtTestState = &errTestState
 			}
 
-			reqtDB.ReportTest(reqte.Uuid, testId, *rvtTestState)
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, *rvtTestState)
 		}
 	}
 }
diff --git a/testexec/do.to2.execute.go b/testexec/do.to2.execute.go
index a34c173..d1950f7 100644
--- a/testexec/do.to2.execute.go
+++ b/testexec/do.to2.execute.go
@@ -6,7 +6,7 @@ import (
 )
 
 func ExecuteDOTestsTo2(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB) {
-	reqtDB.StartNewRun(reqte.Uuid)
+	reqte.CurrentTestRun = reqtDB.StartNewRun(reqte.Uuid)
 
 	executeTo2_60(reqte, reqtDB)
 	executeTo2_62(reqte, reqtDB)
@@ -15,5 +15,5 @@ func ExecuteDOTestsTo2(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 	executeTo2_68(reqte, reqtDB)
 	executeTo2_70(reqte, reqtDB)
 
-	reqtDB.FinishRun(reqte.Uuid)
+	reqtDB.FinishRun(reqte.Uuid, reqte.CurrentTestRun.Uuid)
 }
diff --git a/testexec/rvt.to0.execute.go b/testexec/rvt.to0.execute.go
index 307e646..29d8dda 100644
--- a/testexec/rvt.to0.execute.go
+++ b/testexec/rvt.to0.execute.go
@@ -12,7 +12,7 @@ import (
 )
 
 func ExecuteRVTestsTo0(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB, devDB *dbs.DeviceBaseDB, ctx context.Context) {
-	reqtDB.StartNewRun(reqte.Uuid)
+	reqte.CurrentTestRun = reqtDB.StartNewRun(reqte.Uuid)
 
 	for _, rv20test := range testcom.FIDO_TEST_LIST_RVT_20 {
 		randomGuid := reqte.FdoSeedIDs.GetRandomTestGuid()
@@ -23,7 +23,7 @@ func ExecuteRVTestsTo0(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 				Error:  err.Error(),
 			}
 
-			reqtDB.ReportTest(reqte.Uuid, rv20test, errTestState)
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, rv20test, errTestState)
 			continue
 		}
 
@@ -40,13 +40,13 @@ func ExecuteRVTestsTo0(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 					Passed: false,
 					Error:  err.Error(),
 				}
-				reqtDB.ReportTest(reqte.Uuid, rv20test, errTestState)
+				reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, rv20test, errTestState)
 				continue
 			} else {
 				errTestState = testcom.FDOTestState{
 					Passed: true,
 				}
-				reqtDB.ReportTest(reqte.Uuid, rv20test, errTestState)
+				reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, rv20test, errTestState)
 			}
 
 		default:
@@ -58,7 +58,7 @@ func ExecuteRVTestsTo0(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 				}
 			}
 
-			reqtDB.ReportTest(reqte.Uuid, rv20test, *testState)
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, rv20test, *testState)
 		}
 	}
 
@@ -71,7 +71,7 @@ func ExecuteRVTestsTo0(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 				Error:  err.Error(),
 			}
 
-			reqtDB.ReportTest(reqte.Uuid, rv22test, errTestState)
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, rv22test, errTestState)
 			continue
 		}
 
@@ -86,7 +86,7 @@ func ExecuteRVTestsTo0(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 				Passed: false,
 				Error:  err.Error(),
 			}
-			reqtDB.ReportTest(reqte.Uuid, rv22test, errTestState)
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, rv22test, errTestState)
 			continue
 		}
 
@@ -98,13 +98,13 @@ func ExecuteRVTestsTo0(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 					Passed: false,
 					Error:  err.Error(),
 				}
-				reqtDB.ReportTest(reqte.Uuid, rv22test, errTestState)
+				reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, rv22test, errTestState)
 				continue
 			} else {
 				errTestState = testcom.FDOTestState{
 					Passed: true,
 				}
-				reqtDB.ReportTest(reqte.Uuid, rv22test, errTestState)
+				reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, rv22test, errTestState)
 			}
 
 		default:
@@ -118,7 +118,7 @@ func ExecuteRVTestsTo0(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 				rvtTestState = &errTestState
 			}
 
-			reqtDB.ReportTest(reqte.Uuid, rv22test, *rvtTestState)
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, rv22test, *rvtTestState)
 		}
 	}
 
@@ -131,7 +131,7 @@ func ExecuteRVTestsTo0(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 				Error:  err.Error(),
 			}
 
-			reqtDB.ReportTest(reqte.Uuid, rv22VoucherTest, errTestState)
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, rv22VoucherTest, errTestState)
 			continue
 		}
 
@@ -146,7 +146,7 @@ func ExecuteRVTestsTo0(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 				Passed: false,
 				Error:  err.Error(),
 			}
-			reqtDB.ReportTest(reqte.Uuid, rv22VoucherTest, errTestState)
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, rv22VoucherTest, errTestState)
 			continue
 		}
 
@@ -160,8 +160,8 @@ func ExecuteRVTestsTo0(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 			rvtTestState = &errTestState
 		}
 
-		reqtDB.ReportTest(reqte.Uuid, rv22VoucherTest, *rvtTestState)
+		reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, rv22VoucherTest, *rvtTestState)
 	}
 
-	reqtDB.FinishRun(reqte.Uuid)
+	reqtDB.FinishRun(reqte.Uuid, reqte.CurrentTestRun.Uuid)
 }
diff --git a/testexec/rvt.to1.execute.go b/testexec/rvt.to1.execute.go
index e235f8e..16fec41 100644
--- a/testexec/rvt.to1.execute.go
+++ b/testexec/rvt.to1.execute.go
@@ -13,7 +13,7 @@ import (
 )
 
 func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB, devDB *dbs.DeviceBaseDB, ctx context.Context) {
-	reqtDB.StartNewRun(reqte.Uuid)
+	reqte.CurrentTestRun = reqtDB.StartNewRun(reqte.Uuid)
 
 	// Generating voucher
 	randomGuid := reqte.FdoSeedIDs.GetRandomTestGuid()
@@ -24,7 +24,7 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 			Error:  err.Error(),
 		}
 
-		reqtDB.ReportTest(reqte.Uuid, testcom.NULL_TO1_SETUP, errTestState)
+		reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testcom.NULL_TO1_SETUP, errTestState)
 		return
 	}
 
@@ -41,7 +41,7 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 			Passed: false,
 			Error:  err.Error(),
 		}
-		reqtDB.ReportTest(reqte.Uuid, testcom.NULL_TO1_SETUP, errTestState)
+		reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testcom.NULL_TO1_SETUP, errTestState)
 		return
 	}
 
@@ -51,7 +51,7 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 			Passed: false,
 			Error:  err.Error(),
 		}
-		reqtDB.ReportTest(reqte.Uuid, testcom.NULL_TO1_SETUP, errTestState)
+		reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testcom.NULL_TO1_SETUP, errTestState)
 		return
 	}
 
@@ -72,13 +72,13 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 					Passed: false,
 					Error:  err.Error(),
 				}
-				reqtDB.ReportTest(reqte.Uuid, rv30test, errTestState)
+				reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, rv30test, errTestState)
 				return
 			} else {
 				errTestState = testcom.FDOTestState{
 					Passed: true,
 				}
-				reqtDB.ReportTest(reqte.Uuid, rv30test, errTestState)
+				reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, rv30test, errTestState)
 			}
 
 		default:
@@ -92,7 +92,7 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 				rvtTestState = &errTestState
 			}
 
-			reqtDB.ReportTest(reqte.Uuid, rv30test, *rvtTestState)
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, rv30test, *rvtTestState)
 		}
 	}
 
@@ -103,7 +103,7 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 				Passed: false,
 				Error:  "Error running test. Hello RV30 failed!" + err.Error(),
 			}
-			reqtDB.ReportTest(reqte.Uuid, rv32test, errTestState)
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, rv32test, errTestState)
 			continue
 		}
 
@@ -118,13 +118,13 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 					Passed: false,
 					Error:  err.Error(),
 				}
-				reqtDB.ReportTest(reqte.Uuid, rv32test, errTestState)
+				reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, rv32test, errTestState)
 				return
 			} else {
 				errTestState = testcom.FDOTestState{
 					Passed: true,
 				}
-				reqtDB.ReportTest(reqte.Uuid, rv32test, errTestState)
+				reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, rv32test, errTestState)
 			}
 
 		default:
@@ -138,9 +138,9 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 				rvtTestState = &errTestState
 			}
 
-			reqtDB.ReportTest(reqte.Uuid, rv32test, *rvtTestState)
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, rv32test, *rvtTestState)
 		}
 	}
 
-	reqtDB.FinishRun(reqte.Uuid)
+	reqtDB.FinishRun(reqte.Uuid, reqte.CurrentTestRun.Uuid)
 }
-- 
2.43.0


From fd7b4cdec3c4312832d5d441236cdd3b7c7bb8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 20/30] fix: rendezvous test run finishes after a failed setup
 or positive test

---
 testexec/rvt.to1.execute.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/testexec/rvt.to1.execute.go b/testexec/rvt.to1.execute.go
index 16fec41..a8f92e9 100644
--- a/testexec/rvt.to1.execute.go
+++ b/testexec/rvt.to1.execute.go
@@ -14,6 +14,7 @@ import (
 
 func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB, devDB *dbs.DeviceBaseDB, ctx context.Context) {
 	reqte.CurrentTestRun = reqtDB.StartNewRun(reqte.Uuid)
+	defer reqtDB.FinishRun(reqte.Uuid, reqte.CurrentTestRun.Uuid)
 
 	// Generating voucher
 	randomGuid := reqte.FdoSeedIDs.GetRandomTestGuid()
@@ -111,7 +112,7 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 
 		case testcom.FIDO_DEVT_33_POSITIVE:
 			var errTestState testcom.FDOTestState
-			_, _, err := to1inst.ProveToRV32(*helloRvAck31, rv32test)
+			_, _, err := to1inst.ProveToRV32(*helloRvAck31, testcom.NULL_TEST)
 
 			if err != nil {
 				errTestState = testcom.FDOTestState{
@@ -141,6 +142,4 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, rv32test, *rvtTestState)
 		}
 	}
-
-	reqtDB.FinishRun(reqte.Uuid, reqte.CurrentTestRun.Uuid)
 }
-- 
2.43.0


From 6da6680badfc289c1313b21606e62996cab42e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:30 +0000
Subject: [PATCH 21/30] fix: onboarding test runs judge each test by its own
 request and answer

---
 core/shared/testcom/request/rvt.db.go |  2 +-
 testexec/do.to2.60.execute.go         |  4 ++--
 testexec/do.to2.62.execute.go         | 13 +++++++++++--
 testexec/do.to2.64.execute.go         | 11 +++++++++--
 testexec/do.to2.66.execute.go         | 11 +++++++++--
 testexec/do.to2.68.execute.go         |  8 +++++++-
 testexec/do.to2.70.execute.go         |  7 ++++++-
 7 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/core/shared/testcom/request/rvt.db.go b/core/shared/testcom/request/rvt.db.go
index 08c03e5..c6a94f2 100644
--- a/core/shared/testcom/request/rvt.db.go
+++ b/core/shared/testcom/request/rvt.db.go
@@ -14,7 +14,7 @@ type TestVouchers map[testcom.FDOTestID][]fdoshared.DeviceCredAndVoucher
 
 func (h *TestVouchers) GetVoucher(testId testcom.FDOTestID) (*fdoshared.DeviceCredAndVoucher, error) {
 	for k, v := range *h {
-		if k == testId {
+		if k == testId && len(v) != 0 {
 			randVoucherId := fdoshared.NewRandomInt(0, len(v)-1)
 
 			return &v[randVoucherId], nil
diff --git a/testexec/do.to2.60.execute.go b/testexec/do.to2.60.execute.go
index 55d824d..627a092 100644
--- a/testexec/do.to2.60.execute.go
+++ b/testexec/do.to2.60.execute.go
@@ -14,7 +14,7 @@ func executeTo2_60(reqte reqtestsdeps.RequestTestInst, reqtDB *dbs.RequestTestDB
 		if err != nil {
 			errTestState := testcom.NewFailTestState(fdoTestId, "Error getting voucher for TO2 60. "+err.Error())
 
-			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testcom.NULL_TEST, errTestState)
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, fdoTestId, errTestState)
 			return
 		}
 
@@ -26,7 +26,7 @@ func executeTo2_60(reqte reqtestsdeps.RequestTestInst, reqtDB *dbs.RequestTestDB
 		switch fdoTestId {
 		case testcom.FIDO_DOT_60_POSITIVE:
 			var errTestState testcom.FDOTestState
-			_, _, err := to2requestor.HelloDevice60(fdoTestId)
+			_, _, err := to2requestor.HelloDevice60(testcom.NULL_TEST)
 			if err != nil {
 				errTestState := testcom.NewFailTestState(fdoTestId, err.Error())
 
diff --git a/testexec/do.to2.62.execute.go b/testexec/do.to2.62.execute.go
index a603d79..dfdfc4a 100644
--- a/testexec/do.to2.62.execute.go
+++ b/testexec/do.to2.62.execute.go
@@ -20,7 +20,7 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				Error:  "Error getting voucher for TO2 60. " + err.Error(),
 			}
 
-			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testcom.NULL_TEST, errTestState)
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, errTestState)
 			return
 		}
 
@@ -35,7 +35,15 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 				Passed: false,
 				Error:  "Error running TO2 GetOVNextEntry62 tests. Failed to run HelloDevice60. " + err.Error(),
 			}
-			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testcom.NULL_TEST, errTestState)
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, errTestState)
+			return
+		}
+
+		if proveOVHdrPayload61.NumOVEntries == 0 {
+			reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, testcom.FDOTestState{
+				Passed: false,
+				Error:  "Error running TO2 GetOVNextEntry62 tests. Server returned voucher without OV entries",
+			})
 			return
 		}
 
@@ -118,6 +126,7 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 
 				if randomTestIndex == i {
 					reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, *testState)
+					break
 				}
 			}
 		}
diff --git a/testexec/do.to2.64.execute.go b/testexec/do.to2.64.execute.go
index fb94c33..4e3a4c4 100644
--- a/testexec/do.to2.64.execute.go
+++ b/testexec/do.to2.64.execute.go
@@ -1,6 +1,9 @@
 package testexec
 
 import (
+	"errors"
+	"fmt"
+
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -32,7 +35,7 @@ func preExecuteTo2_64(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		}
 
 		if nextEntry.OVEntryNum != uint8(i) {
-			return nil, err
+			return nil, fmt.Errorf("Server returned unexpected nextOvEntry. Expected %d. Got %d", i, nextEntry.OVEntryNum)
 		}
 
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
@@ -43,6 +46,10 @@ func preExecuteTo2_64(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		return nil, err
 	}
 
+	if len(ovEntries) == 0 {
+		return nil, errors.New("Server returned voucher without OV entries")
+	}
+
 	lastOvEntry := ovEntries[len(ovEntries)-1]
 	loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
 
@@ -68,7 +75,7 @@ func executeTo2_64(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 		switch testId {
 		case testcom.FIDO_DOT_64_POSITIVE:
 			var errTestState testcom.FDOTestState
-			_, _, err := to2requestor.ProveDevice64(testId)
+			_, _, err := to2requestor.ProveDevice64(testcom.NULL_TEST)
 			if err != nil {
 				errTestState = testcom.FDOTestState{
 					Passed: false,
diff --git a/testexec/do.to2.66.execute.go b/testexec/do.to2.66.execute.go
index 62b05d3..52d2edb 100644
--- a/testexec/do.to2.66.execute.go
+++ b/testexec/do.to2.66.execute.go
@@ -1,6 +1,9 @@
 package testexec
 
 import (
+	"errors"
+	"fmt"
+
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -32,7 +35,7 @@ func preExecuteTo2_66(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		}
 
 		if nextEntry.OVEntryNum != uint8(i) {
-			return nil, err
+			return nil, fmt.Errorf("Server returned unexpected nextOvEntry. Expected %d. Got %d", i, nextEntry.OVEntryNum)
 		}
 
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
@@ -43,6 +46,10 @@ func preExecuteTo2_66(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		return nil, err
 	}
 
+	if len(ovEntries) == 0 {
+		return nil, errors.New("Server returned voucher without OV entries")
+	}
+
 	lastOvEntry := ovEntries[len(ovEntries)-1]
 	loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
 
@@ -72,7 +79,7 @@ func executeTo2_66(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 
 		switch testId {
 		case testcom.FIDO_DOT_66_POSITIVE:
-			_, _, err := to2requestor.DeviceServiceInfoReady66(testId)
+			_, _, err := to2requestor.DeviceServiceInfoReady66(testcom.NULL_TEST)
 			if err != nil {
 				reqtDB.ReportTest(reqte.Uuid, reqte.CurrentTestRun.Uuid, testId, testcom.FDOTestState{
 					Passed: false,
diff --git a/testexec/do.to2.68.execute.go b/testexec/do.to2.68.execute.go
index 3a6d2eb..72e4734 100644
--- a/testexec/do.to2.68.execute.go
+++ b/testexec/do.to2.68.execute.go
@@ -1,6 +1,8 @@
 package testexec
 
 import (
+	"errors"
+	"fmt"
 	"log"
 
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
@@ -34,7 +36,7 @@ func preExecuteTo2_68(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		}
 
 		if nextEntry.OVEntryNum != uint8(i) {
-			return nil, err
+			return nil, fmt.Errorf("Server returned unexpected nextOvEntry. Expected %d. Got %d", i, nextEntry.OVEntryNum)
 		}
 
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
@@ -45,6 +47,10 @@ func preExecuteTo2_68(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		return nil, err
 	}
 
+	if len(ovEntries) == 0 {
+		return nil, errors.New("Server returned voucher without OV entries")
+	}
+
 	lastOvEntry := ovEntries[len(ovEntries)-1]
 	loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
 
diff --git a/testexec/do.to2.70.execute.go b/testexec/do.to2.70.execute.go
index 4b88749..36a3991 100644
--- a/testexec/do.to2.70.execute.go
+++ b/testexec/do.to2.70.execute.go
@@ -2,6 +2,7 @@ package testexec
 
 import (
 	"errors"
+	"fmt"
 
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
@@ -34,7 +35,7 @@ func preExecuteTo2_70(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		}
 
 		if nextEntry.OVEntryNum != uint8(i) {
-			return nil, err
+			return nil, fmt.Errorf("Server returned unexpected nextOvEntry. Expected %d. Got %d", i, nextEntry.OVEntryNum)
 		}
 
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
@@ -45,6 +46,10 @@ func preExecuteTo2_70(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		return nil, err
 	}
 
+	if len(ovEntries) == 0 {
+		return nil, errors.New("Server returned voucher without OV entries")
+	}
+
 	lastOvEntry := ovEntries[len(ovEntries)-1]
 	loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
 
-- 
2.43.0


From 88b81075df53e12764581cc53e1dc85b858d2234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:23 +0000
Subject: [PATCH 22/30] fix: the deliberately defective messages are defective
 for every suite and every pick

---
 core/shared/conformance.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/core/shared/conformance.go b/core/shared/conformance.go
index eb59242..92a853f 100644
--- a/core/shared/conformance.go
+++ b/core/shared/conformance.go
@@ -9,7 +9,7 @@ import (
 // CONFORMANCE TESTING
 func Conf_NewRandomSgTypeExcept(exceptSg SgType) SgType {
 	for {
-		randLoc := NewRandomInt(0, len(SgTypeList)-1)
+		randLoc := NewRandomInt(0, len(SgTypeList))
 
 		if SgTypeList[randLoc] != exceptSg {
 			return SgTypeList[randLoc]
@@ -34,7 +34,7 @@ func Conf_NewRandomHashHmacAlgExcept(exceptHashAlg HashType) HashType {
 
 func Conf_NewRandomFdoPkTypeExcept(exceptAlg FdoPkType) FdoPkType {
 	for {
-		randLoc := NewRandomInt(0, len(FdoPkType_List)-1)
+		randLoc := NewRandomInt(0, len(FdoPkType_List))
 
 		if FdoPkType_List[randLoc] != exceptAlg {
 			return FdoPkType_List[randLoc]
@@ -44,7 +44,7 @@ func Conf_NewRandomFdoPkTypeExcept(exceptAlg FdoPkType) FdoPkType {
 
 func Conf_NewRandomFdoPkEncExcept(exceptAlg FdoPkEnc) FdoPkEnc {
 	for {
-		randLoc := NewRandomInt(0, len(FdoPkEnc_List)-1)
+		randLoc := NewRandomInt(0, len(FdoPkEnc_List))
 
 		if FdoPkEnc_List[randLoc] != exceptAlg {
 			return FdoPkEnc_List[randLoc]
@@ -89,7 +89,7 @@ var Conf_CborTypes_List []Conf_CborTypes = []Conf_CborTypes{
 func Conf_RandomTypeExcept(exceptType *Conf_CborTypes) interface{} {
 	var chosenType Conf_CborTypes
 	for {
-		randLoc := NewRandomInt(0, len(Conf_CborTypes_List)-1)
+		randLoc := NewRandomInt(0, len(Conf_CborTypes_List))
 
 		if exceptType == nil || Conf_CborTypes_List[randLoc] != *exceptType {
 			chosenType = Conf_CborTypes_List[randLoc]
@@ -175,7 +175,7 @@ func Conf_Fuzz_AddWrapping(payload []byte, sessionKeyInfo SessionKeyInfo, cipher
 
 	switch cipherSuite {
 	case CIPHER_COSE_AES128_CBC, CIPHER_COSE_AES128_CTR, CIPHER_COSE_AES256_CBC, CIPHER_COSE_AES256_CTR:
-		var chosenType Conf_EncFuzzTypes = Conf_EncFuzzTypes_List_ETM[NewRandomInt(0, len(Conf_EncFuzzTypes_List_ETM)-1)]
+		var chosenType Conf_EncFuzzTypes = Conf_EncFuzzTypes_List_ETM[NewRandomInt(0, len(Conf_EncFuzzTypes_List_ETM))]
 
 		encryptedBytes, err = encryptETM(payload, sessionKeyInfo, cipherSuite)
 		if err != nil {
@@ -215,8 +215,8 @@ func Conf_Fuzz_AddWrapping(payload []byte, sessionKeyInfo SessionKeyInfo, cipher
 			encryptedBytes = Conf_RandomCborBufferFuzzing(encryptedBytes)
 		}
 
-	case CIPHER_A128GCM, CIPHER_A256GCM:
-		var chosenType Conf_EncFuzzTypes = Conf_EncFuzzTypes_List_EMB[NewRandomInt(0, len(Conf_EncFuzzTypes_List_EMB)-1)]
+	case CIPHER_A128GCM, CIPHER_A256GCM, CIPHER_AES_CCM_16_128_128, CIPHER_AES_CCM_16_128_256, CIPHER_AES_CCM_64_128_128, CIPHER_AES_CCM_64_128_256:
+		var chosenType Conf_EncFuzzTypes = Conf_EncFuzzTypes_List_EMB[NewRandomInt(0, len(Conf_EncFuzzTypes_List_EMB))]
 
 		encryptedBytes, err = encryptEMB(payload, sessionKeyInfo, cipherSuite)
 		if err != nil {
@@ -265,7 +265,12 @@ var Conf_CoseSign_Field_List []Conf_CoseSign_Field = []Conf_CoseSign_Field{
 }
 
 func Conf_Fuzz_CoseSignature(coseSignature CoseSignature) CoseSignature {
-	var chosenType Conf_CoseSign_Field = Conf_CoseSign_Field_List[NewRandomInt(0, len(Conf_CoseSign_Field_List)-1)]
+	var chosenType Conf_CoseSign_Field = Conf_CoseSign_Field_List[NewRandomInt(0, len(Conf_CoseSign_Field_List))]
+
+	// The unprotected header is not signed, so removing one that carries nothing is no defect
+	if chosenType == Conf_CoseSign_Field_Unprotected && coseSignature.Unprotected == (UnprotectedHeader{}) {
+		chosenType = Conf_CoseSign_Field_Signature
+	}
 
 	switch chosenType {
 	case Conf_CoseSign_Field_Protected:
-- 
2.43.0


From f07dceec1c48018573b689b885a7c0ce76ab4fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 23/30] fix: the command line device verifies every voucher
 entry before it goes on

---
 main.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/main.go b/main.go
index c54aaff..bcfd98a 100644
--- a/main.go
+++ b/main.go
@@ -518,12 +518,13 @@ func main() {
 								}
 
 								ovEntries = append(ovEntries, nextEntry.OVEntry)
-							}
 
-							err = fdoshared.OVEntryArray(ovEntries).VerifyEntries(to2proveOvhdrPayload.OVHeader, to2proveOvhdrPayload.HMac)
-							if err != nil {
-								log.Println(err)
-								return nil
+								// Every entry is verified as it arrives
+								err = fdoshared.OVEntryArray(ovEntries).VerifyEntries(to2proveOvhdrPayload.OVHeader, to2proveOvhdrPayload.HMac)
+								if err != nil {
+									log.Println(err)
+									return nil
+								}
 							}
 
 							if len(ovEntries) == 0 {
-- 
2.43.0


From c69d72bbb1b9079e25e958d7200e41ed91d2e0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 24/30] fix: a device test is judged by what the device did
 after the defective answer

---
 api/testapi/device.api.go                     | 22 ++---
 core/do/to2/common.go                         | 24 +++--
 core/do/to2/listener-to2-60-HelloDevice.go    | 58 +++++-------
 core/do/to2/listener-to2-62-GetOVNextEntry.go | 33 +------
 core/do/to2/listener-to2-64-ProveDevice.go    | 40 ++-------
 .../listener-to2-66-DeviceServiceInfoReady.go | 34 +------
 .../to2/listener-to2-68-DeviceServiceInfo.go  | 45 ++--------
 core/do/to2/listener-to2-70-Done.go           | 37 ++------
 core/rv/listener-to1.go                       | 89 +++++++------------
 core/shared/testcom/dbs/listener.db.go        | 89 ++++++++++++-------
 core/shared/testcom/listener/common.go        | 14 +--
 core/shared/testcom/listener/listenert.db.go  | 88 ++++++++++++------
 core/shared/testcom/listener/teststep.go      | 86 ++++++++++++++++++
 13 files changed, 317 insertions(+), 342 deletions(-)
 create mode 100644 core/shared/testcom/listener/teststep.go

diff --git a/api/testapi/device.api.go b/api/testapi/device.api.go
index 8d33942..8976f16 100644
--- a/api/testapi/device.api.go
+++ b/api/testapi/device.api.go
@@ -251,23 +251,23 @@ func (h *DeviceTestMgmtAPI) StartNewTestRun(w http.ResponseWriter, r *http.Reque
 		return
 	}
 
-	reqListInst, err := h.ListenerDB.Get(testInstIdBytes)
-	if err != nil {
-		commonapi.RespondError(w, err.Error(), http.StatusBadRequest)
-		return
-	}
+	var protocolErr error
+	err = h.ListenerDB.Modify(testInstIdBytes, func(reqListInst *listenertestsdeps.RequestListenerInst) {
+		var runnerInst *listenertestsdeps.RequestListenerRunnerInst
+		runnerInst, protocolErr = reqListInst.GetProtocolInst(int(toPInt))
+		if protocolErr != nil {
+			return
+		}
 
-	runnerInst, err := reqListInst.GetProtocolInst(int(toPInt))
+		runnerInst.StartNewTestRun()
+	})
 	if err != nil {
 		commonapi.RespondError(w, err.Error(), http.StatusBadRequest)
 		return
 	}
 
-	runnerInst.StartNewTestRun()
-
-	err = h.ListenerDB.Update(reqListInst)
-	if err != nil {
-		commonapi.RespondError(w, err.Error(), http.StatusBadRequest)
+	if protocolErr != nil {
+		commonapi.RespondError(w, protocolErr.Error(), http.StatusBadRequest)
 		return
 	}
 
diff --git a/core/do/to2/common.go b/core/do/to2/common.go
index 6ffe562..55b7504 100644
--- a/core/do/to2/common.go
+++ b/core/do/to2/common.go
@@ -112,7 +112,7 @@ func (h *DoTo2) GetOwnerSIMs(guid fdoshared.FdoGuid) ([]fdoshared.ServiceInfoKV,
 	return ownerSims, nil
 }
 
-func (h *DoTo2) receiveAndVerify(w http.ResponseWriter, r *http.Request, currentCmd fdoshared.FdoCmd) (*dbs.SessionEntry, []byte, string, []byte, *listenertestsdeps.RequestListenerInst, error) {
+func (h *DoTo2) receiveAndVerify(w http.ResponseWriter, r *http.Request, currentCmd fdoshared.FdoCmd) (*dbs.SessionEntry, []byte, string, []byte, *listenertestsdeps.TestStep, error) {
 	if !fdoshared.CheckHeaders(w, r, currentCmd) {
 		return nil, []byte{}, "", []byte{}, nil, fmt.Errorf("Error checking header!")
 	}
@@ -128,19 +128,29 @@ func (h *DoTo2) receiveAndVerify(w http.ResponseWriter, r *http.Request, current
 		return nil, []byte{}, "", []byte{}, nil, fmt.Errorf("%d: Can not find session... %s", currentCmd, err.Error())
 	}
 
-	// Conformance
-	testcomListener, _ := h.listenerDB.GetEntryByFdoGuid(session.Guid)
-
 	bodyBytes, err := io.ReadAll(r.Body)
 	if err != nil {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to read body!", http.StatusBadRequest, testcomListener, fdoshared.To2)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to read body!", http.StatusBadRequest, nil, fdoshared.To2)
 
-		return nil, []byte{}, "", []byte{}, testcomListener, fmt.Errorf("%d: Error reading body... %s", currentCmd, err.Error())
+		return nil, []byte{}, "", []byte{}, nil, fmt.Errorf("%d: Error reading body... %s", currentCmd, err.Error())
 	}
+
+	// Conformance
+	testcomListener, err := h.listenerDB.StartTestStep(session.Guid, fdoshared.To2, currentCmd, sessionId)
+	if err != nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result! "+err.Error(), http.StatusInternalServerError, nil, fdoshared.To2)
+		return nil, []byte{}, "", []byte{}, nil, fmt.Errorf("%d: Error saving test result... %s", currentCmd, err.Error())
+	}
+
+	if testcomListener.CarriedOn {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Expected the device to fail, but it didn't", http.StatusBadRequest, nil, fdoshared.To2)
+		return nil, []byte{}, "", []byte{}, nil, fmt.Errorf("%d: Expected the device to fail, but it didn't", currentCmd)
+	}
+
 	return session, sessionId, authorizationHeader, bodyBytes, testcomListener, nil
 }
 
-func (h *DoTo2) receiveAndDecrypt(w http.ResponseWriter, r *http.Request, currentCmd fdoshared.FdoCmd) (*dbs.SessionEntry, []byte, string, []byte, *listenertestsdeps.RequestListenerInst, error) {
+func (h *DoTo2) receiveAndDecrypt(w http.ResponseWriter, r *http.Request, currentCmd fdoshared.FdoCmd) (*dbs.SessionEntry, []byte, string, []byte, *listenertestsdeps.TestStep, error) {
 	session, sessionId, authorizationHeader, rawBodyBytes, testcomListener, err := h.receiveAndVerify(w, r, currentCmd)
 	if err != nil {
 		return nil, []byte{}, "", []byte{}, testcomListener, err
diff --git a/core/do/to2/listener-to2-60-HelloDevice.go b/core/do/to2/listener-to2-60-HelloDevice.go
index f969d04..7b9da50 100644
--- a/core/do/to2/listener-to2-60-HelloDevice.go
+++ b/core/do/to2/listener-to2-60-HelloDevice.go
@@ -1,7 +1,6 @@
 package to2
 
 import (
-	"fmt"
 	"io"
 	"log"
 	"net/http"
@@ -16,14 +15,13 @@ func (h *DoTo2) HelloDevice60(w http.ResponseWriter, r *http.Request) {
 	log.Println("HelloDevice60: Receiving...")
 	var currentCmd fdoshared.FdoCmd = fdoshared.TO2_60_HELLO_DEVICE
 
-	var testcomListener *listenertestsdeps.RequestListenerInst
 	if !fdoshared.CheckHeaders(w, r, currentCmd) {
 		return
 	}
 
 	bodyBytes, err := io.ReadAll(r.Body)
 	if err != nil {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to read body!", http.StatusBadRequest, testcomListener, fdoshared.To2)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to read body!", http.StatusBadRequest, nil, fdoshared.To2)
 		return
 	}
 
@@ -31,39 +29,14 @@ func (h *DoTo2) HelloDevice60(w http.ResponseWriter, r *http.Request) {
 	var helloDevice fdoshared.HelloDevice60
 	err = fdoshared.CborCust.Unmarshal(bodyBytes, &helloDevice)
 	if err != nil {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to decode HelloDevice60!", http.StatusBadRequest, testcomListener, fdoshared.To2)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to decode HelloDevice60!", http.StatusBadRequest, nil, fdoshared.To2)
 		return
 	}
 
-	// Test stuff
-	var fdoTestId testcom.FDOTestID = testcom.NULL_TEST
-	testcomListener, _ = h.listenerDB.GetEntryByFdoGuid(helloDevice.Guid)
-
-	if testcomListener != nil && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
-		if !testcomListener.To2.CheckExpectedCmds([]fdoshared.FdoCmd{
-			currentCmd,
-			fdoshared.TO2_62_GET_OVNEXTENTRY,
-		}) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
-			testcomListener.To2.PushFail(fmt.Sprintf("Expected TO2 %d. Got %d", testcomListener.To2.ExpectedCmd, currentCmd))
-		} else if testcomListener.To2.CurrentTestIndex != 0 {
-			testcomListener.To2.PushSuccess()
-		}
-
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
-			fdoTestId = testcomListener.To2.GetNextTestID()
-		}
-
-		err := h.listenerDB.Update(testcomListener)
-		if err != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To2)
-			return
-		}
-	}
-
 	// Getting voucher from DB
 	voucherDBEntry, err := h.voucher.Get(helloDevice.Guid)
 	if err != nil {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.RESOURCE_NOT_FOUND, currentCmd, "Can not find voucher.", http.StatusUnauthorized, testcomListener, fdoshared.To2)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.RESOURCE_NOT_FOUND, currentCmd, "Can not find voucher.", http.StatusUnauthorized, nil, fdoshared.To2)
 		return
 	}
 
@@ -72,16 +45,25 @@ func (h *DoTo2) HelloDevice60(w http.ResponseWriter, r *http.Request) {
 	// KEX Generation
 	kex, err := fdoshared.GenerateXABKeyExchange(helloDevice.KexSuiteName, nil)
 	if err != nil {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Error generating XAKeyExchange...", http.StatusInternalServerError, testcomListener, fdoshared.To2)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Error generating XAKeyExchange...", http.StatusInternalServerError, nil, fdoshared.To2)
 		return
 	}
 
 	hashHmacTypes, ok := fdoshared.SgToHashHmacMap[helloDevice.EASigInfo.SgType]
 	if !ok {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Unsupported sgType...", http.StatusInternalServerError, testcomListener, fdoshared.To2)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Unsupported sgType...", http.StatusInternalServerError, nil, fdoshared.To2)
 		return
 	}
 
+	// Test stuff
+	testcomListener, err := h.listenerDB.StartTestStep(helloDevice.Guid, fdoshared.To2, currentCmd, nil)
+	if err != nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusInternalServerError, nil, fdoshared.To2)
+		return
+	}
+
+	fdoTestId := testcomListener.TestID
+
 	// HelloDevice HASH
 	helloDeviceHash, _ := fdoshared.GenerateFdoHash(bodyBytes, hashHmacTypes.HashType)
 
@@ -167,6 +149,12 @@ func (h *DoTo2) HelloDevice60(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	err = testcomListener.SetSession(sessionId)
+	if err != nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusInternalServerError, testcomListener, fdoshared.To2)
+		return
+	}
+
 	proveOVHdrPayloadBytes, _ := fdoshared.CborCust.Marshal(proveOVHdrPayload)
 	if fdoTestId == testcom.FIDO_LISTENER_DEVICE_60_BAD_HELLOACK_PAYLOAD_ENCODING {
 		proveOVHdrPayloadBytes = fdoshared.Conf_RandomCborBufferFuzzing(proveOVHdrPayloadBytes)
@@ -201,10 +189,8 @@ func (h *DoTo2) HelloDevice60(w http.ResponseWriter, r *http.Request) {
 		sessionIdToken = ""
 	}
 
-	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE && testcomListener.To2.CheckExpectedCmd(currentCmd) {
-		testcomListener.To2.PushSuccess()
-		testcomListener.To2.CompleteCmdAndSetNext(fdoshared.TO2_62_GET_OVNEXTENTRY)
-		err := h.listenerDB.Update(testcomListener)
+	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE {
+		err := testcomListener.Pass()
 		if err != nil {
 			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To2)
 			return
diff --git a/core/do/to2/listener-to2-62-GetOVNextEntry.go b/core/do/to2/listener-to2-62-GetOVNextEntry.go
index ffb8e71..9d48b6d 100644
--- a/core/do/to2/listener-to2-62-GetOVNextEntry.go
+++ b/core/do/to2/listener-to2-62-GetOVNextEntry.go
@@ -12,9 +12,7 @@ import (
 func (h *DoTo2) GetOVNextEntry62(w http.ResponseWriter, r *http.Request) {
 	log.Println("GetOVNextEntry62: Receiving...")
 	var currentCmd fdoshared.FdoCmd = fdoshared.TO2_62_GET_OVNEXTENTRY
-	var fdoTestId testcom.FDOTestID = testcom.NULL_TEST
 
-	var testcomListener *listenertestsdeps.RequestListenerInst
 	if !fdoshared.CheckHeaders(w, r, currentCmd) {
 		return
 	}
@@ -24,30 +22,7 @@ func (h *DoTo2) GetOVNextEntry62(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	if testcomListener != nil && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) && testcomListener.To2.GetLastTestID() != "" {
-		var isLastTestFailed bool
-
-		if !testcomListener.To2.CheckExpectedCmd(currentCmd) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
-			testcomListener.To2.PushFail("Expected the device to fail, but it didn't")
-			isLastTestFailed = true
-		} else if testcomListener.To2.CurrentTestIndex != 0 {
-			testcomListener.To2.PushSuccess()
-		}
-
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
-			fdoTestId = testcomListener.To2.GetNextTestID()
-		}
-
-		err := h.listenerDB.Update(testcomListener)
-		if err != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result! "+err.Error(), http.StatusBadRequest, testcomListener, fdoshared.To2)
-			return
-		}
-
-		if isLastTestFailed {
-			return
-		}
-	}
+	fdoTestId := testcomListener.TestID
 
 	if session.PrevCMD != fdoshared.TO2_61_PROVE_OVHDR && session.PrevCMD != fdoshared.TO2_63_OV_NEXTENTRY {
 		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Unexpected CMD...", http.StatusBadRequest, testcomListener, fdoshared.To2)
@@ -97,10 +72,8 @@ func (h *DoTo2) GetOVNextEntry62(w http.ResponseWriter, r *http.Request) {
 		ovNextEntryBytes = fdoshared.Conf_RandomCborBufferFuzzing(ovNextEntryBytes)
 	}
 
-	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE && testcomListener.To2.CheckExpectedCmd(currentCmd) {
-		testcomListener.To2.PushSuccess()
-		testcomListener.To2.CompleteCmdAndSetNext(fdoshared.TO2_64_PROVE_DEVICE)
-		err := h.listenerDB.Update(testcomListener)
+	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE {
+		err := testcomListener.Pass()
 		if err != nil {
 			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To2)
 			return
diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index dee9c0b..f215e97 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -15,46 +15,20 @@ import (
 func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 	log.Println("ProveDevice64: Receiving...")
 	var currentCmd fdoshared.FdoCmd = fdoshared.TO2_64_PROVE_DEVICE
-	var fdoTestId testcom.FDOTestID = testcom.NULL_TEST
 
 	session, sessionId, authorizationHeader, bodyBytes, testcomListener, err := h.receiveAndVerify(w, r, currentCmd)
 	if err != nil {
 		return
 	}
 
+	fdoTestId := testcomListener.TestID
+
 	privateKeyInst, err := fdoshared.ExtractPrivateKey(session.PrivateKeyDER)
 	if err != nil {
 		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Error decoding private key... "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
 		return
 	}
 
-	// Test stuff
-
-	if testcomListener != nil && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) && testcomListener.To2.GetLastTestID() != "" {
-		var isLastTestFailed bool
-
-		if !testcomListener.To2.CheckExpectedCmd(currentCmd) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
-			testcomListener.To2.PushFail("Expected the device to fail, but it didn't")
-			isLastTestFailed = true
-		} else if testcomListener.To2.CurrentTestIndex != 0 {
-			testcomListener.To2.PushSuccess()
-		}
-
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
-			fdoTestId = testcomListener.To2.GetNextTestID()
-		}
-
-		err := h.listenerDB.Update(testcomListener)
-		if err != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result! "+err.Error(), http.StatusBadRequest, testcomListener, fdoshared.To2)
-			return
-		}
-
-		if isLastTestFailed {
-			return
-		}
-	}
-
 	if session.PrevCMD != fdoshared.TO2_63_OV_NEXTENTRY {
 		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, fmt.Sprintf("Expected previous CMD to be %d. Got %d", fdoshared.TO2_63_OV_NEXTENTRY, session.PrevCMD), http.StatusUnauthorized, testcomListener, fdoshared.To2)
 		return
@@ -71,7 +45,7 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 	pkType, ok := fdoshared.SgTypeToFdoPkType[session.EASigInfo.SgType]
 	if !ok {
 		log.Println("ProveToRV32: Unknown signature type. ")
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Error to verify signature ProveDevice64", http.StatusBadRequest, testcomListener, fdoshared.To1)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Error to verify signature ProveDevice64", http.StatusBadRequest, testcomListener, fdoshared.To2)
 		return
 	}
 
@@ -156,7 +130,7 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 	}
 
 	if fdoTestId == testcom.FIDO_LISTENER_DEVICE_64_BAD_ENC_WRAPPING {
-		setupDeviceBytesEnc, err = fdoshared.Conf_Fuzz_AddWrapping(setupDeviceBytesEnc, session.SessionKey, session.CipherSuiteName)
+		setupDeviceBytesEnc, err = fdoshared.Conf_Fuzz_AddWrapping(setupDeviceBytes, *sessionKey, session.CipherSuiteName)
 		if err != nil {
 			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Error encrypting..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
 			return
@@ -176,10 +150,8 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE && testcomListener.To2.CheckExpectedCmd(currentCmd) {
-		testcomListener.To2.PushSuccess()
-		testcomListener.To2.CompleteCmdAndSetNext(fdoshared.TO2_66_DEVICE_SERVICE_INFO_READY)
-		err := h.listenerDB.Update(testcomListener)
+	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE {
+		err := testcomListener.Pass()
 		if err != nil {
 			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To2)
 			return
diff --git a/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go b/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go
index a4cdc14..74180ea 100644
--- a/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go
+++ b/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go
@@ -16,37 +16,13 @@ func (h *DoTo2) DeviceServiceInfoReady66(w http.ResponseWriter, r *http.Request)
 	log.Println("DeviceServiceInfoReady66: Receiving...")
 
 	var currentCmd fdoshared.FdoCmd = fdoshared.TO2_66_DEVICE_SERVICE_INFO_READY
-	var fdoTestId testcom.FDOTestID = testcom.NULL_TEST
 
 	session, sessionId, authorizationHeader, bodyBytes, testcomListener, err := h.receiveAndDecrypt(w, r, currentCmd)
 	if err != nil {
 		return
 	}
 
-	if testcomListener != nil && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) && testcomListener.To2.GetLastTestID() != "" {
-		var isLastTestFailed bool
-
-		if !testcomListener.To2.CheckExpectedCmd(currentCmd) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
-			testcomListener.To2.PushFail("Expected the device to fail, but it didn't")
-			isLastTestFailed = true
-		} else if testcomListener.To2.CurrentTestIndex != 0 {
-			testcomListener.To2.PushSuccess()
-		}
-
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
-			fdoTestId = testcomListener.To2.GetNextTestID()
-		}
-
-		err := h.listenerDB.Update(testcomListener)
-		if err != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result! "+err.Error(), http.StatusBadRequest, testcomListener, fdoshared.To2)
-			return
-		}
-
-		if isLastTestFailed {
-			return
-		}
-	}
+	fdoTestId := testcomListener.TestID
 
 	if session.PrevCMD != fdoshared.TO2_65_SETUP_DEVICE {
 		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, fmt.Sprintf("Expected previous CMD to be %d. Got %d", fdoshared.TO2_65_SETUP_DEVICE, session.PrevCMD), http.StatusUnauthorized, testcomListener, fdoshared.To2)
@@ -85,7 +61,7 @@ func (h *DoTo2) DeviceServiceInfoReady66(w http.ResponseWriter, r *http.Request)
 	}
 
 	if fdoTestId == testcom.FIDO_LISTENER_DEVICE_66_BAD_ENC_WRAPPING {
-		ownerServiceInfoReadyBytes, err = fdoshared.Conf_Fuzz_AddWrapping(ownerServiceInfoReadyBytes, session.SessionKey, session.CipherSuiteName)
+		ownerServiceInfoReadyBytes, err = fdoshared.Conf_Fuzz_AddWrapping(ownerServiceInfoReadyPayloadBytes, session.SessionKey, session.CipherSuiteName)
 		if err != nil {
 			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Failed to fuzz encrypt OwnerServiceInfoReady. "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
 			return
@@ -107,10 +83,8 @@ func (h *DoTo2) DeviceServiceInfoReady66(w http.ResponseWriter, r *http.Request)
 		return
 	}
 
-	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE && testcomListener.To2.CheckExpectedCmd(currentCmd) {
-		testcomListener.To2.PushSuccess()
-		testcomListener.To2.CompleteCmdAndSetNext(fdoshared.TO2_68_DEVICE_SERVICE_INFO)
-		err := h.listenerDB.Update(testcomListener)
+	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE {
+		err := testcomListener.Pass()
 		if err != nil {
 			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To2)
 			return
diff --git a/core/do/to2/listener-to2-68-DeviceServiceInfo.go b/core/do/to2/listener-to2-68-DeviceServiceInfo.go
index 4bfdca6..1c6fd18 100644
--- a/core/do/to2/listener-to2-68-DeviceServiceInfo.go
+++ b/core/do/to2/listener-to2-68-DeviceServiceInfo.go
@@ -16,40 +16,13 @@ func (h *DoTo2) DeviceServiceInfo68(w http.ResponseWriter, r *http.Request) {
 	log.Println("DeviceServiceInfo68: Receiving...")
 
 	var currentCmd fdoshared.FdoCmd = fdoshared.TO2_68_DEVICE_SERVICE_INFO
-	var fdoTestId testcom.FDOTestID = testcom.NULL_TEST
 
 	session, sessionId, authorizationHeader, bodyBytes, testcomListener, err := h.receiveAndDecrypt(w, r, currentCmd)
 	if err != nil {
 		return
 	}
 
-	if testcomListener != nil && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) && testcomListener.To2.GetLastTestID() != "" {
-		var isLastTestFailed bool
-
-		if !testcomListener.To2.CheckExpectedCmd(currentCmd) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
-			testcomListener.To2.PushFail("Expected the device to fail, but it didn't")
-			isLastTestFailed = true
-		} else if testcomListener.To2.CheckExpectedCmd(currentCmd) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE && session.PrevCMD == fdoshared.TO2_69_OWNER_SERVICE_INFO {
-			testcomListener.To2.PushFail("Expected the device to fail, but it didn't")
-			isLastTestFailed = true
-		} else if testcomListener.To2.CurrentTestIndex != 0 {
-			testcomListener.To2.PushSuccess()
-		}
-
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
-			fdoTestId = testcomListener.To2.GetNextTestID()
-		}
-
-		err := h.listenerDB.Update(testcomListener)
-		if err != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result! "+err.Error(), http.StatusBadRequest, testcomListener, fdoshared.To2)
-			return
-		}
-
-		if isLastTestFailed {
-			return
-		}
-	}
+	fdoTestId := testcomListener.TestID
 
 	if session.PrevCMD != fdoshared.TO2_67_OWNER_SERVICE_INFO_READY && session.PrevCMD != fdoshared.TO2_69_OWNER_SERVICE_INFO {
 		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, fmt.Sprintf("Expected previous CMD to be %d or %d. Got %d", fdoshared.TO2_67_OWNER_SERVICE_INFO_READY, fdoshared.TO2_69_OWNER_SERVICE_INFO, session.PrevCMD), http.StatusUnauthorized, testcomListener, fdoshared.To2)
@@ -88,7 +61,7 @@ func (h *DoTo2) DeviceServiceInfo68(w http.ResponseWriter, r *http.Request) {
 			resultSims, err := ValidateDeviceSIMs(session.Guid, session.DeviceSIMs)
 			if err != nil {
 				log.Println("DeviceServiceInfo68: Error validating device sims: " + err.Error())
-				fdoshared.RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "DeviceServiceInfo68: Error validating device sims: "+err.Error(), http.StatusInternalServerError)
+				listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "DeviceServiceInfo68: Error validating device sims: "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
 				return
 			}
 
@@ -125,15 +98,15 @@ func (h *DoTo2) DeviceServiceInfo68(w http.ResponseWriter, r *http.Request) {
 	ownerServiceInfoEncBytes, err := fdoshared.AddEncryptionWrapping(ownerServiceInfoBytes, session.SessionKey, session.CipherSuiteName)
 	if err != nil {
 		log.Println("DeviceServiceInfo68: Error encrypting..." + err.Error())
-		fdoshared.RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Internal server error!", http.StatusInternalServerError)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Internal server error!", http.StatusInternalServerError, testcomListener, fdoshared.To2)
 		return
 	}
 
 	if fdoTestId == testcom.FIDO_LISTENER_DEVICE_68_BAD_ENC_WRAPPING {
-		ownerServiceInfoEncBytes, err = fdoshared.Conf_Fuzz_AddWrapping(ownerServiceInfoEncBytes, session.SessionKey, session.CipherSuiteName)
+		ownerServiceInfoEncBytes, err = fdoshared.Conf_Fuzz_AddWrapping(ownerServiceInfoBytes, session.SessionKey, session.CipherSuiteName)
 		if err != nil {
 			log.Println("DeviceServiceInfo68: Error fuzzing encryption..." + err.Error())
-			fdoshared.RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Internal server error!", http.StatusInternalServerError)
+			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Internal server error!", http.StatusInternalServerError, testcomListener, fdoshared.To2)
 			return
 		}
 	}
@@ -143,14 +116,12 @@ func (h *DoTo2) DeviceServiceInfo68(w http.ResponseWriter, r *http.Request) {
 	err = h.session.UpdateSessionEntry(sessionId, *session)
 	if err != nil {
 		log.Println("DeviceServiceInfo68: Error saving session..." + err.Error())
-		fdoshared.RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Internal server error!", http.StatusInternalServerError)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Internal server error!", http.StatusInternalServerError, testcomListener, fdoshared.To2)
 		return
 	}
 
-	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE && testcomListener.To2.CheckExpectedCmd(currentCmd) {
-		testcomListener.To2.PushSuccess()
-		testcomListener.To2.CompleteCmdAndSetNext(fdoshared.TO2_70_DONE)
-		err := h.listenerDB.Update(testcomListener)
+	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE {
+		err := testcomListener.Pass()
 		if err != nil {
 			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To2)
 			return
diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index b402268..9b02ed1 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -16,38 +16,13 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 	log.Println("Done70: Receiving...")
 
 	var currentCmd fdoshared.FdoCmd = fdoshared.TO2_70_DONE
-	var fdoTestId testcom.FDOTestID = testcom.NULL_TEST
 
 	session, _, authorizationHeader, bodyBytes, testcomListener, err := h.receiveAndDecrypt(w, r, currentCmd)
 	if err != nil {
 		return
 	}
 
-	// Test params setup
-	if testcomListener != nil && !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) && testcomListener.To2.GetLastTestID() != "" {
-		var isLastTestFailed bool
-
-		if !testcomListener.To2.CheckExpectedCmd(currentCmd) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
-			testcomListener.To2.PushFail("Expected the device to fail, but it didn't")
-			isLastTestFailed = true
-		} else if testcomListener.To2.CurrentTestIndex != 0 {
-			testcomListener.To2.PushSuccess()
-		}
-
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
-			fdoTestId = testcomListener.To2.GetNextTestID()
-		}
-
-		err := h.listenerDB.Update(testcomListener)
-		if err != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result! "+err.Error(), http.StatusBadRequest, testcomListener, fdoshared.To2)
-			return
-		}
-
-		if isLastTestFailed {
-			return
-		}
-	}
+	fdoTestId := testcomListener.TestID
 
 	if session.PrevCMD != fdoshared.TO2_69_OWNER_SERVICE_INFO {
 		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, fmt.Sprintf("Expected previous CMD to be %d. Got %d", fdoshared.TO2_69_OWNER_SERVICE_INFO, session.PrevCMD), http.StatusUnauthorized, testcomListener, fdoshared.To2)
@@ -87,24 +62,22 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 
 	done271Bytes, err := fdoshared.AddEncryptionWrapping(done271PayloadBytes, session.SessionKey, session.CipherSuiteName)
 	if err != nil {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Done70: Error encrypting..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To1)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Done70: Error encrypting..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
 		return
 	}
 
 	if fdoTestId == testcom.FIDO_LISTENER_DEVICE_70_BAD_ENC_WRAPPING {
 		done271Bytes, err = fdoshared.Conf_Fuzz_AddWrapping(done271PayloadBytes, session.SessionKey, session.CipherSuiteName)
 		if err != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Done70: Error encrypting..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To1)
+			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Done70: Error encrypting..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
 			return
 		}
 	}
 
 	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE {
-		testcomListener.To2.PushSuccess()
-		testcomListener.To2.CompleteTestRun()
-		err := h.listenerDB.Update(testcomListener)
+		err := testcomListener.Pass()
 		if err != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To1)
+			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To2)
 			return
 		}
 	}
diff --git a/core/rv/listener-to1.go b/core/rv/listener-to1.go
index e5d57bf..e073d46 100644
--- a/core/rv/listener-to1.go
+++ b/core/rv/listener-to1.go
@@ -43,54 +43,31 @@ func (h *RvTo1) Handle30HelloRV(w http.ResponseWriter, r *http.Request) {
 
 	var currentCmd fdoshared.FdoCmd = fdoshared.TO1_30_HELLO_RV
 
-	var testcomListener *listenertestsdeps.RequestListenerInst
 	if !fdoshared.CheckHeaders(w, r, currentCmd) {
 		return
 	}
 
 	bodyBytes, err := io.ReadAll(r.Body)
 	if err != nil {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to read body!", http.StatusBadRequest, testcomListener, fdoshared.To1)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to read body!", http.StatusBadRequest, nil, fdoshared.To1)
 		return
 	}
 
 	var helloRV30 fdoshared.HelloRV30
 	err = fdoshared.CborCust.Unmarshal(bodyBytes, &helloRV30)
 	if err != nil {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to decode body!", http.StatusBadRequest, testcomListener, fdoshared.To1)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to decode body!", http.StatusBadRequest, nil, fdoshared.To1)
 		return
 	}
 
 	if !helloRV30.EASigInfo.IsValid() {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to validate EASigInfo!", http.StatusBadRequest, testcomListener, fdoshared.To1)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to validate EASigInfo!", http.StatusBadRequest, nil, fdoshared.To1)
 		return
 	}
 
-	// Test stuff
-	var fdoTestId testcom.FDOTestID = testcom.NULL_TEST
-	testcomListener, _ = h.listenerDB.GetEntryByFdoGuid(helloRV30.Guid)
-
-	if testcomListener != nil && !testcomListener.To1.CheckCmdTestingIsCompleted(currentCmd) {
-		if !testcomListener.To1.CheckExpectedCmd(currentCmd) && testcomListener.To1.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
-			testcomListener.To1.PushFail(fmt.Sprintf("Expected TO1 %d. Got %d", testcomListener.To1.ExpectedCmd, currentCmd))
-		} else if testcomListener.To1.CurrentTestIndex != 0 {
-			testcomListener.To1.PushSuccess()
-		}
-
-		if !testcomListener.To1.CheckCmdTestingIsCompleted(currentCmd) {
-			fdoTestId = testcomListener.To1.GetNextTestID()
-		}
-
-		err := h.listenerDB.Update(testcomListener)
-		if err != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To1)
-			return
-		}
-	}
-
 	_, err = h.ownersignDB.Get(helloRV30.Guid)
 	if err != nil {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.RESOURCE_NOT_FOUND, currentCmd, "Could not find guid!", http.StatusBadRequest, testcomListener, fdoshared.To1)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.RESOURCE_NOT_FOUND, currentCmd, "Could not find guid!", http.StatusBadRequest, nil, fdoshared.To1)
 		return
 	}
 
@@ -105,10 +82,19 @@ func (h *RvTo1) Handle30HelloRV(w http.ResponseWriter, r *http.Request) {
 
 	sessionId, err := h.session.NewSessionEntry(newSessionInst)
 	if err != nil {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Internal Server Error!", http.StatusInternalServerError, testcomListener, fdoshared.To1)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Internal Server Error!", http.StatusInternalServerError, nil, fdoshared.To1)
 		return
 	}
 
+	// Test stuff
+	testcomListener, err := h.listenerDB.StartTestStep(helloRV30.Guid, fdoshared.To1, currentCmd, sessionId)
+	if err != nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusInternalServerError, nil, fdoshared.To1)
+		return
+	}
+
+	fdoTestId := testcomListener.TestID
+
 	helloRVAck31 := fdoshared.HelloRVAck31{
 		NonceTO1Proof: nonceTO1Proof,
 		EBSigInfo:     helloRV30.EASigInfo,
@@ -120,10 +106,8 @@ func (h *RvTo1) Handle30HelloRV(w http.ResponseWriter, r *http.Request) {
 		helloRVAckBytes = fdoshared.Conf_RandomCborBufferFuzzing(helloRVAckBytes)
 	}
 
-	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE && testcomListener.To1.CheckExpectedCmd(currentCmd) {
-		testcomListener.To1.PushSuccess()
-		testcomListener.To1.CompleteCmdAndSetNext(fdoshared.TO1_32_PROVE_TO_RV)
-		err := h.listenerDB.Update(testcomListener)
+	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE {
+		err := testcomListener.Pass()
 		if err != nil {
 			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To1)
 			return
@@ -143,7 +127,6 @@ func (h *RvTo1) Handle32ProveToRV(w http.ResponseWriter, r *http.Request) {
 
 	var currentCmd fdoshared.FdoCmd = fdoshared.TO1_32_PROVE_TO_RV
 
-	var testcomListener *listenertestsdeps.RequestListenerInst
 	if !fdoshared.CheckHeaders(w, r, currentCmd) {
 		return
 	}
@@ -155,43 +138,35 @@ func (h *RvTo1) Handle32ProveToRV(w http.ResponseWriter, r *http.Request) {
 
 	session, err := h.session.GetSessionEntry(sessionId)
 	if err != nil {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Unauthorized", http.StatusUnauthorized, testcomListener, fdoshared.To1)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Unauthorized", http.StatusUnauthorized, nil, fdoshared.To1)
 		return
 	}
 
 	if session.Protocol != fdoshared.To1 {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Unauthorized", http.StatusUnauthorized, testcomListener, fdoshared.To1)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Unauthorized", http.StatusUnauthorized, nil, fdoshared.To1)
 		return
 	}
 
 	bodyBytes, err := io.ReadAll(r.Body)
 	if err != nil {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to read body!", http.StatusBadRequest, testcomListener, fdoshared.To1)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to read body!", http.StatusBadRequest, nil, fdoshared.To1)
 		return
 	}
 
 	// Test stuff
-	var fdoTestId testcom.FDOTestID = testcom.NULL_TEST
-	testcomListener, _ = h.listenerDB.GetEntryByFdoGuid(session.Guid)
-
-	if testcomListener != nil && !testcomListener.To1.CheckCmdTestingIsCompleted(currentCmd) {
-		if !testcomListener.To1.CheckExpectedCmd(currentCmd) && testcomListener.To1.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
-			testcomListener.To1.PushFail(fmt.Sprintf("Expected TO1 %d. Got %d", testcomListener.To1.ExpectedCmd, currentCmd))
-		} else if testcomListener.To1.CurrentTestIndex != 0 {
-			testcomListener.To1.PushSuccess()
-		}
-
-		if !testcomListener.To1.CheckCmdTestingIsCompleted(currentCmd) {
-			fdoTestId = testcomListener.To1.GetNextTestID()
-		}
+	testcomListener, err := h.listenerDB.StartTestStep(session.Guid, fdoshared.To1, currentCmd, sessionId)
+	if err != nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusInternalServerError, nil, fdoshared.To1)
+		return
+	}
 
-		err := h.listenerDB.Update(testcomListener)
-		if err != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusBadRequest, testcomListener, fdoshared.To1)
-			return
-		}
+	if testcomListener.CarriedOn {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Expected the device to fail, but it didn't", http.StatusBadRequest, nil, fdoshared.To1)
+		return
 	}
 
+	fdoTestId := testcomListener.TestID
+
 	var proveToRV32 fdoshared.CoseSignature
 	err = fdoshared.CborCust.Unmarshal(bodyBytes, &proveToRV32)
 	if err != nil {
@@ -209,7 +184,7 @@ func (h *RvTo1) Handle32ProveToRV(w http.ResponseWriter, r *http.Request) {
 	}
 
 	if !bytes.Equal(pb.EatNonce[:], session.NonceTO1Proof[:]) {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, fmt.Sprintf("EatNonce is not set to NonceTO1Proof. Expected %s. Got %s", hex.EncodeToString(pb.EatNonce[:]), hex.EncodeToString(session.NonceTO1Proof[:])), http.StatusBadRequest, testcomListener, fdoshared.To2)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, fmt.Sprintf("EatNonce is not set to NonceTO1Proof. Expected %s. Got %s", hex.EncodeToString(pb.EatNonce[:]), hex.EncodeToString(session.NonceTO1Proof[:])), http.StatusBadRequest, testcomListener, fdoshared.To1)
 		return
 	}
 
@@ -254,9 +229,7 @@ func (h *RvTo1) Handle32ProveToRV(w http.ResponseWriter, r *http.Request) {
 	}
 
 	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE {
-		testcomListener.To1.PushSuccess()
-		testcomListener.To1.CompleteTestRun()
-		err := h.listenerDB.Update(testcomListener)
+		err := testcomListener.Pass()
 		if err != nil {
 			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Conformance module failed to save result!", http.StatusInternalServerError, testcomListener, fdoshared.To1)
 			return
diff --git a/core/shared/testcom/dbs/listener.db.go b/core/shared/testcom/dbs/listener.db.go
index f85ef2f..ecd5615 100644
--- a/core/shared/testcom/dbs/listener.db.go
+++ b/core/shared/testcom/dbs/listener.db.go
@@ -10,6 +10,7 @@ import (
 	"github.com/dgraph-io/badger/v4"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
+	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
 	listenertestsdeps "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/listener"
 )
 
@@ -87,6 +88,52 @@ func (h *ListenerTestDB) Update(reqListener *listenertestsdeps.RequestListenerIn
 	return nil
 }
 
+// Modify applies change to the stored entry in a single transaction, so that simultaneous modifications of one entry do not undo each other
+func (h *ListenerTestDB) Modify(entryUuid []byte, change func(reqListener *listenertestsdeps.RequestListenerInst)) error {
+	for {
+		err := h.db.Update(func(dbtxn *badger.Txn) error {
+			item, err := dbtxn.Get(h.getEntryId(entryUuid))
+			if err != nil {
+				return errors.New("Failed locating listener entry. " + err.Error())
+			}
+
+			itemBytes, err := item.ValueCopy(nil)
+			if err != nil {
+				return errors.New("Failed reading listener entry value. " + err.Error())
+			}
+
+			var reqListener listenertestsdeps.RequestListenerInst
+			err = fdoshared.CborCust.Unmarshal(itemBytes, &reqListener)
+			if err != nil {
+				return errors.New("Failed cbor decoding listener entry value. " + err.Error())
+			}
+
+			change(&reqListener)
+
+			structBytes, err := fdoshared.CborCust.Marshal(reqListener)
+			if err != nil {
+				return errors.New("Failed to marshal listener entry. " + err.Error())
+			}
+
+			return dbtxn.SetEntry(badger.NewEntry(h.getEntryId(entryUuid), structBytes).WithTTL(time.Second * time.Duration(h.ttl)))
+		})
+		if !errors.Is(err, badger.ErrConflict) {
+			return err
+		}
+	}
+}
+
+// StartTestStep finds out what a message of the device means to its test run
+func (h *ListenerTestDB) StartTestStep(guid fdoshared.FdoGuid, toProtocol fdoshared.FdoToProtocol, currentCmd fdoshared.FdoCmd, sessionId []byte) (*listenertestsdeps.TestStep, error) {
+	reqListener, err := h.GetEntryByFdoGuid(guid)
+	if err != nil {
+		// The device is not being tested
+		return &listenertestsdeps.TestStep{TestID: testcom.NULL_TEST}, nil
+	}
+
+	return listenertestsdeps.NewTestStep(h, reqListener.Uuid, toProtocol, currentCmd, sessionId)
+}
+
 func (h *ListenerTestDB) Get(entryUuid []byte) (*listenertestsdeps.RequestListenerInst, error) {
 	dbtxn := h.db.NewTransaction(true)
 	defer dbtxn.Discard()
@@ -210,44 +257,22 @@ func (h *ListenerTestDB) GetMany(entriesIds [][]byte) (*[]listenertestsdeps.Requ
 }
 
 func (h *ListenerTestDB) RemoveTestRun(toProtocol fdoshared.FdoToProtocol, testInstId []byte, testRunId string) error {
-	testInst, err := h.Get(testInstId)
-	if err != nil {
-		return fmt.Errorf("%s test entry can not be found. %s", hex.EncodeToString(testInstId), err.Error())
-	}
-
-	var chosenReqListRunner listenertestsdeps.RequestListenerRunnerInst
-	switch toProtocol {
-	case fdoshared.To0:
-		chosenReqListRunner = testInst.To0
-	case fdoshared.To1:
-		chosenReqListRunner = testInst.To1
-	case fdoshared.To2:
-		chosenReqListRunner = testInst.To2
-	default:
-		return fmt.Errorf("Unknown FDO protocol %d", toProtocol)
-	}
-
-	err = chosenReqListRunner.RemoveTestRun(testRunId)
-	if err != nil {
-		return err
-	}
-
-	switch toProtocol {
-	case fdoshared.To0:
-		testInst.To0 = chosenReqListRunner
-	case fdoshared.To1:
-		testInst.To1 = chosenReqListRunner
-	case fdoshared.To2:
-		testInst.To2 = chosenReqListRunner
-	}
+	var removeErr error
+	err := h.Modify(testInstId, func(testInst *listenertestsdeps.RequestListenerInst) {
+		var chosenReqListRunner *listenertestsdeps.RequestListenerRunnerInst
+		chosenReqListRunner, removeErr = testInst.GetProtocolInst(int(toProtocol))
+		if removeErr != nil {
+			return
+		}
 
-	err = h.Save(*testInst)
+		removeErr = chosenReqListRunner.RemoveTestRun(testRunId)
+	})
 	if err != nil {
 		log.Printf("%s error saving test entry. %s", hex.EncodeToString(testInstId), err.Error())
 		return err
 	}
 
-	return nil
+	return removeErr
 }
 
 func (h *ListenerTestDB) SaveMapping(guid fdoshared.FdoGuid, uuid []byte) error {
diff --git a/core/shared/testcom/listener/common.go b/core/shared/testcom/listener/common.go
index 3da985a..c7bfda3 100644
--- a/core/shared/testcom/listener/common.go
+++ b/core/shared/testcom/listener/common.go
@@ -7,18 +7,12 @@ import (
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 )
 
-func Conf_RespondFDOError(w http.ResponseWriter, r *http.Request, errorCode fdoshared.FdoErrorCode, prevMsgId fdoshared.FdoCmd, messageStr string, httpStatusCode int, testcomListener *RequestListenerInst, fdoProtocol fdoshared.FdoToProtocol) {
+func Conf_RespondFDOError(w http.ResponseWriter, r *http.Request, errorCode fdoshared.FdoErrorCode, prevMsgId fdoshared.FdoCmd, messageStr string, httpStatusCode int, testcomListener *TestStep, fdoProtocol fdoshared.FdoToProtocol) {
 	log.Printf("Err: %d %s %d", prevMsgId, messageStr, errorCode)
 
-	if testcomListener != nil {
-		switch fdoProtocol {
-		case fdoshared.To0:
-			testcomListener.To0.PushFail(messageStr)
-		case fdoshared.To1:
-			testcomListener.To1.PushFail(messageStr)
-		case fdoshared.To2:
-			testcomListener.To2.PushFail(messageStr)
-		}
+	err := testcomListener.Fail(messageStr)
+	if err != nil {
+		log.Printf("Conformance module failed to save result! %s", err.Error())
 	}
 
 	fdoshared.RespondFDOError(w, r, errorCode, prevMsgId, messageStr, httpStatusCode)
diff --git a/core/shared/testcom/listener/listenert.db.go b/core/shared/testcom/listener/listenert.db.go
index 48661db..b2edafb 100644
--- a/core/shared/testcom/listener/listenert.db.go
+++ b/core/shared/testcom/listener/listenert.db.go
@@ -1,6 +1,7 @@
 package listener
 
 import (
+	"bytes"
 	"fmt"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
@@ -13,6 +14,9 @@ type RequestListenerRunnerInst struct {
 	ExpectedCmd   fdoshared.FdoCmd        `cbor:"expectedCmd,omitempty"`
 	CompletedCmds []fdoshared.FdoCmd      `cbor:"completedCmds,omitempty"`
 
+	TestPending   bool   `cbor:"testPending,omitempty"`   // The last test was delivered, and is not judged yet
+	TestSessionId []byte `cbor:"testSessionId,omitempty"` // The session in which the last test was delivered
+
 	CurrentTestIndex int                                      `cbor:"currentTestIndex,omitempty"`
 	Tests            map[fdoshared.FdoCmd][]testcom.FDOTestID `cbor:"tests,omitempty"`
 	Running          bool                                     `cbor:"running,omitempty"`
@@ -48,28 +52,8 @@ func (h *RequestListenerRunnerInst) CheckExpectedCmd(currentCmd fdoshared.FdoCmd
 	return currentCmd == h.ExpectedCmd
 }
 
-func (h *RequestListenerRunnerInst) CheckExpectedCmds(expectedCmds []fdoshared.FdoCmd) bool {
-	for _, cmd := range expectedCmds {
-		if h.ExpectedCmd == cmd {
-			return true
-		}
-	}
-
-	return false
-}
-
-func (h *RequestListenerRunnerInst) CheckCmdTestingIsCompleted(currentCmd fdoshared.FdoCmd) bool {
-	for _, completedCmd := range h.CompletedCmds {
-		if completedCmd == currentCmd {
-			return true
-		}
-	}
-
-	return false
-}
-
 func (h *RequestListenerRunnerInst) StartNewTestRun() {
-	if len(h.TestRunHistory) != 0 {
+	if h.CurrentTestRun.Uuid != "" && !h.CurrentTestRun.Completed {
 		h.TestRunHistory = append([]ListenerTestRun{h.CurrentTestRun}, h.TestRunHistory...)
 	}
 
@@ -79,6 +63,9 @@ func (h *RequestListenerRunnerInst) StartNewTestRun() {
 	h.CurrentTestRun = NewListenerTestRun(h.Protocol)
 	h.CurrentTestIndex = 0
 	h.CompletedCmds = []fdoshared.FdoCmd{}
+	h.LastTestID = ""
+	h.TestPending = false
+	h.TestSessionId = nil
 
 	switch h.Protocol {
 	case fdoshared.To0:
@@ -94,9 +81,14 @@ func (h *RequestListenerRunnerInst) RemoveTestRun(id string) error {
 	var newList []ListenerTestRun = []ListenerTestRun{}
 
 	if h.CurrentTestRun.Uuid == id {
+		isCompleted := h.CurrentTestRun.Completed
+
 		h.CurrentTestRun = ListenerTestRun{}
 		h.Running = false
-		return nil
+
+		if !isCompleted {
+			return nil
+		}
 	}
 
 	for _, testRun := range h.TestRunHistory {
@@ -114,11 +106,36 @@ func (h *RequestListenerRunnerInst) RemoveTestRun(id string) error {
 	return nil
 }
 
-func (h *RequestListenerRunnerInst) GetNextTestID() testcom.FDOTestID {
+// ReceiveCmd judges the test that was delivered last, as far as the arrival of currentCmd tells, and selects the test to be delivered with the answer
+func (h *RequestListenerRunnerInst) ReceiveCmd(currentCmd fdoshared.FdoCmd, sessionId []byte) (testcom.FDOTestID, bool) {
 	if !h.Running {
-		return testcom.NULL_TEST
+		return testcom.NULL_TEST, false
 	}
 
+	if h.TestPending && len(sessionId) != 0 && bytes.Equal(h.TestSessionId, sessionId) {
+		h.PushFail("Expected the device to fail, but it didn't")
+		h.TestPending = false
+
+		return testcom.NULL_TEST, true
+	}
+
+	if !h.CheckExpectedCmd(currentCmd) {
+		return testcom.NULL_TEST, false
+	}
+
+	if h.TestPending {
+		h.PushSuccess()
+	}
+
+	fdoTestId := h.GetNextTestID()
+
+	h.TestPending = fdoTestId != testcom.FIDO_LISTENER_POSITIVE
+	h.TestSessionId = sessionId
+
+	return fdoTestId, false
+}
+
+func (h *RequestListenerRunnerInst) GetNextTestID() testcom.FDOTestID {
 	selectedTestID := h.Tests[h.ExpectedCmd][h.CurrentTestIndex]
 
 	h.LastTestID = selectedTestID
@@ -134,6 +151,27 @@ func (h *RequestListenerRunnerInst) GetLastTestID() testcom.FDOTestID {
 	return h.LastTestID
 }
 
+var nextCmd = map[fdoshared.FdoCmd]fdoshared.FdoCmd{
+	fdoshared.TO0_20_HELLO:                     fdoshared.TO0_22_OWNER_SIGN,
+	fdoshared.TO1_30_HELLO_RV:                  fdoshared.TO1_32_PROVE_TO_RV,
+	fdoshared.TO2_60_HELLO_DEVICE:              fdoshared.TO2_62_GET_OVNEXTENTRY,
+	fdoshared.TO2_62_GET_OVNEXTENTRY:           fdoshared.TO2_64_PROVE_DEVICE,
+	fdoshared.TO2_64_PROVE_DEVICE:              fdoshared.TO2_66_DEVICE_SERVICE_INFO_READY,
+	fdoshared.TO2_66_DEVICE_SERVICE_INFO_READY: fdoshared.TO2_68_DEVICE_SERVICE_INFO,
+	fdoshared.TO2_68_DEVICE_SERVICE_INFO:       fdoshared.TO2_70_DONE,
+}
+
+// CompleteCmd ends the tests of the expected command, and with the last command the test run
+func (h *RequestListenerRunnerInst) CompleteCmd() {
+	nextCMD, ok := nextCmd[h.ExpectedCmd]
+	if !ok {
+		h.CompleteTestRun()
+		return
+	}
+
+	h.CompleteCmdAndSetNext(nextCMD)
+}
+
 func (h *RequestListenerRunnerInst) CompleteCmdAndSetNext(nextCMD fdoshared.FdoCmd) {
 	h.CompletedCmds = append(h.CompletedCmds, h.ExpectedCmd)
 	h.ExpectedCmd = nextCMD
@@ -146,7 +184,7 @@ func (h *RequestListenerRunnerInst) CompleteTestRun() {
 	h.Completed = true
 
 	h.CurrentTestRun.Complete()
-	h.TestRunHistory = append(h.TestRunHistory, h.CurrentTestRun)
+	h.TestRunHistory = append([]ListenerTestRun{h.CurrentTestRun}, h.TestRunHistory...)
 }
 
 func (h *RequestListenerRunnerInst) PushFail(errorMsg string) {
diff --git a/core/shared/testcom/listener/teststep.go b/core/shared/testcom/listener/teststep.go
new file mode 100644
index 0000000..2f2d763
--- /dev/null
+++ b/core/shared/testcom/listener/teststep.go
@@ -0,0 +1,86 @@
+package listener
+
+import (
+	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
+	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
+)
+
+// ListenerStore changes a stored listener entry in a single step
+type ListenerStore interface {
+	Modify(entryUuid []byte, change func(reqListener *RequestListenerInst)) error
+}
+
+// TestStep is what one message of a device means to the test run of the device
+type TestStep struct {
+	TestID    testcom.FDOTestID // The test that the answer delivers. NULL_TEST for an ordinary answer
+	CarriedOn bool              // The device should have stopped, and must not be served any further
+
+	store      ListenerStore
+	entryUuid  []byte
+	toProtocol fdoshared.FdoToProtocol
+	testRunId  string
+}
+
+// NewTestStep registers the arrival of a message. An empty sessionId stands for a session that is yet to be opened
+func NewTestStep(store ListenerStore, entryUuid []byte, toProtocol fdoshared.FdoToProtocol, currentCmd fdoshared.FdoCmd, sessionId []byte) (*TestStep, error) {
+	step := &TestStep{
+		TestID:     testcom.NULL_TEST,
+		store:      store,
+		entryUuid:  entryUuid,
+		toProtocol: toProtocol,
+	}
+
+	err := store.Modify(entryUuid, func(reqListener *RequestListenerInst) {
+		runner, err := reqListener.GetProtocolInst(int(toProtocol))
+		if err != nil {
+			return
+		}
+
+		step.TestID, step.CarriedOn = runner.ReceiveCmd(currentCmd, sessionId)
+		step.testRunId = runner.CurrentTestRun.Uuid
+	})
+
+	return step, err
+}
+
+func (h *TestStep) modifyRunner(change func(runner *RequestListenerRunnerInst)) error {
+	if h == nil || h.TestID == testcom.NULL_TEST {
+		return nil
+	}
+
+	return h.store.Modify(h.entryUuid, func(reqListener *RequestListenerInst) {
+		runner, err := reqListener.GetProtocolInst(int(h.toProtocol))
+		if err != nil || !runner.Running || runner.CurrentTestRun.Uuid != h.testRunId || runner.GetLastTestID() != h.TestID {
+			return
+		}
+
+		change(runner)
+	})
+}
+
+// SetSession names the session in which the test is delivered, when it was opened after the test was selected
+func (h *TestStep) SetSession(sessionId []byte) error {
+	return h.modifyRunner(func(runner *RequestListenerRunnerInst) {
+		runner.TestSessionId = sessionId
+	})
+}
+
+// Pass records that the device completed the positive test
+func (h *TestStep) Pass() error {
+	return h.modifyRunner(func(runner *RequestListenerRunnerInst) {
+		runner.PushSuccess()
+		runner.CompleteCmd()
+	})
+}
+
+// Fail records that the message, for which the test was selected, was itself refused
+func (h *TestStep) Fail(errorMsg string) error {
+	return h.modifyRunner(func(runner *RequestListenerRunnerInst) {
+		runner.PushFail(errorMsg)
+		runner.TestPending = false
+
+		if h.TestID == testcom.FIDO_LISTENER_POSITIVE {
+			runner.CompleteCmd()
+		}
+	})
+}
-- 
2.43.0


From b9b5cede0940a2de66ad5c468e800fe1868fbb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 25/30] fix: simultaneous requests of one user do not undo each
 other

---
 api/testapi/device.api.go |  7 ++++---
 api/testapi/do.api.go     |  6 ++++--
 api/testapi/rv.api.go     |  7 ++++---
 api/user.other.api.go     | 10 +++++-----
 dbs/user.db.go            | 38 ++++++++++++++++++++++++++++++++++++++
 5 files changed, 55 insertions(+), 13 deletions(-)

diff --git a/api/testapi/device.api.go b/api/testapi/device.api.go
index 8976f16..e91010f 100644
--- a/api/testapi/device.api.go
+++ b/api/testapi/device.api.go
@@ -147,9 +147,10 @@ func (h *DeviceTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	userInst.DeviceTestInsts = append(userInst.DeviceTestInsts, dbs.NewDeviceTestInst(createTestCase.Name, deviceListenerInsts.Uuid, ovHeader.OVGuid))
-
-	err = h.UserDB.Save(*userInst)
+	newDeviceTest := dbs.NewDeviceTestInst(createTestCase.Name, deviceListenerInsts.Uuid, ovHeader.OVGuid)
+	err = h.UserDB.Modify(userInst.Email, func(user *dbs.UserTestDBEntry) {
+		user.DeviceTestInsts = append(user.DeviceTestInsts, newDeviceTest)
+	})
 	if err != nil {
 		log.Println("Failed to save user. " + err.Error())
 		commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
diff --git a/api/testapi/do.api.go b/api/testapi/do.api.go
index f696cd1..14b757f 100644
--- a/api/testapi/do.api.go
+++ b/api/testapi/do.api.go
@@ -233,8 +233,10 @@ func (h *DOTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 	}
 
 	// Saving user
-	userInst.DOTestInsts = append(userInst.DOTestInsts, dbs.NewDOTestInst(doUrl, newDOTTestTo2.Uuid))
-	err = h.UserDB.Save(*userInst)
+	newDOTest := dbs.NewDOTestInst(doUrl, newDOTTestTo2.Uuid)
+	err = h.UserDB.Modify(userInst.Email, func(user *dbs.UserTestDBEntry) {
+		user.DOTestInsts = append(user.DOTestInsts, newDOTest)
+	})
 	if err != nil {
 		log.Println("Failed to save user. " + err.Error())
 		commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
diff --git a/api/testapi/rv.api.go b/api/testapi/rv.api.go
index 877cbd7..ebd5d71 100644
--- a/api/testapi/rv.api.go
+++ b/api/testapi/rv.api.go
@@ -125,9 +125,10 @@ func (h *RVTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	userInst.RVTestInsts = append(userInst.RVTestInsts, dbs.NewRVTestInst(rvUrl, newRVTestTo0.Uuid, newRVTestTo1.Uuid))
-
-	err = h.UserDB.Save(*userInst)
+	newRVTest := dbs.NewRVTestInst(rvUrl, newRVTestTo0.Uuid, newRVTestTo1.Uuid)
+	err = h.UserDB.Modify(userInst.Email, func(user *dbs.UserTestDBEntry) {
+		user.RVTestInsts = append(user.RVTestInsts, newRVTest)
+	})
 	if err != nil {
 		log.Println("Failed to save user. " + err.Error())
 		commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
diff --git a/api/user.other.api.go b/api/user.other.api.go
index ca7386f..05f153c 100644
--- a/api/user.other.api.go
+++ b/api/user.other.api.go
@@ -121,11 +121,11 @@ func (h *UserAPI) PurgeTests(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	userInst.DeviceTestInsts = []dbs.DeviceTestInst{}
-	userInst.DOTestInsts = []dbs.DOTestInst{}
-	userInst.RVTestInsts = []dbs.RVTestInst{}
-
-	err = h.UserDB.Save(*userInst)
+	err = h.UserDB.Modify(userInst.Email, func(user *dbs.UserTestDBEntry) {
+		user.DeviceTestInsts = []dbs.DeviceTestInst{}
+		user.DOTestInsts = []dbs.DOTestInst{}
+		user.RVTestInsts = []dbs.RVTestInst{}
+	})
 	if err != nil {
 		log.Println("Failed to save user. " + err.Error())
 		commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
diff --git a/dbs/user.db.go b/dbs/user.db.go
index 8bd1558..6ae4908 100644
--- a/dbs/user.db.go
+++ b/dbs/user.db.go
@@ -76,6 +76,44 @@ func (h *UserTestDB) Get(email string) (*UserTestDBEntry, error) {
 	return &usertEntryInst, nil
 }
 
+// Modify applies change to the stored user in a single transaction, so that simultaneous requests of one user do not undo each other
+func (h *UserTestDB) Modify(email string, change func(usere *UserTestDBEntry)) error {
+	userEStorageId := append([]byte{}, h.prefix...)
+	userEStorageId = append(userEStorageId, []byte(strings.ToLower(email))...)
+
+	for {
+		err := h.db.Update(func(dbtxn *badger.Txn) error {
+			item, err := dbtxn.Get(userEStorageId)
+			if err != nil {
+				return errors.New("Failed locating entry. The error is: " + err.Error())
+			}
+
+			itemBytes, err := item.ValueCopy(nil)
+			if err != nil {
+				return errors.New("Failed reading entry value. The error is: " + err.Error())
+			}
+
+			var usere UserTestDBEntry
+			err = fdoshared.CborCust.Unmarshal(itemBytes, &usere)
+			if err != nil {
+				return errors.New("Failed cbor decoding entry value. The error is: " + err.Error())
+			}
+
+			change(&usere)
+
+			usereBytes, err := fdoshared.CborCust.Marshal(usere)
+			if err != nil {
+				return errors.New("Failed to marshal User entry. The error is: " + err.Error())
+			}
+
+			return dbtxn.SetEntry(badger.NewEntry(userEStorageId, usereBytes))
+		})
+		if !errors.Is(err, badger.ErrConflict) {
+			return err
+		}
+	}
+}
+
 func (h *UserTestDB) ResetUsers() error {
 	dbtxn := h.db.NewTransaction(true)
 	defer dbtxn.Discard()
-- 
2.43.0


From 917a41cdc9b2ccc31067789634e26300e7b87fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 26/30] fix: one expired test no longer hides the list of all
 tests

---
 api/testapi/do.api.go | 5 ++---
 api/testapi/rv.api.go | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/api/testapi/do.api.go b/api/testapi/do.api.go
index 14b757f..4a236ce 100644
--- a/api/testapi/do.api.go
+++ b/api/testapi/do.api.go
@@ -271,9 +271,8 @@ func (h *DOTestMgmtAPI) List(w http.ResponseWriter, r *http.Request) {
 
 		dotsInfoPayloadPtr, err := h.ReqTDB.Get(dotInfo.To2)
 		if err != nil {
-			log.Println("Error reading dots. " + err.Error())
-			commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
-			return
+			log.Printf("Failed to find entry for %s. %s", hex.EncodeToString(dotInfo.Uuid), err.Error())
+			continue
 		}
 
 		dotsInfoPayload := *dotsInfoPayloadPtr
diff --git a/api/testapi/rv.api.go b/api/testapi/rv.api.go
index ebd5d71..67aae93 100644
--- a/api/testapi/rv.api.go
+++ b/api/testapi/rv.api.go
@@ -163,9 +163,8 @@ func (h *RVTestMgmtAPI) List(w http.ResponseWriter, r *http.Request) {
 
 		rvtsInfoPayloadsPtr, err := h.ReqTDB.GetMany([][]byte{rvtInfo.To0, rvtInfo.To1})
 		if err != nil {
-			log.Println("Error reading rvts. " + err.Error())
-			commonapi.RespondError(w, "Internal server error", http.StatusInternalServerError)
-			return
+			log.Printf("Failed to find entries for %s. %s", hex.EncodeToString(rvtInfo.Uuid), err.Error())
+			continue
 		}
 
 		rvtsInfoPayloads := *rvtsInfoPayloadsPtr
-- 
2.43.0


From 3b8761546f85368e05903c36b28f5eaaa58a6e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 27/30] fix: the url of a service under test needs a scheme and
 a host

---
 api/commonapi/common.go | 24 ++++++++++++++++++++++++
 api/testapi/do.api.go   | 10 +---------
 api/testapi/rv.api.go   | 11 +----------
 3 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/api/commonapi/common.go b/api/commonapi/common.go
index b85b057..a7ad807 100644
--- a/api/commonapi/common.go
+++ b/api/commonapi/common.go
@@ -2,10 +2,34 @@ package commonapi
 
 import (
 	"encoding/json"
+	"errors"
 	"net/http"
+	"net/url"
 	"time"
 )
 
+// ParseServiceUrl returns the scheme and host of the url of a service under test
+func ParseServiceUrl(serviceUrl string) (string, error) {
+	parsedUrl, err := url.ParseRequestURI(serviceUrl)
+	if err != nil {
+		return "", err
+	}
+
+	if parsedUrl.Scheme != "http" && parsedUrl.Scheme != "https" {
+		return "", errors.New("unsupported scheme")
+	}
+
+	if parsedUrl.Hostname() == "" {
+		return "", errors.New("missing host")
+	}
+
+	if parsedUrl.Path != "" && parsedUrl.Path != "/" {
+		return "", errors.New("unexpected path")
+	}
+
+	return parsedUrl.Scheme + "://" + parsedUrl.Host, nil
+}
+
 const CONTENT_TYPE_JSON string = "application/json"
 
 func GenerateCookie(token []byte) *http.Cookie {
diff --git a/api/testapi/do.api.go b/api/testapi/do.api.go
index 4a236ce..9621ebf 100644
--- a/api/testapi/do.api.go
+++ b/api/testapi/do.api.go
@@ -91,21 +91,13 @@ func (h *DOTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	parsedUrl, err := url.ParseRequestURI(createTestCase.Url)
+	doUrl, err := commonapi.ParseServiceUrl(createTestCase.Url)
 	if err != nil {
 		log.Println("Bad URL. " + err.Error())
 		commonapi.RespondError(w, "Bad URL", http.StatusBadRequest)
 		return
 	}
 
-	if parsedUrl.Path != "" && parsedUrl.Path != "/" {
-		log.Println("Bad URL path.")
-		commonapi.RespondError(w, "Bad URL", http.StatusBadRequest)
-		return
-	}
-
-	doUrl := parsedUrl.Scheme + "://" + parsedUrl.Host
-
 	block, _ := pem.Decode([]byte(createTestCase.PrivKey))
 	if block == nil {
 		log.Println("Failed to decode private key PEM.")
diff --git a/api/testapi/rv.api.go b/api/testapi/rv.api.go
index 67aae93..a2c5d0f 100644
--- a/api/testapi/rv.api.go
+++ b/api/testapi/rv.api.go
@@ -8,7 +8,6 @@ import (
 	"io"
 	"log"
 	"net/http"
-	"net/url"
 
 	"github.com/gorilla/mux"
 
@@ -85,21 +84,13 @@ func (h *RVTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	parsedUrl, err := url.ParseRequestURI(createTestCase.Url)
+	rvUrl, err := commonapi.ParseServiceUrl(createTestCase.Url)
 	if err != nil {
 		log.Println("Bad URL. " + err.Error())
 		commonapi.RespondError(w, "Bad URL", http.StatusBadRequest)
 		return
 	}
 
-	if parsedUrl.Path != "" && parsedUrl.Path != "/" {
-		log.Println("Bad URL path.")
-		commonapi.RespondError(w, "Bad URL", http.StatusBadRequest)
-		return
-	}
-
-	rvUrl := parsedUrl.Scheme + "://" + parsedUrl.Host
-
 	mainConfig, err := h.ConfigDB.Get()
 	if err != nil {
 		log.Println("Failed to generate VDIs. " + err.Error())
-- 
2.43.0


From d82f085dca675326497f356f0fb4145c7883ca04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 28/30] fix: tests of an owner service can be created with an
 RSA key

---
 api/testapi/do.api.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/api/testapi/do.api.go b/api/testapi/do.api.go
index 9621ebf..7030a4c 100644
--- a/api/testapi/do.api.go
+++ b/api/testapi/do.api.go
@@ -116,6 +116,9 @@ func (h *DOTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		pkType fdoshared.FdoPkType
 		sgType fdoshared.SgType
 		pubKey any
+
+		// Devices only have EC keys. With an RSA owner the hashes are those of the EC key of the same strength
+		deviceSgType fdoshared.SgType
 	)
 
 	switch typedPrivKey := privKey.(type) {
@@ -124,10 +127,12 @@ func (h *DOTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		case elliptic.P256():
 			pkType = fdoshared.SECP256R1
 			sgType = fdoshared.StSECP256R1
+			deviceSgType = fdoshared.StSECP256R1
 			pubKey = typedPrivKey.Public()
 		case elliptic.P384():
 			pkType = fdoshared.SECP384R1
 			sgType = fdoshared.StSECP384R1
+			deviceSgType = fdoshared.StSECP384R1
 			pubKey = typedPrivKey.Public()
 		default:
 			log.Println("Unsupported elliptic curve: " + typedPrivKey.Curve.Params().Name)
@@ -139,10 +144,12 @@ func (h *DOTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		case 2048:
 			pkType = fdoshared.RSA2048RESTR
 			sgType = fdoshared.StRSA2048
+			deviceSgType = fdoshared.StSECP256R1
 			pubKey = &typedPrivKey.PublicKey
 		case 3072:
 			pkType = fdoshared.RSAPKCS
 			sgType = fdoshared.StRSA3072
+			deviceSgType = fdoshared.StSECP384R1
 			pubKey = &typedPrivKey.PublicKey
 		default:
 			log.Println("Unsupported RSA key size: " + fmt.Sprint(bitSize))
@@ -175,7 +182,7 @@ func (h *DOTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	guid := mainConfig.SeededGuids.GetRandomTestGuidForSgType(sgType)
+	guid := mainConfig.SeededGuids.GetRandomTestGuidForSgType(deviceSgType)
 
 	deviceCredential, err := h.DevBaseDB.Get(guid)
 	if err != nil {
@@ -213,7 +220,7 @@ func (h *DOTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		testcom.NULL_TEST: {*credentialAndVoucher},
 	}
 	newDOTTestTo2.FdoSeedIDs = map[fdoshared.SgType]fdoshared.FdoGuidList{
-		sgType: {guid},
+		deviceSgType: {guid},
 	}
 
 	// Saving stuff
-- 
2.43.0


From 128e52ace677c68dede9488daa3c36758bd70cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 29/30] fix: resetting the users crashed or removed only one of
 them

---
 dbs/user.db.go | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/dbs/user.db.go b/dbs/user.db.go
index 6ae4908..41a9b0f 100644
--- a/dbs/user.db.go
+++ b/dbs/user.db.go
@@ -115,28 +115,39 @@ func (h *UserTestDB) Modify(email string, change func(usere *UserTestDBEntry)) e
 }
 
 func (h *UserTestDB) ResetUsers() error {
-	dbtxn := h.db.NewTransaction(true)
-	defer dbtxn.Discard()
+	var keys [][]byte
+
+	err := h.db.View(func(dbtxn *badger.Txn) error {
+		iterTxn := dbtxn.NewIterator(badger.IteratorOptions{
+			Prefix: h.prefix,
+		})
+		defer iterTxn.Close()
 
-	iterTxn := dbtxn.NewIterator(badger.IteratorOptions{
-		Prefix: h.prefix,
+		for iterTxn.Rewind(); iterTxn.Valid(); iterTxn.Next() {
+			keys = append(keys, iterTxn.Item().KeyCopy(nil))
+		}
+
+		return nil
 	})
-	defer iterTxn.Close()
-	for iterTxn.Rewind(); iterTxn.Valid(); iterTxn.Next() {
-		item := iterTxn.Item()
-		k := item.Key()
+	if err != nil {
+		return errors.New("Failed listing User entries. The error is: " + err.Error())
+	}
+
+	batch := h.db.NewWriteBatch()
+	defer batch.Cancel()
 
+	for _, k := range keys {
 		log.Println("Deleting... " + hex.EncodeToString(k))
 
-		err := dbtxn.Delete(k)
+		err = batch.Delete(k)
 		if err != nil {
-			log.Println("Error creater delete req... " + hex.EncodeToString(k))
+			return errors.New("Failed deleting User entry. The error is: " + err.Error())
 		}
+	}
 
-		err = dbtxn.Commit()
-		if err != nil {
-			log.Println("Failed to commit delete req... " + hex.EncodeToString(k))
-		}
+	err = batch.Flush()
+	if err != nil {
+		return errors.New("Failed deleting User entries. The error is: " + err.Error())
 	}
 
 	return nil
-- 
2.43.0


From 499e35e2ed5421ed56fedb3556179dd771b9238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 30/30] fix: resetting the device tests removed none of them

---
 core/shared/testcom/dbs/listener.db.go | 40 +++++++++++++++++---------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/core/shared/testcom/dbs/listener.db.go b/core/shared/testcom/dbs/listener.db.go
index ecd5615..63b9de9 100644
--- a/core/shared/testcom/dbs/listener.db.go
+++ b/core/shared/testcom/dbs/listener.db.go
@@ -213,27 +213,39 @@ func (h *ListenerTestDB) Delete(entryUuid []byte) error {
 }
 
 func (h *ListenerTestDB) ResetDB() error {
-	dbtxn := h.db.NewTransaction(true)
-	defer dbtxn.Discard()
+	var keys [][]byte
 
-	iterTxn := dbtxn.NewIterator(badger.IteratorOptions{})
-	defer iterTxn.Close()
-	for iterTxn.Rewind(); iterTxn.ValidForPrefix(h.prefix) || iterTxn.ValidForPrefix(h.mapperGuidPrefix); iterTxn.Next() {
-		item := iterTxn.Item()
-		k := item.Key()
-
-		log.Println("Deleting... " + hex.EncodeToString(k))
+	err := h.db.View(func(dbtxn *badger.Txn) error {
+		iterTxn := dbtxn.NewIterator(badger.IteratorOptions{})
+		defer iterTxn.Close()
 
-		err := dbtxn.Delete(k)
-		if err != nil {
-			log.Println("Error creating delete mapping... " + hex.EncodeToString(k))
+		for _, prefix := range [][]byte{h.prefix, h.mapperGuidPrefix} {
+			for iterTxn.Seek(prefix); iterTxn.ValidForPrefix(prefix); iterTxn.Next() {
+				keys = append(keys, iterTxn.Item().KeyCopy(nil))
+			}
 		}
 
-		err = dbtxn.Commit()
+		return nil
+	})
+	if err != nil {
+		return errors.New("Failed listing listener entries. The error is: " + err.Error())
+	}
+
+	batch := h.db.NewWriteBatch()
+	defer batch.Cancel()
+
+	for _, k := range keys {
+		log.Println("Deleting... " + hex.EncodeToString(k))
+
+		err = batch.Delete(k)
 		if err != nil {
-			log.Println("Failed to commit delete mapping... " + hex.EncodeToString(k))
+			return errors.New("Failed deleting listener entry. The error is: " + err.Error())
 		}
+	}
 
+	err = batch.Flush()
+	if err != nil {
+		return errors.New("Failed deleting listener entries. The error is: " + err.Error())
 	}
 
 	return nil
-- 
2.43.0

