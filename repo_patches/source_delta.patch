From f81355223736b05942d3a5e6ef6e391adb947559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 01/27] fix: PublicKey.VerifyRS passed message and user id in
 the wrong order

---
 sm2/sm2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 584f8dc..94031b7 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -148,7 +148,7 @@ func (pub *PublicKey) Verify(in, uid, signature []byte) bool {
 }
 
 func (pub *PublicKey) VerifyRS(in, uid []byte, r, s *big.Int) bool {
-	return VerifyRS(pub, uid, in, r, s)
+	return VerifyRS(pub, in, uid, r, s)
 }
 
 func (pub *PublicKey) VerifyDigest(in, signature []byte) bool {
-- 
2.43.0


From fcb662c80901d47f478e3420735d54bee0ad11d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 02/27] fix: encode SM2 ciphertext coordinates with fixed width

---
 sm2/sm2.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 94031b7..6883eb8 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -394,14 +394,14 @@ func Encryt(rand io.Reader, pub *PublicKey, msg []byte) ([]byte, error) {
 		kBytes := k.Bytes()
 		//计算c1 = k·G(x,y)
 		c1x, c1y := curve.ScalarBaseMult(kBytes)
-		c = append(c, c1x.Bytes()...)
-		c = append(c, c1y.Bytes()...)
+		c = append(c, appendBigIntTo32Bytes(c1x)...)
+		c = append(c, appendBigIntTo32Bytes(c1y)...)
 		//计算c3
 		kpx, kpy := curve.ScalarMult(pub.X, pub.Y, kBytes)
 		c3 := []byte{}
-		c3 = append(c3, kpx.Bytes()...)
+		c3 = append(c3, appendBigIntTo32Bytes(kpx)...)
 		c3 = append(c3, msg...)
-		c3 = append(c3, kpy.Bytes()...)
+		c3 = append(c3, appendBigIntTo32Bytes(kpy)...)
 		c = append(c, sm3.Sum(c3)...)
 		//计算c2
 		t, ok := kdf(length, kpx, kpy)
@@ -482,9 +482,9 @@ func Decryt(priv *PrivateKey, data []byte) ([]byte, error) {
 	}
 	//比对摘要
 	tm := []byte{}
-	tm = append(tm, x2.Bytes()...)
+	tm = append(tm, appendBigIntTo32Bytes(x2)...)
 	tm = append(tm, c...)
-	tm = append(tm, y2.Bytes()...)
+	tm = append(tm, appendBigIntTo32Bytes(y2)...)
 	hash := sm3.Sum(tm)
 	if bytes.Compare(hash, data[64:96]) != 0 {
 		return c, errors.New("failed to decrypt:hash compared error")
-- 
2.43.0


From b7313b5f4ef0d0b5a13e1b369fa56d0f9c9a4985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 03/27] fix: derive the SM2 key stream from independent blocks
 and truncate only the last

---
 sm2/sm2.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 6883eb8..c1330bc 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -425,17 +425,14 @@ func kdf(klen int, x, y *big.Int) ([]byte, bool) {
 	yBytes := appendBigIntTo32Bytes(y)
 	n := (klen + 31) / 32 //需要计算的次数
 	for i := 0; i < n; i++ {
+		h.Reset()
 		h.Write(xBytes)
 		h.Write(yBytes)
 		h.Write(intToBytes(ct))
-		hash := h.Sum(nil)
-		if klen%32 != 0 {
-			out = append(out, hash[:klen%32]...)
-		} else {
-			out = append(out, hash...)
-		}
+		out = append(out, h.Sum(nil)...)
 		ct++
 	}
+	out = out[:klen]
 	for i := 0; i < len(out); i++ {
 		if out[i] != 0 {
 			return out, true
-- 
2.43.0


From ea3009c1aa5bc812b94d5464ed59671e29327851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 04/27] fix: SM2 encryption of an empty message never returned

---
 sm2/sm2.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index c1330bc..3c6e136 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -384,6 +384,9 @@ func VerifyDigestRS(pub *PublicKey, digest []byte, r, s *big.Int) bool {
 
 func Encryt(rand io.Reader, pub *PublicKey, msg []byte) ([]byte, error) {
 	length := len(msg)
+	if length == 0 {
+		return nil, errors.New("failed to encrypt:empty message")
+	}
 	for {
 		c := []byte{}
 		curve := pub.Curve
-- 
2.43.0


From e1f6e3b76cdfde8dfdda1e0bfda97f84ecceb2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 05/27] fix: reject malformed SM2 ciphertexts instead of
 panicking

---
 sm2/sm2.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 3c6e136..a5764c4 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -451,6 +451,10 @@ func intToBytes(x int) []byte {
 }
 
 func Decryt(priv *PrivateKey, data []byte) ([]byte, error) {
+	//0x04 || c1(64) || c3(32) || c2
+	if len(data) <= 97 || data[0] != 0x04 {
+		return nil, errors.New("failed to decrypt:malformed ciphertext")
+	}
 	//去除开头的0x04
 	data = data[1:]
 	//取出c1,是否满足椭圆曲线方程
-- 
2.43.0


From 904bb77ad86d05a6de4d3bf64feb3fe5123a500f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 06/27] fix: do not release unauthenticated SM2 plaintext

---
 sm2/sm2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index a5764c4..e196ce3 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -491,7 +491,7 @@ func Decryt(priv *PrivateKey, data []byte) ([]byte, error) {
 	tm = append(tm, appendBigIntTo32Bytes(y2)...)
 	hash := sm3.Sum(tm)
 	if bytes.Compare(hash, data[64:96]) != 0 {
-		return c, errors.New("failed to decrypt:hash compared error")
+		return nil, errors.New("failed to decrypt:hash compared error")
 	}
 	return c, nil
 }
-- 
2.43.0


From 7af78dd1db6d8a8ebceb1ad16597c791ce7c09d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 07/27] fix: reject SM2 user ids whose bit length does not fit
 ENTL

---
 sm2/sm2.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index e196ce3..90949f1 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -131,6 +131,10 @@ func (pub *PublicKey) SM3Digest(msg []byte, uid []byte) ([]byte, error) {
 	if len(uid) == 0 {
 		uid = sm2SignDefaultUserId
 	}
+	//ENTLA为16位，只能表示8191字节以内的userid
+	if len(uid) > 0xFFFF/8 {
+		return nil, errors.New("user id too long")
+	}
 	digest := sm3.New()
 	z := z(digest, pub.X, pub.Y, uid)
 	digest.Reset()
@@ -252,6 +256,9 @@ func Sign(rand io.Reader, priv *PrivateKey, in, uid []byte) ([]byte, error) {
 //原文裸签，返回R||S
 func SignRS(rand io.Reader, priv *PrivateKey, in, userId []byte) (r, s *big.Int, err error) {
 	hash, err := priv.PublicKey.SM3Digest(in, userId)
+	if err != nil {
+		return nil, nil, err
+	}
 	return SignDigestRS(rand, priv, hash)
 }
 
-- 
2.43.0


From 61af6e4d61249c767d98d2b3ddbf62cd17b17a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 08/27] fix: reject SM2 private keys for which 1+d is not
 invertible

---
 sm2/sm2.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 90949f1..55cda34 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -280,6 +280,10 @@ func SignDigestRS(rand io.Reader, priv *PrivateKey, digest []byte) (r, s *big.In
 	if N.Sign() == 0 {
 		return nil, nil, errZeroParam
 	}
+	//私钥d须满足0 < d < n-1，否则1+d不可逆或签名无意义
+	if priv.D.Sign() <= 0 || priv.D.Cmp(new(big.Int).Sub(N, one)) >= 0 {
+		return nil, nil, errors.New("private key out of range")
+	}
 	for {
 		var k *big.Int
 		var err error
-- 
2.43.0


From 6faceabe99cc79b6715651b5715138b02f2887c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 09/27] fix: ToPEM returned no error for a wrong password or
 malformed data

---
 pkcs12/pkcs12.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkcs12/pkcs12.go b/pkcs12/pkcs12.go
index 682ad78..a127082 100644
--- a/pkcs12/pkcs12.go
+++ b/pkcs12/pkcs12.go
@@ -110,6 +110,9 @@ func ToPEM(pfxData []byte, password string) ([]*pem.Block, error) {
 	}
 
 	bags, encodedPassword, err := getSafeContents(pfxData, encodedPassword)
+	if err != nil {
+		return nil, err
+	}
 
 	blocks := make([]*pem.Block, 0, len(bags))
 	for _, bag := range bags {
-- 
2.43.0


From 0e8cf2a225b1739e851d74959af1f7e9303622e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 10/27] fix: DecodeAll failed on several certificates depending
 on bag order

---
 pkcs12/pkcs12.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pkcs12/pkcs12.go b/pkcs12/pkcs12.go
index a127082..fe30669 100644
--- a/pkcs12/pkcs12.go
+++ b/pkcs12/pkcs12.go
@@ -227,10 +227,6 @@ func DecodeAll(pfxData []byte, password string) (privateKey interface{}, certifi
 	for _, bag := range bags {
 		switch {
 		case bag.Id.Equal(oidCertBag):
-			if certificate != nil {
-				err = errors.New("go-pkcs12: expected exactly one certificate bag")
-			}
-
 			certsData, err := decodeCertBag(bag.Value.Bytes)
 			if err != nil {
 				return nil, nil, err
-- 
2.43.0


From e9e731bc12ca90abb02521c0e94009acc1ee62aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 11/27] fix: report duplicate key and certificate bags instead
 of losing the error

---
 pkcs12/pkcs12.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkcs12/pkcs12.go b/pkcs12/pkcs12.go
index fe30669..7194641 100644
--- a/pkcs12/pkcs12.go
+++ b/pkcs12/pkcs12.go
@@ -243,7 +243,7 @@ func DecodeAll(pfxData []byte, password string) (privateKey interface{}, certifi
 
 		case bag.Id.Equal(oidPKCS8ShroundedKeyBag):
 			if privateKey != nil {
-				err = errors.New("go-pkcs12: expected exactly one key bag")
+				return nil, nil, errors.New("go-pkcs12: expected exactly one key bag")
 			}
 
 			if privateKey, err = decodePkcs8ShroudedKeyBag(bag.Value.Bytes, encodedPassword); err != nil {
@@ -285,7 +285,7 @@ func Decode(pfxData []byte, password string) (privateKey interface{}, certificat
 		switch {
 		case bag.Id.Equal(oidCertBag):
 			if certificate != nil {
-				err = errors.New("go-pkcs12: expected exactly one certificate bag")
+				return nil, nil, errors.New("go-pkcs12: expected exactly one certificate bag")
 			}
 
 			certsData, err := decodeCertBag(bag.Value.Bytes)
@@ -304,7 +304,7 @@ func Decode(pfxData []byte, password string) (privateKey interface{}, certificat
 
 		case bag.Id.Equal(oidPKCS8ShroundedKeyBag):
 			if privateKey != nil {
-				err = errors.New("go-pkcs12: expected exactly one key bag")
+				return nil, nil, errors.New("go-pkcs12: expected exactly one key bag")
 			}
 
 			if privateKey, err = decodePkcs8ShroudedKeyBag(bag.Value.Bytes, encodedPassword); err != nil {
-- 
2.43.0


From f7f84705233874b405468cd6157807c3a8207cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 12/27] fix: SM2P12Decrypt ignored the error of reading the
 file

---
 pkcs12/pkcs12.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkcs12/pkcs12.go b/pkcs12/pkcs12.go
index 7194641..04dce3b 100644
--- a/pkcs12/pkcs12.go
+++ b/pkcs12/pkcs12.go
@@ -556,7 +556,10 @@ func SM2P12Encrypt(certificate *x.Certificate, pwd string, priv *sm2.PrivateKey,
 	return err
 }
 func SM2P12Decrypt(fileName string, pwd string) (*x.Certificate, interface{}, error) {
-	pfxData, _ := ioutil.ReadFile(fileName)
+	pfxData, err := ioutil.ReadFile(fileName)
+	if err != nil {
+		return nil, nil, err
+	}
 	pv, cer, err := DecodeAll(pfxData, pwd)
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From 100c2080fa11636e3a6a9cdfe5c2006c91575654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 13/27] fix: SM2P12Decrypt returned neither key nor error for a
 foreign curve

---
 pkcs12/pkcs12.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkcs12/pkcs12.go b/pkcs12/pkcs12.go
index 04dce3b..fe45297 100644
--- a/pkcs12/pkcs12.go
+++ b/pkcs12/pkcs12.go
@@ -589,5 +589,5 @@ func SM2P12Decrypt(fileName string, pwd string) (*x.Certificate, interface{}, er
 	default:
 		return nil, nil, errors.New("unexpected type for p12 private key")
 	}
-	return nil, nil, nil
+	return nil, nil, errors.New("unexpected curve for p12 private key")
 }
-- 
2.43.0


From 2bee67f4b5747d0baa70e2ef6519aead1ab13c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 14/27] fix: validate the RC2 key length and effective key
 length

---
 pkcs12/rc2.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkcs12/rc2.go b/pkcs12/rc2.go
index 7014f06..7533740 100644
--- a/pkcs12/rc2.go
+++ b/pkcs12/rc2.go
@@ -14,6 +14,7 @@ package pkcs12
 import (
 	"crypto/cipher"
 	"encoding/binary"
+	"errors"
 )
 
 // The rc2 block size in bytes
@@ -25,7 +26,12 @@ type rc2Cipher struct {
 
 // New returns a new rc2 cipher with the given key and effective key length t1
 func New(key []byte, t1 int) (cipher.Block, error) {
-	// TODO(dgryski): error checking for key length
+	if len(key) < 1 || len(key) > 128 {
+		return nil, errors.New("go-pkcs12: invalid RC2 key length")
+	}
+	if t1 < 1 || t1 > 1024 {
+		return nil, errors.New("go-pkcs12: invalid RC2 effective key length")
+	}
 	return &rc2Cipher{
 		k: expandKey(key, t1),
 	}, nil
-- 
2.43.0


From c1b33cb73d6b4e88f74b81089a96eb973128c540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 15/27] fix: NewSignedData returned an unsigned message when
 signing failed

---
 x509/pkcs7.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x509/pkcs7.go b/x509/pkcs7.go
index 2aa4867..77a5bee 100644
--- a/x509/pkcs7.go
+++ b/x509/pkcs7.go
@@ -190,6 +190,9 @@ func NewSignedDataCallBack(signerCertificate *Certificate, callback Callback, da
 	certs := []*Certificate{signerCertificate}
 
 	si, err := getSignerInfoWithAttrCallback(signerCertificate, callback, data, SignerInfoConfig{})
+	if err != nil {
+		return nil, err
+	}
 
 	sd := signedData{
 		Version:                    1,
@@ -228,6 +231,9 @@ func NewSignedData(signerCertificate *Certificate, signerPrivateKey crypto.Priva
 	certs := []*Certificate{signerCertificate}
 
 	si, err := getSignerInfoWithAttr(signerCertificate, signerPrivateKey, data, SignerInfoConfig{})
+	if err != nil {
+		return nil, err
+	}
 
 	sd := signedData{
 		Version:                    1,
-- 
2.43.0


From 3198ee492d887129a516683d6e4daec25699ed6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 16/27] fix: ParsePKCS7 ignored malformed SignedData

---
 x509/pkcs7.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x509/pkcs7.go b/x509/pkcs7.go
index 77a5bee..ca94e69 100644
--- a/x509/pkcs7.go
+++ b/x509/pkcs7.go
@@ -472,7 +472,9 @@ type unsignedData []byte
 
 func parseSignedData(data []byte) (*PKCS7, error) {
 	var sd signedData
-	asn1.Unmarshal(data, &sd)
+	if _, err := asn1.Unmarshal(data, &sd); err != nil {
+		return nil, err
+	}
 	certs, err := sd.Certificates.Parse()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 611cf8f8a4f1d56dbd35f042e026ed05f4ec0a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 17/27] fix: SM2 certificates, requests and revocation lists
 were signed over a digest but verified over the message

---
 x509/x509.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x509/x509.go b/x509/x509.go
index 0c02d65..acf632f 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1761,7 +1761,7 @@ func CreateCertificate(rand io.Reader, template, parent *Certificate, pub, priv
 	c.Raw = tbsCertContents
 
 	signed := tbsCertContents
-	if hashFunc != 0 {
+	if hashFunc != 0 && hashFunc != SM3 {
 		h := hashFunc.New()
 		h.Write(signed)
 		signed = h.Sum(nil)
@@ -2190,7 +2190,7 @@ func CreateCertificateRequest(rand io.Reader, template *CertificateRequest, priv
 	tbsCSR.Raw = tbsCSRContents
 
 	signed := tbsCSRContents
-	if hashFunc != 0 {
+	if hashFunc != 0 && hashFunc != SM3 {
 		h := hashFunc.New()
 		h.Write(signed)
 		signed = h.Sum(nil)
@@ -2393,7 +2393,7 @@ func CreateRevocationList(rand io.Reader, template *RevocationList, issuer *Cert
 	}
 
 	input := tbsCertListContents
-	if hashFunc != 0 {
+	if hashFunc != 0 && hashFunc != SM3 {
 		h := hashFunc.New()
 		h.Write(tbsCertListContents)
 		input = h.Sum(nil)
-- 
2.43.0


From 5e97b26218fe4ab99837076e5a6775807ffaad10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 18/27] fix: CreateCertificateRequest signed RSA-PSS requests
 with PKCS #1 v1.5

---
 x509/x509.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/x509/x509.go b/x509/x509.go
index acf632f..e768bba 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -2196,8 +2196,16 @@ func CreateCertificateRequest(rand io.Reader, template *CertificateRequest, priv
 		signed = h.Sum(nil)
 	}
 
+	var signerOpts crypto.SignerOpts = hashFunc
+	if template.SignatureAlgorithm.isRSAPSS() {
+		signerOpts = &rsa.PSSOptions{
+			SaltLength: rsa.PSSSaltLengthEqualsHash,
+			Hash:       crypto.Hash(hashFunc),
+		}
+	}
+
 	var signature []byte
-	signature, err = key.Sign(rand, signed, hashFunc)
+	signature, err = key.Sign(rand, signed, signerOpts)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 7443aa0b2dc5e6fca1e99e5d48ef41e7645f80a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 19/27] fix: Ed25519 signatures could not be verified

---
 x509/x509.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/x509/x509.go b/x509/x509.go
index e768bba..c14f1dc 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1015,18 +1015,20 @@ func checkSignature(algo SignatureAlgorithm, plain, signature []byte, publicKey
 		}
 	}
 
-	if !hashType.Available() {
-		return ErrUnsupportedAlgorithm
-	}
-
-	if hashType == 0 && pubKeyAlgo != Ed25519 {
-		return ErrUnsupportedAlgorithm
+	signed := plain
+	if hashType == 0 {
+		if pubKeyAlgo != Ed25519 {
+			return ErrUnsupportedAlgorithm
+		}
+	} else {
+		if !hashType.Available() {
+			return ErrUnsupportedAlgorithm
+		}
+		h := hashType.New()
+		h.Write(plain)
+		signed = h.Sum(nil)
 	}
 
-	h := hashType.New()
-	h.Write(plain)
-	signed := h.Sum(nil)
-
 	switch pub := publicKey.(type) {
 	case *rsa.PublicKey:
 		if pubKeyAlgo != RSA {
-- 
2.43.0


From fbf3eaaec4d9ae6794963860a3b536c330348d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 20/27] fix: MD5 and SHA-1 signatures were accepted although
 documented as unsupported for verification

---
 x509/x509.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/x509/x509.go b/x509/x509.go
index c14f1dc..df29168 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1016,7 +1016,10 @@ func checkSignature(algo SignatureAlgorithm, plain, signature []byte, publicKey
 	}
 
 	signed := plain
-	if hashType == 0 {
+	if hashType == MD5 || hashType == SHA1 {
+		// Only supported for signing, not verification.
+		return InsecureAlgorithmError(algo)
+	} else if hashType == 0 {
 		if pubKeyAlgo != Ed25519 {
 			return ErrUnsupportedAlgorithm
 		}
-- 
2.43.0


From b0ebd3d9f85bcf85afdcf65d3c95d5a2c5e5e655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 21/27] fix: SM2WithSM3 was accepted for ECDSA keys and ECDSA
 algorithms for SM2 keys

---
 x509/x509.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x509/x509.go b/x509/x509.go
index df29168..b4b9c23 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -530,7 +530,7 @@ var signatureAlgorithmDetails = []struct {
 	{ECDSAWithSHA384, "ECDSA-SHA384", oidSignatureECDSAWithSHA384, ECDSA, SHA384},
 	{ECDSAWithSHA512, "ECDSA-SHA512", oidSignatureECDSAWithSHA512, ECDSA, SHA512},
 	{PureEd25519, "Ed25519", oidSignatureEd25519, Ed25519, Hash(0) /* no pre-hashing */},
-	{SM2WithSM3, "SM2WithSM3", oidSignatureSM2WithSM3, ECDSA, SM3},
+	{SM2WithSM3, "SM2WithSM3", oidSignatureSM2WithSM3, SM2, SM3},
 }
 
 // hashToPSSParameters contains the DER encoded RSA PSS parameters for the
@@ -1051,7 +1051,7 @@ func checkSignature(algo SignatureAlgorithm, plain, signature []byte, publicKey
 		}
 		return
 	case *sm2.PublicKey:
-		if pubKeyAlgo != ECDSA {
+		if pubKeyAlgo != SM2 {
 			return signaturePublicKeyAlgoMismatchError(pubKeyAlgo, pub)
 		}
 		if pub.Curve != sm2.SM2P256V1() {
@@ -1575,7 +1575,7 @@ func signingParamsForPublicKey(pub any, requestedSigAlgo SignatureAlgorithm) (ha
 			err = errors.New("x509: unknown elliptic curve")
 		}
 	case *sm2.PublicKey:
-		pubType = ECDSA
+		pubType = SM2
 		switch pub.Curve {
 		case sm2.SM2P256V1():
 			hashFunc = SM3
-- 
2.43.0


From 5e59aabf70f8cfdb666aea46c6d040e23e83a6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 22/27] fix: parsing a certificate printed debug output to
 standard output

---
 x509/parser.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/x509/parser.go b/x509/parser.go
index fe08981..a9abe23 100644
--- a/x509/parser.go
+++ b/x509/parser.go
@@ -1121,13 +1121,6 @@ func parseCertificate(der []byte) (*Certificate, error) {
 		return nil, err
 	}
 
-	var paramsoid cryptobyte.String
-	paramsoid = pkAI.Parameters.FullBytes
-	var paramsAlgorithm asn1.ObjectIdentifier
-	paramsoid.ReadASN1ObjectIdentifier(&paramsAlgorithm)
-
-	fmt.Println(paramsAlgorithm)
-
 	cert.PublicKeyAlgorithm = getPublicKeyAlgorithmFromOID(pkAI.Algorithm)
 	var spk asn1.BitString
 	if !spki.ReadASN1BitString(&spk) {
-- 
2.43.0


From 1bfd7d842b79738f03c9efb3692e0e05828d4df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 23/27] fix: a certificate version of the largest integer
 wrapped around and was accepted

---
 x509/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x509/parser.go b/x509/parser.go
index a9abe23..1df18ba 100644
--- a/x509/parser.go
+++ b/x509/parser.go
@@ -1038,7 +1038,7 @@ func parseCertificate(der []byte) (*Certificate, error) {
 	// for backwards compat reasons Version is one-indexed,
 	// rather than zero-indexed as defined in 5280
 	cert.Version++
-	if cert.Version > 3 {
+	if cert.Version < 1 || cert.Version > 3 {
 		return nil, errors.New("x509: invalid version")
 	}
 
-- 
2.43.0


From bf4417def9088649c5d26aac160470ecedf38099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 24/27] fix: reject a zero EC private key

---
 x509/sec1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x509/sec1.go b/x509/sec1.go
index c5d3306..c87f049 100644
--- a/x509/sec1.go
+++ b/x509/sec1.go
@@ -103,7 +103,7 @@ func parseECPrivateKey(namedCurveOID *asn1.ObjectIdentifier, der []byte) (key an
 
 	k := new(big.Int).SetBytes(privKey.PrivateKey)
 	curveOrder := curve.Params().N
-	if k.Cmp(curveOrder) >= 0 {
+	if k.Sign() <= 0 || k.Cmp(curveOrder) >= 0 {
 		return nil, errors.New("x509: invalid elliptic curve private key value")
 	}
 
-- 
2.43.0


From 048b246b08d7ef0d81f48e2d94b239f558da144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 25/27] fix: marshalBasicConstraints dropped an encoding error

---
 x509/x509.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x509/x509.go b/x509/x509.go
index b4b9c23..e4b7e5f 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1499,7 +1499,7 @@ func marshalBasicConstraints(isCA bool, maxPathLen int, maxPathLenZero bool) (pk
 	var err error
 	ext.Value, err = asn1.Marshal(basicConstraints{isCA, maxPathLen})
 	if err != nil {
-		return ext, nil
+		return ext, err
 	}
 	return ext, nil
 }
-- 
2.43.0


From 2683972c52ca4a7fbca72b8aa1f71cebd7570d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:45 +0000
Subject: [PATCH 26/27] fix: reject domain names that begin with an empty label

---
 x509/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x509/parser.go b/x509/parser.go
index 1df18ba..6e6b801 100644
--- a/x509/parser.go
+++ b/x509/parser.go
@@ -402,6 +402,10 @@ func domainToReverseLabels(domain string) (reverseLabels []string, ok bool) {
 		} else {
 			reverseLabels = append(reverseLabels, domain[i+1:])
 			domain = domain[:i]
+			if i == 0 {
+				// The first label is empty.
+				reverseLabels = append(reverseLabels, "")
+			}
 		}
 	}
 
-- 
2.43.0


From f3354cd9f44316f7e9f3c0d12d3dc15d7c975a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:56 +0000
Subject: [PATCH 27/27] fix: name the MD4 hash

---
 x509/x509.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x509/x509.go b/x509/x509.go
index e4b7e5f..6a19446 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -226,6 +226,8 @@ func (h Hash) HashFunc() crypto.Hash {
 
 func (h Hash) String() string {
 	switch h {
+	case MD4:
+		return "MD4"
 	case MD5:
 		return "MD5"
 	case SHA1:
-- 
2.43.0

