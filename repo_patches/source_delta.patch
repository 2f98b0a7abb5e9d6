From 1ee06f2a2e34c5c5adb19b2dda503ba0fe76dd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 01/61] fix: check manifest staleness against the validation
 time

---
 validator/pki/pki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 53ba3df..f8f089c 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -871,7 +871,7 @@ func (sm *SimpleManager) Explore(notMFT bool, addInvalidChilds bool) int {
 					if ok && res != nil && res.Resource != nil {
 						cert, ok := res.Resource.(*librpki.RPKIManifest)
 						if ok {
-							if time.Now().After(cert.Content.NextUpdate) || time.Now().Before(cert.Content.ThisUpdate) {
+							if sm.Validator.Time.After(cert.Content.NextUpdate) || sm.Validator.Time.Before(cert.Content.ThisUpdate) {
 								sm.InvalidateManifestParent(file, nil)
 							}
 						} else {
-- 
2.43.0


From ac91b2ade4e6f21bf35b3bef0ac2825b8ab9f4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 02/61] fix: do not crash on a CRL whose issuer is unknown

---
 validator/pki/pki.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index f8f089c..331d099 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -356,12 +356,13 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 			return false, nil, nil, err
 		}
 		valid, res, err := v.AddCRL(crl)
-		if pkifile.Parent.Parent.Path != res.Parent.File.Path {
-			return false, nil, nil, fmt.Errorf("CRL %s does not match with the parent %s", pkifile.Path, pkifile.Parent.Parent.Path)
-		}
 		if res == nil {
 			return valid, nil, res, fmt.Errorf("Resource is empty: %v", err)
 		}
+		if pkifile.Parent == nil || pkifile.Parent.Parent == nil || res.Parent == nil || res.Parent.File == nil ||
+			pkifile.Parent.Parent.Path != res.Parent.File.Path {
+			return false, nil, nil, fmt.Errorf("CRL %s does not match with its parent", pkifile.Path)
+		}
 		res.File = pkifile
 
 		v.ObjectsPath[pkifile.Path] = res
-- 
2.43.0


From 8a6ed3ac0ac0672623d140700b18184f23ed5970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 03/61] fix: resolve inherited resources up to the ancestor
 that lists them

---
 validator/pki/pki.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 331d099..768bb55 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -500,8 +500,9 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 	// Check IPs
 	validIPs, invalidIPs, checkParent := cert.ValidateIPCertificate(parentCert)
 	chain := parent.Parent
+	chainChild := parentCert
 	for chain != nil && len(checkParent) > 0 {
-		key := parentCert.Certificate.AuthorityKeyId
+		key := chainChild.Certificate.AuthorityKeyId
 		upperCert, found := v.ValidObjects[string(key)]
 		if !found {
 			//return errors.New(fmt.Sprintf("One of the parents (%x) of %x is not valid", key, ski))
@@ -517,13 +518,17 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 		invalidIPs = append(invalidIPs, invalidTmp...)
 		checkParent = checkParentTmp
 		chain = chain.Parent
+		chainChild = chainCert
 	}
+	// Nobody above lists the resources explicitly
+	invalidIPs = append(invalidIPs, checkParent...)
 
 	// Check ASNs
 	validASNs, invalidASNs, checkParentASN := cert.ValidateASNCertificate(parentCert)
 	chain = parent.Parent
+	chainChild = parentCert
 	for chain != nil && len(checkParentASN) > 0 {
-		key := parentCert.Certificate.AuthorityKeyId
+		key := chainChild.Certificate.AuthorityKeyId
 		upperCert, found := v.ValidObjects[string(key)]
 		if !found {
 			return NewCertificateErrorParent(cert, parentCert, errors.New(fmt.Sprintf("ancestor %x is not valid", key)))
@@ -537,7 +542,9 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 		invalidASNs = append(invalidASNs, invalidTmp...)
 		checkParentASN = checkParentTmp
 		chain = chain.Parent
+		chainChild = chainCert
 	}
+	invalidASNs = append(invalidASNs, checkParentASN...)
 
 	if len(invalidIPs) > 0 || len(invalidASNs) > 0 {
 		//return errors.New(fmt.Sprintf("%x contains invalid ASNs: %v", ski, invalidsASN))
-- 
2.43.0


From 0acc9ef87a797611d20ca98d811714ce3f69a693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 04/61] fix: verify the self-signature of trust anchor
 certificates

---
 validator/pki/pki.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 768bb55..868e00e 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -472,6 +472,11 @@ func (v *Validator) ValidateCertificate(cert *librpki.RPKICertificate, trust boo
 	}
 
 	if trust {
+		// A trust anchor certificate is self-signed
+		err = cert.Validate(cert)
+		if err != nil {
+			return NewCertificateErrorParent(cert, cert, err)
+		}
 		return nil
 	}
 
-- 
2.43.0


From 57dd1ce76c3feb17db8f6a37fb155e99a636b9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 05/61] fix: keep fetching a trust anchor certificate that is
 not valid

---
 validator/pki/pki.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 868e00e..d9eae8a 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -296,18 +296,22 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 		if err != nil {
 			return false, nil, nil, err
 		}
+		var talComp *Resource
 		if pkifile != nil && pkifile.Parent != nil && pkifile.Parent.Type == TYPE_TAL {
-			talComp, ok := v.TALs[pkifile.Path]
+			var ok bool
+			talComp, ok = v.TALs[pkifile.Path]
 			if ok {
 				talValidation := talComp.Resource.(*librpki.RPKITAL).CheckCertificate(cert.Certificate)
 				if !talValidation {
 					return false, nil, nil, errors.New("Certificate was not validated against TAL")
 				}
-				v.TALs[pkifile.Path].CertTALValid = true // indicates that we can skip downloading
 			}
 		}
 
 		valid, pathCert, res, err := v.AddCert(cert, pkifile.Trust)
+		if valid && talComp != nil {
+			talComp.CertTALValid = true // indicates that we can skip downloading
+		}
 		if res == nil {
 			return valid, pathCert, res, fmt.Errorf("Resource is empty: %v", err)
 		}
-- 
2.43.0


From 6c917ea34aac0c76a600770f00251401baf5b6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 06/61] fix: invalidate the manifests below an invalidated
 certificate

---
 validator/pki/pki.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index d9eae8a..26e4f3e 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -393,6 +393,7 @@ func (v *Validator) InvalidateObject(keyid []byte) {
 		res, hasCert := v.Objects[ski]
 		delete(v.ValidObjects, ski)
 		delete(v.ValidROA, ski)
+		delete(v.ValidManifest, ski)
 		delete(v.ValidCRL, ski)
 		invalidated[ski] = true
 
-- 
2.43.0


From 31a22fdf7046a57bb508112ddf92c04d933297d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 07/61] fix: revoke every certificate that carries a revoked
 serial number

---
 validator/pki/pki.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 26e4f3e..8eb8b8c 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -688,16 +688,18 @@ func (v *Validator) AddCRL(crl *pkix.CertificateList) (bool, *Resource, error) {
 			v.ValidCRL[string(aki)] = res
 			for _, revoked := range crl.TBSCertList.RevokedCertificates {
 				key := string(aki) + revoked.SerialNumber.String()
-				child, found := v.CertsSerial[key]
-				if found {
-					childConv := child.Resource.(*librpki.RPKICertificate)
-					if childConv.Certificate.SerialNumber.Cmp(revoked.SerialNumber) == 0 {
-						v.InvalidateObject(childConv.Certificate.SubjectKeyId)
-					}
-				}
-
 				v.Revoked[key] = true
 			}
+			// Every certificate issued with a revoked serial, even if a serial was used more than once
+			for _, child := range parent.Childs {
+				childConv, ok := child.Resource.(*librpki.RPKICertificate)
+				if !ok {
+					continue
+				}
+				if _, revoked := v.Revoked[string(aki)+childConv.Certificate.SerialNumber.String()]; revoked {
+					v.InvalidateObject(childConv.Certificate.SubjectKeyId)
+				}
+			}
 			parent.Childs = append(parent.Childs, res)
 		}
 	}
-- 
2.43.0


From 34c089e96dec793a4c65df1e85d0081ff062e649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 08/61] fix: do not use the files of a manifest that is revoked

---
 validator/pki/pki.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 8eb8b8c..b4d53f3 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -698,6 +698,10 @@ func (v *Validator) AddCRL(crl *pkix.CertificateList) (bool, *Resource, error) {
 				}
 				if _, revoked := v.Revoked[string(aki)+childConv.Certificate.SerialNumber.String()]; revoked {
 					v.InvalidateObject(childConv.Certificate.SubjectKeyId)
+					if child.Type == TYPE_MFTCER {
+						// Nothing listed on a revoked manifest can be used
+						v.InvalidateObject(aki)
+					}
 				}
 			}
 			parent.Childs = append(parent.Childs, res)
-- 
2.43.0


From bc19c5dc9dc10aad338d7134e75ac1c24868ac5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 09/61] fix: reject truncated BER tags and lengths

---
 validator/lib/ber.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/validator/lib/ber.go b/validator/lib/ber.go
index 32c81b5..331499e 100644
--- a/validator/lib/ber.go
+++ b/validator/lib/ber.go
@@ -138,16 +138,15 @@ func encodeLength(out *bytes.Buffer, length int) (err error) {
 func readObject(ber []byte, offset int) (asn1Object, int, error) {
 	//fmt.Printf("\n====> Starting readObject at offset: %d\n\n", offset)
 	tagStart := offset
+	if offset >= len(ber) {
+		return nil, 0, errors.New("ber2der: no more data")
+	}
 	b := ber[offset]
 	offset++
-	tag := b & 0x1F // last 5 bits
-	if tag == 0x1F {
-		tag = 0
-		for ber[offset] >= 0x80 {
-			tag = tag*128 + ber[offset] - 0x80
+	if b&0x1F == 0x1F { // last 5 bits: the tag number goes on
+		for offset < len(ber) && ber[offset] >= 0x80 {
 			offset++
 		}
-		tag = tag*128 + ber[offset] - 0x80
 		offset++
 	}
 	tagEnd := offset
@@ -174,6 +173,9 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		if numberOfBytes > 4 { // int is only guaranteed to be 32bit
 			return nil, 0, errors.New("ber2der: BER tag length too long")
 		}
+		if numberOfBytes > len(ber)-offset {
+			return nil, 0, errors.New("ber2der: BER tag length is truncated")
+		}
 		if numberOfBytes == 4 && (int)(ber[offset]) > 0x7F {
 			return nil, 0, errors.New("ber2der: BER tag length is negative")
 		}
-- 
2.43.0


From 211060be878a6ff9b287c60eabfa15b591df19b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:15 +0000
Subject: [PATCH 10/61] fix: reject BER objects that reach beyond the one they
 are in

---
 validator/lib/ber.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/validator/lib/ber.go b/validator/lib/ber.go
index 331499e..03aa000 100644
--- a/validator/lib/ber.go
+++ b/validator/lib/ber.go
@@ -217,7 +217,12 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		for (offset < contentEnd) || indefinite {
 			var subObj asn1Object
 			var err error
-			subObj, offset, err = readObject(ber, offset)
+			// the objects inside do not reach beyond the end of this one
+			limit := contentEnd
+			if indefinite {
+				limit = len(ber)
+			}
+			subObj, offset, err = readObject(ber[:limit], offset)
 			if err != nil {
 				return nil, 0, err
 			}
-- 
2.43.0


From 86ae0fd4c957bc52148ebfc38a4f5546f8c82648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 11/61] fix: recognise the end of empty indefinite-length BER
 objects

---
 validator/lib/ber.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/validator/lib/ber.go b/validator/lib/ber.go
index 03aa000..0eba8e9 100644
--- a/validator/lib/ber.go
+++ b/validator/lib/ber.go
@@ -217,17 +217,6 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		for (offset < contentEnd) || indefinite {
 			var subObj asn1Object
 			var err error
-			// the objects inside do not reach beyond the end of this one
-			limit := contentEnd
-			if indefinite {
-				limit = len(ber)
-			}
-			subObj, offset, err = readObject(ber[:limit], offset)
-			if err != nil {
-				return nil, 0, err
-			}
-			subObjects = append(subObjects, subObj)
-
 			if indefinite {
 				terminated, err := isIndefiniteTermination(ber, offset)
 				if err != nil {
@@ -238,6 +227,16 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 					break
 				}
 			}
+			// the objects inside do not reach beyond the end of this one
+			limit := contentEnd
+			if indefinite {
+				limit = len(ber)
+			}
+			subObj, offset, err = readObject(ber[:limit], offset)
+			if err != nil {
+				return nil, 0, err
+			}
+			subObjects = append(subObjects, subObj)
 		}
 		obj = asn1Structured{
 			tagBytes: ber[tagStart:tagEnd],
@@ -258,5 +257,5 @@ func isIndefiniteTermination(ber []byte, offset int) (bool, error) {
 		return false, errors.New("ber2der: Invalid BER format")
 	}
 
-	return bytes.Index(ber[offset:], []byte{0x0, 0x0}) == 0, nil
+	return bytes.HasPrefix(ber[offset:], []byte{0x0, 0x0}), nil
 }
-- 
2.43.0


From 15da9aaef2363c8a31e3be5368c6c2ca88f1e837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:21 +0000
Subject: [PATCH 12/61] fix: bound the nesting of BER objects

---
 validator/lib/ber.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/validator/lib/ber.go b/validator/lib/ber.go
index 0eba8e9..58d0e1e 100644
--- a/validator/lib/ber.go
+++ b/validator/lib/ber.go
@@ -64,7 +64,7 @@ func BER2DER(ber []byte) ([]byte, error) {
 	//fmt.Printf("--> ber2der: Transcoding %d bytes\n", len(ber))
 	out := new(bytes.Buffer)
 
-	obj, _, err := readObject(ber, 0)
+	obj, _, err := readObject(ber, 0, 0)
 	if err != nil {
 		return nil, err
 	}
@@ -135,7 +135,13 @@ func encodeLength(out *bytes.Buffer, length int) (err error) {
 	return
 }
 
-func readObject(ber []byte, offset int) (asn1Object, int, error) {
+// Objects nested deeper than this are rejected instead of exhausting the stack
+const maxBERDepth = 512
+
+func readObject(ber []byte, offset int, depth int) (asn1Object, int, error) {
+	if depth > maxBERDepth {
+		return nil, 0, errors.New("ber2der: BER objects are nested too deep")
+	}
 	//fmt.Printf("\n====> Starting readObject at offset: %d\n\n", offset)
 	tagStart := offset
 	if offset >= len(ber) {
@@ -232,7 +238,7 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 			if indefinite {
 				limit = len(ber)
 			}
-			subObj, offset, err = readObject(ber[:limit], offset)
+			subObj, offset, err = readObject(ber[:limit], offset, depth+1)
 			if err != nil {
 				return nil, 0, err
 			}
-- 
2.43.0


From 0bb5fce3d31017c0f45a0a93435be0e01c150a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 13/61] fix: do not crash on a CMS without signer

---
 validator/lib/cms.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/validator/lib/cms.go b/validator/lib/cms.go
index a1a87a9..8cb2f1e 100644
--- a/validator/lib/cms.go
+++ b/validator/lib/cms.go
@@ -330,6 +330,9 @@ func (cms *CMS) CheckSignaturesMatch() (bool, error) {
 
 // Won't validate if signedattributes is empty
 func (cms *CMS) Validate(encap []byte, cert *x509.Certificate) error {
+	if len(cms.SignedData.SignerInfos) == 0 {
+		return errors.New("CMS has no signer")
+	}
 	signedAttributes := cms.SignedData.SignerInfos[0].SignedAttrs
 
 	var messageDigest []byte
@@ -417,6 +420,9 @@ func (cms *CMS) GetRPKICertificate() (*RPKICertificate, error) {
 
 func (cms *CMS) GetSigningTime() (time.Time, error) {
 	var signingTime time.Time
+	if len(cms.SignedData.SignerInfos) == 0 {
+		return signingTime, errors.New("CMS has no signer")
+	}
 	signedAttributes := cms.SignedData.SignerInfos[0].SignedAttrs
 	for _, sAttr := range signedAttributes {
 		if sAttr.AttrType.Equal(SigningTime) && len(sAttr.AttrValue) > 0 {
-- 
2.43.0


From 2e4a1abb7b0e537c8891ca10d42ea91bb5279d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 14/61] fix: verify the whole padding of CMS signatures

---
 validator/lib/cms.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/validator/lib/cms.go b/validator/lib/cms.go
index 8cb2f1e..f68e9c5 100644
--- a/validator/lib/cms.go
+++ b/validator/lib/cms.go
@@ -370,12 +370,11 @@ func (cms *CMS) Validate(encap []byte, cert *x509.Certificate) error {
 		return errors.New("Public key is not RSA")
 	}
 
-	decryptedHash, err := DecryptSignatureRSA(cms.SignedData.SignerInfos[0].Signature, pubKey)
+	// Checks the padding up to the last byte: what follows the digest could be chosen
+	// to make any signature pass under a small exponent.
+	err = rsa.VerifyPKCS1v15(pubKey, crypto.SHA256, signedAttributesHash, cms.SignedData.SignerInfos[0].Signature)
 	if err != nil {
-		return errors.New(fmt.Sprintf("CMS signature decoding error: %v", err))
-	}
-	if !bytes.Equal(signedAttributesHash, decryptedHash) {
-		return errors.New(fmt.Sprintf("CMS encrypted digest (%x) and calculated digest (%x) are different", decryptedHash, signedAttributesHash))
+		return errors.New(fmt.Sprintf("CMS signature of digest (%x) does not verify: %v", signedAttributesHash, err))
 	}
 
 	return nil
-- 
2.43.0


From c975294eaef82c149d6b643296d09f8baacff414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 15/61] fix: reject IP resources of an unknown family or longer
 than an address

---
 validator/lib/cert.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index fec9fd5..2dd67f4 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -252,6 +252,9 @@ func DecodeIP(addrfamily []byte, addr asn1.BitString) (*net.IPNet, error) {
 		if addrfamily[1] == 2 {
 			size = 16
 		}
+		if addr.BitLength > size*8 {
+			return nil, fmt.Errorf("prefix length (%d) is longer than an address", addr.BitLength)
+		}
 		ipaddr := make([]byte, size)
 		copy(ipaddr, addr.Bytes)
 		mask := net.CIDRMask(addr.BitLength, size*8)
@@ -328,7 +331,10 @@ func DecodeIPAddressBlock(data []byte) ([]IPCertificateInformation, error) {
 						return ipaddresses, err
 					}
 
-					a, _ := DecodeIP(ipaddrfam.AddressFamily, addrRange)
+					a, err := DecodeIP(ipaddrfam.AddressFamily, addrRange)
+					if err != nil {
+						return ipaddresses, err
+					}
 					ipaddresses = append(ipaddresses, &IPNet{
 						IPNet: a,
 					})
@@ -344,8 +350,14 @@ func DecodeIPAddressBlock(data []byte) ([]IPCertificateInformation, error) {
 						return ipaddresses, err
 					}
 
-					a, _ := DecodeIPMinMax(ipaddrfam.AddressFamily, addrRange.Min, false)
+					a, err := DecodeIPMinMax(ipaddrfam.AddressFamily, addrRange.Min, false)
+					if err != nil {
+						return ipaddresses, err
+					}
 					b, err := DecodeIPMinMax(ipaddrfam.AddressFamily, addrRange.Max, true)
+					if err != nil {
+						return ipaddresses, err
+					}
 					ipaddresses = append(ipaddresses, &IPAddressRange{
 						Min: a,
 						Max: b,
-- 
2.43.0


From 7fef58771eed7b3ca4ae0019eb12e8f956a012fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 16/61] fix: do not print certificate errors into the standard
 output

---
 validator/lib/cert.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index 2dd67f4..508d504 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -902,7 +902,6 @@ func DecodeCertificate(data []byte) (*RPKICertificate, error) {
 	cert, err := x509.ParseCertificate(data)
 
 	if err != nil {
-		fmt.Print(err)
 		return nil, err
 	}
 	rpkiCert := RPKICertificate{
-- 
2.43.0


From 8ce70df53082b26c0f95e869a4acfc32125c57b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 17/61] fix: reject ROAs whose AS number is out of range

---
 validator/lib/roa.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/validator/lib/roa.go b/validator/lib/roa.go
index 2952d3b..53ef6e6 100644
--- a/validator/lib/roa.go
+++ b/validator/lib/roa.go
@@ -4,6 +4,7 @@ import (
 	"encoding/asn1"
 	"errors"
 	"fmt"
+	"math"
 	"net"
 	"sort"
 	"time"
@@ -294,6 +295,9 @@ func (cf *DecoderConfig) DecodeROA(data []byte) (*RPKIROA, error) {
 	if err != nil {
 		return nil, err
 	}
+	if asn < 0 || int64(asn) > math.MaxUint32 {
+		return nil, fmt.Errorf("AS number (%d) is out of range", asn)
+	}
 	// Check for the correct Max Length
 
 	rpkiROA := RPKIROA{
-- 
2.43.0


From b2822b6ce1052cc010be27f1403880cf4e3868a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 18/61] fix: accept objects only from the CA that issued them

---
 validator/pki/pki.go | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index b4d53f3..e626e51 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -252,6 +252,33 @@ type PKIFile struct {
 	Trust  bool
 
 	ManifestHash []byte
+
+	// Of the certificate in the file
+	SubjectKeyId []byte
+}
+
+// Returns the file of the CA certificate under which this file is published,
+// if it is a manifest or is listed on one.
+func (f *PKIFile) publisher() *PKIFile {
+	parent := f.Parent
+	if parent != nil && f.ManifestHash != nil && parent.Type == TYPE_MFT {
+		parent = parent.Parent
+	} else if f.Type != TYPE_MFT {
+		return nil
+	}
+	if parent == nil || parent.Type != TYPE_CER {
+		return nil
+	}
+	return parent
+}
+
+// Manifests, and what they list, are issued by the CA that publishes them
+func checkPublisher(file *PKIFile, cert *librpki.RPKICertificate) error {
+	publisher := file.publisher()
+	if publisher == nil || cert == nil || bytes.Equal(publisher.SubjectKeyId, cert.Certificate.AuthorityKeyId) {
+		return nil
+	}
+	return NewCertificateErrorParent(cert, nil, fmt.Errorf("not issued by %x which publishes it", publisher.SubjectKeyId))
 }
 
 func (f *PKIFile) ComputePath() string {
@@ -296,6 +323,11 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 		if err != nil {
 			return false, nil, nil, err
 		}
+		if err := checkPublisher(pkifile, cert); err != nil {
+			return false, nil, nil, err
+		}
+		pkifile.SubjectKeyId = cert.Certificate.SubjectKeyId
+
 		var talComp *Resource
 		if pkifile != nil && pkifile.Parent != nil && pkifile.Parent.Type == TYPE_TAL {
 			var ok bool
@@ -328,6 +360,9 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 		if err != nil {
 			return false, nil, nil, err
 		}
+		if err := checkPublisher(pkifile, roa.Certificate); err != nil {
+			return false, nil, nil, err
+		}
 		valid, res, err := v.AddROA(pkifile, roa)
 		if res == nil {
 			return valid, nil, res, fmt.Errorf("Resource is empty: %v", err)
@@ -341,6 +376,9 @@ func (v *Validator) AddResource(pkifile *PKIFile, data []byte) (bool, []*PKIFile
 		if err != nil {
 			return false, nil, nil, err
 		}
+		if err := checkPublisher(pkifile, mft.Certificate); err != nil {
+			return false, nil, nil, err
+		}
 		valid, pathCert, res, err := v.AddManifest(pkifile, mft)
 		if res == nil {
 			return valid, nil, res, fmt.Errorf("Resource is empty: %v", err)
-- 
2.43.0


From ad30deda7c3168475a936e8e3f5d009b3ed1a715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 19/61] fix: explore a file again when another CA publishes it

---
 validator/pki/pki.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index e626e51..391a945 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -128,9 +128,19 @@ func (sm *SimpleManager) reportErrorFile(err error, file *PKIFile, seek *SeekFil
 	sm.reportError(err)
 }
 
+// What identifies a file that was explored: its path, in the context of the CA that
+// publishes it. A CA listing the files of another does not keep them from being explored.
+func exploreKey(file *PKIFile) string {
+	key := file.ComputePath()
+	if publisher := file.publisher(); publisher != nil {
+		key = fmt.Sprintf("%s published by %x", key, publisher.SubjectKeyId)
+	}
+	return key
+}
+
 func (sm *SimpleManager) PutFiles(fileList []*PKIFile) {
 	for _, file := range fileList {
-		path := file.ComputePath()
+		path := exploreKey(file)
 		_, ok1 := sm.Explored[path]
 		_, ok2 := sm.ToExploreUnique[path]
 		if ok1 || ok2 {
@@ -158,7 +168,7 @@ func (sm *SimpleManager) GetNextExplore() (*PKIFile, bool, error) {
 }
 
 func (sm *SimpleManager) GetNextFile(curExplore *PKIFile) (*SeekFile, error) {
-	path := curExplore.ComputePath()
+	path := exploreKey(curExplore)
 	if _, ok := sm.Explored[path]; ok {
 		return nil, errors.New(fmt.Sprintf("File %v already explored", path))
 	}
@@ -875,7 +885,7 @@ func (sm *SimpleManager) InvalidateCRLParent(file *PKIFile, crlError error) {
 }
 
 func (sm *SimpleManager) ExploreAdd(file *PKIFile, data *SeekFile, addInvalidChilds bool) {
-	sm.Explored[file.ComputePath()] = true
+	sm.Explored[exploreKey(file)] = true
 	valid, subFiles, res, err := sm.Validator.AddResource(file, data.Data)
 
 	if err != nil {
-- 
2.43.0


From 0e497c9fddf84e090158f728cee5faeb029d9ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 20/61] fix: pad the key of encoded trust anchor locators

---
 validator/lib/tal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/lib/tal.go b/validator/lib/tal.go
index 58658e8..f1e2b52 100644
--- a/validator/lib/tal.go
+++ b/validator/lib/tal.go
@@ -170,7 +170,7 @@ func EncodeTALSize(tal *RPKITAL, split int) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	key := base64.RawStdEncoding.EncodeToString(keyBytesData)
+	key := base64.StdEncoding.EncodeToString(keyBytesData)
 	if split > 0 {
 		keySplit := make([]string, len(key)/split+1)
 		for i := 0; i < len(key)/split+1; i++ {
-- 
2.43.0


From b39422d160b20bedd2e3d6c32cc3cef42b82c46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:01 +0000
Subject: [PATCH 21/61] fix: encode decoded locators and compare created ones

---
 validator/lib/tal.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/validator/lib/tal.go b/validator/lib/tal.go
index f1e2b52..d36803d 100644
--- a/validator/lib/tal.go
+++ b/validator/lib/tal.go
@@ -63,7 +63,10 @@ func (tal *RPKITAL) CheckCertificate(cert *x509.Certificate) bool {
 	if tal.Algorithm == cert.PublicKeyAlgorithm {
 		switch tal.Algorithm {
 		case x509.RSA:
-			a := tal.PublicKey.(*rsa.PublicKey)
+			a, ok := tal.rsaPublicKey()
+			if !ok {
+				return false
+			}
 			b := cert.PublicKey.(*rsa.PublicKey)
 			if a.N.Cmp(b.N) == 0 && a.E == b.E {
 				return true
@@ -73,6 +76,17 @@ func (tal *RPKITAL) CheckCertificate(cert *x509.Certificate) bool {
 	return false
 }
 
+// The key of a locator, which is a pointer when decoded and a value when created
+func (tal *RPKITAL) rsaPublicKey() (rsa.PublicKey, bool) {
+	switch key := tal.PublicKey.(type) {
+	case *rsa.PublicKey:
+		return *key, true
+	case rsa.PublicKey:
+		return key, true
+	}
+	return rsa.PublicKey{}, false
+}
+
 func DeleteLineEnd(line string) string {
 	if len(line) > 1 && line[len(line)-2] == 0xd {
 		line = line[0 : len(line)-2]
@@ -138,8 +152,7 @@ func BundleRSAPublicKey(key rsa.PublicKey) (asn1.BitString, error) {
 func EncodeTALSize(tal *RPKITAL, split int) ([]byte, error) {
 	var bs asn1.BitString
 	var err error
-	if tal.OID.Equal(RSA) {
-		keyRaw := tal.PublicKey.(rsa.PublicKey)
+	if keyRaw, ok := tal.rsaPublicKey(); ok && tal.OID.Equal(RSA) {
 		bs, err = BundleRSAPublicKey(keyRaw)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 01c684674c99cc94dea94b300ce089e2a57bc489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:04 +0000
Subject: [PATCH 22/61] fix: reject malformed trust anchor locators

---
 validator/lib/tal.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/validator/lib/tal.go b/validator/lib/tal.go
index d36803d..aa015b6 100644
--- a/validator/lib/tal.go
+++ b/validator/lib/tal.go
@@ -236,6 +236,10 @@ func DecodeTAL(data []byte) (*RPKITAL, error) {
 
 	}
 
+	if len(urls) == 0 || !passedUrl {
+		return nil, errors.New("TAL needs one or more URIs followed by a blank line")
+	}
+
 	d, err := base64.StdEncoding.DecodeString(b64)
 	if err != nil {
 		return nil, err
@@ -249,10 +253,13 @@ func DecodeTAL(data []byte) (*RPKITAL, error) {
 	}
 
 	var inner subjectPublicKeyInfo
-	_, err = asn1.Unmarshal(d, &inner)
+	rest, err := asn1.Unmarshal(d, &inner)
 	if err != nil {
 		return nil, err
 	}
+	if len(rest) > 0 {
+		return nil, errors.New("TAL has data after its key")
+	}
 
 	tal := &RPKITAL{
 		URI: urls,
-- 
2.43.0


From 106dee73a75ebf316e8f44d7410a81f499761c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 23/61] fix: encode IPv4 addresses in their 4-byte and 16-byte
 forms alike

---
 validator/lib/cert.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index 508d504..a605026 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -105,15 +105,12 @@ func (ipr *IPAddressRange) GetRange() (net.IP, net.IP, bool) {
 }
 
 func IPToBitString(ip net.IP) asn1.BitString {
-	blen := 32
-	bitsplit := 12
-	if ip.To4() == nil {
-		blen = 128
-		bitsplit = 0
+	if ip4 := ip.To4(); ip4 != nil {
+		ip = ip4
 	}
 	return asn1.BitString{
-		Bytes:     []byte(ip)[bitsplit:],
-		BitLength: blen,
+		Bytes:     []byte(ip),
+		BitLength: len(ip) * 8,
 	}
 }
 
@@ -123,9 +120,13 @@ func IPNetToBitString(ipnet net.IPNet) asn1.BitString {
 	if size%8 > 0 {
 		sizeBytes++
 	}
+	ip := ipnet.IP
+	if len(ipnet.Mask) == net.IPv4len && ip.To4() != nil {
+		ip = ip.To4()
+	}
 	prefixBytes := make([]byte, sizeBytes)
-	for i := 0; i < len(ipnet.IP) && i < sizeBytes; i++ {
-		prefixBytes[i] = ipnet.IP[i] & ipnet.Mask[i]
+	for i := 0; i < len(ip) && i < sizeBytes; i++ {
+		prefixBytes[i] = ip[i] & ipnet.Mask[i]
 	}
 
 	return asn1.BitString{
-- 
2.43.0


From 88f49ac98d6e7c6bceccc4e15b077adba3f0452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:35 +0000
Subject: [PATCH 24/61] fix: keep IPv4-mapped IPv6 addresses apart from IPv4
 resources

---
 validator/lib/cert.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index a605026..64256c0 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -49,7 +49,8 @@ func (ipn *IPNet) String() string {
 }
 
 func (ipn *IPNet) IsIPInRange(ip net.IP) (bool, bool) {
-	return ipn.IPNet.Contains(ip), false
+	// An IPv6 address is not in an IPv4 prefix, even if it embeds an IPv4 address
+	return len(ip) == len(ipn.IPNet.IP) && ipn.IPNet.Contains(ip), false
 }
 
 func (ipn *IPNet) GetAfi() uint8 {
@@ -150,9 +151,9 @@ func (ipan *IPAddressNull) String() string {
 }
 
 func (ipan *IPAddressNull) IsIPInRange(ip net.IP) (bool, bool) {
-	if ipan.GetAfi() == 1 && ip.To4() != nil {
+	if ipan.GetAfi() == 1 && len(ip) == net.IPv4len {
 		return false, true
-	} else if ipan.GetAfi() == 2 && ip.To4() == nil && ip.To16() != nil {
+	} else if ipan.GetAfi() == 2 && len(ip) == net.IPv6len {
 		return false, true
 	}
 	return false, false
-- 
2.43.0


From 7e599ae20f14020981bb747eec78a1f2096dbeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:32 +0000
Subject: [PATCH 25/61] fix: fail RRDP synchronisations on documents of another
 kind or not well-formed

---
 sync/lib/rrdp.go | 119 +++++++++++++++++++----------------------------
 1 file changed, 47 insertions(+), 72 deletions(-)

diff --git a/sync/lib/rrdp.go b/sync/lib/rrdp.go
index c47eb12..bd2b9e8 100644
--- a/sync/lib/rrdp.go
+++ b/sync/lib/rrdp.go
@@ -1,11 +1,11 @@
 package syncpki
 
 import (
-	"bytes"
 	"encoding/base64"
 	"encoding/xml"
 	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"net/http"
 	"strings"
@@ -65,89 +65,64 @@ func (f *HTTPFetcher) GetXML(url string) (string, error) {
 	return string(data), nil
 }
 
-func ParseRoot(data string) (Notification, error) {
-	n := Notification{}
-
-	r := bytes.NewBufferString(data)
-	decoder := xml.NewDecoder(r)
+// Decodes an RRDP document, which is well-formed XML whose root element
+// has one of the given names. Returns the name.
+func decodeDocument(data string, elements map[string]interface{}) (string, error) {
+	decoder := xml.NewDecoder(strings.NewReader(data))
 
+	var root string
 	for {
-		t, _ := decoder.Token()
-		if t == nil {
-			// EOF
-			break
+		t, err := decoder.Token()
+		if err == io.EOF && root != "" {
+			return root, nil
+		}
+		if err != nil {
+			return root, fmt.Errorf("XML does not conform to schema: %v", err)
 		}
 
-		switch se := t.(type) {
-		case xml.StartElement:
-			name := se.Name.Local
-			switch name {
-			case "notification":
-				err := decoder.DecodeElement(&n, &se)
-				if err != nil {
-					return n, errors.New("XML does not conform to schema")
-				}
-			}
+		se, ok := t.(xml.StartElement)
+		if !ok {
+			continue
+		}
+		element, ok := elements[se.Name.Local]
+		if !ok || root != "" {
+			return root, fmt.Errorf("XML does not conform to schema: unexpected element %q", se.Name.Local)
+		}
+		root = se.Name.Local
+
+		err = decoder.DecodeElement(element, &se)
+		if err != nil {
+			return root, errors.New("XML does not conform to schema")
 		}
 	}
-	return n, nil
+}
+
+func ParseRoot(data string) (Notification, error) {
+	n := Notification{}
+	_, err := decodeDocument(data, map[string]interface{}{"notification": &n})
+	return n, err
 }
 
 func ParseNode(data string) ([]Cert, []Cert, error) {
-	var publish []Cert
-	var withdraw []Cert
+	return parseNode(data, "delta", "snapshot")
+}
+
+func parseNode(data string, kinds ...string) ([]Cert, []Cert, error) {
 	d := Delta{}
 	s := Snapshot{}
 
-	byteStr := bytes.NewBufferString(data)
-	decoder := xml.NewDecoder(byteStr)
-
-	for {
-		t, _ := decoder.Token()
-		if t == nil {
-			break
-		}
-
-		switch se := t.(type) {
-		case xml.StartElement:
-			name := se.Name.Local
-			switch name {
-			case "delta":
-				err := decoder.DecodeElement(&d, &se)
-
-				for _, v := range d.Publish {
-					publish = append(publish, v)
-				}
-
-				if (len(d.Withdraw)) > 0 {
-					for _, v := range d.Withdraw {
-						withdraw = append(withdraw, v)
-					}
-				}
-
-				if err != nil {
-					return publish, withdraw, errors.New("XML does not conform to schema")
-				}
-			case "snapshot":
-				err := decoder.DecodeElement(&s, &se)
-
-				for _, v := range s.Publish {
-					publish = append(publish, v)
-				}
-
-				if (len(s.Withdraw)) > 0 {
-					for _, v := range s.Withdraw {
-						withdraw = append(withdraw, v)
-					}
-				}
-
-				if err != nil {
-					return publish, withdraw, errors.New("XML does not conform to schema")
-				}
-			}
+	elements := make(map[string]interface{})
+	for _, kind := range kinds {
+		switch kind {
+		case "delta":
+			elements[kind] = &d
+		case "snapshot":
+			elements[kind] = &s
 		}
 	}
-	return publish, withdraw, nil
+
+	_, err := decodeDocument(data, elements)
+	return append(d.Publish, s.Publish...), append(d.Withdraw, s.Withdraw...), err
 }
 
 type RRDPFile func(main string, url string, path string, data []byte, withdraw bool, snapshot bool, curId int64, args ...interface{}) error
@@ -253,7 +228,7 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 			Category: "http",
 		}, nil)
 
-		publish, withdraw, err := ParseNode(data)
+		publish, withdraw, err := parseNode(data, "snapshot")
 		if err != nil {
 			sHub.CaptureException(err)
 			return err
@@ -322,7 +297,7 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 				Category: "http",
 			}, nil)
 
-			deltaPublish, deltaWithdraw, err := ParseNode(data)
+			deltaPublish, deltaWithdraw, err := parseNode(data, "delta")
 			if err != nil {
 				sHub.CaptureException(err)
 				return err
-- 
2.43.0


From 61741fe08046180ab511c20454151eee29cc7f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 26/61] fix: fail RRDP synchronisations on errors applying a
 withdraw

---
 sync/lib/rrdp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/lib/rrdp.go b/sync/lib/rrdp.go
index bd2b9e8..b7702bc 100644
--- a/sync/lib/rrdp.go
+++ b/sync/lib/rrdp.go
@@ -326,7 +326,7 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 					if err != nil {
 						return err
 					}
-					s.Callback(s.Path, root.Snapshot.URI, v.URI, vdec, true, false, elNode.Serial, cbArgs...)
+					err = s.Callback(s.Path, root.Snapshot.URI, v.URI, vdec, true, false, elNode.Serial, cbArgs...)
 					if err != nil {
 						return err
 					}
-- 
2.43.0


From 9ced283fa83260196fde63fc51e33e4350d38c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:38 +0000
Subject: [PATCH 27/61] fix: use the RRDP snapshot when the serial goes
 backwards

---
 sync/lib/rrdp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync/lib/rrdp.go b/sync/lib/rrdp.go
index b7702bc..cf93e5b 100644
--- a/sync/lib/rrdp.go
+++ b/sync/lib/rrdp.go
@@ -212,7 +212,8 @@ func (s *RRDPSystem) FetchRRDP(cbArgs ...interface{}) error {
 		}
 	}
 
-	if lastSerial == 0 || lastSessionID != curSessionID || missingFiles {
+	// A serial that goes backwards in the same session cannot be followed by deltas
+	if lastSerial == 0 || lastSessionID != curSessionID || missingFiles || curSerial < lastSerial {
 		if s.Log != nil {
 			s.Log.Infof("RRDP: %s downloading snapshot at: %s", s.Path, root.Snapshot.URI)
 		}
-- 
2.43.0


From 746b43e042a0a88d775b234b280e0ede919f2939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:04 +0000
Subject: [PATCH 28/61] fix: reject rsync locations outside a directory of
 their own host

---
 sync/lib/utils.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sync/lib/utils.go b/sync/lib/utils.go
index dfb7ca2..4e444a9 100644
--- a/sync/lib/utils.go
+++ b/sync/lib/utils.go
@@ -22,10 +22,19 @@ type SubMap struct {
 
 func ExtractRsyncDomainModule(rsync string) (string, string, error) {
 	if len(rsync) > len("rsync://") {
+		if !isRsyncURL(rsync) {
+			return "", "", fmt.Errorf("%q is not an rsync URL", rsync)
+		}
 		rsyncDomain := strings.Split(rsync[8:], "/")
 		if len(rsyncDomain) < 2 {
 			return "", "", errors.New("rsync url does not contain module")
 		}
+		for _, element := range rsyncDomain[:2] {
+			// These would designate the directory of another host or module
+			if element == "" || element == "." || element == ".." {
+				return "", "", fmt.Errorf("rsync url contains illegal path element %q", element)
+			}
+		}
 		return fmt.Sprintf("rsync://%s/%s", rsyncDomain[0], rsyncDomain[1]), fmt.Sprintf("rsync://%s/", rsyncDomain[0]), nil
 	} else {
 		return "", "", errors.New("Wrong size")
-- 
2.43.0


From f48b680993b24246ae5b99d2873740f996e85a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:06 +0000
Subject: [PATCH 29/61] fix: ignore RRDP objects that only embed the URL of the
 repository

---
 cmd/octorpki/octorpki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index a4b2d6b..fa990ec 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -352,7 +352,7 @@ func mustMkdirAll(fPath string) {
 func (s *OctoRPKI) ReceiveRRDPFileCallback(main string, url string, path string, data []byte, withdraw bool, snapshot bool, serial int64, args ...interface{}) error {
 	if len(args) > 0 {
 		rsync, ok := args[0].(string)
-		if ok && !strings.Contains(path, rsync) {
+		if ok && !strings.HasPrefix(path, rsync) {
 			log.Errorf("rrdp: %s is outside directory %s", path, rsync)
 			return nil
 		}
-- 
2.43.0


From ec51c681b37d1a88fbd8cb7e7ca09698d0a9431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 30/61] fix: do not stop, or create directories elsewhere, on
 files that cannot be stored

---
 cmd/octorpki/octorpki.go | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index fa990ec..648a3b1 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -324,9 +324,10 @@ func ExtractRsyncDomain(rsyncURL string) (string, error) {
 }
 
 func (s *OctoRPKI) WriteRsyncFileOnDisk(rsyncURL string, data []byte) error {
-	fPath := mustExtractFoldersPathFromRsyncURL(rsyncURL)
-	mustMkdirAll(fPath)
-	filePath := mustExtractFilePathFromRsyncURL(rsyncURL)
+	filePath, err := syncpki.ExtractFilePathFromRsyncURL(rsyncURL)
+	if err != nil {
+		return fmt.Errorf("Unable to extract file path from rsync url: %v", err)
+	}
 
 	// GHSA-8459-6rc9-8vf8: Prevent parent directory writes outside of Basepath
 	if strings.Contains(filePath, "../") || strings.Contains(filePath, "..\\") {
@@ -334,19 +335,17 @@ func (s *OctoRPKI) WriteRsyncFileOnDisk(rsyncURL string, data []byte) error {
 	}
 
 	fp := filepath.Join(*Basepath, filePath)
-	err := ioutil.WriteFile(fp, data, 0600)
+	err = os.MkdirAll(filepath.Dir(fp), os.ModePerm)
 	if err != nil {
-		return fmt.Errorf("Unable to write file %q: %v", fp, err)
+		return fmt.Errorf("Failed to create directories: %v", err)
 	}
 
-	return nil
-}
-
-func mustMkdirAll(fPath string) {
-	err := os.MkdirAll(filepath.Join(*Basepath, fPath), os.ModePerm)
+	err = ioutil.WriteFile(fp, data, 0600)
 	if err != nil {
-		log.Fatalf("Failed to create directories: %v", err)
+		return fmt.Errorf("Unable to write file %q: %v", fp, err)
 	}
+
+	return nil
 }
 
 func (s *OctoRPKI) ReceiveRRDPFileCallback(main string, url string, path string, data []byte, withdraw bool, snapshot bool, serial int64, args ...interface{}) error {
@@ -529,15 +528,6 @@ func (s *OctoRPKI) mainRsync(pSpan opentracing.Span) {
 	MetricOperationTime.With(prometheus.Labels{"type": "rsync"}).Observe(float64(t2.Sub(t1).Seconds()))
 }
 
-func mustExtractFoldersPathFromRsyncURL(rsyncURL string) string {
-	downloadPath, err := syncpki.ExtractFoldersPathFromRsyncURL(rsyncURL)
-	if err != nil {
-		log.Fatalf("Failed to extract folder path from rsync URL: %v", err)
-	}
-
-	return downloadPath
-}
-
 func mustExtractFilePathFromRsyncURL(rsyncURL string) string {
 	fPath, err := syncpki.ExtractFilePathFromRsyncURL(rsyncURL)
 	if err != nil {
-- 
2.43.0


From 66f1e18475c7c9f3f39f40f3a241e56add330e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:31 +0000
Subject: [PATCH 31/61] fix: never match a route with a VRP of AS 0

---
 ov/ov.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ov/ov.go b/ov/ov.go
index 8206b67..3ab989a 100644
--- a/ov/ov.go
+++ b/ov/ov.go
@@ -70,7 +70,8 @@ func (cv *curValidation) Filter(payload int64) bool {
 	// Specs https://tools.ietf.org/html/rfc6811
 	if cv.state != STATE_VALID {
 		mask, _ := cv.route.GetPrefix().Mask.Size()
-		if cv.route.GetASN() == roa.GetASN() && mask <= roa.GetMaxLen() {
+		// AS 0 identifies prefixes that must not be routed, it never matches
+		if roa.GetASN() != 0 && cv.route.GetASN() == roa.GetASN() && mask <= roa.GetMaxLen() {
 			cv.state = STATE_VALID
 		} else {
 			cv.state = STATE_INVALID
-- 
2.43.0


From 76419cc3b5af6db1bfcaf11ebf5a2efedb1d9491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 32/61] fix: fetch trust anchor certificates by rsync into
 their own location

---
 cmd/octorpki/octorpki.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 648a3b1..d52518b 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -528,13 +528,19 @@ func (s *OctoRPKI) mainRsync(pSpan opentracing.Span) {
 	MetricOperationTime.With(prometheus.Labels{"type": "rsync"}).Observe(float64(t2.Sub(t1).Seconds()))
 }
 
-func mustExtractFilePathFromRsyncURL(rsyncURL string) string {
-	fPath, err := syncpki.ExtractFilePathFromRsyncURL(rsyncURL)
+// Returns the directory, below the cache, in which rsync has to store what is at a URL
+func rsyncDownloadPath(rsyncURL string) (string, error) {
+	filePath, err := syncpki.ExtractFilePathFromRsyncURL(rsyncURL)
 	if err != nil {
-		log.Fatalf("Unable to extract file path from rsync url: %v", err)
+		return "", fmt.Errorf("Unable to extract file path from rsync url: %v", err)
+	}
+
+	if strings.Count(filePath, "/") > 1 && !strings.HasSuffix(filePath, "/") {
+		// A file (trust anchor certificate) rather than a module or a directory
+		return syncpki.ExtractFoldersPathFromRsyncURL(rsyncURL)
 	}
 
-	return fPath
+	return filePath, nil
 }
 
 func (s *OctoRPKI) fetchRsync(uri string, span opentracing.Span) {
@@ -544,7 +550,11 @@ func (s *OctoRPKI) fetchRsync(uri string, span opentracing.Span) {
 	rSpan.SetTag("type", "rsync")
 
 	log.Infof("Rsync sync %v", uri)
-	downloadPath := mustExtractFilePathFromRsyncURL(uri)
+	downloadPath, err := rsyncDownloadPath(uri)
+	if err != nil {
+		s.rsyncError(uri, uri, err, rSpan)
+		return
+	}
 
 	path := filepath.Join(*Basepath, downloadPath)
 	ctxRsync, cancelRsync := context.WithTimeout(context.Background(), *RsyncTimeout)
-- 
2.43.0


From 9a0c6fc86fd6ee30aaeaef4837eec407bb8060cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:37 +0000
Subject: [PATCH 33/61] fix: stop fetching trust anchor certificates by rsync
 once they are valid

---
 cmd/octorpki/octorpki.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index d52518b..68a078d 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -634,6 +634,7 @@ func (s *OctoRPKI) fetchTAL(path string, tal *librpki.RPKITAL, span opentracing.
 	success, successURL := s._fetchTAL(tal, path, span)
 	if success {
 		log.Infof("Successfully downloaded root certificate for %s at %s", path, successURL)
+		s.rsyncFetchJobManager.delete(tal.GetRsyncURI())
 		return
 	}
 
@@ -1075,6 +1076,8 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 			tal := obj.Resource.(*librpki.RPKITAL)
 			if !obj.CertTALValid {
 				s.TalsFetch[obj.File.Path] = tal
+			} else if tal.HasRsync() {
+				s.rsyncFetchJobManager.delete(tal.GetRsyncURI())
 			}
 			count++
 		}
-- 
2.43.0


From 305e88d4af0c05512c8d5c7b3140e03e9fb32383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:59 +0000
Subject: [PATCH 34/61] fix: keep synchronising the repositories of CAs whose
 content is invalid

---
 cmd/octorpki/octorpki.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 68a078d..643b342 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1082,7 +1082,9 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 			count++
 		}
 
-		for _, pkiResource := range pkiManagers[i].Validator.ValidObjects {
+		// Includes the CAs found invalid after they were accepted, because of what they publish:
+		// synchronising their repository again is how they recover.
+		for pkiResource := range pkiManagers[i].PathOfResource {
 			if pkiResource.Type != pki.TYPE_CER {
 				continue
 			}
-- 
2.43.0


From 7b2211a8ff98e02278a33aaec46cef392d293629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:01 +0000
Subject: [PATCH 35/61] fix: do not crash on, or use parts of, a corrupt RRDP
 state file

---
 cmd/octorpki/octorpki.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 643b342..56083bf 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -376,11 +376,16 @@ func (s *OctoRPKI) LoadRRDPInfo(file string) error {
 	defer s.RRDPInfoMu.Unlock()
 
 	s.RRDPInfo = make(map[string]RRDPInfo)
-	err = json.Unmarshal(fc, &s.RRDPInfo)
+	rrdpInfo := make(map[string]RRDPInfo)
+	err = json.Unmarshal(fc, &rrdpInfo)
 	if err != nil {
 		return fmt.Errorf("JSON unmarshal failed: %v", err)
 	}
 
+	for rsyncURL, info := range rrdpInfo {
+		s.RRDPInfo[rsyncURL] = info
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 1dcb19c26ed578aef94ee39b33ac5e0e40eabba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:58 +0000
Subject: [PATCH 36/61] fix: publish the results of a round and its state
 together

---
 cmd/octorpki/octorpki.go | 141 ++++++++++++++++++++++-----------------
 1 file changed, 81 insertions(+), 60 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 56083bf..58154ce 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -226,18 +226,15 @@ type OctoRPKI struct {
 	RRDPInfo   map[string]RRDPInfo
 	RRDPInfoMu sync.RWMutex
 
-	ROAList   *prefixfile.ROAList
-	ROAListMu sync.RWMutex
-
-	InfoAuthorities     [][]SIA
-	InfoAuthoritiesLock sync.RWMutex
+	// The results of the last round, published together with its state
+	publishMu       sync.RWMutex
+	ROAList         *prefixfile.ROAList
+	InfoAuthorities [][]SIA
+	Resources       *schemas.ResourcesJSON
 
 	stats  *octoRPKIStats
 	tracer opentracing.Tracer
 
-	Resources   *schemas.ResourcesJSON
-	ResourcesMu sync.RWMutex
-
 	DoCT   bool
 	CTPath string
 	Filter bool
@@ -283,6 +280,17 @@ type octoRPKIStats struct {
 	ROAsTALsCount      []ROAsTAL
 }
 
+// What a validation round computes, until it is published
+type validationResult struct {
+	roaList         *prefixfile.ROAList
+	resources       *schemas.ResourcesJSON
+	infoAuthorities [][]SIA
+	roasTALsCount   []ROAsTAL
+	computed        time.Time
+	duration        time.Duration
+	ctData          [][]*pki.PKIFile
+}
+
 func newOctoRPKIStats() *octoRPKIStats {
 	return &octoRPKIStats{
 		ROAsTALsCount: make([]ROAsTAL, 0),
@@ -774,7 +782,7 @@ func logCollector(sm *pki.SimpleManager, tal *pki.PKIFile, tSpan opentracing.Spa
 	}
 }
 
-func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentracing.Span) *prefixfile.ROAList {
+func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentracing.Span) *validationResult {
 	roalist := &prefixfile.ROAList{
 		Data: make([]prefixfile.ROAJson, 0),
 	}
@@ -784,7 +792,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 	}
 	resourcesMap := make(map[string]*schemas.OutputRes)
 	resourcesjson.Metadata.Generated = int(time.Now().UTC().UnixNano() / 1000000000)
-	s.stats.ROAsTALsCount = make([]ROAsTAL, 0)
+	roasTALsCount := make([]ROAsTAL, 0)
 	for i, tal := range s.Tals {
 		eSpan := s.tracer.StartSpan("extract", opentracing.ChildOf(span.Context()))
 		eSpan.SetTag("tal", tal.Path)
@@ -947,7 +955,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 			resourcesjson.Resources = append(resourcesjson.Resources, curResource)
 		}
 
-		s.stats.ROAsTALsCount = append(s.stats.ROAsTALsCount, ROAsTAL{TA: talname, Count: counttal})
+		roasTALsCount = append(roasTALsCount, ROAsTAL{TA: talname, Count: counttal})
 		MetricROAsCount.With(prometheus.Labels{"ta": talname}).Set(float64(counttal))
 
 		// Complete: Manifests
@@ -1003,7 +1011,6 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 		eSpan.Finish()
 	}
 	curTime := time.Now()
-	s.LastComputed = curTime
 	validTime := curTime.Add(*ValidityDuration)
 	roalist.Metadata = prefixfile.MetaData{
 		Counts:    counts,
@@ -1020,11 +1027,12 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 		s.signROAList(roalist, span)
 	}
 
-	s.ResourcesMu.Lock()
-	defer s.ResourcesMu.Unlock()
-	s.Resources = resourcesjson
-
-	return roalist
+	return &validationResult{
+		roaList:       roalist,
+		resources:     resourcesjson,
+		roasTALsCount: roasTALsCount,
+		computed:      curTime,
+	}
 }
 
 func (s *OctoRPKI) signROAList(roaList *prefixfile.ROAList, span opentracing.Span) {
@@ -1040,7 +1048,7 @@ func (s *OctoRPKI) signROAList(roaList *prefixfile.ROAList, span opentracing.Spa
 	roaList.Metadata.SignatureDate = signdate
 }
 
-func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
+func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) *validationResult {
 	t1 := time.Now()
 	ia := make([][]SIA, len(s.Tals))
 	for i := 0; i < len(ia); i++ {
@@ -1140,15 +1148,16 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) [][]*pki.PKIFile {
 		}
 	}
 
-	s.setInfoAuthorities(ia)
-	s.setROAList(s.generateROAList(pkiManagers, span))
+	result := s.generateROAList(pkiManagers, span)
+	result.infoAuthorities = ia
+	result.ctData = ctData
 
 	t2 := time.Now()
-	s.stats.ValidationDuration = t2.Sub(t1)
-	MetricOperationTime.With(prometheus.Labels{"type": "validation"}).Observe(float64(s.stats.ValidationDuration.Seconds()))
-	MetricLastValidation.Set(float64(s.LastComputed.Unix()))
+	result.duration = t2.Sub(t1)
+	MetricOperationTime.With(prometheus.Labels{"type": "validation"}).Observe(float64(result.duration.Seconds()))
+	MetricLastValidation.Set(float64(result.computed.Unix()))
 
-	return ctData
+	return result
 }
 
 func (s *OctoRPKI) ct(pkiManagers []*pki.SimpleManager, i int) [][]*pki.PKIFile {
@@ -1189,35 +1198,52 @@ func (s *OctoRPKI) ct(pkiManagers []*pki.SimpleManager, i int) [][]*pki.PKIFile
 	return pathCT
 }
 
-func (s *OctoRPKI) setInfoAuthorities(ia [][]SIA) {
-	s.InfoAuthoritiesLock.Lock()
-	defer s.InfoAuthoritiesLock.Unlock()
+// Replaces the results of the previous round and its state at once
+func (s *OctoRPKI) publish(result *validationResult, stable bool) {
+	s.publishMu.Lock()
+	defer s.publishMu.Unlock()
+
+	s.ROAList = result.roaList
+	s.Resources = result.resources
+	s.InfoAuthorities = result.infoAuthorities
+	s.LastComputed = result.computed
+	s.stats.ROAsTALsCount = result.roasTALsCount
+	s.stats.ValidationDuration = result.duration
+	s.Stable.Store(stable)
+	s.HasPreviousStable.Store(stable)
+}
 
-	s.InfoAuthorities = ia
+// Must be called with publishMu held
+func (s *OctoRPKI) ready() bool {
+	if s.Stable.Load() || s.HasPreviousStable.Load() {
+		return true
+	}
+	return !*WaitStable && !s.LastComputed.IsZero()
 }
 
-func (s *OctoRPKI) setROAList(roaList *prefixfile.ROAList) {
-	s.ROAListMu.Lock()
-	defer s.ROAListMu.Unlock()
+func (s *OctoRPKI) getROAList() (*prefixfile.ROAList, bool) {
+	s.publishMu.RLock()
+	defer s.publishMu.RUnlock()
 
-	s.ROAList = roaList
+	return s.ROAList, s.ready()
 }
 
-func (s *OctoRPKI) getROAList() *prefixfile.ROAList {
-	s.ROAListMu.RLock()
-	defer s.ROAListMu.RUnlock()
+func (s *OctoRPKI) getResources() (*schemas.ResourcesJSON, bool) {
+	s.publishMu.RLock()
+	defer s.publishMu.RUnlock()
 
-	return s.ROAList
+	return s.Resources, s.ready()
 }
 
 func (s *OctoRPKI) ServeROAs(w http.ResponseWriter, r *http.Request) {
-	if !s.Stable.Load() && *WaitStable && !s.HasPreviousStable.Load() {
+	roaList, ready := s.getROAList()
+	if !ready {
 		w.WriteHeader(http.StatusServiceUnavailable)
 		w.Write([]byte("File not ready yet"))
 		return
 	}
 
-	upTo := s.LastComputed.Add(*ValidityDuration)
+	upTo := time.Unix(int64(roaList.Metadata.Valid), 0)
 	maxAge := int(upTo.Sub(time.Now()).Seconds())
 
 	w.Header().Set("Content-Type", "application/json")
@@ -1226,8 +1252,6 @@ func (s *OctoRPKI) ServeROAs(w http.ResponseWriter, r *http.Request) {
 		w.Header().Set("Cache-Control", fmt.Sprintf("max-age=%v", maxAge))
 	}
 
-	roaList := s.getROAList()
-
 	etag := sha256.New()
 	etag.Write([]byte(fmt.Sprintf("%v/%v", roaList.Metadata.Generated, roaList.Metadata.Counts)))
 	etagSum := etag.Sum(nil)
@@ -1246,7 +1270,8 @@ func (s *OctoRPKI) ServeROAs(w http.ResponseWriter, r *http.Request) {
 }
 
 func (s *OctoRPKI) ServeResources(w http.ResponseWriter, r *http.Request) {
-	if !s.Stable.Load() && *WaitStable && !s.HasPreviousStable.Load() {
+	resources, ready := s.getResources()
+	if !ready {
 		w.WriteHeader(http.StatusServiceUnavailable)
 		w.Write([]byte("File not ready yet"))
 		return
@@ -1254,10 +1279,7 @@ func (s *OctoRPKI) ServeResources(w http.ResponseWriter, r *http.Request) {
 
 	w.Header().Set("Content-Type", "application/json")
 	enc := json.NewEncoder(w)
-
-	s.ResourcesMu.RLock()
-	defer s.ResourcesMu.RUnlock()
-	enc.Encode(s.Resources)
+	enc.Encode(resources)
 }
 
 func (s *OctoRPKI) ServeHealth(w http.ResponseWriter, r *http.Request) {
@@ -1297,9 +1319,17 @@ type InfoResult struct {
 func (s *OctoRPKI) ServeInfo(w http.ResponseWriter, r *http.Request) {
 	w.Header().Set("Content-Type", "application/json")
 
-	s.InfoAuthoritiesLock.RLock()
+	s.publishMu.RLock()
 	ia := s.InfoAuthorities
-	s.InfoAuthoritiesLock.RUnlock()
+	ir := InfoResult{
+		ROACount:           len(s.ROAList.Data),
+		ROAsTALs:           s.stats.ROAsTALsCount,
+		Stable:             s.Stable.Load(),
+		LastValidation:     int(s.LastComputed.Unix()),
+		ValidationDuration: s.stats.ValidationDuration.Seconds(),
+		Iteration:          int(s.stats.iterations.Load()),
+	}
+	s.publishMu.RUnlock()
 
 	ias := make([]InfoAuthorities, 0)
 	for i, tal := range s.Tals {
@@ -1322,15 +1352,7 @@ func (s *OctoRPKI) ServeInfo(w http.ResponseWriter, r *http.Request) {
 		})
 	}
 
-	ir := InfoResult{
-		TAs:                ias,
-		ROACount:           len(s.ROAList.Data),
-		ROAsTALs:           s.stats.ROAsTALsCount,
-		Stable:             s.Stable.Load(),
-		LastValidation:     int(s.LastComputed.Unix()),
-		ValidationDuration: s.stats.ValidationDuration.Seconds(),
-		Iteration:          int(s.stats.iterations.Load()),
-	}
+	ir.TAs = ias
 	enc := json.NewEncoder(w)
 	enc.Encode(ir)
 }
@@ -1570,12 +1592,11 @@ func (s *OctoRPKI) validationLoop() {
 
 		s.mainRsync(span)
 
-		ctData := s.mainValidation(span)
+		result := s.mainValidation(span)
 
 		// Reduce
 		changed := s.MainReduce()
-		s.Stable.Store(!changed && s.stats.iterations.Load() > 1)
-		s.HasPreviousStable.Store(s.Stable.Load())
+		s.publish(result, !changed && s.stats.iterations.Load() > 1)
 
 		if *Mode == "oneoff" && (s.Stable.Load() || !*WaitStable) {
 			s.mustOutput()
@@ -1600,7 +1621,7 @@ func (s *OctoRPKI) validationLoop() {
 		if s.DoCT && (s.Stable.Load() || !*WaitStable) {
 			t1 := time.Now().UTC()
 
-			s.SendCertificateTransparency(span, ctData, *CertTransparencyThreads, *CertTransparencyTimeout)
+			s.SendCertificateTransparency(span, result.ctData, *CertTransparencyThreads, *CertTransparencyTimeout)
 
 			t2 := time.Now().UTC()
 			MetricOperationTime.With(
-- 
2.43.0


From 39782f5a7caa346f36355d7caa9686eb181809ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:01 +0000
Subject: [PATCH 37/61] fix: derive entity tags from the content they identify

---
 cmd/octorpki/octorpki.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 58154ce..011f3f7 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1246,16 +1246,22 @@ func (s *OctoRPKI) ServeROAs(w http.ResponseWriter, r *http.Request) {
 	upTo := time.Unix(int64(roaList.Metadata.Valid), 0)
 	maxAge := int(upTo.Sub(time.Now()).Seconds())
 
+	body, err := json.Marshal(roaList)
+	if err != nil {
+		log.Errorf("Unable to marshal ROA list: %v", err)
+		w.WriteHeader(http.StatusInternalServerError)
+		return
+	}
+	body = append(body, '\n')
+
 	w.Header().Set("Content-Type", "application/json")
 
 	if maxAge > 0 && *CacheHeader {
 		w.Header().Set("Cache-Control", fmt.Sprintf("max-age=%v", maxAge))
 	}
 
-	etag := sha256.New()
-	etag.Write([]byte(fmt.Sprintf("%v/%v", roaList.Metadata.Generated, roaList.Metadata.Counts)))
-	etagSum := etag.Sum(nil)
-	etagSumHex := hex.EncodeToString(etagSum)
+	etagSum := sha256.Sum256(body)
+	etagSumHex := hex.EncodeToString(etagSum[:])
 
 	if match := r.Header.Get("If-None-Match"); match != "" {
 		if match == etagSumHex {
@@ -1265,8 +1271,7 @@ func (s *OctoRPKI) ServeROAs(w http.ResponseWriter, r *http.Request) {
 	}
 
 	w.Header().Set("Etag", etagSumHex)
-	enc := json.NewEncoder(w)
-	enc.Encode(roaList)
+	w.Write(body)
 }
 
 func (s *OctoRPKI) ServeResources(w http.ResponseWriter, r *http.Request) {
-- 
2.43.0


From 8e5ead8cdef27f2fee2e557e1c5b9b2d0dfcca19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:23 +0000
Subject: [PATCH 38/61] fix: send each certificate of a chain to CT once

---
 cmd/octorpki/octorpki.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 011f3f7..3e03f6c 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1181,15 +1181,15 @@ func (s *OctoRPKI) ct(pkiManagers []*pki.SimpleManager, i int) [][]*pki.PKIFile
 		curPathCT := make([]*pki.PKIFile, 1)
 		curPathCT[0] = curPath
 
-		var ok bool
-		for curAki != "" && !ok {
-			ok = skiDone[curAki]
-			skiDone[curAki] = true
-
-			curPath = skiToPath[curAki]
-			if curAki != "" {
-				curPathCT = append(curPathCT, curPath)
+		// Up to the trust anchor, which is its own issuer
+		for curAki != "" && !skiDone[curAki] {
+			issuerPath, ok := skiToPath[curAki]
+			if !ok {
+				break
 			}
+
+			skiDone[curAki] = true
+			curPathCT = append(curPathCT, issuerPath)
 			curAki = skiToAki[curAki]
 		}
 		pathCT = append(pathCT, curPathCT)
-- 
2.43.0


From f8a0a645a39bb66c27ab353188c9ee62b32be182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 39/61] fix: do not send incomplete certificate chains to CT

---
 cmd/octorpki/ct.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/cmd/octorpki/ct.go b/cmd/octorpki/ct.go
index e2c19cd..afccdc6 100644
--- a/cmd/octorpki/ct.go
+++ b/cmd/octorpki/ct.go
@@ -78,25 +78,33 @@ func (s *OctoRPKI) SendCertificateTransparency(pSpan opentracing.Span, ctData []
 		for _, cert := range certs {
 			var dataBytes []byte
 			data, err := s.Fetcher.GetFile(cert)
+			if err == nil && data == nil {
+				err = fmt.Errorf("Unable to find file %q", cert.ComputePath())
+			}
+			if err != nil {
+				log.Error(err)
+				break
+			}
+
 			if cert.Type == pki.TYPE_ROA || cert.Type == pki.TYPE_MFT {
 				cms, err := librpki.DecodeCMS(data.Data)
 				if err != nil {
 					log.Error(err)
-					continue
+					break
 				}
 				dataBytes = cms.SignedData.Certificates.Bytes
 			} else {
 				dataBytes = data.Data
 			}
 
-			if err != nil {
-				log.Error(err)
-				continue
-			}
-
 			chain = append(chain, dataBytes)
 		}
 
+		if len(chain) < len(certs) {
+			log.Errorf("Not sending an incomplete certificate chain to Certificate Transparency")
+			continue
+		}
+
 		dataChan <- &ct.AddChainRequest{
 			Chain: chain,
 		}
-- 
2.43.0


From a4d9b655f7949db051d8fed90b1e897c6bba6520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:28 +0000
Subject: [PATCH 40/61] fix: do not send the certificates of rejected objects
 to CT

---
 cmd/octorpki/octorpki.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 3e03f6c..75961f6 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1163,7 +1163,16 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) *validationResult {
 func (s *OctoRPKI) ct(pkiManagers []*pki.SimpleManager, i int) [][]*pki.PKIFile {
 	skiToAki := make(map[string]string)
 	skiToPath := make(map[string]*pki.PKIFile)
-	for _, obj := range pkiManagers[i].Validator.ValidObjects {
+	validator := pkiManagers[i].Validator
+	for key, obj := range validator.ValidObjects {
+		// The certificates in manifests and ROAs that are not accepted
+		if _, ok := validator.ValidManifest[key]; !ok && obj.Type == pki.TYPE_MFTCER {
+			continue
+		}
+		if _, ok := validator.ValidROA[key]; !ok && obj.Type == pki.TYPE_ROACER {
+			continue
+		}
+
 		res := obj.Resource.(*librpki.RPKICertificate)
 		ski := hex.EncodeToString(res.Certificate.SubjectKeyId)
 		aki := hex.EncodeToString(res.Certificate.AuthorityKeyId)
-- 
2.43.0


From 927de314027bdd0dd1d60be1bb81c9bbce312e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:51 +0000
Subject: [PATCH 41/61] fix: do not accept symbolic links out of the cache from
 rsync

---
 sync/lib/rsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/lib/rsync.go b/sync/lib/rsync.go
index 030e595..d9a4635 100644
--- a/sync/lib/rsync.go
+++ b/sync/lib/rsync.go
@@ -69,7 +69,7 @@ func RunRsync(ctx context.Context, uri string, bin string, dirPath string) ([]*F
 		return nil, err
 	}
 
-	cmd := exec.CommandContext(ctx, bin, "-vrlt", uri, dirPath)
+	cmd := exec.CommandContext(ctx, bin, "-vrlt", "--safe-links", uri, dirPath)
 	log.Debugf("Command ran: %v", cmd)
 
 	stdout, err := cmd.StdoutPipe()
-- 
2.43.0


From 26fbe27d93f15e3d676ec01999bae5b3c3fbd9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 42/61] fix: synchronise over rsync a repository whose RRDP URL
 is used for another host

---
 cmd/octorpki/octorpki.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 75961f6..9c88ce9 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1115,11 +1115,13 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) *validationResult {
 			if cer.HasRRDP() {
 				prev, ok := s.getRRDPDomain(rrdpGeneralName)
 				if ok && prev != gnExtractedDomain {
+					// What is at this URL is used for the other host only: synchronise over rsync
 					log.Errorf("rrdp %s tries to override %s with %s", rrdpGeneralName, prev, gnExtractedDomain)
-					continue
+					rrdpGeneralName = ""
+				} else {
+					s.setRRDPDomain(rrdpGeneralName, gnExtractedDomain)
+					s.setRRDPFetch(rrdpGeneralName, gnExtracted)
 				}
-				s.setRRDPDomain(rrdpGeneralName, gnExtractedDomain)
-				s.setRRDPFetch(rrdpGeneralName, gnExtracted)
 			}
 			s.rsyncFetchJobManager.set(gnExtracted, rrdpGeneralName)
 			s.CurrentRepos[gnExtracted] = time.Now()
-- 
2.43.0


From 8e5288b5f3ac38d56dd2df9fce2de18f69c39951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:48 +0000
Subject: [PATCH 43/61] fix: do not wait for ever for a process forked by rsync
 after its timeout

---
 sync/lib/rsync.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sync/lib/rsync.go b/sync/lib/rsync.go
index d9a4635..3853a45 100644
--- a/sync/lib/rsync.go
+++ b/sync/lib/rsync.go
@@ -85,6 +85,19 @@ func RunRsync(ctx context.Context, uri string, bin string, dirPath string) ([]*F
 		return nil, err
 	}
 
+	// Only rsync itself is killed at the end of the context: a process it forked may be waiting
+	// for the server and never close its output.
+	done := make(chan struct{})
+	defer close(done)
+	go func() {
+		select {
+		case <-ctx.Done():
+			stdout.Close()
+			stderr.Close()
+		case <-done:
+		}
+	}()
+
 	go func() {
 		scanner := bufio.NewScanner(stderr)
 		for scanner.Scan() {
-- 
2.43.0


From d1ec8e5277c50d3539e8ebada1810c6ee34047a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:32 +0000
Subject: [PATCH 44/61] fix: treat IPv4-mapped IPv6 prefixes in ROAs as IPv6

---
 cmd/localrpki/localrpki.go |  2 +-
 cmd/octorpki/octorpki.go   |  6 +++---
 validator/lib/cert.go      | 14 ++++++++++++--
 validator/lib/roa.go       |  4 ++--
 4 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/cmd/localrpki/localrpki.go b/cmd/localrpki/localrpki.go
index f734efe..b9512dc 100644
--- a/cmd/localrpki/localrpki.go
+++ b/cmd/localrpki/localrpki.go
@@ -103,7 +103,7 @@ func main() {
 			for _, entry := range d.Valids {
 				oroa := OutputROA{
 					ASN:       fmt.Sprintf("AS%v", d.ASN),
-					Prefix:    entry.IPNet.String(),
+					Prefix:    librpki.PrefixString(entry.IPNet),
 					MaxLength: entry.MaxLength,
 					Path:      manager.PathOfResource[roa].ComputePath(),
 				}
diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 9c88ce9..358fc77 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -878,7 +878,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 						}
 					case *librpki.IPNet:
 						ipRes = &schemas.OutputIP{
-							Prefix: ipc.IPNet.String(),
+							Prefix: librpki.PrefixString(ipc.IPNet),
 						}
 					case *librpki.IPAddressNull:
 						ipRes = &schemas.OutputIP{
@@ -938,7 +938,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 			for _, entry := range roa.Valids {
 				oroa := prefixfile.ROAJson{
 					ASN:    fmt.Sprintf("AS%v", roa.ASN),
-					Prefix: entry.IPNet.String(),
+					Prefix: librpki.PrefixString(entry.IPNet),
 					Length: uint8(entry.MaxLength),
 					TA:     talname,
 				}
@@ -947,7 +947,7 @@ func (s *OctoRPKI) generateROAList(pkiManagers []*pki.SimpleManager, span opentr
 				counttal++
 
 				curResource.ROAs = append(curResource.ROAs, &schemas.OutputROA{
-					Prefix:    entry.IPNet.String(),
+					Prefix:    librpki.PrefixString(entry.IPNet),
 					MaxLength: entry.MaxLength,
 				})
 			}
diff --git a/validator/lib/cert.go b/validator/lib/cert.go
index 64256c0..9dd3902 100644
--- a/validator/lib/cert.go
+++ b/validator/lib/cert.go
@@ -45,7 +45,17 @@ type IPNet struct {
 }
 
 func (ipn *IPNet) String() string {
-	return ipn.IPNet.String()
+	return PrefixString(ipn.IPNet)
+}
+
+// PrefixString is like ipnet.String, which however writes IPv6 prefixes
+// of IPv4-mapped addresses as IPv4 prefixes.
+func PrefixString(ipnet *net.IPNet) string {
+	if ip4 := ipnet.IP.To4(); ip4 != nil && len(ipnet.Mask) == net.IPv6len {
+		size, _ := ipnet.Mask.Size()
+		return fmt.Sprintf("::ffff:%v/%d", ip4, size)
+	}
+	return ipnet.String()
 }
 
 func (ipn *IPNet) IsIPInRange(ip net.IP) (bool, bool) {
@@ -54,7 +64,7 @@ func (ipn *IPNet) IsIPInRange(ip net.IP) (bool, bool) {
 }
 
 func (ipn *IPNet) GetAfi() uint8 {
-	if ipn.IPNet.IP.To4() != nil {
+	if len(ipn.IPNet.Mask) == net.IPv4len {
 		return 1
 	} else if ipn.IPNet.IP.To16() != nil {
 		return 2
diff --git a/validator/lib/roa.go b/validator/lib/roa.go
index 53ef6e6..972a74b 100644
--- a/validator/lib/roa.go
+++ b/validator/lib/roa.go
@@ -62,7 +62,7 @@ func GroupEntries(entries []*ROAEntry) map[byte][]*ROAEntry {
 	mapIps := make(map[byte][]*ROAEntry)
 	for _, entry := range entries {
 		afi := byte(2)
-		if entry.IPNet.IP.To4() != nil {
+		if len(entry.IPNet.Mask) == net.IPv4len {
 			afi = 1
 		}
 
@@ -164,7 +164,7 @@ func (entry *ROAEntry) Validate() error {
 		return fmt.Errorf("max length (%d) is less than 0", entry.MaxLength)
 	}
 
-	if entry.IPNet.IP.To4() != nil && entry.MaxLength > 32 { // If IPv4
+	if len(entry.IPNet.Mask) == net.IPv4len && entry.MaxLength > 32 { // If IPv4
 		return fmt.Errorf("max length (%d) too small for IPv4 prefix", entry.MaxLength)
 	} else if entry.MaxLength > 128 { // If IPv6
 		return fmt.Errorf("max length (%d) too small for IPv6 prefix", entry.MaxLength)
-- 
2.43.0


From 05e0192d6d6b396d6ba32d19b21cef7d2d8b2abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 45/61] fix: validate each trust anchor separately in ctrpki

The anchors shared one validator: the chains of the first were submitted again
for every further one, and mixed up with those of the others.
---
 cmd/ctrpki/ctrpki.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cmd/ctrpki/ctrpki.go b/cmd/ctrpki/ctrpki.go
index 9cfbe10..7d32692 100644
--- a/cmd/ctrpki/ctrpki.go
+++ b/cmd/ctrpki/ctrpki.go
@@ -59,17 +59,16 @@ func main() {
 		MapDirectory: mapDir,
 	}
 
-	validator := pki.NewValidator()
-
+	var validTime time.Time
 	if *ValidTime == "now" {
-		validator.Time = time.Now().UTC()
+		validTime = time.Now().UTC()
 	} else if ts, err := strconv.ParseInt(*ValidTime, 10, 64); err == nil {
 		vt := time.Unix(int64(ts), 0)
 		log.Infof("Setting time to %v (timestamp)", vt)
-		validator.Time = vt
+		validTime = vt
 	} else if vt, err := time.Parse(time.RFC3339, *ValidTime); err == nil {
 		log.Infof("Setting time to %v (RFC3339)", vt)
-		validator.Time = vt
+		validTime = vt
 	}
 
 	ctclient, err := client.New(*CertificateTransparency, http.DefaultClient, jsonclient.Options{
@@ -103,6 +102,9 @@ func main() {
 	rootTALs := strings.Split(*RootTAL, ",")
 	ctData := make([][]*pki.PKIFile, 0)
 	for _, tal := range rootTALs {
+		validator := pki.NewValidator()
+		validator.Time = validTime
+
 		manager := pki.NewSimpleManager()
 		manager.Validator = validator
 		manager.FileSeeker = &s
-- 
2.43.0


From b460ed54d4c12e65741fcc8222411ce84f512ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 46/61] fix: do not send the certificates of rejected objects
 to CT from ctrpki

---
 cmd/ctrpki/ctrpki.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/ctrpki/ctrpki.go b/cmd/ctrpki/ctrpki.go
index 7d32692..edb63c9 100644
--- a/cmd/ctrpki/ctrpki.go
+++ b/cmd/ctrpki/ctrpki.go
@@ -121,7 +121,15 @@ func main() {
 
 		skiToAki := make(map[string]string)
 		skiToPath := make(map[string]*pki.PKIFile)
-		for _, obj := range manager.Validator.ValidObjects {
+		for key, obj := range manager.Validator.ValidObjects {
+			// The certificates in manifests and ROAs that are not accepted
+			if _, ok := manager.Validator.ValidManifest[key]; !ok && obj.Type == pki.TYPE_MFTCER {
+				continue
+			}
+			if _, ok := manager.Validator.ValidROA[key]; !ok && obj.Type == pki.TYPE_ROACER {
+				continue
+			}
+
 			res := obj.Resource.(*librpki.RPKICertificate)
 			ski := hex.EncodeToString(res.Certificate.SubjectKeyId)
 			aki := hex.EncodeToString(res.Certificate.AuthorityKeyId)
-- 
2.43.0


From 914e8fe5fb3a4f29c82b43dc5eab96aedea03257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 47/61] fix: send each certificate of a chain to CT once from
 ctrpki

---
 cmd/ctrpki/ctrpki.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cmd/ctrpki/ctrpki.go b/cmd/ctrpki/ctrpki.go
index edb63c9..aa80778 100644
--- a/cmd/ctrpki/ctrpki.go
+++ b/cmd/ctrpki/ctrpki.go
@@ -147,15 +147,15 @@ func main() {
 			curPathCT := make([]*pki.PKIFile, 1)
 			curPathCT[0] = curPath
 
-			var ok bool
-			for curAki != "" && !ok {
-				ok = skiDone[curAki]
-				skiDone[curAki] = true
-
-				curPath = skiToPath[curAki]
-				if curAki != "" {
-					curPathCT = append(curPathCT, curPath)
+			// Up to the trust anchor, which is its own issuer
+			for curAki != "" && !skiDone[curAki] {
+				issuerPath, ok := skiToPath[curAki]
+				if !ok {
+					break
 				}
+
+				skiDone[curAki] = true
+				curPathCT = append(curPathCT, issuerPath)
 				curAki = skiToAki[curAki]
 			}
 			pathCT = append(pathCT, curPathCT)
-- 
2.43.0


From 58cb8041924a3b6397ae5d8ed44c0070d242e9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:55 +0000
Subject: [PATCH 48/61] fix: do not crash on missing files or send incomplete
 chains in ctrpki

---
 cmd/ctrpki/ctrpki.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/cmd/ctrpki/ctrpki.go b/cmd/ctrpki/ctrpki.go
index aa80778..f21fd52 100644
--- a/cmd/ctrpki/ctrpki.go
+++ b/cmd/ctrpki/ctrpki.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/hex"
 	"flag"
+	"fmt"
 	"net/http"
 	"runtime"
 	"strconv"
@@ -172,24 +173,33 @@ func main() {
 		for _, cert := range certs {
 			var dataBytes []byte
 			data, err := s.GetFile(cert)
+			if err == nil && data == nil {
+				err = fmt.Errorf("Unable to find file %q", cert.ComputePath())
+			}
+			if err != nil {
+				log.Error(err)
+				break
+			}
+
 			if cert.Type == pki.TYPE_ROA || cert.Type == pki.TYPE_MFT {
 				cms, err := librpki.DecodeCMS(data.Data)
 				if err != nil {
 					log.Error(err)
-					continue
+					break
 				}
 				dataBytes = cms.SignedData.Certificates.Bytes
 			} else {
 				dataBytes = data.Data
 			}
 
-			if err != nil {
-				log.Error(err)
-				continue
-			}
 			chain = append(chain, ct.ASN1Cert{Data: dataBytes})
 		}
 
+		if len(chain) < len(certs) {
+			log.Errorf("Not sending an incomplete certificate chain to Certificate Transparency")
+			continue
+		}
+
 		if threads > 0 {
 			dataChan <- chain
 		} else {
-- 
2.43.0


From 945d2f8d966f063c44e4bb765f33c9ce388e9abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 49/61] fix: send the last chains to CT before ctrpki ends

The threads were told to stop while up to ct.threads chains were still in the
channel, which were lost.
---
 cmd/ctrpki/ctrpki.go | 40 +++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/cmd/ctrpki/ctrpki.go b/cmd/ctrpki/ctrpki.go
index f21fd52..0eed5f7 100644
--- a/cmd/ctrpki/ctrpki.go
+++ b/cmd/ctrpki/ctrpki.go
@@ -9,6 +9,7 @@ import (
 	"runtime"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	syncpki "github.com/cloudflare/cfrpki/sync/lib"
@@ -30,20 +31,15 @@ var (
 	CertificateTransparencyThreads = flag.Int("ct.threads", 50, "Number of threads to send to the CT Log")
 )
 
-func BatchCertificateTransparency(ctclient *client.LogClient, chain chan []ct.ASN1Cert, q chan bool) {
+func BatchCertificateTransparency(ctclient *client.LogClient, chain chan []ct.ASN1Cert) {
 	log.Debugf("Starting BatchCertificateTransparency")
-	for {
-		select {
-		case msg := <-chain:
-			_, err := ctclient.AddChain(context.Background(), msg)
-			if err != nil {
-				log.Error(err)
-			}
-		case <-q:
-			log.Debugf("Closing thread")
-			return
+	for msg := range chain {
+		_, err := ctclient.AddChain(context.Background(), msg)
+		if err != nil {
+			log.Error(err)
 		}
 	}
+	log.Debugf("Closing thread")
 }
 
 func main() {
@@ -82,22 +78,20 @@ func main() {
 
 	threads := *CertificateTransparencyThreads
 
-	qList := make([]chan bool, threads)
+	var wg sync.WaitGroup
 	dataChan := make(chan []ct.ASN1Cert, threads)
-	if threads > 0 {
-		for i := 0; i < threads; i++ {
-			q := make(chan bool)
-			qList[i] = q
-			go BatchCertificateTransparency(ctclient, dataChan, q)
-		}
+	for i := 0; i < threads; i++ {
+		wg.Add(1)
+		go func() {
+			defer wg.Done()
+			BatchCertificateTransparency(ctclient, dataChan)
+		}()
 	}
 
+	// Wait until the threads have sent what is left in the channel
 	defer func() {
-		if threads > 0 {
-			for i := 0; i < threads; i++ {
-				qList[i] <- true
-			}
-		}
+		close(dataChan)
+		wg.Wait()
 	}()
 
 	rootTALs := strings.Split(*RootTAL, ",")
-- 
2.43.0


From 89380f9ee0012ab2192b2852e138485633a0c8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 50/61] fix: do not take an undecodable file for a missing one

---
 sync/lib/fetch.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sync/lib/fetch.go b/sync/lib/fetch.go
index be2fed2..9bbb86b 100644
--- a/sync/lib/fetch.go
+++ b/sync/lib/fetch.go
@@ -64,9 +64,9 @@ func FetchFile(path string, derEncoding bool) ([]byte, []byte, error) {
 		return fc, sha256, nil
 	}
 
-	fc, err = librpki.BER2DER(fc)
-	if err != nil {
-		return nil, nil, fmt.Errorf("librpki.BER2DER failed: %v", err)
+	// A file which is not BER is still there: it is up to its decoder to reject it
+	if der, err := librpki.BER2DER(fc); err == nil {
+		fc = der
 	}
 
 	return fc, sha256, nil
-- 
2.43.0


From 457a4281badfc9ad9d4c8b927fb2231602737fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:40 +0000
Subject: [PATCH 51/61] fix: accept RRDP documents that declare the US-ASCII
 encoding

---
 sync/lib/rrdp.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sync/lib/rrdp.go b/sync/lib/rrdp.go
index cf93e5b..d14466e 100644
--- a/sync/lib/rrdp.go
+++ b/sync/lib/rrdp.go
@@ -69,6 +69,13 @@ func (f *HTTPFetcher) GetXML(url string) (string, error) {
 // has one of the given names. Returns the name.
 func decodeDocument(data string, elements map[string]interface{}) (string, error) {
 	decoder := xml.NewDecoder(strings.NewReader(data))
+	// RRDP documents are encoded in US-ASCII, which is a subset of UTF-8
+	decoder.CharsetReader = func(charset string, input io.Reader) (io.Reader, error) {
+		if strings.EqualFold(charset, "us-ascii") {
+			return input, nil
+		}
+		return nil, fmt.Errorf("unsupported encoding %q", charset)
+	}
 
 	var root string
 	for {
-- 
2.43.0


From 7e72c3f8307c01b7b89664b2f1002d84611af136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:40 +0000
Subject: [PATCH 52/61] fix: ignore tabs in the base64 of RRDP documents

---
 sync/lib/rrdp.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sync/lib/rrdp.go b/sync/lib/rrdp.go
index d14466e..a73d7e2 100644
--- a/sync/lib/rrdp.go
+++ b/sync/lib/rrdp.go
@@ -156,6 +156,7 @@ func (s *RRDPSystem) SetSentryScope(scope *sentry.Scope) {
 
 func DecodeRRDPBase64(value string) ([]byte, error) {
 	value = strings.Replace(value, " ", "", -1)
+	value = strings.Replace(value, "\t", "", -1)
 	value = strings.Replace(value, "\n", "", -1)
 	value = strings.Replace(value, "\r", "", -1)
 	return base64.StdEncoding.DecodeString(value)
-- 
2.43.0


From 1cad140c472e2aaafeb201218870247605180d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:05 +0000
Subject: [PATCH 53/61] fix: encode the signing time of signed objects in UTC

---
 validator/lib/cms.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/lib/cms.go b/validator/lib/cms.go
index f68e9c5..112b4f8 100644
--- a/validator/lib/cms.go
+++ b/validator/lib/cms.go
@@ -502,7 +502,7 @@ func EncodeCMS(certificate []byte, encapContent interface{}, signingTime time.Ti
 	if err != nil {
 		return nil, err
 	}
-	signingTimeBytes, err := asn1.Marshal(signingTime)
+	signingTimeBytes, err := asn1.Marshal(signingTime.UTC())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From f0685fca960a14c9ee115b01a698cc81a7c52d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:41 +0000
Subject: [PATCH 54/61] fix: hash signed attributes of more than 127 bytes
 correctly

---
 validator/lib/cms.go | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/validator/lib/cms.go b/validator/lib/cms.go
index 112b4f8..f260cf3 100644
--- a/validator/lib/cms.go
+++ b/validator/lib/cms.go
@@ -210,6 +210,17 @@ func EContentToEncapBF(econtent []byte, skipbf bool) ([]byte, error) {
 	return fullbytes, err
 }
 
+// Hash of the DER encoding of the attributes, as a SET of any length
+// https://tools.ietf.org/html/rfc5652#section-5.4
+func hashSignedAttributes(attributes []Attribute) ([]byte, error) {
+	b, err := asn1.MarshalWithParams(attributes, "set")
+	if err != nil {
+		return nil, err
+	}
+	h := sha256.Sum256(b)
+	return h[:], nil
+}
+
 // https://stackoverflow.com/questions/18011708/encrypt-message-with-rsa-private-key-as-in-openssls-rsa-private-encrypt
 func (cms *CMS) Sign(rand io.Reader, ski []byte, encap []byte, priv interface{}, cert []byte) error {
 	privKey, ok := priv.(*rsa.PrivateKey)
@@ -228,18 +239,10 @@ func (cms *CMS) Sign(rand io.Reader, ski []byte, encap []byte, priv interface{},
 	}
 	cms.SignedData.SignerInfos[0].SignedAttrs = append(cms.SignedData.SignerInfos[0].SignedAttrs, digestAttribute)
 
-	var sad SignedAttributesDigest
-	sad.SignedAttrs = cms.SignedData.SignerInfos[0].SignedAttrs
-	b, err := asn1.Marshal(sad)
+	signedAttributesHash, err := hashSignedAttributes(cms.SignedData.SignerInfos[0].SignedAttrs)
 	if err != nil {
 		return err
 	}
-	h = sha256.New()
-	if len(b) < 2 {
-		return errors.New("Error with length of signed attributes")
-	}
-	h.Write(b[2:]) // removes the "sequence"
-	signedAttributesHash := h.Sum(nil)
 
 	//signature, err := privKey.Sign(rand, signedAttributesHash, nil)
 	signature, err := EncryptSignatureRSA(rand, signedAttributesHash, privKey)
@@ -351,18 +354,10 @@ func (cms *CMS) Validate(encap []byte, cert *x509.Certificate) error {
 		return errors.New(fmt.Sprintf("CMS digest (%x) and encapsulated digest (%x) are different", contentHash, messageDigest))
 	}
 
-	var sad SignedAttributesDigest
-	sad.SignedAttrs = signedAttributes
-	b, err := asn1.Marshal(sad)
+	signedAttributesHash, err := hashSignedAttributes(signedAttributes)
 	if err != nil {
 		return err
 	}
-	h = sha256.New()
-	if len(b) < 2 {
-		return errors.New("Error with length of signed attributes")
-	}
-	h.Write(b[2:]) // removes the "sequence"
-	signedAttributesHash := h.Sum(nil)
 
 	// Check for public key format (ECDSA?)
 	pubKey, ok := cert.PublicKey.(*rsa.PublicKey)
-- 
2.43.0


From d9c395fe119e0248588bf6574f3b0a905cb8073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:10 +0000
Subject: [PATCH 55/61] fix: read the directories of repositories when
 manifests are not used

---
 sync/lib/fetch.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sync/lib/fetch.go b/sync/lib/fetch.go
index 9bbb86b..9a78982 100644
--- a/sync/lib/fetch.go
+++ b/sync/lib/fetch.go
@@ -117,10 +117,14 @@ func (s *LocalFetch) GetFileConv(file *pki.PKIFile, derEncoding bool) (*pki.Seek
 }
 
 func (s *LocalFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplore) error {
-	newPath := GetLocalPath(file.Repo, s.MapDirectory)
-	files, err := ioutil.ReadDir(file.Repo)
+	if file.Repo == "" {
+		return fmt.Errorf("No repository for %q", file.Path)
+	}
+	repo := strings.TrimSuffix(file.Repo, "/") + "/"
+	newPath := GetLocalPath(repo, s.MapDirectory)
+	files, err := ioutil.ReadDir(newPath)
 	if err != nil {
-		return fmt.Errorf("Unable to read dir %q: %v", file.Repo, err)
+		return fmt.Errorf("Unable to read dir %q: %v", newPath, err)
 	}
 
 	for _, fileDir := range files {
@@ -130,7 +134,9 @@ func (s *LocalFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplo
 
 		data, sha256, err := FetchFile(newPath+fileDir.Name(), true)
 		if err != nil {
-			return fmt.Errorf("FetchFile failed: %v", err)
+			// Does not keep the others from being used
+			log.Errorf("FetchFile failed: %v", err)
+			continue
 		}
 
 		fullnameSplit := strings.Split(fileDir.Name(), ".")
@@ -154,10 +160,10 @@ func (s *LocalFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplo
 				Parent: file,
 				Type:   extension,
 				Repo:   file.Repo,
-				Path:   file.Repo + fileDir.Name(),
+				Path:   fileDir.Name(),
 			},
 			&pki.SeekFile{
-				File:   file.Path,
+				File:   repo + fileDir.Name(),
 				Data:   data,
 				Sha256: sha256,
 			}, false)
-- 
2.43.0


From e639d86aad0660d537631be9261bfd501bef6d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:13 +0000
Subject: [PATCH 56/61] fix: use only what a CA issued from the directory it
 publishes in

---
 validator/pki/pki.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/validator/pki/pki.go b/validator/pki/pki.go
index 391a945..bf3183e 100644
--- a/validator/pki/pki.go
+++ b/validator/pki/pki.go
@@ -186,7 +186,7 @@ func (sm *SimpleManager) GetNextFile(curExplore *PKIFile) (*SeekFile, error) {
 type CallbackExplore func(*PKIFile, *SeekFile, bool)
 
 func (sm *SimpleManager) GetNextRepository(curExplore *PKIFile, callback CallbackExplore) error {
-	if _, ok := sm.Explored[curExplore.Repo]; ok {
+	if _, ok := sm.Explored[exploreKey(curExplore)]; ok {
 		return errors.New(fmt.Sprintf("Path %v already explored", curExplore.Repo))
 	}
 
@@ -268,14 +268,15 @@ type PKIFile struct {
 }
 
 // Returns the file of the CA certificate under which this file is published,
-// if it is a manifest or is listed on one.
+// if it is a manifest, is listed on one or was found in the directory of one.
 func (f *PKIFile) publisher() *PKIFile {
 	parent := f.Parent
-	if parent != nil && f.ManifestHash != nil && parent.Type == TYPE_MFT {
-		parent = parent.Parent
-	} else if f.Type != TYPE_MFT {
+	if f.Type != TYPE_MFT && (parent == nil || parent.Type != TYPE_MFT) {
 		return nil
 	}
+	for parent != nil && parent.Type == TYPE_MFT {
+		parent = parent.Parent
+	}
 	if parent == nil || parent.Type != TYPE_CER {
 		return nil
 	}
@@ -982,7 +983,7 @@ func (sm *SimpleManager) Explore(notMFT bool, addInvalidChilds bool) int {
 			}
 		} else {
 			err = sm.GetNextRepository(file, sm.ExploreAdd)
-			sm.Explored[file.Repo] = true
+			sm.Explored[exploreKey(file)] = true
 			if err != nil {
 				sm.reportErrorFile(err, file, nil)
 			}
-- 
2.43.0


From 8ff5ba23162a31255f0a2d33b9c634eefa370ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:18 +0000
Subject: [PATCH 57/61] fix: look up files by the most specific mapped prefix
 of their path

---
 sync/lib/fetch.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sync/lib/fetch.go b/sync/lib/fetch.go
index 9a78982..f6c3cf6 100644
--- a/sync/lib/fetch.go
+++ b/sync/lib/fetch.go
@@ -32,17 +32,27 @@ func (s *LocalFetch) SetRepositories(repositories map[string]time.Time) {
 	s.repositories = repositories
 }
 
+// Returns where a file is kept: the most specific prefix of its path that is mapped decides.
 func GetLocalPath(pathRep string, replace map[string]string) string {
 	sep := fmt.Sprintf("%c", os.PathSeparator)
 
+	found := false
+	var bestKey, bestVal string
 	for repKey, repVal := range replace {
+		// A prefix consists of whole elements of the path
+		repKey = strings.TrimSuffix(repKey, "/") + "/"
 		if !strings.HasSuffix(repVal, sep) {
 			repVal += sep
 		}
 
-		pathRep = strings.Replace(pathRep, repKey, repVal, -1)
+		if strings.HasPrefix(pathRep, repKey) && (!found || len(repKey) > len(bestKey)) {
+			found, bestKey, bestVal = true, repKey, repVal
+		}
 	}
-	return pathRep
+	if !found {
+		return pathRep
+	}
+	return bestVal + strings.TrimPrefix(pathRep, bestKey)
 }
 
 func ReplacePath(file *pki.PKIFile, replace map[string]string) string {
@@ -76,7 +86,7 @@ func ParseMapDirectory(mapdir string) map[string]string {
 	mapDirectoryFinal := make(map[string]string)
 	mapdirsSplit := strings.Split(mapdir, ",")
 	for _, mapdirU := range mapdirsSplit {
-		mapdirUSplit := strings.Split(mapdirU, "=")
+		mapdirUSplit := strings.SplitN(mapdirU, "=", 2)
 		if len(mapdirUSplit) == 2 {
 			mapDirectoryFinal[mapdirUSplit[0]] = mapdirUSplit[1]
 		}
-- 
2.43.0


From 03259bbc29eea024ff1571e2ebacd9656acdf33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:21 +0000
Subject: [PATCH 58/61] fix: list the repositories of every trust anchor under
 its name

---
 cmd/octorpki/octorpki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/octorpki/octorpki.go b/cmd/octorpki/octorpki.go
index 358fc77..ced4c12 100644
--- a/cmd/octorpki/octorpki.go
+++ b/cmd/octorpki/octorpki.go
@@ -1054,7 +1054,6 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) *validationResult {
 	for i := 0; i < len(ia); i++ {
 		ia[i] = make([]SIA, 0)
 	}
-	iatmp := make(map[string]*SIA)
 
 	span := s.tracer.StartSpan("validation", opentracing.ChildOf(pSpan.Context()))
 	defer span.Finish()
@@ -1095,6 +1094,7 @@ func (s *OctoRPKI) mainValidation(pSpan opentracing.Span) *validationResult {
 			count++
 		}
 
+		iatmp := make(map[string]*SIA)
 		// Includes the CAs found invalid after they were accepted, because of what they publish:
 		// synchronising their repository again is how they recover.
 		for pkiResource := range pkiManagers[i].PathOfResource {
-- 
2.43.0


From 3e57527cb81f647ff81e7eb6554be4bb2642a001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:27 +0000
Subject: [PATCH 59/61] fix: compare files received over the API with the hash
 of the manifest

APIFetch left out the hash of the file, so that StrictHash and the check of
stale manifests had no effect
---
 sync/api/fetch.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/sync/api/fetch.go b/sync/api/fetch.go
index bb5b14c..b00af70 100644
--- a/sync/api/fetch.go
+++ b/sync/api/fetch.go
@@ -2,6 +2,7 @@ package cfrpki
 
 import (
 	"context"
+	"crypto/sha256"
 	"fmt"
 	"io/ioutil"
 	"strings"
@@ -16,18 +17,25 @@ type APIFetch struct {
 }
 
 func FetchFile(client RPKIAPIClient, ctx context.Context, path string) ([]byte, error) {
+	data, _, err := fetchFile(client, ctx, path)
+	return data, err
+}
+
+// Returns also the hash of the file as it was received, for the comparison with the manifest
+func fetchFile(client RPKIAPIClient, ctx context.Context, path string) ([]byte, []byte, error) {
 	resource, err := client.GetResource(ctx, &ResourceQuery{
 		Path: path,
 	})
 
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
+	hash := sha256.Sum256(resource.Data)
 	data, err := librpki.BER2DER(resource.Data)
 	if err != nil {
-		return resource.Data, err
+		return resource.Data, hash[:], err
 	}
-	return data, err
+	return data, hash[:], err
 }
 
 func (s *APIFetch) GetFile(file *pki.PKIFile) (*pki.SeekFile, error) {
@@ -45,14 +53,15 @@ func (s *APIFetch) GetFile(file *pki.PKIFile) (*pki.SeekFile, error) {
 
 	path := file.ComputePath()
 
-	data, err := FetchFile(s.Client, s.Ctx, path)
+	data, hash, err := fetchFile(s.Client, s.Ctx, path)
 	if err != nil {
 		return nil, fmt.Errorf("FetchFile failed: %v", err)
 	}
 
 	return &pki.SeekFile{
-		File: path,
-		Data: data,
+		File:   path,
+		Data:   data,
+		Sha256: hash,
 	}, nil
 }
 
-- 
2.43.0


From 6fe20eb1086f6c6d9039595fc20c675c640472cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:30 +0000
Subject: [PATCH 60/61] fix: report a listing over the API that broke off

The files received before the error were taken for the whole repository
---
 sync/api/fetch.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sync/api/fetch.go b/sync/api/fetch.go
index b00af70..a5fac3b 100644
--- a/sync/api/fetch.go
+++ b/sync/api/fetch.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"crypto/sha256"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"strings"
 
@@ -73,8 +74,16 @@ func (s *APIFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplore
 		return err
 	}
 
-	resource, err := resources.Recv()
-	for resource != nil && err == nil {
+	for {
+		resource, err := resources.Recv()
+		if err == io.EOF {
+			return nil
+		}
+		if err != nil {
+			// What follows is missing
+			return fmt.Errorf("Unable to list %q: %v", file.Repo, err)
+		}
+
 		fullnameSplit := strings.Split(resource.Path, ".")
 		extension := pki.TYPE_UNKNOWN
 		if len(fullnameSplit) > 0 {
@@ -103,8 +112,5 @@ func (s *APIFetch) GetRepository(file *pki.PKIFile, callback pki.CallbackExplore
 				File: resource.Path,
 				Data: data,
 			}, false)
-
-		resource, err = resources.Recv()
 	}
-	return nil
 }
-- 
2.43.0


From da319d72262636c167307cd57d6487904b529a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:41 +0000
Subject: [PATCH 61/61] fix: do not take a file over the API that is not BER
 for a missing one

As for local files: its decoder rejects it
---
 sync/api/fetch.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sync/api/fetch.go b/sync/api/fetch.go
index a5fac3b..7e40eb0 100644
--- a/sync/api/fetch.go
+++ b/sync/api/fetch.go
@@ -34,9 +34,10 @@ func fetchFile(client RPKIAPIClient, ctx context.Context, path string) ([]byte,
 	hash := sha256.Sum256(resource.Data)
 	data, err := librpki.BER2DER(resource.Data)
 	if err != nil {
-		return resource.Data, hash[:], err
+		// A file which is not BER is still there: it is up to its decoder to reject it
+		return resource.Data, hash[:], nil
 	}
-	return data, hash[:], err
+	return data, hash[:], nil
 }
 
 func (s *APIFetch) GetFile(file *pki.PKIFile) (*pki.SeekFile, error) {
-- 
2.43.0

