From 188d8e365d4bb3b4e63eed5edb5122f2c00f13ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:43 +0000
Subject: [PATCH 01/35] fix: a newer direct definition replaces an older
 compressed one when revisions are merged (and vice versa)

---
 core/parse/incremental.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index 22737ba..43a2153 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -440,10 +440,12 @@ func (p *incrementalParser) mergeSections() {
 		// Regular objects
 		for objNum, offset := range section.Objects {
 			p.mergedObjs[objNum] = offset
+			delete(p.mergedStreams, objNum) // the newer definition replaces a compressed one
 		}
 		// Object stream entries
 		for objNum, entry := range section.Streams {
 			p.mergedStreams[objNum] = entry
+			delete(p.mergedObjs, objNum) // the newer definition replaces a direct one
 		}
 	}
 
-- 
2.43.0


From 70ba7f77e934205d596e52a11e18aa4836bf8ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:43 +0000
Subject: [PATCH 02/35] fix: FindObjectLocation resolves objects through all
 revisions, newest first

---
 core/parse/get_object.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index cd95cd7..ea25ed8 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -21,6 +21,20 @@ type ObjectLocation struct {
 
 // FindObjectLocation finds where an object is located (direct or in object stream)
 func FindObjectLocation(pdfBytes []byte, objNum int, verbose bool) (*ObjectLocation, error) {
+	// Resolve through the whole revision chain, so that the newest definition wins
+	if merged, err := parseWithIncrementalUpdates(pdfBytes, verbose); err == nil {
+		if entry, ok := merged.ObjectStreams[objNum]; ok {
+			return &ObjectLocation{
+				IsDirect:      false,
+				StreamObjNum:  entry.StreamObjNum,
+				IndexInStream: entry.IndexInStream,
+			}, nil
+		}
+		if offset, ok := merged.Objects[objNum]; ok {
+			return &ObjectLocation{IsDirect: true, ByteOffset: offset}, nil
+		}
+	}
+
 	// ALWAYS use xref table first - it's the authoritative source
 	// Direct search using bytes.Index is dangerous because "5 0 obj" matches inside "265 0 obj"
 
-- 
2.43.0


From f0a394f690dd0c2c785cdaa0986c0cb118127520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 03/35] fix: a cross-reference stream's parameters are read
 from its own dictionary, not from the objects after it

---
 core/parse/object_stream.go |  4 ++--
 core/parse/xref_stream.go   | 13 ++++++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index 2eff238..dc57556 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -37,7 +37,7 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 
 	// The xref stream object should be at startXRef
 	xrefSection := pdfBytes[startXRef:]
-	xrefStr := string(xrefSection[:min(500, len(xrefSection))])
+	xrefStr := xrefStreamDict(xrefSection)
 
 	// Find object number - it should be near the start
 	objPattern := regexp.MustCompile(`(\d+)\s+0\s+obj`)
@@ -141,7 +141,7 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 	// Check for predictor (PNG filter)
 	// Look for /DecodeParms with /Predictor
 	decodeparmsPattern := regexp.MustCompile(`/DecodeParms\s*<<([^>]+)>>`)
-	decodeparmsMatch := decodeparmsPattern.FindStringSubmatch(string(xrefSection[:min(500, len(xrefSection))]))
+	decodeparmsMatch := decodeparmsPattern.FindStringSubmatch(xrefStr[dictStart:])
 
 	if decodeparmsMatch != nil {
 		predictorPattern := regexp.MustCompile(`/Predictor\s+(\d+)`)
diff --git a/core/parse/xref_stream.go b/core/parse/xref_stream.go
index ced4bbf..7accd2b 100644
--- a/core/parse/xref_stream.go
+++ b/core/parse/xref_stream.go
@@ -27,7 +27,7 @@ func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo
 	// The xref stream object should be at startXRef
 	// Find object number - it should be at or near startXRef
 	xrefSection := pdfBytes[startXRef:]
-	xrefStr := string(xrefSection[:min(500, len(xrefSection))])
+	xrefStr := xrefStreamDict(xrefSection)
 
 	// Find object number - it should be near the start (usually the first thing)
 	objPattern := regexp.MustCompile(`(\d+)\s+0\s+obj`)
@@ -202,3 +202,14 @@ func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo
 
 	return objMap, nil
 }
+
+// xrefStreamDict returns the text of a cross-reference stream object up to its stream data, so that its
+// entries are not confused with those of whatever follows it in the file.
+func xrefStreamDict(xrefSection []byte) string {
+	if dictStart := bytes.Index(xrefSection, []byte("<<")); dictStart != -1 {
+		if streamPos := bytes.Index(xrefSection[dictStart:], []byte("stream")); streamPos != -1 {
+			return string(xrefSection[:dictStart+streamPos])
+		}
+	}
+	return string(xrefSection)
+}
-- 
2.43.0


From d12fffbd8a0b0b5ff82268596ab4e1d2d2450d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 04/35] fix: an object stream is located through the
 cross-reference data, so that its newest definition is read

---
 core/parse/object_stream.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index dc57556..c619307 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -264,19 +264,21 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 // This implements PyPDF's _get_object_from_stream method
 func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInStream int, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
 	// Step 1: Get the object stream itself
-	// First, we need to find the object stream's byte offset
-	// This requires having the xref table for direct objects
-
-	// For now, search for the object stream in the PDF
-	streamPattern := fmt.Sprintf(`%d\s+0\s+obj`, streamObjNum)
-	re := regexp.MustCompile(streamPattern)
-	matches := re.FindIndex(pdfBytes)
-	if matches == nil {
-		return nil, fmt.Errorf("object stream %d not found", streamObjNum)
+	// Its newest definition is where the cross-reference data says it is
+	streamPattern := fmt.Sprintf(`^\s*%d\s+0\s+obj`, streamObjNum)
+	streamObjStart := -1
+	if loc, err := FindObjectLocation(pdfBytes, streamObjNum, verbose); err == nil && loc.IsDirect &&
+		loc.ByteOffset >= 0 && loc.ByteOffset < int64(len(pdfBytes)) && regexp.MustCompile(streamPattern).Match(pdfBytes[loc.ByteOffset:]) {
+		streamObjStart = int(loc.ByteOffset)
+	} else {
+		// Otherwise search for it in the PDF
+		matches := regexp.MustCompile(fmt.Sprintf(`(?:^|\s)%d\s+0\s+obj`, streamObjNum)).FindIndex(pdfBytes)
+		if matches == nil {
+			return nil, fmt.Errorf("object stream %d not found", streamObjNum)
+		}
+		streamObjStart = matches[0]
 	}
 
-	streamObjStart := matches[0]
-
 	// Find the object stream's dictionary and stream data
 	objSection := pdfBytes[streamObjStart:]
 
-- 
2.43.0


From e98b9522d58c842d38bf8a517f34c8b6b4af16c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:25 +0000
Subject: [PATCH 05/35] fix: AES-256 (V5) objects are encrypted with the file
 key itself, not with a per-object MD5 key

---
 core/encrypt/decrypt.go | 4 ++++
 core/write/writer.go    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/core/encrypt/decrypt.go b/core/encrypt/decrypt.go
index cbb5758..308e82f 100644
--- a/core/encrypt/decrypt.go
+++ b/core/encrypt/decrypt.go
@@ -256,6 +256,10 @@ func DecryptObject(objBytes []byte, objNum, genNum int, encrypt *types.PDFEncryp
 		aesKeyHash := keyHash.Sum(nil)
 		aesKeyLen := min(n+5, 16)
 		aesKey := aesKeyHash[:aesKeyLen]
+		if encrypt.V == 5 {
+			// AESV3: the file encryption key is used as it is (ISO 32000-2, Algorithm 1.A)
+			aesKey = encrypt.EncryptKey
+		}
 
 		// PyPDF CryptAES.decrypt (lines 73-88):
 		// Line 74: iv = data[:16]
diff --git a/core/write/writer.go b/core/write/writer.go
index cde6981..7fd33bf 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -507,6 +507,10 @@ func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, erro
 		aesKeyHash := keyHash.Sum(nil)
 		aesKeyLen := min(n+5, 16)
 		aesKey := aesKeyHash[:aesKeyLen]
+		if w.encryptInfo.V == 5 {
+			// AESV3: the file encryption key is used as it is (ISO 32000-2, Algorithm 1.A)
+			aesKey = w.encryptInfo.EncryptKey
+		}
 
 		// Generate random IV
 		iv := make([]byte, 16)
-- 
2.43.0


From d3855f66167456bd16f3a03edc510cdf881461ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:29 +0000
Subject: [PATCH 06/35] fix: streams are encrypted with RC4 when the encryption
 is V1 or V2, not left in the clear

---
 core/write/writer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index 7fd33bf..dbc6047 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -8,6 +8,7 @@ import (
 	"crypto/cipher"
 	"crypto/md5"
 	"crypto/rand"
+	"crypto/rc4"
 	"fmt"
 	"io"
 	"sort"
@@ -489,7 +490,7 @@ func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, erro
 	pack2 := []byte{byte(genNum & 0xff), byte((genNum >> 8) & 0xff)}
 
 	n := w.encryptInfo.KeyLength
-	if n == 0 {
+	if n == 0 || w.encryptInfo.V == 1 {
 		n = 5
 	}
 
@@ -545,7 +546,16 @@ func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, erro
 	}
 
 	// RC4 encryption (V1, V2)
-	// Not implemented for now
+	if w.encryptInfo.V == 1 || w.encryptInfo.V == 2 {
+		c, err := rc4.NewCipher(keyHash.Sum(nil)[:min(n+5, 16)])
+		if err != nil {
+			return nil, err
+		}
+		encrypted := make([]byte, len(data))
+		c.XORKeyStream(encrypted, data)
+		return encrypted, nil
+	}
+
 	return data, nil
 }
 
-- 
2.43.0


From f71870d6bf171b31b2bbfe3aa8e3c57b8c24d709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:30 +0000
Subject: [PATCH 07/35] fix: an encryption failure is reported, the stream is
 not written in the clear

---
 core/write/writer.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/write/writer.go b/core/write/writer.go
index dbc6047..6408853 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -311,12 +311,13 @@ func (w *PDFWriter) Write(out io.Writer) error {
 			streamData := obj.Stream
 			if w.encryptInfo != nil {
 				encrypted, err := w.encryptStream(streamData, objNum, obj.Generation)
-				if err == nil {
-					streamData = encrypted
-					// Update length in dictionary
-					obj.Dict["Length"] = len(streamData)
-					content = w.formatDictionary(obj.Dict)
+				if err != nil {
+					return fmt.Errorf("failed to encrypt stream of object %d: %v", objNum, err)
 				}
+				streamData = encrypted
+				// Update length in dictionary
+				obj.Dict["Length"] = len(streamData)
+				content = w.formatDictionary(obj.Dict)
 			}
 
 			buf.Write(content)
-- 
2.43.0


From 49543f6e5cb557997eebcbd7af34aa51a05ef25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:35 +0000
Subject: [PATCH 08/35] fix: an encryption dictionary with a key length that
 does not fit is refused, not a panic

---
 core/encrypt/decrypt.go        | 4 ++++
 core/encrypt/key_derivation.go | 6 ++++++
 core/write/writer.go           | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/core/encrypt/decrypt.go b/core/encrypt/decrypt.go
index 308e82f..1549b21 100644
--- a/core/encrypt/decrypt.go
+++ b/core/encrypt/decrypt.go
@@ -223,6 +223,10 @@ func DecryptObject(objBytes []byte, objNum, genNum int, encrypt *types.PDFEncryp
 		n = encrypt.KeyLength // KeyLength is already in bytes (converted from bits in parser)
 	}
 
+	if n < 0 || n > len(encrypt.EncryptKey) {
+		return nil, types.NewPDFErrorf(types.ErrCodeDecryptionFailed, "key length %d does not fit the encryption key (%d bytes)", n, len(encrypt.EncryptKey))
+	}
+
 	// PyPDF line 918: key = self._key
 	// PyPDF line 920: key_data = key[:n] + pack1 + pack2
 	keyData := make([]byte, n+5)
diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index bbbb6cb..367154a 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -23,6 +23,9 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 5 {
 		return DeriveEncryptionKeyV5(password, encrypt, fileID, verbose)
 	}
+	if encrypt.KeyLength < 0 || encrypt.KeyLength > md5.Size {
+		return nil, fmt.Errorf("invalid key length: %d bytes", encrypt.KeyLength)
+	}
 	// Pad or truncate password to 32 bytes
 	// According to PDF spec Algorithm 2:
 	// - If password is shorter than 32 bytes, pad by appending bytes from the password cyclically
@@ -201,6 +204,9 @@ func DeriveOwnerKey(ownerPassword []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 5 {
 		return DeriveOwnerKeyV5(ownerPassword, encrypt, fileID, verbose)
 	}
+	if encrypt.KeyLength < 0 || encrypt.KeyLength > md5.Size {
+		return nil, fmt.Errorf("invalid key length: %d bytes", encrypt.KeyLength)
+	}
 	// Pad owner password to 32 bytes
 	paddingString := []byte{
 		0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41,
diff --git a/core/write/writer.go b/core/write/writer.go
index 6408853..f97e0ac 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -495,6 +495,10 @@ func (w *PDFWriter) encryptStream(data []byte, objNum, genNum int) ([]byte, erro
 		n = 5
 	}
 
+	if n < 0 || n > len(w.encryptInfo.EncryptKey) {
+		return nil, fmt.Errorf("key length %d does not fit the encryption key (%d bytes)", n, len(w.encryptInfo.EncryptKey))
+	}
+
 	keyData := make([]byte, n+5)
 	copy(keyData, w.encryptInfo.EncryptKey[:n])
 	copy(keyData[n:], pack1)
-- 
2.43.0


From dc046006cb142ea59b1a09532e437a91484a3488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:05 +0000
Subject: [PATCH 09/35] fix: passwords are padded with the standard padding
 string (Algorithm 2, step a)

---
 core/encrypt/key_derivation.go | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index 367154a..0831299 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -27,8 +27,8 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 		return nil, fmt.Errorf("invalid key length: %d bytes", encrypt.KeyLength)
 	}
 	// Pad or truncate password to 32 bytes
-	// According to PDF spec Algorithm 2:
-	// - If password is shorter than 32 bytes, pad by appending bytes from the password cyclically
+	// According to PDF spec Algorithm 2, step a:
+	// - If password is shorter than 32 bytes, pad by appending bytes from the beginning of the padding string
 	// - For empty password, the padding string itself is used
 	paddingString := []byte{
 		0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41,
@@ -42,13 +42,8 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 		// Empty password: use padding string directly
 		copy(paddedPassword, paddingString)
 	} else {
-		copy(paddedPassword, password)
-		if len(password) < 32 {
-			// Pad with password bytes cyclically
-			for i := len(password); i < 32; i++ {
-				paddedPassword[i] = password[i%len(password)]
-			}
-		}
+		n := copy(paddedPassword, password)
+		copy(paddedPassword[n:], paddingString)
 	}
 
 	// Step 1: Compute hash of padded password + O + P (as 32-bit int, little-endian) + ID[0]
@@ -217,12 +212,8 @@ func DeriveOwnerKey(ownerPassword []byte, encrypt *types.PDFEncryption, fileID [
 
 	paddedOwnerPassword := make([]byte, 32)
 	if len(ownerPassword) > 0 {
-		copy(paddedOwnerPassword, ownerPassword)
-		if len(ownerPassword) < 32 {
-			for i := len(ownerPassword); i < 32; i++ {
-				paddedOwnerPassword[i] = ownerPassword[i%len(ownerPassword)]
-			}
-		}
+		n := copy(paddedOwnerPassword, ownerPassword)
+		copy(paddedOwnerPassword[n:], paddingString)
 	} else {
 		// Empty password - use padding string
 		copy(paddedOwnerPassword, paddingString)
-- 
2.43.0


From 9aa8c2443c83d8d05c01ffd97d40554fb59d4674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:08 +0000
Subject: [PATCH 10/35] fix: EncryptMetadata enters the key only for revision 4
 (Algorithm 2, step f)

---
 core/encrypt/key_derivation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index 0831299..27c8205 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -69,8 +69,8 @@ func DeriveEncryptionKey(password []byte, encrypt *types.PDFEncryption, fileID [
 		}
 	}
 
-	// If EncryptMetadata is false, add 4 bytes of 0xFFFFFFFF
-	if !encrypt.EncryptMetadata {
+	// For revision 4, if EncryptMetadata is false, add 4 bytes of 0xFFFFFFFF
+	if encrypt.R >= 4 && !encrypt.EncryptMetadata {
 		metadataBytes := []byte{0xFF, 0xFF, 0xFF, 0xFF}
 		hash.Write(metadataBytes)
 		if verbose {
-- 
2.43.0


From f21e689964fb57066c697c7ba3d5872112f69d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:47 +0000
Subject: [PATCH 11/35] fix: a binary /OE value is read from after its opening
 parenthesis

---
 core/encrypt/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index 648ec59..28e02cc 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -275,7 +275,7 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 					parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
 					if parenEnd != -1 {
 						encrypt.OE = make([]byte, parenEnd)
-						copy(encrypt.OE, pdfBytes[oeStartInDict:oeStartInDict+parenEnd])
+						copy(encrypt.OE, pdfBytes[parenStart:parenStart+parenEnd])
 						if verbose {
 							log.Printf("Extracted OE value (binary): %d bytes", len(encrypt.OE))
 						}
-- 
2.43.0


From ac5f3def25078d1bf677b987a5cef22a22fffd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:47 +0000
Subject: [PATCH 12/35] fix: the owner password of revision 3 and 4 documents
 is recovered as Algorithms 3 and 7 say

---
 core/encrypt/key_derivation.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index 27c8205..1a6c191 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -228,7 +228,7 @@ func DeriveOwnerKey(ownerPassword []byte, encrypt *types.PDFEncryption, fileID [
 	if encrypt.R >= 3 {
 		for i := 0; i < 50; i++ {
 			hash := md5.New()
-			hash.Write(ownerHash[:encrypt.KeyLength])
+			hash.Write(ownerHash)
 			ownerHash = hash.Sum(nil)
 		}
 	}
@@ -248,12 +248,19 @@ func DeriveOwnerKey(ownerPassword []byte, encrypt *types.PDFEncryption, fileID [
 		}
 		cipher.XORKeyStream(decryptedO, encrypt.O)
 	} else {
-		// Revision 3+: decrypt O with RC4, then use it to derive user key
-		cipher, err := rc4.NewCipher(ownerHash)
-		if err != nil {
-			return nil, err
+		// Revision 3+: RC4 is undone twenty times, with the key XORed with 19 down to 0 (Algorithm 7)
+		decryptedO = append([]byte{}, encrypt.O[:min(32, len(encrypt.O))]...)
+		for i := 19; i >= 0; i-- {
+			xorKey := make([]byte, len(ownerHash))
+			for j := range ownerHash {
+				xorKey[j] = ownerHash[j] ^ byte(i)
+			}
+			cipher, err := rc4.NewCipher(xorKey)
+			if err != nil {
+				return nil, err
+			}
+			cipher.XORKeyStream(decryptedO, decryptedO)
 		}
-		cipher.XORKeyStream(decryptedO, encrypt.O[:min(32, len(encrypt.O))])
 	}
 
 	// Now derive user key from decrypted O (which is the user password hash)
-- 
2.43.0


From a229ba6fc075ee82cc251ed1d596c9ca4ab17654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:47 +0000
Subject: [PATCH 13/35] fix: an owner password is verified against /O, not
 accepted whenever the unwrapped key happens to have valid padding

---
 core/encrypt/decrypt.go        |  8 +++++---
 core/encrypt/key_derivation.go | 31 +++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/core/encrypt/decrypt.go b/core/encrypt/decrypt.go
index 1549b21..a7e409a 100644
--- a/core/encrypt/decrypt.go
+++ b/core/encrypt/decrypt.go
@@ -54,12 +54,14 @@ func DecryptPDF(pdfBytes []byte, password []byte, verbose bool) ([]byte, *types.
 				log.Printf("User password U value verification failed, trying owner password...")
 			}
 			ownerPasswordKey, err2 := DeriveOwnerKeyV5(password, encrypt, fileID, verbose)
+			oMatch := false
 			if err2 == nil {
-				// For owner password, we need to verify differently
-				// Owner password verification involves unwrapping /OE and checking if it works
+				// The owner password is verified against the O value
+				oMatch, err2 = VerifyOValueV5(password, ownerPasswordKey, encrypt, verbose)
+			}
+			if err2 == nil && oMatch {
 				ownerKey, err2 := UnwrapOwnerKeyV5(ownerPasswordKey, encrypt, verbose)
 				if err2 == nil {
-					// If unwrapping succeeded, owner password is correct
 					// The unwrapped owner key is the user encryption key
 					encryptKey = ownerKey
 					encrypt.EncryptKey = encryptKey
diff --git a/core/encrypt/key_derivation.go b/core/encrypt/key_derivation.go
index 1a6c191..db64439 100644
--- a/core/encrypt/key_derivation.go
+++ b/core/encrypt/key_derivation.go
@@ -601,3 +601,34 @@ func VerifyUValueV5(password []byte, passwordKey []byte, encrypt *types.PDFEncry
 
 	return match, nil
 }
+
+// VerifyOValueV5 verifies an owner password against the stored O value
+// O is validation_salt (8) + SHA-256(password + validation_salt + U) encrypted with AES-128 ECB (32) + key_salt (8)
+func VerifyOValueV5(ownerPassword []byte, ownerPasswordKey []byte, encrypt *types.PDFEncryption, verbose bool) (bool, error) {
+	if len(encrypt.O) < 48 {
+		return false, fmt.Errorf("O value too short for V5: %d bytes (expected at least 48)", len(encrypt.O))
+	}
+	if len(ownerPasswordKey) < 16 {
+		return false, fmt.Errorf("owner password key too short: %d bytes (need at least 16 for AES-128)", len(ownerPasswordKey))
+	}
+
+	hash := sha256.New()
+	hash.Write(ownerPassword)
+	hash.Write(encrypt.O[:8])
+	hash.Write(encrypt.U)
+	hashed := hash.Sum(nil)
+
+	block, err := aes.NewCipher(ownerPasswordKey[:16])
+	if err != nil {
+		return false, fmt.Errorf("failed to create AES cipher: %v", err)
+	}
+	encrypted := make([]byte, 32)
+	block.Encrypt(encrypted[:16], hashed[:16])
+	block.Encrypt(encrypted[16:], hashed[16:])
+
+	match := bytes.Equal(encrypt.O[8:40], encrypted)
+	if verbose {
+		log.Printf("V5 O value verification: %v", match)
+	}
+	return match, nil
+}
-- 
2.43.0


From 9d7e285099d89d4588175fed9aee2aa9fe2eff9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:35 +0000
Subject: [PATCH 14/35] fix: the encryption dictionary is not taken from an
 object whose number only ends in its number

---
 core/encrypt/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index 28e02cc..08c6faa 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -38,6 +38,15 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 	// Find the Encrypt object
 	objPattern := []byte(fmt.Sprintf("%d 0 obj", encryptObjNum))
 	objIndex := bytes.Index(pdfBytes, objPattern)
+	for objIndex > 0 && pdfBytes[objIndex-1] >= '0' && pdfBytes[objIndex-1] <= '9' {
+		// The header of an object whose number only ends in this one
+		next := bytes.Index(pdfBytes[objIndex+1:], objPattern)
+		if next == -1 {
+			objIndex = -1
+			break
+		}
+		objIndex += 1 + next
+	}
 	if objIndex == -1 {
 		return nil, fmt.Errorf("Encrypt object %d not found", encryptObjNum)
 	}
-- 
2.43.0


From 8b68a437bf41a8c9829809b5b2b5db9944f47355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:10 +0000
Subject: [PATCH 15/35] fix: escapes in /O, /U, /OE and /UE literal strings are
 resolved, and the dictionary does not end inside them

---
 core/encrypt/parser.go | 125 ++++++++++++++++++++++++++---------------
 1 file changed, 79 insertions(+), 46 deletions(-)

diff --git a/core/encrypt/parser.go b/core/encrypt/parser.go
index 08c6faa..ec10733 100644
--- a/core/encrypt/parser.go
+++ b/core/encrypt/parser.go
@@ -59,10 +59,20 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 	dictStart += objIndex
 
 	// Find matching >> (handle nested dictionaries)
-	depth := 0
+	depth, parens := 0, 0
 	dictEnd := dictStart
 	for i := dictStart; i < len(pdfBytes) && i < dictStart+2000; i++ {
-		if i+1 < len(pdfBytes) && pdfBytes[i] == '<' && pdfBytes[i+1] == '<' {
+		if parens > 0 || pdfBytes[i] == '(' {
+			// Inside a literal string
+			switch pdfBytes[i] {
+			case '(':
+				parens++
+			case ')':
+				parens--
+			case '\\':
+				i++
+			}
+		} else if i+1 < len(pdfBytes) && pdfBytes[i] == '<' && pdfBytes[i+1] == '<' {
 			depth++
 			i++ // Skip second '<'
 		} else if i+1 < len(pdfBytes) && pdfBytes[i] == '>' && pdfBytes[i+1] == '>' {
@@ -173,17 +183,9 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 		oMatch := oPattern.FindStringIndex(dictContent)
 		if oMatch != nil {
 			oStartInDict := dictStart + oMatch[1] - 1 // Position of '('
-			parenStart := bytes.Index(pdfBytes[oStartInDict:], []byte("("))
-			if parenStart != -1 {
-				parenStart += oStartInDict + 1
-				parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-				if parenEnd != -1 {
-					encrypt.O = make([]byte, parenEnd)
-					copy(encrypt.O, pdfBytes[parenStart:parenStart+parenEnd])
-					if verbose {
-						log.Printf("Extracted O value (binary): %d bytes", len(encrypt.O))
-					}
-				}
+			encrypt.O = readLiteralString(pdfBytes[oStartInDict:])
+			if verbose {
+				log.Printf("Extracted O value (binary): %d bytes", len(encrypt.O))
 			}
 		}
 	}
@@ -204,17 +206,9 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 		uMatch := uPattern.FindStringIndex(dictContent)
 		if uMatch != nil {
 			uStartInDict := dictStart + uMatch[1] - 1 // Position of '('
-			parenStart := bytes.Index(pdfBytes[uStartInDict:], []byte("("))
-			if parenStart != -1 {
-				parenStart += uStartInDict + 1
-				parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-				if parenEnd != -1 {
-					encrypt.U = make([]byte, parenEnd)
-					copy(encrypt.U, pdfBytes[parenStart:parenStart+parenEnd])
-					if verbose {
-						log.Printf("Extracted U value (binary): %d bytes", len(encrypt.U))
-					}
-				}
+			encrypt.U = readLiteralString(pdfBytes[uStartInDict:])
+			if verbose {
+				log.Printf("Extracted U value (binary): %d bytes", len(encrypt.U))
 			}
 		}
 	}
@@ -249,17 +243,9 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 			ueMatch := uePattern.FindStringIndex(dictContent)
 			if ueMatch != nil {
 				ueStartInDict := dictStart + ueMatch[1] - 1
-				parenStart := bytes.Index(pdfBytes[ueStartInDict:], []byte("("))
-				if parenStart != -1 {
-					parenStart += ueStartInDict + 1
-					parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-					if parenEnd != -1 {
-						encrypt.UE = make([]byte, parenEnd)
-						copy(encrypt.UE, pdfBytes[parenStart:parenStart+parenEnd])
-						if verbose {
-							log.Printf("Extracted UE value (binary): %d bytes", len(encrypt.UE))
-						}
-					}
+				encrypt.UE = readLiteralString(pdfBytes[ueStartInDict:])
+				if verbose {
+					log.Printf("Extracted UE value (binary): %d bytes", len(encrypt.UE))
 				}
 			}
 		}
@@ -278,17 +264,9 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 			oeMatch := oePattern.FindStringIndex(dictContent)
 			if oeMatch != nil {
 				oeStartInDict := dictStart + oeMatch[1] - 1
-				parenStart := bytes.Index(pdfBytes[oeStartInDict:], []byte("("))
-				if parenStart != -1 {
-					parenStart += oeStartInDict + 1
-					parenEnd := bytes.Index(pdfBytes[parenStart:], []byte(")"))
-					if parenEnd != -1 {
-						encrypt.OE = make([]byte, parenEnd)
-						copy(encrypt.OE, pdfBytes[parenStart:parenStart+parenEnd])
-						if verbose {
-							log.Printf("Extracted OE value (binary): %d bytes", len(encrypt.OE))
-						}
-					}
+				encrypt.OE = readLiteralString(pdfBytes[oeStartInDict:])
+				if verbose {
+					log.Printf("Extracted OE value (binary): %d bytes", len(encrypt.OE))
 				}
 			}
 		}
@@ -296,3 +274,58 @@ func ParseEncryptionDictionary(pdfBytes []byte, verbose bool) (*types.PDFEncrypt
 
 	return encrypt, nil
 }
+
+// readLiteralString returns the bytes of the literal string that b starts with,
+// with escapes resolved (ISO 32000-1, 7.3.4.2)
+func readLiteralString(b []byte) []byte {
+	out := []byte{}
+	depth := 0
+	for i := 0; i < len(b); i++ {
+		c := b[i]
+		switch {
+		case c == '(':
+			depth++
+			if depth > 1 {
+				out = append(out, c)
+			}
+		case c == ')':
+			depth--
+			if depth <= 0 {
+				return out
+			}
+			out = append(out, c)
+		case c == '\\' && i+1 < len(b):
+			i++
+			switch e := b[i]; {
+			case e == 'n':
+				out = append(out, '\n')
+			case e == 'r':
+				out = append(out, '\r')
+			case e == 't':
+				out = append(out, '\t')
+			case e == 'b':
+				out = append(out, '\b')
+			case e == 'f':
+				out = append(out, '\f')
+			case e == '\r':
+				if i+1 < len(b) && b[i+1] == '\n' {
+					i++
+				}
+			case e == '\n':
+				// Line continuation
+			case e >= '0' && e <= '7':
+				v := int(e - '0')
+				for n := 0; n < 2 && i+1 < len(b) && b[i+1] >= '0' && b[i+1] <= '7'; n++ {
+					i++
+					v = v*8 + int(b[i]-'0')
+				}
+				out = append(out, byte(v))
+			default:
+				out = append(out, e)
+			}
+		default:
+			out = append(out, c)
+		}
+	}
+	return out
+}
-- 
2.43.0


From cab8ccbc401e188c0218701580919cb29b0fe3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:44 +0000
Subject: [PATCH 16/35] fix: the last startxref before %%EOF counts, also when
 a short update leaves the previous one within reach

---
 core/parse/document_parser.go | 6 ++++--
 core/parse/incremental.go     | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index 86c6a30..e8adab9 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -131,10 +131,12 @@ func parseRevision(pdfBytes []byte, revNum int, eofOffset int, doc *PDFDocument)
 
 	searchSection := string(pdfBytes[searchStart:eofOffset])
 	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := startxrefPattern.FindStringSubmatch(searchSection)
-	if match == nil {
+	matches := startxrefPattern.FindAllStringSubmatch(searchSection, -1)
+	if len(matches) == 0 {
 		return nil, fmt.Errorf("startxref not found before %%EOF at %d", eofOffset)
 	}
+	// A short update leaves the previous startxref in the section too: the last one counts
+	match := matches[len(matches)-1]
 
 	startXRef, _ := strconv.ParseInt(match[1], 10, 64)
 	rev.StartXRef = startXRef
diff --git a/core/parse/incremental.go b/core/parse/incremental.go
index 43a2153..5a826ba 100644
--- a/core/parse/incremental.go
+++ b/core/parse/incremental.go
@@ -110,11 +110,13 @@ func (p *incrementalParser) findLastStartXRef() (int64, error) {
 
 	searchSection := pdfStr[searchStart:lastEOF]
 	startxrefPattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := startxrefPattern.FindStringSubmatch(searchSection)
+	matches := startxrefPattern.FindAllStringSubmatch(searchSection, -1)
 
-	if match == nil {
+	if len(matches) == 0 {
 		return 0, fmt.Errorf("startxref not found before %%EOF")
 	}
+	// A short update leaves the previous startxref in the section too: the last one counts
+	match := matches[len(matches)-1]
 
 	offset, err := strconv.ParseInt(match[1], 10, 64)
 	if err != nil {
-- 
2.43.0


From a5477566ff07480caa25dacef37eae5b7b1e5886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:12 +0000
Subject: [PATCH 17/35] fix: RevisionBytes returns nil for a revision without
 cross-reference data or with offsets outside the document

---
 core/parse/document.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/parse/document.go b/core/parse/document.go
index 636014b..d10a866 100644
--- a/core/parse/document.go
+++ b/core/parse/document.go
@@ -247,7 +247,7 @@ func (t *TrailerData) Bytes() []byte {
 // RevisionBytes returns the complete bytes for this revision
 // (all objects + xref + trailer + startxref + %%EOF)
 func (r *PDFRevision) RevisionBytes(doc *PDFDocument) []byte {
-	if doc == nil || len(doc.RawBytes) == 0 {
+	if doc == nil || len(doc.RawBytes) == 0 || r.XRef == nil {
 		return nil
 	}
 
@@ -270,7 +270,7 @@ func (r *PDFRevision) RevisionBytes(doc *PDFDocument) []byte {
 		}
 	}
 
-	if int(startOffset) >= len(doc.RawBytes) || int(endOffset) > len(doc.RawBytes) {
+	if startOffset < 0 || startOffset > endOffset || endOffset > int64(len(doc.RawBytes)) {
 		return nil
 	}
 
-- 
2.43.0


From ee945e56d78a4816dffb097bc483863e217c294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:12 +0000
Subject: [PATCH 18/35] fix: a cross-reference offset outside the file is an
 error and not a crash

---
 core/parse/document_parser.go | 4 ++++
 core/parse/parser.go          | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/core/parse/document_parser.go b/core/parse/document_parser.go
index e8adab9..2708bcf 100644
--- a/core/parse/document_parser.go
+++ b/core/parse/document_parser.go
@@ -332,6 +332,10 @@ func parseXRefStreamRaw(pdfBytes []byte, startXRef int64, xref *XRefData) (*XRef
 
 // ParseTrailerDataRaw parses trailer data preserving raw bytes
 func ParseTrailerDataRaw(pdfBytes []byte, startXRef int64, eofOffset int) (*TrailerData, error) {
+	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("invalid startxref offset: %d", startXRef)
+	}
+
 	section := pdfBytes[startXRef:]
 	sectionStr := string(section[:min(5000, len(section))])
 
diff --git a/core/parse/parser.go b/core/parse/parser.go
index 01296fe..63d7beb 100644
--- a/core/parse/parser.go
+++ b/core/parse/parser.go
@@ -180,6 +180,10 @@ func ParseCrossReferenceTableWithEncryption(pdfBytes []byte, startXRef int64, en
 func ParseTraditionalXRefTable(pdfBytes []byte, startXRef int64) (map[int]int64, error) {
 	objMap := make(map[int]int64)
 
+	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("invalid startxref offset: %d", startXRef)
+	}
+
 	// Read from startxref position
 	xrefSection := pdfBytes[startXRef:]
 	xrefStr := string(xrefSection[:min(10000, len(xrefSection))])
-- 
2.43.0


From 20fe0034ec8a133062fbee4852eced6ef3042f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:12 +0000
Subject: [PATCH 19/35] fix: a stream without endstream or with an overflowing
 /Length no longer crashes GetDirectObject

---
 core/parse/get_object.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/parse/get_object.go b/core/parse/get_object.go
index ea25ed8..20edec4 100644
--- a/core/parse/get_object.go
+++ b/core/parse/get_object.go
@@ -210,10 +210,9 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 		// This is a stream object
 		// Find "endstream" to get the full stream
 		endstreamPos := bytes.Index(content, []byte("endstream"))
-		if endstreamPos == -1 {
-			endstreamPos = len(content)
+		if endstreamPos != -1 {
+			content = content[:endstreamPos+len("endstream")]
 		}
-		content = content[:endstreamPos+len("endstream")]
 
 		// Decrypt stream data if needed
 		if encryptInfo != nil {
@@ -239,7 +238,7 @@ func GetDirectObject(pdfBytes []byte, objNum int, offset int64, encryptInfo *typ
 
 			// Use /Length if available, otherwise find endstream
 			var streamData []byte
-			if streamLength > 0 && streamDataStart+streamLength <= len(content) {
+			if streamLength > 0 && streamLength <= len(content)-streamDataStart {
 				streamData = content[streamDataStart : streamDataStart+streamLength]
 			} else {
 				streamDataEnd := bytes.Index(content[streamDataStart:], []byte("endstream"))
-- 
2.43.0


From fdd07a9e2681cfbd1d5c25665c33a84683d6e326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:12 +0000
Subject: [PATCH 20/35] fix: malformed xref streams (offset, /W, /Columns) are
 errors and not crashes

---
 core/parse/xref_stream.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/parse/xref_stream.go b/core/parse/xref_stream.go
index 7accd2b..283ef2a 100644
--- a/core/parse/xref_stream.go
+++ b/core/parse/xref_stream.go
@@ -24,6 +24,10 @@ func ParseXRefStream(pdfBytes []byte, startXRef int64) (map[int]int64, error) {
 func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo *types.PDFEncryption, verbose bool) (map[int]int64, error) {
 	objMap := make(map[int]int64)
 
+	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("invalid startxref offset: %d", startXRef)
+	}
+
 	// The xref stream object should be at startXRef
 	// Find object number - it should be at or near startXRef
 	xrefSection := pdfBytes[startXRef:]
@@ -38,7 +42,7 @@ func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo
 		if startXRef > 100 {
 			searchStart = startXRef - 100
 		}
-		searchSection := pdfBytes[searchStart : startXRef+500]
+		searchSection := pdfBytes[searchStart:min(startXRef+500, int64(len(pdfBytes)))]
 		searchStr := string(searchSection)
 		objMatch = objPattern.FindStringSubmatch(searchStr)
 		if objMatch == nil {
@@ -147,6 +151,9 @@ func ParseXRefStreamWithEncryption(pdfBytes []byte, startXRef int64, encryptInfo
 	// Parse decompressed stream data
 	// Each entry is w1+w2+w3 bytes
 	entrySize := w1 + w2 + w3
+	if w1 > len(decompressed) || w2 > len(decompressed) || w3 > len(decompressed) {
+		return nil, fmt.Errorf("invalid field widths: w1=%d, w2=%d, w3=%d", w1, w2, w3)
+	}
 	if entrySize == 0 {
 		return nil, fmt.Errorf("invalid entry size: w1=%d, w2=%d, w3=%d", w1, w2, w3)
 	}
-- 
2.43.0


From 0b92e9bdd59d28dd580dfdc0db0fb25ee3c90350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:12 +0000
Subject: [PATCH 21/35] fix: malformed object and xref streams (offset, /First,
 /Length, /W, /Columns, index) are errors and not crashes

---
 core/parse/object_stream.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/core/parse/object_stream.go b/core/parse/object_stream.go
index c619307..3219000 100644
--- a/core/parse/object_stream.go
+++ b/core/parse/object_stream.go
@@ -35,6 +35,10 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 		ObjectStreams: make(map[int]ObjectStreamEntry),
 	}
 
+	if startXRef < 0 || startXRef >= int64(len(pdfBytes)) {
+		return nil, fmt.Errorf("invalid startxref offset: %d", startXRef)
+	}
+
 	// The xref stream object should be at startXRef
 	xrefSection := pdfBytes[startXRef:]
 	xrefStr := xrefStreamDict(xrefSection)
@@ -47,7 +51,7 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 		if startXRef > 100 {
 			searchStart = startXRef - 100
 		}
-		searchSection := pdfBytes[searchStart : startXRef+500]
+		searchSection := pdfBytes[searchStart:min(startXRef+500, int64(len(pdfBytes)))]
 		searchStr := string(searchSection)
 		objMatch = objPattern.FindStringSubmatch(searchStr)
 		if objMatch == nil {
@@ -154,6 +158,10 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 			predictor, _ := strconv.Atoi(predictorMatch[1])
 			columns, _ := strconv.Atoi(columnsMatch[1])
 
+			if columns > len(decompressed) {
+				return nil, fmt.Errorf("invalid /Columns %d for %d bytes of xref stream", columns, len(decompressed))
+			}
+
 			if predictor >= 10 && predictor <= 15 {
 				// PNG predictor - apply filter
 				rowSize := columns + 1 // +1 for filter byte
@@ -199,6 +207,9 @@ func ParseXRefStreamFull(pdfBytes []byte, startXRef int64, verbose bool) (*XRefR
 
 	// Parse entries
 	entrySize := w1 + w2 + w3
+	if w1 > len(decompressed) || w2 > len(decompressed) || w3 > len(decompressed) {
+		return nil, fmt.Errorf("invalid field widths: w1=%d, w2=%d, w3=%d", w1, w2, w3)
+	}
 	if entrySize == 0 {
 		return nil, fmt.Errorf("invalid entry size")
 	}
@@ -320,7 +331,7 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	}
 
 	// Use /Length to get exact stream data
-	if streamDataStart+streamLength > len(objSection) {
+	if streamLength > len(objSection)-streamDataStart {
 		return nil, fmt.Errorf("stream length %d exceeds available data", streamLength)
 	}
 
@@ -385,6 +396,9 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	}
 	var entries []objEntry
 
+	if firstOffset > len(decompressed) {
+		return nil, fmt.Errorf("/First %d exceeds the object stream (%d bytes)", firstOffset, len(decompressed))
+	}
 	headerData := decompressed[:firstOffset]
 	headerStr := string(headerData)
 	fields := strings.Fields(headerStr)
@@ -395,7 +409,7 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 		entries = append(entries, objEntry{objNum: on, offset: off})
 	}
 
-	if indexInStream >= len(entries) {
+	if indexInStream < 0 || indexInStream >= len(entries) {
 		return nil, fmt.Errorf("index %d out of range (stream has %d objects)", indexInStream, len(entries))
 	}
 
@@ -404,9 +418,10 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 	if targetEntry.objNum != objNum {
 		// Try to find by object number instead
 		found := false
-		for _, e := range entries {
+		for i, e := range entries {
 			if e.objNum == objNum {
 				targetEntry = e
+				indexInStream = i
 				found = true
 				break
 			}
@@ -428,7 +443,7 @@ func GetObjectFromStream(pdfBytes []byte, objNum int, streamObjNum int, indexInS
 		objDataEnd = len(decompressed)
 	}
 
-	if objDataStart >= len(decompressed) || objDataEnd > len(decompressed) {
+	if objDataStart < 0 || objDataStart >= len(decompressed) || objDataEnd < objDataStart || objDataEnd > len(decompressed) {
 		return nil, fmt.Errorf("object data offset out of range")
 	}
 
-- 
2.43.0


From 40da0db1100f553a5ea21acf36381eed4b224fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:07 +0000
Subject: [PATCH 22/35] fix: streams added with one dictionary share their
 /Length and /Filter; a nil stream is not written as a stream

---
 core/write/writer.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/core/write/writer.go b/core/write/writer.go
index f97e0ac..90c96df 100644
--- a/core/write/writer.go
+++ b/core/write/writer.go
@@ -97,12 +97,26 @@ func (w *PDFWriter) AddObject(content []byte) int {
 	return objNum
 }
 
+// streamDict copies the dictionary of a stream, so that streams added with the same one do not share
+// its /Length and /Filter, and so that no key is written twice
+func streamDict(dict Dictionary) Dictionary {
+	own := make(Dictionary, len(dict)+2)
+	for key, value := range dict {
+		own[strings.TrimPrefix(key, "/")] = value
+	}
+	return own
+}
+
 // AddStreamObject adds a stream object with dictionary and data
 func (w *PDFWriter) AddStreamObject(dict Dictionary, data []byte, compress bool) int {
 	objNum := w.nextObjNum
 	w.nextObjNum++
 
+	dict = streamDict(dict)
 	streamData := data
+	if streamData == nil {
+		streamData = []byte{} // a stream without data is still a stream
+	}
 	if compress && len(data) > 0 {
 		var buf bytes.Buffer
 		zw := zlib.NewWriter(&buf)
@@ -138,7 +152,11 @@ func (w *PDFWriter) SetObject(objNum int, content []byte) {
 
 // SetStreamObject sets a stream object at a specific number
 func (w *PDFWriter) SetStreamObject(objNum int, dict Dictionary, data []byte, compress bool) {
+	dict = streamDict(dict)
 	streamData := data
+	if streamData == nil {
+		streamData = []byte{} // a stream without data is still a stream
+	}
 	if compress && len(data) > 0 {
 		var buf bytes.Buffer
 		zw := zlib.NewWriter(&buf)
-- 
2.43.0


From 9f1fc07d8ba7a6b8291e68a7dae3169ad3cb4f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:07 +0000
Subject: [PATCH 23/35] fix: object stream offsets are relative to /First, and
 a cross-reference stream has the trailer entries

---
 core/write/object_stream.go | 37 +++++++++++--------------------------
 core/write/xref_stream.go   | 15 ++++++++++++++-
 2 files changed, 25 insertions(+), 27 deletions(-)

diff --git a/core/write/object_stream.go b/core/write/object_stream.go
index e0bbd26..6fc9185 100644
--- a/core/write/object_stream.go
+++ b/core/write/object_stream.go
@@ -31,6 +31,10 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 		if obj.IsFree {
 			continue
 		}
+		// The encryption dictionary has to be readable before anything can be decrypted
+		if w.encryptRef == fmt.Sprintf("%d 0 R", objNum) {
+			continue
+		}
 		// Only compress non-stream objects (stream objects are already compressed)
 		if obj.Stream == nil && obj.Content != nil {
 			eligibleObjs = append(eligibleObjs, objNum)
@@ -72,8 +76,7 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 	currentOffset := 0
 	for i := range objInfos {
 		objInfos[i].offset = currentOffset
-		// Offset is relative to start of object data (after header)
-		// We'll add header length later
+		// Offset is relative to /First, the start of the object data
 		currentOffset += len(objInfos[i].data) + 1 // +1 for space separator
 	}
 
@@ -87,25 +90,7 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 
 	headerStr := strings.TrimSpace(headerBuilder.String())
 	headerBytes := []byte(headerStr)
-	firstOffset := len(headerBytes)
-
-	// Adjust offsets to be relative to start of data (after header + space)
-	dataStartOffset := firstOffset + 1 // +1 for space after header
-	for i := range objInfos {
-		objInfos[i].offset += dataStartOffset
-	}
-
-	// Rebuild header with corrected offsets
-	headerBuilder.Reset()
-	for _, info := range objInfos {
-		headerBuilder.WriteString(strconv.Itoa(info.objNum))
-		headerBuilder.WriteString(" ")
-		headerBuilder.WriteString(strconv.Itoa(info.offset))
-		headerBuilder.WriteString(" ")
-	}
-	headerStr = strings.TrimSpace(headerBuilder.String())
-	headerBytes = []byte(headerStr)
-	firstOffset = len(headerBytes)
+	firstOffset := len(headerBytes) + 1 // +1 for the space after the header
 
 	// Build data section
 	var dataBuilder bytes.Buffer
@@ -141,11 +126,11 @@ func (w *PDFWriter) createObjectStreams() (map[int]struct {
 
 	// Create object stream dictionary
 	objStreamDict := Dictionary{
-		"/Type":   "/ObjStm",
-		"/N":      len(eligibleObjs),
-		"/First":  firstOffset,
-		"/Filter": "/FlateDecode",
-		"/Length": len(compressedData),
+		"Type":   "/ObjStm",
+		"N":      len(eligibleObjs),
+		"First":  firstOffset,
+		"Filter": "/FlateDecode",
+		"Length": len(compressedData),
 	}
 
 	// Create object stream object
diff --git a/core/write/xref_stream.go b/core/write/xref_stream.go
index d482a2d..d688dd1 100644
--- a/core/write/xref_stream.go
+++ b/core/write/xref_stream.go
@@ -133,7 +133,7 @@ func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64,
 	compressedData := compressed.Bytes()
 
 	// Create xref stream dictionary
-	// Note: /Root, /Info, /Encrypt, /ID go in the trailer, not the stream dict
+	// It takes the place of the trailer dictionary, so it has that one's entries too
 	xrefStreamDict := Dictionary{
 		"/Type":   "/XRef",
 		"/Size":   totalObjects,
@@ -142,6 +142,19 @@ func (w *PDFWriter) writeXRefStream(buf *bytes.Buffer, positions map[int]int64,
 		"/Length": len(compressedData),
 	}
 
+	if w.rootRef != "" {
+		xrefStreamDict["/Root"] = w.rootRef
+	}
+	if w.infoRef != "" {
+		xrefStreamDict["/Info"] = w.infoRef
+	}
+	if w.encryptRef != "" {
+		xrefStreamDict["/Encrypt"] = w.encryptRef
+	}
+	if len(w.fileID) > 0 {
+		xrefStreamDict["/ID"] = []interface{}{w.fileID, w.fileID}
+	}
+
 	// Increment object counter
 	w.nextObjNum++
 
-- 
2.43.0


From bf7c7a3ec5c9bd6b1dd7e155cb590dfbb60ebb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:07 +0000
Subject: [PATCH 24/35] fix: texts are written as literal strings whatever they
 look like, once escaped, byte by byte

---
 core/write/bookmarks.go |  4 ++--
 core/write/content.go   |  6 +++---
 core/write/metadata.go  | 24 ++++++++++++++++--------
 3 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/core/write/bookmarks.go b/core/write/bookmarks.go
index 12b3067..0bf9ad6 100644
--- a/core/write/bookmarks.go
+++ b/core/write/bookmarks.go
@@ -69,7 +69,7 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 			actionDict := Dictionary{
 				"/Type": "/Action",
 				"/S":    "/URI",
-				"/URI":  fmt.Sprintf("(%s)", escapePDFString(bookmark.URI)),
+				"/URI":  literalString(bookmark.URI),
 			}
 			actionObjNum := w.AddObject(w.formatDictionary(actionDict))
 			actionRef = fmt.Sprintf("%d 0 R", actionObjNum)
@@ -93,7 +93,7 @@ func (w *PDFWriter) createOutlineItems(bookmarks []types.Bookmark, pageObjNums m
 
 		// Build outline item dictionary
 		itemDict := Dictionary{
-			"/Title": fmt.Sprintf("(%s)", escapePDFString(bookmark.Title)),
+			"/Title": literalString(bookmark.Title),
 		}
 
 		if dest != "" {
diff --git a/core/write/content.go b/core/write/content.go
index 7c7d829..d4c42f9 100644
--- a/core/write/content.go
+++ b/core/write/content.go
@@ -324,8 +324,8 @@ func (cs *ContentStream) Raw(data string) *ContentStream {
 // escapePDFString escapes special characters in a PDF string
 func escapePDFString(s string) string {
 	var result bytes.Buffer
-	for _, c := range s {
-		switch c {
+	for i := 0; i < len(s); i++ { // byte by byte: a string need not be UTF-8
+		switch c := s[i]; c {
 		case '(':
 			result.WriteString("\\(")
 		case ')':
@@ -339,7 +339,7 @@ func escapePDFString(s string) string {
 		case '\t':
 			result.WriteString("\\t")
 		default:
-			result.WriteRune(c)
+			result.WriteByte(c)
 		}
 	}
 	return result.String()
diff --git a/core/write/metadata.go b/core/write/metadata.go
index 5d40597..4237b79 100644
--- a/core/write/metadata.go
+++ b/core/write/metadata.go
@@ -19,22 +19,22 @@ func (w *PDFWriter) SetMetadata(metadata *types.DocumentMetadata) int {
 	dict := Dictionary{}
 
 	if metadata.Title != "" {
-		dict["/Title"] = escapePDFStringForMetadata(metadata.Title)
+		dict["/Title"] = literalString(metadata.Title)
 	}
 	if metadata.Author != "" {
-		dict["/Author"] = escapePDFStringForMetadata(metadata.Author)
+		dict["/Author"] = literalString(metadata.Author)
 	}
 	if metadata.Subject != "" {
-		dict["/Subject"] = escapePDFStringForMetadata(metadata.Subject)
+		dict["/Subject"] = literalString(metadata.Subject)
 	}
 	if metadata.Keywords != "" {
-		dict["/Keywords"] = escapePDFStringForMetadata(metadata.Keywords)
+		dict["/Keywords"] = literalString(metadata.Keywords)
 	}
 	if metadata.Creator != "" {
-		dict["/Creator"] = escapePDFStringForMetadata(metadata.Creator)
+		dict["/Creator"] = literalString(metadata.Creator)
 	}
 	if metadata.Producer != "" {
-		dict["/Producer"] = escapePDFStringForMetadata(metadata.Producer)
+		dict["/Producer"] = literalString(metadata.Producer)
 	}
 	if metadata.CreationDate != "" {
 		dict["/CreationDate"] = formatPDFDate(metadata.CreationDate)
@@ -55,7 +55,7 @@ func (w *PDFWriter) SetMetadata(metadata *types.DocumentMetadata) int {
 			if !strings.HasPrefix(key, "/") {
 				key = "/" + key
 			}
-			dict[key] = escapePDFStringForMetadata(value)
+			dict[key] = literalString(value)
 		}
 	}
 
@@ -100,6 +100,14 @@ func (w *PDFWriter) SetMetadataFields(fields map[string]string) int {
 	return w.SetMetadata(metadata)
 }
 
+// pdfSyntax is a dictionary value that formatValue writes as it is
+type pdfSyntax string
+
+// literalString is s as a literal string, whatever it looks like
+func literalString(s string) pdfSyntax {
+	return pdfSyntax("(" + escapePDFStringForMetadata(s) + ")")
+}
+
 // escapePDFStringForMetadata escapes a string for use in PDF metadata (returns content without parentheses)
 func escapePDFStringForMetadata(s string) string {
 	// PDF strings use parentheses and need escaping
@@ -167,7 +175,7 @@ func formatPDFDate(dateStr string) string {
 
 	// Format timezone
 	var tzStr string
-	if offsetHours >= 0 {
+	if offset >= 0 {
 		tzStr = fmt.Sprintf("+%02d'%02d", offsetHours, offsetMins)
 	} else {
 		tzStr = fmt.Sprintf("-%02d'%02d", -offsetHours, -offsetMins)
-- 
2.43.0


From 81118a8dc8343a96865e3d87a19733e22bacb925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:07 +0000
Subject: [PATCH 25/35] fix: metadata strings with escapes and parentheses are
 read as what they stand for

---
 content/extract/metadata.go | 68 +++++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 17 deletions(-)

diff --git a/content/extract/metadata.go b/content/extract/metadata.go
index c9fea03..8e62652 100644
--- a/content/extract/metadata.go
+++ b/content/extract/metadata.go
@@ -54,18 +54,22 @@ func parseObjectRef(ref string) (int, error) {
 	return objNum, nil
 }
 
+// literalString matches what stands between the parentheses of a literal string: escapes, and parentheses
+// that are balanced
+const literalString = `((?:\\(?s:.)|[^\\()]|\((?:\\(?s:.)|[^\\()])*\))*)`
+
 // parseInfoDict parses a PDF Info dictionary
 func parseInfoDict(infoStr string, metadata *types.DocumentMetadata, verbose bool) {
 	// Extract common fields
 	patterns := map[string]*regexp.Regexp{
-		"title":         regexp.MustCompile(`/Title\s*\(([^)]*)\)`),
-		"author":        regexp.MustCompile(`/Author\s*\(([^)]*)\)`),
-		"subject":       regexp.MustCompile(`/Subject\s*\(([^)]*)\)`),
-		"keywords":      regexp.MustCompile(`/Keywords\s*\(([^)]*)\)`),
-		"creator":       regexp.MustCompile(`/Creator\s*\(([^)]*)\)`),
-		"producer":      regexp.MustCompile(`/Producer\s*\(([^)]*)\)`),
-		"creation_date": regexp.MustCompile(`/CreationDate\s*\(([^)]*)\)`),
-		"mod_date":      regexp.MustCompile(`/ModDate\s*\(([^)]*)\)`),
+		"title":         regexp.MustCompile(`/Title\s*\(` + literalString + `\)`),
+		"author":        regexp.MustCompile(`/Author\s*\(` + literalString + `\)`),
+		"subject":       regexp.MustCompile(`/Subject\s*\(` + literalString + `\)`),
+		"keywords":      regexp.MustCompile(`/Keywords\s*\(` + literalString + `\)`),
+		"creator":       regexp.MustCompile(`/Creator\s*\(` + literalString + `\)`),
+		"producer":      regexp.MustCompile(`/Producer\s*\(` + literalString + `\)`),
+		"creation_date": regexp.MustCompile(`/CreationDate\s*\(` + literalString + `\)`),
+		"mod_date":      regexp.MustCompile(`/ModDate\s*\(` + literalString + `\)`),
 	}
 
 	fieldMap := map[string]*string{
@@ -91,7 +95,7 @@ func parseInfoDict(infoStr string, metadata *types.DocumentMetadata, verbose boo
 
 	// Extract custom fields (any field that's not a standard field)
 	// Pattern: /FieldName (value)
-	customPattern := regexp.MustCompile(`/([A-Za-z0-9_]+)\s*\(([^)]*)\)`)
+	customPattern := regexp.MustCompile(`/([A-Za-z0-9_]+)\s*\(` + literalString + `\)`)
 	standardFields := map[string]bool{
 		"Title":        true,
 		"Author":       true,
@@ -128,14 +132,44 @@ func extractMetadataFromBytes(pdfBytes []byte, metadata *types.DocumentMetadata,
 
 // unescapePDFString unescapes a PDF string literal
 func unescapePDFString(s string) string {
-	// Handle basic PDF string escaping
-	s = strings.ReplaceAll(s, "\\n", "\n")
-	s = strings.ReplaceAll(s, "\\r", "\r")
-	s = strings.ReplaceAll(s, "\\t", "\t")
-	s = strings.ReplaceAll(s, "\\(", "(")
-	s = strings.ReplaceAll(s, "\\)", ")")
-	s = strings.ReplaceAll(s, "\\\\", "\\")
-	return s
+	var out strings.Builder
+	for i := 0; i < len(s); i++ {
+		if s[i] != '\\' {
+			out.WriteByte(s[i])
+			continue
+		}
+		i++
+		if i == len(s) {
+			break
+		}
+		switch c := s[i]; c {
+		case 'n':
+			out.WriteByte('\n')
+		case 'r':
+			out.WriteByte('\r')
+		case 't':
+			out.WriteByte('\t')
+		case 'b':
+			out.WriteByte('\b')
+		case 'f':
+			out.WriteByte('\f')
+		case '\n': // the string continues on the next line
+		case '\r':
+			if i+1 < len(s) && s[i+1] == '\n' {
+				i++
+			}
+		case '0', '1', '2', '3', '4', '5', '6', '7':
+			v := int(c - '0')
+			for k := 0; k < 2 && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '7'; k++ {
+				i++
+				v = v*8 + int(s[i]-'0')
+			}
+			out.WriteByte(byte(v))
+		default:
+			out.WriteByte(c)
+		}
+	}
+	return out.String()
 }
 
 // parsePDFDate parses a PDF date string (D:YYYYMMDDHHmmSSOHH'mm)
-- 
2.43.0


From ecdafe695997cc1dedf0c402e8f162070fd0f6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:07 +0000
Subject: [PATCH 26/35] fix: bookmark titles, URIs and shown text with spaces,
 brackets and parentheses are read whole; bookmark cycles end

---
 content/extract/bookmarks.go      | 37 +++++++++++++++++++++----------
 content/extract/content_stream.go |  6 ++---
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/content/extract/bookmarks.go b/content/extract/bookmarks.go
index ade6f82..498134b 100644
--- a/content/extract/bookmarks.go
+++ b/content/extract/bookmarks.go
@@ -1,6 +1,9 @@
 package extract
 
 import (
+	"fmt"
+	"regexp"
+
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -46,7 +49,7 @@ func ExtractBookmarks(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Bo
 	}
 
 	// Extract bookmarks recursively
-	bookmarks, err := extractBookmarksRecursive(pdf, firstRef, verbose)
+	bookmarks, err := extractBookmarksRecursive(pdf, firstRef, map[int]bool{}, verbose)
 	if err != nil {
 		return []types.Bookmark{}, nil
 	}
@@ -54,14 +57,29 @@ func ExtractBookmarks(pdfBytes []byte, pdf *parse.PDF, verbose bool) ([]types.Bo
 	return bookmarks, nil
 }
 
+var anyLiteralString = regexp.MustCompile(`\(` + literalString + `\)`)
+
+// extractLiteralString is the text of the literal string that a dictionary has under key
+func extractLiteralString(dictStr, key string) string {
+	match := regexp.MustCompile(regexp.QuoteMeta(key) + `\s*\(` + literalString + `\)`).FindStringSubmatch(dictStr)
+	if match == nil {
+		return ""
+	}
+	return unescapePDFString(match[1])
+}
+
 // extractBookmarksRecursive recursively extracts bookmarks from the outline tree
-func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, verbose bool) ([]types.Bookmark, error) {
+func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, visited map[int]bool, verbose bool) ([]types.Bookmark, error) {
 	var bookmarks []types.Bookmark
 
 	itemObjNum, err := parseObjectRef(itemRef)
 	if err != nil {
 		return bookmarks, err
 	}
+	if visited[itemObjNum] {
+		return bookmarks, fmt.Errorf("bookmark %d occurs twice", itemObjNum)
+	}
+	visited[itemObjNum] = true
 
 	itemObj, err := pdf.GetObject(itemObjNum)
 	if err != nil {
@@ -71,10 +89,8 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, verbose bool) ([]
 	itemStr := string(itemObj)
 
 	// Extract title
-	title := extractDictValue(itemStr, "/Title")
-	if title != "" {
-		title = unescapePDFString(title)
-	}
+	title := extractLiteralString(itemStr, "/Title")
+	itemStr = anyLiteralString.ReplaceAllString(itemStr, "()") // what a text contains is no entry
 
 	// Extract destination or action
 	dest := extractDictValue(itemStr, "/Dest")
@@ -87,10 +103,7 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, verbose bool) ([]
 			if err == nil {
 				actionObj, err := pdf.GetObject(actionObjNum)
 				if err == nil {
-					uri = extractDictValue(string(actionObj), "/URI")
-					if uri != "" {
-						uri = unescapePDFString(uri)
-					}
+					uri = extractLiteralString(string(actionObj), "/URI")
 				}
 			}
 		}
@@ -106,7 +119,7 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, verbose bool) ([]
 	// Extract children (First/Next chain)
 	firstRef := extractDictValue(itemStr, "/First")
 	if firstRef != "" {
-		children, err := extractBookmarksRecursive(pdf, firstRef, verbose)
+		children, err := extractBookmarksRecursive(pdf, firstRef, visited, verbose)
 		if err == nil {
 			bookmark.Children = children
 		}
@@ -117,7 +130,7 @@ func extractBookmarksRecursive(pdf *parse.PDF, itemRef string, verbose bool) ([]
 	// Get next sibling
 	nextRef := extractDictValue(itemStr, "/Next")
 	if nextRef != "" {
-		siblings, err := extractBookmarksRecursive(pdf, nextRef, verbose)
+		siblings, err := extractBookmarksRecursive(pdf, nextRef, visited, verbose)
 		if err == nil {
 			bookmarks = append(bookmarks, siblings...)
 		}
diff --git a/content/extract/content_stream.go b/content/extract/content_stream.go
index f3d7817..c6eda47 100644
--- a/content/extract/content_stream.go
+++ b/content/extract/content_stream.go
@@ -127,7 +127,7 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 		}
 
 		// Show text (Tj operator) - literal string or hex string
-		if match := regexp.MustCompile(`^\(([^)]*)\)\s+Tj`).FindStringSubmatch(line); match != nil {
+		if match := regexp.MustCompile(`^\(` + literalString + `\)\s+Tj`).FindStringSubmatch(line); match != nil {
 			// Literal string
 			rawText := unescapePDFString(match[1])
 			text := decodeTextWithFont(rawText, textState.decoder, false)
@@ -144,7 +144,7 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 		}
 
 		// Show text next line (') - literal string or hex string
-		if match := regexp.MustCompile(`^\(([^)]*)\)\s+'`).FindStringSubmatch(line); match != nil {
+		if match := regexp.MustCompile(`^\(` + literalString + `\)\s+'`).FindStringSubmatch(line); match != nil {
 			rawText := unescapePDFString(match[1])
 			text := decodeTextWithFont(rawText, textState.decoder, false)
 			textElement := createTextElement(text, textState)
@@ -162,7 +162,7 @@ func parseContentStreamWithDecoders(contentStr string, pdf *parse.PDF, pageNum i
 		}
 
 		// Show text array (TJ operator)
-		if match := regexp.MustCompile(`^\[([^\]]+)\]\s+TJ`).FindStringSubmatch(line); match != nil {
+		if match := regexp.MustCompile(`^\[((?:\(` + literalString + `\)|[^\]()])+)\]\s+TJ`).FindStringSubmatch(line); match != nil {
 			text := parseTextArrayWithDecoder(match[1], textState.decoder)
 			textElement := createTextElement(text, textState)
 			textElements = append(textElements, textElement)
-- 
2.43.0


From b2c94c050091142f9c946cfd2e0b0dfde5015158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:05 +0000
Subject: [PATCH 27/35] fix: malformed name and cmap tables are errors and not
 crashes or endless loops; glyph widths come from hmtx for every glyph

---
 resources/font/font.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/resources/font/font.go b/resources/font/font.go
index 29d0dae..f9b75b3 100644
--- a/resources/font/font.go
+++ b/resources/font/font.go
@@ -108,7 +108,7 @@ func ParseTTF(data []byte) (*TTF, error) {
 			Checksum: checksum,
 			Offset:   tableOffset,
 			Length:   length,
-			Data:     data[tableOffset : tableOffset+length],
+			Data:     data[int(tableOffset) : int(tableOffset)+int(length)],
 		}
 
 		offset += 16
@@ -205,7 +205,8 @@ func (ttf *TTF) parseName() error {
 
 		// We're interested in Unicode names (platform 3 or 0)
 		if (platformID == 3 || platformID == 0) && int(stringOffset)+int(startOffset)+int(length) <= len(name.Data) {
-			nameData := name.Data[stringOffset+startOffset : stringOffset+startOffset+length]
+			start := int(stringOffset) + int(startOffset)
+			nameData := name.Data[start : start+int(length)]
 
 			var nameStr string
 			if platformID == 3 {
@@ -404,6 +405,9 @@ func parseCmap(data []byte) (map[rune]uint16, error) {
 	}
 
 	// Parse the subtable
+	if int64(bestOffset) > int64(len(data)) {
+		return nil, fmt.Errorf("cmap subtable at %d extends beyond the table", bestOffset)
+	}
 	subtableData := data[bestOffset:]
 	if len(subtableData) < 2 {
 		return nil, fmt.Errorf("cmap subtable too short")
@@ -445,6 +449,10 @@ func parseCmapFormat4(data []byte, glyphMap map[rune]uint16) (map[rune]uint16, e
 	idDeltaOffset := startCodeOffset + int(segCount)*2
 	idRangeOffsetOffset := idDeltaOffset + int(segCount)*2
 
+	if idRangeOffsetOffset+int(segCount)*2 > len(data) {
+		return nil, fmt.Errorf("cmap format 4 segments extend beyond the table")
+	}
+
 	for i := 0; i < int(segCount); i++ {
 		startCode := binary.BigEndian.Uint16(data[startCodeOffset+i*2 : startCodeOffset+i*2+2])
 		endCode := binary.BigEndian.Uint16(data[endCodeOffset+i*2 : endCodeOffset+i*2+2])
@@ -502,6 +510,9 @@ func parseCmapFormat12(data []byte, glyphMap map[rune]uint16) (map[rune]uint16,
 		endCharCode := binary.BigEndian.Uint32(data[offset+4 : offset+8])
 		startGlyphID := binary.BigEndian.Uint32(data[offset+8 : offset+12])
 
+		if endCharCode > unicode.MaxRune {
+			endCharCode = unicode.MaxRune
+		}
 		for code := startCharCode; code <= endCharCode; code++ {
 			glyphID := uint16(startGlyphID + (code - startCharCode))
 			glyphMap[rune(code)] = glyphID
@@ -540,10 +551,17 @@ func (f *Font) GetWidths() ([]int, error) {
 		return nil, fmt.Errorf("missing hmtx table")
 	}
 
+	// Glyphs from numberOfHMetrics on have the advance width of the last metric
+	lastMetric := int(binary.BigEndian.Uint16(ttf.Tables["hhea"].Data[34:36])) - 1
+
 	widths := make([]int, len(glyphs))
 	for i, gid := range glyphs {
-		if int(gid)*4+2 <= len(hmtx.Data) {
-			widths[i] = int(binary.BigEndian.Uint16(hmtx.Data[gid*4 : gid*4+2]))
+		metric := int(gid)
+		if metric > lastMetric {
+			metric = lastMetric
+		}
+		if metric >= 0 && metric*4+2 <= len(hmtx.Data) {
+			widths[i] = int(binary.BigEndian.Uint16(hmtx.Data[metric*4 : metric*4+2]))
 		} else {
 			widths[i] = int(ttf.UnitsPerEm) // Default width
 		}
-- 
2.43.0


From 3de8079d21e0f9330d0420f787fbc118f8cdaa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:10 +0000
Subject: [PATCH 28/35] fix: page operations see the objects as changed so far,
 change whole entries of the outermost dictionary only, write no object header
 twice and end on cyclic page trees

---
 core/manipulate/deletion.go   |  17 ++-
 core/manipulate/insertion.go  |   2 +-
 core/manipulate/manipulate.go | 265 +++++++++++++++++++++-------------
 core/manipulate/rotation.go   |  17 ++-
 4 files changed, 191 insertions(+), 110 deletions(-)

diff --git a/core/manipulate/deletion.go b/core/manipulate/deletion.go
index b807e63..b559fa7 100644
--- a/core/manipulate/deletion.go
+++ b/core/manipulate/deletion.go
@@ -128,7 +128,7 @@ func (m *PDFManipulator) findParentPagesObject(pageObjNum int) (int, error) {
 		return 0, fmt.Errorf("failed to parse root reference: %w", err)
 	}
 
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
+	catalogObj, err := m.getObject(rootObjNum)
 	if err != nil {
 		return 0, fmt.Errorf("failed to get catalog: %w", err)
 	}
@@ -145,12 +145,17 @@ func (m *PDFManipulator) findParentPagesObject(pageObjNum int) (int, error) {
 	}
 
 	// Recursively search for the parent
-	return m.findParentPagesObjectRecursive(pagesObjNum, pageObjNum)
+	return m.findParentPagesObjectRecursive(pagesObjNum, pageObjNum, map[int]bool{})
 }
 
 // findParentPagesObjectRecursive recursively searches for the parent Pages object
-func (m *PDFManipulator) findParentPagesObjectRecursive(pagesObjNum, targetPageObjNum int) (int, error) {
-	pagesObj, err := m.pdf.GetObject(pagesObjNum)
+func (m *PDFManipulator) findParentPagesObjectRecursive(pagesObjNum, targetPageObjNum int, visited map[int]bool) (int, error) {
+	if visited[pagesObjNum] {
+		return 0, fmt.Errorf("Pages object %d contains itself", pagesObjNum)
+	}
+	visited[pagesObjNum] = true
+
+	pagesObj, err := m.getObject(pagesObjNum)
 	if err != nil {
 		return 0, err
 	}
@@ -183,7 +188,7 @@ func (m *PDFManipulator) findParentPagesObjectRecursive(pagesObjNum, targetPageO
 		}
 
 		// Check if this kid is a /Pages node - recurse
-		kidObj, err := m.pdf.GetObject(kidObjNum)
+		kidObj, err := m.getObject(kidObjNum)
 		if err != nil {
 			continue
 		}
@@ -191,7 +196,7 @@ func (m *PDFManipulator) findParentPagesObjectRecursive(pagesObjNum, targetPageO
 		kidType := extractDictValue(kidStr, "/Type")
 		if kidType == "/Pages" {
 			// Recurse into this Pages node
-			parent, err := m.findParentPagesObjectRecursive(kidObjNum, targetPageObjNum)
+			parent, err := m.findParentPagesObjectRecursive(kidObjNum, targetPageObjNum, visited)
 			if err == nil {
 				return parent, nil
 			}
diff --git a/core/manipulate/insertion.go b/core/manipulate/insertion.go
index df62efc..d5bf6b1 100644
--- a/core/manipulate/insertion.go
+++ b/core/manipulate/insertion.go
@@ -97,7 +97,7 @@ func (m *PDFManipulator) findParentPagesObjectForInsertion() (int, error) {
 		return 0, fmt.Errorf("failed to parse root reference: %w", err)
 	}
 
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
+	catalogObj, err := m.getObject(rootObjNum)
 	if err != nil {
 		return 0, fmt.Errorf("failed to get catalog: %w", err)
 	}
diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index e84543f..2576f86 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -2,7 +2,6 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 
@@ -42,7 +41,7 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 			}
 			continue
 		}
-		objects[objNum] = obj
+		objects[objNum] = objectBody(obj)
 	}
 
 	return &PDFManipulator{
@@ -54,6 +53,27 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 	}, nil
 }
 
+// objectBody returns what stands between the "n g obj" and "endobj" of an object, if it has them
+func objectBody(obj []byte) []byte {
+	body := string(obj)
+	if i := skipInteger(body, skipSpace(body, 0)); i != -1 {
+		if i = skipInteger(body, i); i != -1 && strings.HasPrefix(body[i:], "obj") {
+			body = strings.TrimSpace(body[i+len("obj"):])
+			body = strings.TrimSpace(strings.TrimSuffix(body, "endobj"))
+		}
+	}
+	return []byte(body)
+}
+
+// getObject returns an object as it is now, with the changes made so far
+func (m *PDFManipulator) getObject(objNum int) ([]byte, error) {
+	obj, ok := m.objects[objNum]
+	if !ok {
+		return nil, fmt.Errorf("object %d not found", objNum)
+	}
+	return obj, nil
+}
+
 // Rebuild rebuilds the PDF with modified objects and returns the new PDF bytes
 func (m *PDFManipulator) Rebuild() ([]byte, error) {
 	return m.rebuildPDF()
@@ -113,125 +133,176 @@ func parseObjectRef(ref string) (int, error) {
 	return objNum, nil
 }
 
-// extractDictValue extracts a value from a PDF dictionary string
-func extractDictValue(dictStr, key string) string {
-	keyIdx := strings.Index(dictStr, key)
-	if keyIdx == -1 {
-		return ""
-	}
+// isSpace reports whether a byte is PDF white space
+func isSpace(c byte) bool {
+	return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == 0
+}
+
+// isRegular reports whether a byte is neither white space nor a delimiter
+func isRegular(c byte) bool {
+	return !isSpace(c) && strings.IndexByte("()<>[]{}/%", c) < 0
+}
 
-	// Check if the value after the key starts with '[' (array)
-	valueStart := keyIdx + len(key)
-	// Skip whitespace
-	for valueStart < len(dictStr) && (dictStr[valueStart] == ' ' || dictStr[valueStart] == '\t' || dictStr[valueStart] == '\n' || dictStr[valueStart] == '\r') {
-		valueStart++
+// skipSpace returns the position of the first byte at or after i that is neither white space nor in a comment
+func skipSpace(s string, i int) int {
+	for i < len(s) && (isSpace(s[i]) || s[i] == '%') {
+		if s[i] == '%' {
+			for i < len(s) && s[i] != '\n' && s[i] != '\r' {
+				i++
+			}
+		} else {
+			i++
+		}
 	}
+	return i
+}
 
-	if valueStart < len(dictStr) && dictStr[valueStart] == '[' {
-		// Array value - find matching closing bracket
-		arrayStart := valueStart
+// skipToken returns the position after the token that starts at i: a string, a name, a number or keyword,
+// or a single delimiter ("<<" and ">>" count as one)
+func skipToken(s string, i int) int {
+	switch c := s[i]; {
+	case c == '(':
 		depth := 0
-		arrayEnd := arrayStart
-		for i := arrayStart; i < len(dictStr); i++ {
-			if dictStr[i] == '[' {
+		for ; i < len(s); i++ {
+			if s[i] == '\\' {
+				i++
+			} else if s[i] == '(' {
 				depth++
-			} else if dictStr[i] == ']' {
+			} else if s[i] == ')' {
 				depth--
 				if depth == 0 {
-					arrayEnd = i + 1
-					break
+					return i + 1
 				}
 			}
 		}
-		if arrayEnd > arrayStart {
-			return dictStr[arrayStart:arrayEnd]
+		return len(s)
+	case c == '<' && i+1 < len(s) && s[i+1] == '<', c == '>' && i+1 < len(s) && s[i+1] == '>':
+		return i + 2
+	case c == '<':
+		for i < len(s) && s[i] != '>' {
+			i++
+		}
+		return min(i+1, len(s))
+	case c == '/' || isRegular(c):
+		i++
+		for i < len(s) && isRegular(s[i]) {
+			i++
 		}
+		return i
 	}
+	return i + 1
+}
 
-	// Try to match simple value with space (e.g., "/Pages 2 0 R")
-	pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
-	match := pattern.FindStringSubmatch(dictStr)
-	if len(match) > 1 {
-		return match[1]
+// skipInteger returns the position after the unsigned integer and the white space after it that start at i,
+// or -1 if there is none
+func skipInteger(s string, i int) int {
+	start := i
+	for i < len(s) && '0' <= s[i] && s[i] <= '9' {
+		i++
 	}
-
-	// Try to match value without space (e.g., "/Subtype/Type1")
-	noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
-	noSpaceMatch := noSpacePattern.FindStringSubmatch(dictStr)
-	if len(noSpaceMatch) > 1 {
-		return "/" + noSpaceMatch[1]
+	end := i
+	for i < len(s) && isSpace(s[i]) {
+		i++
+	}
+	if end == start || i == end {
+		return -1
 	}
+	return i
+}
 
-	return ""
+// skipReference returns the position after the object reference that starts at i, or -1 if there is none
+func skipReference(s string, i int) int {
+	if i = skipInteger(s, i); i == -1 {
+		return -1
+	}
+	if i = skipInteger(s, i); i == -1 || i >= len(s) || s[i] != 'R' {
+		return -1
+	}
+	if i+1 < len(s) && isRegular(s[i+1]) {
+		return -1
+	}
+	return i + 1
 }
 
-// setDictValue sets or updates a value in a PDF dictionary string
-func setDictValue(dictStr, key, value string) string {
-	// Check if key already exists
-	existingValue := extractDictValue(dictStr, key)
-	if existingValue != "" {
-		// Replace existing value
-		// Try to match and replace with space (e.g., "/Count 3" -> "/Count 2")
-		// Use word boundary or whitespace to ensure we match the full value
-		pattern := regexp.MustCompile(regexp.QuoteMeta(key) + `\s+([^\s<>]+)`)
-		if pattern.MatchString(dictStr) {
-			replaced := pattern.ReplaceAllString(dictStr, key+" "+value)
-			// Verify the replacement worked
-			newValue := extractDictValue(replaced, key)
-			if newValue == value {
-				return replaced
+// skipValue returns the position after the value that starts at i
+func skipValue(s string, i int) int {
+	if i >= len(s) {
+		return len(s)
+	}
+	if end := skipReference(s, i); end != -1 {
+		return end
+	}
+	depth := 0
+	for i < len(s) {
+		start := i
+		i = skipToken(s, i)
+		switch s[start] {
+		case '<':
+			if i == start+2 && s[start+1] == '<' {
+				depth++
 			}
+		case '[':
+			depth++
+		case '>', ']':
+			depth--
 		}
-		// Try without space
-		noSpacePattern := regexp.MustCompile(regexp.QuoteMeta(key) + `/([^/\s<>]+)`)
-		if noSpacePattern.MatchString(dictStr) {
-			return noSpacePattern.ReplaceAllString(dictStr, key+"/"+strings.TrimPrefix(value, "/"))
+		if depth <= 0 {
+			return i
 		}
-		// Try array value - need to handle brackets properly
-		keyIdx := strings.Index(dictStr, key)
-		if keyIdx != -1 {
-			valueStart := keyIdx + len(key)
-			// Skip whitespace
-			for valueStart < len(dictStr) && (dictStr[valueStart] == ' ' || dictStr[valueStart] == '\t' || dictStr[valueStart] == '\n' || dictStr[valueStart] == '\r') {
-				valueStart++
-			}
-			if valueStart < len(dictStr) && dictStr[valueStart] == '[' {
-				// Find matching closing bracket
-				arrayStart := valueStart
-				depth := 0
-				arrayEnd := arrayStart
-				for i := arrayStart; i < len(dictStr); i++ {
-					if dictStr[i] == '[' {
-						depth++
-					} else if dictStr[i] == ']' {
-						depth--
-						if depth == 0 {
-							arrayEnd = i + 1
-							break
-						}
-					}
-				}
-				if arrayEnd > arrayStart {
-					// Replace the array - preserve original spacing (no space after key if original had none)
-					// Check if there was a space after the key in the original
-					originalValueStart := keyIdx + len(key)
-					hadSpace := originalValueStart < len(dictStr) && (dictStr[originalValueStart] == ' ' || dictStr[originalValueStart] == '\t' || dictStr[originalValueStart] == '\n' || dictStr[originalValueStart] == '\r')
-					if hadSpace {
-						return dictStr[:keyIdx] + key + " " + value + " " + dictStr[arrayEnd:]
-					} else {
-						// No space in original, don't add one
-						return dictStr[:keyIdx] + key + value + " " + dictStr[arrayEnd:]
-					}
-				}
-			}
+		i = skipSpace(s, i)
+	}
+	return len(s)
+}
+
+// findDictValue finds the value of a key of the outermost dictionary in dictStr.
+// If there is none, end is where the dictionary ends, or -1 if there is no dictionary.
+func findDictValue(dictStr, key string) (start, end int, ok bool) {
+	i := strings.Index(dictStr, "<<")
+	if i == -1 {
+		return -1, -1, false
+	}
+	i = skipSpace(dictStr, i+2)
+	for i < len(dictStr) {
+		if dictStr[i] == '>' {
+			return -1, i, false
 		}
+		keyStart := i
+		i = skipToken(dictStr, i)
+		keyEnd := i
+		i = skipSpace(dictStr, i)
+		if dictStr[keyStart] != '/' || i < len(dictStr) && dictStr[i] == '>' {
+			continue
+		}
+		valueStart := i
+		i = skipValue(dictStr, i)
+		if dictStr[keyStart:keyEnd] == key {
+			return valueStart, i, true
+		}
+		i = skipSpace(dictStr, i)
+	}
+	return -1, -1, false
+}
+
+// extractDictValue extracts a value of the outermost dictionary from a PDF dictionary string
+func extractDictValue(dictStr, key string) string {
+	start, end, ok := findDictValue(dictStr, key)
+	if !ok {
+		return ""
 	}
+	return dictStr[start:end]
+}
 
-	// Add new key-value pair before closing >>
-	lastIdx := strings.LastIndex(dictStr, ">>")
-	if lastIdx == -1 {
+// setDictValue sets or updates a value of the outermost dictionary in a PDF dictionary string
+func setDictValue(dictStr, key, value string) string {
+	start, end, ok := findDictValue(dictStr, key)
+	if end == -1 {
 		return dictStr
 	}
-	// Insert before the closing >>, but preserve any existing spacing
-	return dictStr[:lastIdx] + key + " " + value + " " + dictStr[lastIdx:]
+	if !ok {
+		return dictStr[:end] + key + " " + value + " " + dictStr[end:]
+	}
+	if isRegular(dictStr[start-1]) && value != "" && isRegular(value[0]) {
+		value = " " + value
+	}
+	return dictStr[:start] + value + " " + dictStr[end:]
 }
diff --git a/core/manipulate/rotation.go b/core/manipulate/rotation.go
index c411a5e..9e2c32e 100644
--- a/core/manipulate/rotation.go
+++ b/core/manipulate/rotation.go
@@ -100,7 +100,7 @@ func (m *PDFManipulator) getAllPageObjectNumbers() ([]int, error) {
 		return nil, fmt.Errorf("failed to parse root reference: %w", err)
 	}
 
-	catalogObj, err := m.pdf.GetObject(rootObjNum)
+	catalogObj, err := m.getObject(rootObjNum)
 	if err != nil {
 		return nil, fmt.Errorf("failed to get catalog: %w", err)
 	}
@@ -116,14 +116,15 @@ func (m *PDFManipulator) getAllPageObjectNumbers() ([]int, error) {
 		return nil, fmt.Errorf("failed to parse Pages reference: %w", err)
 	}
 
-	return m.extractPageObjectNumbers(pagesObjNum)
+	return m.extractPageObjectNumbers(pagesObjNum, map[int]bool{})
 }
 
-// extractPageObjectNumbers recursively extracts page object numbers from the pages tree
-func (m *PDFManipulator) extractPageObjectNumbers(pagesObjNum int) ([]int, error) {
+// extractPageObjectNumbers recursively extracts page object numbers from the pages tree.
+// visited holds the Pages nodes seen so far: a tree that contains itself has no further pages.
+func (m *PDFManipulator) extractPageObjectNumbers(pagesObjNum int, visited map[int]bool) ([]int, error) {
 	var pageObjNums []int
 
-	pagesObj, err := m.pdf.GetObject(pagesObjNum)
+	pagesObj, err := m.getObject(pagesObjNum)
 	if err != nil {
 		return nil, err
 	}
@@ -139,6 +140,10 @@ func (m *PDFManipulator) extractPageObjectNumbers(pagesObjNum int) ([]int, error
 	}
 
 	// This is a /Pages node - get Kids and recurse
+	if visited[pagesObjNum] {
+		return nil, nil
+	}
+	visited[pagesObjNum] = true
 	kidsStr := extractDictValue(pagesStr, "/Kids")
 	if kidsStr == "" {
 		return pageObjNums, nil
@@ -152,7 +157,7 @@ func (m *PDFManipulator) extractPageObjectNumbers(pagesObjNum int) ([]int, error
 			continue
 		}
 		// Recurse
-		childPages, err := m.extractPageObjectNumbers(kidObjNum)
+		childPages, err := m.extractPageObjectNumbers(kidObjNum, visited)
 		if err != nil {
 			continue
 		}
-- 
2.43.0


From 6cda8a2aa03edddb03eb4f3c16caf0351cb500a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:56 +0000
Subject: [PATCH 29/35] fix: deleting and inserting pages keeps /Count right in
 the whole page tree, deletes exactly the pages named and inserts at the place
 named

---
 core/manipulate/deletion.go  | 109 +++++++++++++++++------------------
 core/manipulate/insertion.go |  45 ++++++++-------
 2 files changed, 77 insertions(+), 77 deletions(-)

diff --git a/core/manipulate/deletion.go b/core/manipulate/deletion.go
index b559fa7..b59d12d 100644
--- a/core/manipulate/deletion.go
+++ b/core/manipulate/deletion.go
@@ -2,7 +2,6 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 )
 
@@ -42,16 +41,12 @@ func (m *PDFManipulator) DeletePage(pageNumber int) error {
 		return fmt.Errorf("Kids array is empty or could not be parsed: %s", kidsStr)
 	}
 
-	newKidsRefs := make([]string, 0, len(kidsRefs)-1)
-
-	// Match page reference by object number (ignore whitespace)
-	pageRefPattern := fmt.Sprintf(`%d\s+\d+\s+R`, pageObjNum)
-	pageRefRegex := regexp.MustCompile(pageRefPattern)
+	newKidsRefs := make([]string, 0, len(kidsRefs))
 
 	found := false
 	for _, kidRef := range kidsRefs {
 		// Check if this reference matches the page we want to delete
-		if pageRefRegex.MatchString(kidRef) {
+		if kidObjNum, err := parseObjectRef(kidRef); err == nil && kidObjNum == pageObjNum && !found {
 			found = true
 			// Skip this reference (don't add to newKidsRefs)
 		} else {
@@ -74,26 +69,17 @@ func (m *PDFManipulator) DeletePage(pageNumber int) error {
 	}
 	newKidsStr += " ]"
 
-	// Update /Kids and /Count in parent Pages object
-	updatedPagesStr := setDictValue(parentPagesStr, "/Kids", newKidsStr)
-	newCount := len(newKidsRefs)
-	if newCount < 1 {
+	pageObjNums, err := m.getAllPageObjectNumbers()
+	if err != nil {
+		return fmt.Errorf("failed to get page objects: %w", err)
+	}
+	if len(pageObjNums) <= 1 {
 		return fmt.Errorf("cannot delete page: would result in 0 pages")
 	}
 
-	// Update Count using direct regex replacement to ensure it works
-	countPattern := regexp.MustCompile(`/Count\s+\d+`)
-	updatedPagesStr = countPattern.ReplaceAllString(updatedPagesStr, fmt.Sprintf("/Count %d", newCount))
-
-	m.objects[parentPagesObjNum] = []byte(updatedPagesStr)
-
-	// Also need to update /Count in all ancestor Pages objects
-	err = m.updatePageCounts(parentPagesObjNum, -1)
-	if err != nil {
-		if m.verbose {
-			fmt.Printf("Warning: failed to update page counts: %v\n", err)
-		}
-	}
+	// Update /Kids in parent Pages object, and /Count there and in its ancestors
+	m.objects[parentPagesObjNum] = []byte(setDictValue(parentPagesStr, "/Kids", newKidsStr))
+	m.updatePageCounts(parentPagesObjNum, -1)
 
 	if m.verbose {
 		fmt.Printf("Deleted page %d (object %d)\n", pageNumber, pageObjNum)
@@ -103,13 +89,31 @@ func (m *PDFManipulator) DeletePage(pageNumber int) error {
 }
 
 // DeletePages deletes multiple pages from the PDF
-// pageNumbers is 1-based and should be sorted in descending order to avoid index shifts
+// pageNumbers is 1-based, in any order; it refers to the pages as they are before the call.
+// If one of them does not exist or no page would be left, nothing is deleted.
 func (m *PDFManipulator) DeletePages(pageNumbers []int) error {
-	// Sort in descending order to avoid index shifts
-	// (delete from end to beginning)
-	for i := len(pageNumbers) - 1; i >= 0; i-- {
-		if err := m.DeletePage(pageNumbers[i]); err != nil {
-			return fmt.Errorf("failed to delete page %d: %w", pageNumbers[i], err)
+	pageObjNums, err := m.getAllPageObjectNumbers()
+	if err != nil {
+		return fmt.Errorf("failed to get page objects: %w", err)
+	}
+	doomed := make(map[int]bool)
+	for _, pageNumber := range pageNumbers {
+		if pageNumber < 1 || pageNumber > len(pageObjNums) {
+			return fmt.Errorf("page number %d out of range (1-%d)", pageNumber, len(pageObjNums))
+		}
+		doomed[pageNumber] = true
+	}
+	if len(doomed) == len(pageObjNums) {
+		return fmt.Errorf("cannot delete pages: would result in 0 pages")
+	}
+
+	// Delete from end to beginning to avoid index shifts
+	for pageNumber := len(pageObjNums); pageNumber >= 1; pageNumber-- {
+		if !doomed[pageNumber] {
+			continue
+		}
+		if err := m.DeletePage(pageNumber); err != nil {
+			return fmt.Errorf("failed to delete page %d: %w", pageNumber, err)
 		}
 	}
 	return nil
@@ -207,35 +211,28 @@ func (m *PDFManipulator) findParentPagesObjectRecursive(pagesObjNum, targetPageO
 }
 
 // updatePageCounts updates the /Count field in the given Pages object and all ancestors
-func (m *PDFManipulator) updatePageCounts(pagesObjNum int, delta int) error {
-	// Update this Pages object's count
-	pagesObj, ok := m.objects[pagesObjNum]
-	if !ok {
-		return fmt.Errorf("Pages object %d not found", pagesObjNum)
-	}
-
-	pagesStr := string(pagesObj)
-	countStr := extractDictValue(pagesStr, "/Count")
-	currentCount := 0
-	if countStr != "" {
-		var err error
-		currentCount, err = strconv.Atoi(countStr)
+func (m *PDFManipulator) updatePageCounts(pagesObjNum int, delta int) {
+	visited := make(map[int]bool)
+	for !visited[pagesObjNum] {
+		visited[pagesObjNum] = true
+		pagesObj, ok := m.objects[pagesObjNum]
+		if !ok {
+			return
+		}
+		pagesStr := string(pagesObj)
+		currentCount, err := strconv.Atoi(extractDictValue(pagesStr, "/Count"))
 		if err != nil {
 			currentCount = 0
 		}
-	}
+		newCount := currentCount + delta
+		if newCount < 0 {
+			newCount = 0
+		}
+		m.objects[pagesObjNum] = []byte(setDictValue(pagesStr, "/Count", fmt.Sprintf("%d", newCount)))
 
-	newCount := currentCount + delta
-	if newCount < 0 {
-		newCount = 0
+		pagesObjNum, err = parseObjectRef(extractDictValue(pagesStr, "/Parent"))
+		if err != nil {
+			return
+		}
 	}
-
-	updatedPagesStr := setDictValue(pagesStr, "/Count", fmt.Sprintf("%d", newCount))
-	m.objects[pagesObjNum] = []byte(updatedPagesStr)
-
-	// Note: Updating parent Pages objects' /Count would require
-	// finding the parent of this Pages object in the tree.
-	// For now, we only update the immediate Pages object.
-	// This is sufficient for most cases where pages are direct children.
-	return nil
 }
diff --git a/core/manipulate/insertion.go b/core/manipulate/insertion.go
index d5bf6b1..51d8b59 100644
--- a/core/manipulate/insertion.go
+++ b/core/manipulate/insertion.go
@@ -2,7 +2,6 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
 )
 
 // InsertPage inserts a page at a specific position
@@ -20,8 +19,15 @@ func (m *PDFManipulator) InsertPage(pageNumber int, pageObjNum int, pageContent
 		return fmt.Errorf("page number %d out of range (0-%d)", pageNumber, len(pageObjNums)+1)
 	}
 
-	// Find the parent Pages object
-	parentPagesObjNum, err := m.findParentPagesObjectForInsertion()
+	// Find the Pages object that gets the new page: the one of the page it is put in front of, or the root
+	nextPageObjNum := 0
+	var parentPagesObjNum int
+	if pageNumber == 0 || pageNumber > len(pageObjNums) {
+		parentPagesObjNum, err = m.findParentPagesObjectForInsertion()
+	} else {
+		nextPageObjNum = pageObjNums[pageNumber-1]
+		parentPagesObjNum, err = m.findParentPagesObject(nextPageObjNum)
+	}
 	if err != nil {
 		return fmt.Errorf("failed to find parent Pages object: %w", err)
 	}
@@ -43,18 +49,18 @@ func (m *PDFManipulator) InsertPage(pageNumber int, pageObjNum int, pageContent
 	// Parse kids array
 	kidsRefs := parseObjectRefArray(kidsStr)
 
-	// Insert the new page reference at the specified position
+	// Insert the new page reference in front of the next page, or at the end
 	newKidsRefs := make([]string, 0, len(kidsRefs)+1)
-	if pageNumber == 0 || pageNumber > len(kidsRefs) {
-		// Insert at end
-		newKidsRefs = append(newKidsRefs, kidsRefs...)
-		newKidsRefs = append(newKidsRefs, fmt.Sprintf("%d 0 R", pageObjNum))
-	} else {
-		// Insert at specific position (1-based, convert to 0-based)
-		insertIdx := pageNumber - 1
-		newKidsRefs = append(newKidsRefs, kidsRefs[:insertIdx]...)
+	inserted := false
+	for _, kidRef := range kidsRefs {
+		if kidObjNum, err := parseObjectRef(kidRef); err == nil && kidObjNum == nextPageObjNum && !inserted {
+			newKidsRefs = append(newKidsRefs, fmt.Sprintf("%d 0 R", pageObjNum))
+			inserted = true
+		}
+		newKidsRefs = append(newKidsRefs, kidRef)
+	}
+	if !inserted {
 		newKidsRefs = append(newKidsRefs, fmt.Sprintf("%d 0 R", pageObjNum))
-		newKidsRefs = append(newKidsRefs, kidsRefs[insertIdx:]...)
 	}
 
 	// Rebuild Kids array string
@@ -68,15 +74,12 @@ func (m *PDFManipulator) InsertPage(pageNumber int, pageObjNum int, pageContent
 	newKidsStr += " ]"
 
 	// Add the page object to our objects map
-	m.objects[pageObjNum] = pageContent
-
-	// Update /Kids and /Count in parent Pages object
-	updatedPagesStr := setDictValue(parentPagesStr, "/Kids", newKidsStr)
-	newCount := len(newKidsRefs)
-	countPattern := regexp.MustCompile(`/Count\s+\d+`)
-	updatedPagesStr = countPattern.ReplaceAllString(updatedPagesStr, fmt.Sprintf("/Count %d", newCount))
+	pageStr := setDictValue(string(objectBody(pageContent)), "/Parent", fmt.Sprintf("%d 0 R", parentPagesObjNum))
+	m.objects[pageObjNum] = []byte(pageStr)
 
-	m.objects[parentPagesObjNum] = []byte(updatedPagesStr)
+	// Update /Kids in parent Pages object, and /Count there and in its ancestors
+	m.objects[parentPagesObjNum] = []byte(setDictValue(parentPagesStr, "/Kids", newKidsStr))
+	m.updatePageCounts(parentPagesObjNum, 1)
 
 	if m.verbose {
 		fmt.Printf("Inserted page (object %d) at position %d\n", pageObjNum, pageNumber)
-- 
2.43.0


From 79fcd2e2d4dc3e80f0b256ca4575623f61296c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:57 +0000
Subject: [PATCH 30/35] fix: rotating a page adds to the rotation it inherits

---
 core/manipulate/rotation.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/core/manipulate/rotation.go b/core/manipulate/rotation.go
index 9e2c32e..7eae41d 100644
--- a/core/manipulate/rotation.go
+++ b/core/manipulate/rotation.go
@@ -29,7 +29,7 @@ func (m *PDFManipulator) RotatePage(pageNumber int, angle int) error {
 	pageStr := string(pageObj)
 
 	// Get current rotation
-	currentRotStr := extractDictValue(pageStr, "/Rotate")
+	currentRotStr := m.inheritedValue(pageObjNum, "/Rotate")
 	currentRot := 0
 	if currentRotStr != "" {
 		var parseErr error
@@ -56,6 +56,24 @@ func (m *PDFManipulator) RotatePage(pageNumber int, angle int) error {
 	return nil
 }
 
+// inheritedValue gets an entry of a page, or of the nearest Pages object above it that has the entry
+func (m *PDFManipulator) inheritedValue(pageObjNum int, key string) string {
+	visited := make(map[int]bool)
+	for !visited[pageObjNum] {
+		visited[pageObjNum] = true
+		pageStr := string(m.objects[pageObjNum])
+		if value := extractDictValue(pageStr, key); value != "" {
+			return value
+		}
+		parentObjNum, err := parseObjectRef(extractDictValue(pageStr, "/Parent"))
+		if err != nil {
+			break
+		}
+		pageObjNum = parentObjNum
+	}
+	return ""
+}
+
 // RotateAllPages rotates all pages by the given angle
 func (m *PDFManipulator) RotateAllPages(angle int) error {
 	// Get all page object numbers
-- 
2.43.0


From 8ed06b42af8d55df42282d8aa82969d9da2cae5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:13 +0000
Subject: [PATCH 31/35] fix: extracted, split and merged pages are copied with
 all they refer to and the attributes they inherit, in page order

---
 core/manipulate/copying.go    | 144 +++++++++++++++++++++++++++++
 core/manipulate/extraction.go |  47 ++--------
 core/manipulate/merging.go    | 166 +++-------------------------------
 3 files changed, 164 insertions(+), 193 deletions(-)
 create mode 100644 core/manipulate/copying.go

diff --git a/core/manipulate/copying.go b/core/manipulate/copying.go
new file mode 100644
index 0000000..939ef31
--- /dev/null
+++ b/core/manipulate/copying.go
@@ -0,0 +1,144 @@
+package manipulate
+
+import (
+	"fmt"
+	"strconv"
+	"strings"
+
+	"github.com/benedoc-inc/pdfer/core/write"
+)
+
+// inheritableKeys are the page attributes that a page may have from a Pages object above it
+var inheritableKeys = []string{"/Resources", "/MediaBox", "/CropBox", "/Rotate"}
+
+// mapReferences replaces the object number of each reference in an object by what renumber gives for it;
+// a reference for which it gives 0 becomes null. Strings and stream data are left as they are.
+func mapReferences(obj string, renumber func(objNum int) int) string {
+	var out strings.Builder
+	depth := 0
+	for i := 0; i < len(obj); {
+		start := i
+		if end := skipReference(obj, i); end != -1 {
+			objNum, err := parseObjectRef(obj[i:end])
+			if err != nil {
+				objNum = 0
+			}
+			if newObjNum := renumber(objNum); newObjNum != 0 {
+				out.WriteString(strconv.Itoa(newObjNum) + " 0 R")
+			} else {
+				out.WriteString("null")
+			}
+			i = end
+		} else if i = skipSpace(obj, i); i == start {
+			i = skipToken(obj, i)
+			switch obj[start:i] {
+			case "<<", "[":
+				depth++
+			case ">>", "]":
+				depth--
+			case "stream":
+				if depth <= 0 {
+					i = len(obj) // what follows is data
+				}
+			}
+			out.WriteString(obj[start:i])
+		} else {
+			out.WriteString(obj[start:i])
+		}
+	}
+	return out.String()
+}
+
+// pageCopier copies pages of one document, with all that they refer to, into a new one
+type pageCopier struct {
+	m         *PDFManipulator
+	writer    *write.PDFWriter
+	newNums   map[int]int  // the number each copied object has in the new document
+	pageTree  map[int]bool // the pages and Pages objects, which are not copied as what something refers to
+	parentNum int          // the Pages object of the new document
+	pending   []int
+}
+
+// newPageCopier creates a copier from m's document
+func newPageCopier(m *PDFManipulator, writer *write.PDFWriter, parentNum int) (*pageCopier, error) {
+	pageTree := make(map[int]bool)
+	pages, err := m.getAllPageObjectNumbers()
+	if err != nil {
+		return nil, err
+	}
+	for _, objNum := range pages {
+		for !pageTree[objNum] {
+			pageTree[objNum] = true
+			if parent, err := parseObjectRef(extractDictValue(string(m.objects[objNum]), "/Parent")); err == nil {
+				objNum = parent
+			}
+		}
+	}
+	return &pageCopier{m: m, writer: writer, newNums: make(map[int]int), pageTree: pageTree, parentNum: parentNum}, nil
+}
+
+// reserve gives the new number of an object, 0 if it is not to be copied
+func (c *pageCopier) reserve(objNum int) int {
+	if newNum, ok := c.newNums[objNum]; ok {
+		return newNum
+	}
+	if _, ok := c.m.objects[objNum]; !ok || c.pageTree[objNum] {
+		return 0
+	}
+	newNum := c.writer.AddObject([]byte("null"))
+	c.newNums[objNum] = newNum
+	c.pending = append(c.pending, objNum)
+	return newNum
+}
+
+// copyPages copies pages and returns their numbers in the new document
+func (c *pageCopier) copyPages(pageObjNums []int) ([]int, error) {
+	newPageNums := make([]int, 0, len(pageObjNums))
+	for _, pageObjNum := range pageObjNums {
+		if _, ok := c.m.objects[pageObjNum]; !ok {
+			return nil, fmt.Errorf("page object %d not found", pageObjNum)
+		}
+		newNum := c.writer.AddObject([]byte("null"))
+		newPageNums = append(newPageNums, newNum)
+		if _, ok := c.newNums[pageObjNum]; !ok {
+			c.newNums[pageObjNum] = newNum // references to the page are to its first copy
+		}
+	}
+	for i, pageObjNum := range pageObjNums {
+		pageStr := string(c.m.objects[pageObjNum])
+		for _, key := range inheritableKeys {
+			if extractDictValue(pageStr, key) == "" {
+				if value := c.m.inheritedValue(pageObjNum, key); value != "" {
+					pageStr = setDictValue(pageStr, key, value)
+				}
+			}
+		}
+		pageStr = mapReferences(setDictValue(pageStr, "/Parent", "null"), c.reserve)
+		pageStr = setDictValue(pageStr, "/Parent", fmt.Sprintf("%d 0 R", c.parentNum))
+		c.writer.SetObject(newPageNums[i], []byte(pageStr))
+	}
+	for len(c.pending) > 0 {
+		objNum := c.pending[0]
+		c.pending = c.pending[1:]
+		c.writer.SetObject(c.newNums[objNum], []byte(mapReferences(string(c.m.objects[objNum]), c.reserve)))
+	}
+	return newPageNums, nil
+}
+
+// finishPages writes the Pages object and the catalog of a new document
+func finishPages(writer *write.PDFWriter, pagesObjNum int, pageObjNums []int) {
+	kids := "["
+	for i, pageNum := range pageObjNums {
+		if i > 0 {
+			kids += " "
+		}
+		kids += fmt.Sprintf("%d 0 R ", pageNum)
+	}
+	kids += "]"
+
+	pagesDict := fmt.Sprintf("<</Type/Pages/Kids%s/Count %d>>", kids, len(pageObjNums))
+	writer.SetObject(pagesObjNum, []byte(pagesDict))
+
+	catalogObjNum := writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", pagesObjNum)))
+	writer.SetRoot(catalogObjNum)
+}
diff --git a/core/manipulate/extraction.go b/core/manipulate/extraction.go
index 9e73024..14d5e94 100644
--- a/core/manipulate/extraction.go
+++ b/core/manipulate/extraction.go
@@ -35,48 +35,19 @@ func ExtractPages(pdfBytes []byte, pageNumbers []int, password []byte, verbose b
 	// Create a new PDF with only the extracted pages
 	writer := write.NewPDFWriter()
 	pagesObjNum := writer.AddObject([]byte("")) // Placeholder, will update later
+	copier, err := newPageCopier(manipulator, writer, pagesObjNum)
+	if err != nil {
+		return nil, fmt.Errorf("failed to get page objects: %w", err)
+	}
 	pageObjNums := make([]int, 0, len(pageNumbers))
-
-	// Copy page objects and their dependencies
 	for _, pageNum := range pageNumbers {
-		pageObjNum := allPageObjNums[pageNum-1]
-
-		// Get page object
-		pageObj, ok := manipulator.objects[pageObjNum]
-		if !ok {
-			return nil, fmt.Errorf("page object %d not found", pageObjNum)
-		}
-
-		// Copy page object to new PDF
-		writer.SetObject(pageObjNum, pageObj)
-		pageObjNums = append(pageObjNums, pageObjNum)
-
-		// Update page's Parent reference to point to new Pages object
-		pageStr := string(pageObj)
-		updatedPageStr := setDictValue(pageStr, "/Parent", fmt.Sprintf("%d 0 R", pagesObjNum))
-		writer.SetObject(pageObjNum, []byte(updatedPageStr))
-
-		// TODO: Copy page dependencies (content streams, resources, fonts, images, etc.)
-		// For now, we'll copy the page object as-is and hope dependencies are included
+		pageObjNums = append(pageObjNums, allPageObjNums[pageNum-1])
 	}
-
-	// Build Kids array
-	kids := "["
-	for i, pageNum := range pageObjNums {
-		if i > 0 {
-			kids += " "
-		}
-		kids += fmt.Sprintf("%d 0 R ", pageNum)
+	newPageNums, err := copier.copyPages(pageObjNums)
+	if err != nil {
+		return nil, err
 	}
-	kids += "]"
-
-	// Create Pages object
-	pagesDict := fmt.Sprintf("<</Type/Pages/Kids%s/Count %d>>", kids, len(pageObjNums))
-	writer.SetObject(pagesObjNum, []byte(pagesDict))
-
-	// Create Catalog
-	catalogObjNum := writer.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", pagesObjNum)))
-	writer.SetRoot(catalogObjNum)
+	finishPages(writer, pagesObjNum, newPageNums)
 
 	return writer.Bytes()
 }
diff --git a/core/manipulate/merging.go b/core/manipulate/merging.go
index b1fc310..5c02a64 100644
--- a/core/manipulate/merging.go
+++ b/core/manipulate/merging.go
@@ -2,9 +2,7 @@ package manipulate
 
 import (
 	"fmt"
-	"regexp"
 
-	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
 
@@ -16,178 +14,36 @@ func MergePDFs(pdfBytesList [][]byte, passwords [][]byte, verbose bool) ([]byte,
 	}
 
 	writer := write.NewPDFWriter()
+	pagesObjNum := writer.AddObject([]byte("")) // Placeholder, will update later
 	var allPageObjNums []int
-	nextObjNum := 1
 
-	// Process each PDF
+	// Copy the pages of each PDF with all that they refer to
 	for pdfIdx, pdfBytes := range pdfBytesList {
 		var password []byte
 		if pdfIdx < len(passwords) {
 			password = passwords[pdfIdx]
 		}
 
-		pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
-			Password: password,
-			Verbose:  verbose,
-		})
+		manipulator, err := NewPDFManipulator(pdfBytes, password, verbose)
 		if err != nil {
 			return nil, fmt.Errorf("failed to parse PDF %d: %w", pdfIdx+1, err)
 		}
-
-		// Get all page object numbers from this PDF
-		pageObjNums, err := getAllPageObjectNumbersFromPDF(pdf)
+		pageObjNums, err := manipulator.getAllPageObjectNumbers()
 		if err != nil {
 			return nil, fmt.Errorf("failed to get pages from PDF %d: %w", pdfIdx+1, err)
 		}
-
-		// Copy all objects from this PDF to the merged PDF
-		// Need to remap object numbers to avoid conflicts
-		objNumMap := make(map[int]int) // old objNum -> new objNum
-
-		for _, objNum := range pdf.Objects() {
-			obj, err := pdf.GetObject(objNum)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: failed to get object %d from PDF %d: %v\n", objNum, pdfIdx+1, err)
-				}
-				continue
-			}
-
-			newObjNum := nextObjNum
-			nextObjNum++
-			objNumMap[objNum] = newObjNum
-
-			// Update object references in the content
-			updatedObj := updateObjectReferences(obj, objNumMap, pdfIdx == 0)
-
-			writer.SetObject(newObjNum, updatedObj)
-
-			// If this is a page object, add it to our pages list
-			for _, pageObjNum := range pageObjNums {
-				if objNum == pageObjNum {
-					allPageObjNums = append(allPageObjNums, newObjNum)
-					break
-				}
-			}
-		}
-	}
-
-	// Create Pages object with all pages
-	pagesObjNum := nextObjNum
-	nextObjNum++
-
-	kids := "["
-	for i, pageNum := range allPageObjNums {
-		if i > 0 {
-			kids += " "
-		}
-		kids += fmt.Sprintf("%d 0 R ", pageNum)
-	}
-	kids += "]"
-
-	pagesDict := fmt.Sprintf("<</Type/Pages/Kids%s/Count %d>>", kids, len(allPageObjNums))
-	writer.SetObject(pagesObjNum, []byte(pagesDict))
-
-	// Create Catalog
-	catalogObjNum := nextObjNum
-	catalogDict := fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", pagesObjNum)
-	writer.SetObject(catalogObjNum, []byte(catalogDict))
-	writer.SetRoot(catalogObjNum)
-
-	return writer.Bytes()
-}
-
-// getAllPageObjectNumbersFromPDF gets all page object numbers from a parsed PDF
-func getAllPageObjectNumbersFromPDF(pdf *parse.PDF) ([]int, error) {
-	trailer := pdf.Trailer()
-	if trailer == nil || trailer.RootRef == "" {
-		return nil, fmt.Errorf("no root reference found")
-	}
-
-	rootObjNum, err := parseObjectRef(trailer.RootRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse root reference: %w", err)
-	}
-
-	catalogObj, err := pdf.GetObject(rootObjNum)
-	if err != nil {
-		return nil, fmt.Errorf("failed to get catalog: %w", err)
-	}
-
-	catalogStr := string(catalogObj)
-	pagesRef := extractDictValue(catalogStr, "/Pages")
-	if pagesRef == "" {
-		return nil, fmt.Errorf("no /Pages reference in catalog")
-	}
-
-	pagesObjNum, err := parseObjectRef(pagesRef)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse Pages reference: %w", err)
-	}
-
-	return extractPageObjectNumbersFromPDF(pdf, pagesObjNum)
-}
-
-// extractPageObjectNumbersFromPDF recursively extracts page object numbers
-func extractPageObjectNumbersFromPDF(pdf *parse.PDF, pagesObjNum int) ([]int, error) {
-	var pageObjNums []int
-
-	pagesObj, err := pdf.GetObject(pagesObjNum)
-	if err != nil {
-		return nil, err
-	}
-
-	pagesStr := string(pagesObj)
-	pageType := extractDictValue(pagesStr, "/Type")
-	if pageType == "/Page" {
-		pageObjNums = append(pageObjNums, pagesObjNum)
-		return pageObjNums, nil
-	}
-
-	kidsStr := extractDictValue(pagesStr, "/Kids")
-	if kidsStr == "" {
-		return pageObjNums, nil
-	}
-
-	kidsRefs := parseObjectRefArray(kidsStr)
-	for _, kidRef := range kidsRefs {
-		kidObjNum, err := parseObjectRef(kidRef)
+		copier, err := newPageCopier(manipulator, writer, pagesObjNum)
 		if err != nil {
-			continue
+			return nil, fmt.Errorf("failed to get pages from PDF %d: %w", pdfIdx+1, err)
 		}
-		childPages, err := extractPageObjectNumbersFromPDF(pdf, kidObjNum)
+		newPageNums, err := copier.copyPages(pageObjNums)
 		if err != nil {
-			continue
+			return nil, fmt.Errorf("failed to copy pages from PDF %d: %w", pdfIdx+1, err)
 		}
-		pageObjNums = append(pageObjNums, childPages...)
+		allPageObjNums = append(allPageObjNums, newPageNums...)
 	}
 
-	return pageObjNums, nil
-}
-
-// updateObjectReferences updates object references in a PDF object string
-// objNumMap maps old object numbers to new object numbers
-func updateObjectReferences(obj []byte, objNumMap map[int]int, isFirstPDF bool) []byte {
-	objStr := string(obj)
-
-	// Find all object references (pattern: "5 0 R")
-	refPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+R`)
+	finishPages(writer, pagesObjNum, allPageObjNums)
 
-	updatedStr := refPattern.ReplaceAllStringFunc(objStr, func(match string) string {
-		// Extract object number
-		var objNum, genNum int
-		fmt.Sscanf(match, "%d %d R", &objNum, &genNum)
-
-		// Check if we need to remap this reference
-		if newObjNum, ok := objNumMap[objNum]; ok {
-			return fmt.Sprintf("%d 0 R", newObjNum)
-		}
-
-		// For first PDF, keep original references (they're already in the map)
-		// For subsequent PDFs, references to objects not in the map should be updated
-		// For now, return as-is (this is a simplified version)
-		return match
-	})
-
-	return []byte(updatedStr)
+	return writer.Bytes()
 }
-- 
2.43.0


From a24838d67334ba17a482359be96937460b4bebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:14 +0000
Subject: [PATCH 32/35] fix: splitting by a page count near the largest int
 gives one document and not an error

---
 core/manipulate/splitting.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/manipulate/splitting.go b/core/manipulate/splitting.go
index dea34ef..62beb9d 100644
--- a/core/manipulate/splitting.go
+++ b/core/manipulate/splitting.go
@@ -87,6 +87,10 @@ func SplitPDFByPageCount(pdfBytes []byte, pagesPerPDF int, password []byte, verb
 		return nil, fmt.Errorf("PDF has no pages")
 	}
 
+	if pagesPerPDF > totalPages {
+		pagesPerPDF = totalPages
+	}
+
 	// Create ranges
 	var ranges []PageRange
 	for start := 1; start <= totalPages; start += pagesPerPDF {
-- 
2.43.0


From 3931354e0cd8f6fe7c6c1404d9a3060c8a11271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:19 +0000
Subject: [PATCH 33/35] fix: names and literal strings inside dictionaries are
 read one way, in core/parse, for the forms package to find entries as well

---
 core/manipulate/copying.go    |   7 +-
 core/manipulate/insertion.go  |   4 +-
 core/manipulate/manipulate.go | 182 +-------------------------------
 core/parse/dictionary.go      | 189 ++++++++++++++++++++++++++++++++++
 4 files changed, 199 insertions(+), 183 deletions(-)
 create mode 100644 core/parse/dictionary.go

diff --git a/core/manipulate/copying.go b/core/manipulate/copying.go
index 939ef31..a6a9f66 100644
--- a/core/manipulate/copying.go
+++ b/core/manipulate/copying.go
@@ -5,6 +5,7 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/core/write"
 )
 
@@ -18,7 +19,7 @@ func mapReferences(obj string, renumber func(objNum int) int) string {
 	depth := 0
 	for i := 0; i < len(obj); {
 		start := i
-		if end := skipReference(obj, i); end != -1 {
+		if end := parse.SkipReference(obj, i); end != -1 {
 			objNum, err := parseObjectRef(obj[i:end])
 			if err != nil {
 				objNum = 0
@@ -29,8 +30,8 @@ func mapReferences(obj string, renumber func(objNum int) int) string {
 				out.WriteString("null")
 			}
 			i = end
-		} else if i = skipSpace(obj, i); i == start {
-			i = skipToken(obj, i)
+		} else if i = parse.SkipSpace(obj, i); i == start {
+			i = parse.SkipToken(obj, i)
 			switch obj[start:i] {
 			case "<<", "[":
 				depth++
diff --git a/core/manipulate/insertion.go b/core/manipulate/insertion.go
index 51d8b59..44ee771 100644
--- a/core/manipulate/insertion.go
+++ b/core/manipulate/insertion.go
@@ -2,6 +2,8 @@ package manipulate
 
 import (
 	"fmt"
+
+	"github.com/benedoc-inc/pdfer/core/parse"
 )
 
 // InsertPage inserts a page at a specific position
@@ -74,7 +76,7 @@ func (m *PDFManipulator) InsertPage(pageNumber int, pageObjNum int, pageContent
 	newKidsStr += " ]"
 
 	// Add the page object to our objects map
-	pageStr := setDictValue(string(objectBody(pageContent)), "/Parent", fmt.Sprintf("%d 0 R", parentPagesObjNum))
+	pageStr := setDictValue(string(parse.ObjectBody(pageContent)), "/Parent", fmt.Sprintf("%d 0 R", parentPagesObjNum))
 	m.objects[pageObjNum] = []byte(pageStr)
 
 	// Update /Kids in parent Pages object, and /Count there and in its ancestors
diff --git a/core/manipulate/manipulate.go b/core/manipulate/manipulate.go
index 2576f86..3baf5af 100644
--- a/core/manipulate/manipulate.go
+++ b/core/manipulate/manipulate.go
@@ -41,7 +41,7 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 			}
 			continue
 		}
-		objects[objNum] = objectBody(obj)
+		objects[objNum] = parse.ObjectBody(obj)
 	}
 
 	return &PDFManipulator{
@@ -53,18 +53,6 @@ func NewPDFManipulator(pdfBytes []byte, password []byte, verbose bool) (*PDFMani
 	}, nil
 }
 
-// objectBody returns what stands between the "n g obj" and "endobj" of an object, if it has them
-func objectBody(obj []byte) []byte {
-	body := string(obj)
-	if i := skipInteger(body, skipSpace(body, 0)); i != -1 {
-		if i = skipInteger(body, i); i != -1 && strings.HasPrefix(body[i:], "obj") {
-			body = strings.TrimSpace(body[i+len("obj"):])
-			body = strings.TrimSpace(strings.TrimSuffix(body, "endobj"))
-		}
-	}
-	return []byte(body)
-}
-
 // getObject returns an object as it is now, with the changes made so far
 func (m *PDFManipulator) getObject(objNum int) ([]byte, error) {
 	obj, ok := m.objects[objNum]
@@ -133,176 +121,12 @@ func parseObjectRef(ref string) (int, error) {
 	return objNum, nil
 }
 
-// isSpace reports whether a byte is PDF white space
-func isSpace(c byte) bool {
-	return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == 0
-}
-
-// isRegular reports whether a byte is neither white space nor a delimiter
-func isRegular(c byte) bool {
-	return !isSpace(c) && strings.IndexByte("()<>[]{}/%", c) < 0
-}
-
-// skipSpace returns the position of the first byte at or after i that is neither white space nor in a comment
-func skipSpace(s string, i int) int {
-	for i < len(s) && (isSpace(s[i]) || s[i] == '%') {
-		if s[i] == '%' {
-			for i < len(s) && s[i] != '\n' && s[i] != '\r' {
-				i++
-			}
-		} else {
-			i++
-		}
-	}
-	return i
-}
-
-// skipToken returns the position after the token that starts at i: a string, a name, a number or keyword,
-// or a single delimiter ("<<" and ">>" count as one)
-func skipToken(s string, i int) int {
-	switch c := s[i]; {
-	case c == '(':
-		depth := 0
-		for ; i < len(s); i++ {
-			if s[i] == '\\' {
-				i++
-			} else if s[i] == '(' {
-				depth++
-			} else if s[i] == ')' {
-				depth--
-				if depth == 0 {
-					return i + 1
-				}
-			}
-		}
-		return len(s)
-	case c == '<' && i+1 < len(s) && s[i+1] == '<', c == '>' && i+1 < len(s) && s[i+1] == '>':
-		return i + 2
-	case c == '<':
-		for i < len(s) && s[i] != '>' {
-			i++
-		}
-		return min(i+1, len(s))
-	case c == '/' || isRegular(c):
-		i++
-		for i < len(s) && isRegular(s[i]) {
-			i++
-		}
-		return i
-	}
-	return i + 1
-}
-
-// skipInteger returns the position after the unsigned integer and the white space after it that start at i,
-// or -1 if there is none
-func skipInteger(s string, i int) int {
-	start := i
-	for i < len(s) && '0' <= s[i] && s[i] <= '9' {
-		i++
-	}
-	end := i
-	for i < len(s) && isSpace(s[i]) {
-		i++
-	}
-	if end == start || i == end {
-		return -1
-	}
-	return i
-}
-
-// skipReference returns the position after the object reference that starts at i, or -1 if there is none
-func skipReference(s string, i int) int {
-	if i = skipInteger(s, i); i == -1 {
-		return -1
-	}
-	if i = skipInteger(s, i); i == -1 || i >= len(s) || s[i] != 'R' {
-		return -1
-	}
-	if i+1 < len(s) && isRegular(s[i+1]) {
-		return -1
-	}
-	return i + 1
-}
-
-// skipValue returns the position after the value that starts at i
-func skipValue(s string, i int) int {
-	if i >= len(s) {
-		return len(s)
-	}
-	if end := skipReference(s, i); end != -1 {
-		return end
-	}
-	depth := 0
-	for i < len(s) {
-		start := i
-		i = skipToken(s, i)
-		switch s[start] {
-		case '<':
-			if i == start+2 && s[start+1] == '<' {
-				depth++
-			}
-		case '[':
-			depth++
-		case '>', ']':
-			depth--
-		}
-		if depth <= 0 {
-			return i
-		}
-		i = skipSpace(s, i)
-	}
-	return len(s)
-}
-
-// findDictValue finds the value of a key of the outermost dictionary in dictStr.
-// If there is none, end is where the dictionary ends, or -1 if there is no dictionary.
-func findDictValue(dictStr, key string) (start, end int, ok bool) {
-	i := strings.Index(dictStr, "<<")
-	if i == -1 {
-		return -1, -1, false
-	}
-	i = skipSpace(dictStr, i+2)
-	for i < len(dictStr) {
-		if dictStr[i] == '>' {
-			return -1, i, false
-		}
-		keyStart := i
-		i = skipToken(dictStr, i)
-		keyEnd := i
-		i = skipSpace(dictStr, i)
-		if dictStr[keyStart] != '/' || i < len(dictStr) && dictStr[i] == '>' {
-			continue
-		}
-		valueStart := i
-		i = skipValue(dictStr, i)
-		if dictStr[keyStart:keyEnd] == key {
-			return valueStart, i, true
-		}
-		i = skipSpace(dictStr, i)
-	}
-	return -1, -1, false
-}
-
 // extractDictValue extracts a value of the outermost dictionary from a PDF dictionary string
 func extractDictValue(dictStr, key string) string {
-	start, end, ok := findDictValue(dictStr, key)
-	if !ok {
-		return ""
-	}
-	return dictStr[start:end]
+	return parse.DictValue(dictStr, key)
 }
 
 // setDictValue sets or updates a value of the outermost dictionary in a PDF dictionary string
 func setDictValue(dictStr, key, value string) string {
-	start, end, ok := findDictValue(dictStr, key)
-	if end == -1 {
-		return dictStr
-	}
-	if !ok {
-		return dictStr[:end] + key + " " + value + " " + dictStr[end:]
-	}
-	if isRegular(dictStr[start-1]) && value != "" && isRegular(value[0]) {
-		value = " " + value
-	}
-	return dictStr[:start] + value + " " + dictStr[end:]
+	return parse.SetDictValue(dictStr, key, value)
 }
diff --git a/core/parse/dictionary.go b/core/parse/dictionary.go
new file mode 100644
index 0000000..06b9291
--- /dev/null
+++ b/core/parse/dictionary.go
@@ -0,0 +1,189 @@
+package parse
+
+import "strings"
+
+// ObjectBody returns what stands between the "n g obj" and "endobj" of an object, if it has them
+func ObjectBody(obj []byte) []byte {
+	body := string(obj)
+	if i := SkipInteger(body, SkipSpace(body, 0)); i != -1 {
+		if i = SkipInteger(body, i); i != -1 && strings.HasPrefix(body[i:], "obj") {
+			body = strings.TrimSpace(body[i+len("obj"):])
+			body = strings.TrimSpace(strings.TrimSuffix(body, "endobj"))
+		}
+	}
+	return []byte(body)
+}
+
+// isSpace reports whether a byte is PDF white space
+func isSpace(c byte) bool {
+	return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == 0
+}
+
+// isRegular reports whether a byte is neither white space nor a delimiter
+func isRegular(c byte) bool {
+	return !isSpace(c) && strings.IndexByte("()<>[]{}/%", c) < 0
+}
+
+// SkipSpace returns the position of the first byte at or after i that is neither white space nor in a comment
+func SkipSpace(s string, i int) int {
+	for i < len(s) && (isSpace(s[i]) || s[i] == '%') {
+		if s[i] == '%' {
+			for i < len(s) && s[i] != '\n' && s[i] != '\r' {
+				i++
+			}
+		} else {
+			i++
+		}
+	}
+	return i
+}
+
+// SkipToken returns the position after the token that starts at i: a string, a name, a number or keyword,
+// or a single delimiter ("<<" and ">>" count as one)
+func SkipToken(s string, i int) int {
+	switch c := s[i]; {
+	case c == '(':
+		depth := 0
+		for ; i < len(s); i++ {
+			if s[i] == '\\' {
+				i++
+			} else if s[i] == '(' {
+				depth++
+			} else if s[i] == ')' {
+				depth--
+				if depth == 0 {
+					return i + 1
+				}
+			}
+		}
+		return len(s)
+	case c == '<' && i+1 < len(s) && s[i+1] == '<', c == '>' && i+1 < len(s) && s[i+1] == '>':
+		return i + 2
+	case c == '<':
+		for i < len(s) && s[i] != '>' {
+			i++
+		}
+		return min(i+1, len(s))
+	case c == '/' || isRegular(c):
+		i++
+		for i < len(s) && isRegular(s[i]) {
+			i++
+		}
+		return i
+	}
+	return i + 1
+}
+
+// SkipInteger returns the position after the unsigned integer and the white space after it that start at i,
+// or -1 if there is none
+func SkipInteger(s string, i int) int {
+	start := i
+	for i < len(s) && '0' <= s[i] && s[i] <= '9' {
+		i++
+	}
+	end := i
+	for i < len(s) && isSpace(s[i]) {
+		i++
+	}
+	if end == start || i == end {
+		return -1
+	}
+	return i
+}
+
+// SkipReference returns the position after the object reference that starts at i, or -1 if there is none
+func SkipReference(s string, i int) int {
+	if i = SkipInteger(s, i); i == -1 {
+		return -1
+	}
+	if i = SkipInteger(s, i); i == -1 || i >= len(s) || s[i] != 'R' {
+		return -1
+	}
+	if i+1 < len(s) && isRegular(s[i+1]) {
+		return -1
+	}
+	return i + 1
+}
+
+// SkipValue returns the position after the value that starts at i
+func SkipValue(s string, i int) int {
+	if i >= len(s) {
+		return len(s)
+	}
+	if end := SkipReference(s, i); end != -1 {
+		return end
+	}
+	depth := 0
+	for i < len(s) {
+		start := i
+		i = SkipToken(s, i)
+		switch s[start] {
+		case '<':
+			if i == start+2 && s[start+1] == '<' {
+				depth++
+			}
+		case '[':
+			depth++
+		case '>', ']':
+			depth--
+		}
+		if depth <= 0 {
+			return i
+		}
+		i = SkipSpace(s, i)
+	}
+	return len(s)
+}
+
+// findDictValue finds the value of a key of the outermost dictionary in dictStr.
+// If there is none, end is where the dictionary ends, or -1 if there is no dictionary.
+func findDictValue(dictStr, key string) (start, end int, ok bool) {
+	i := strings.Index(dictStr, "<<")
+	if i == -1 {
+		return -1, -1, false
+	}
+	i = SkipSpace(dictStr, i+2)
+	for i < len(dictStr) {
+		if dictStr[i] == '>' {
+			return -1, i, false
+		}
+		keyStart := i
+		i = SkipToken(dictStr, i)
+		keyEnd := i
+		i = SkipSpace(dictStr, i)
+		if dictStr[keyStart] != '/' || i < len(dictStr) && dictStr[i] == '>' {
+			continue
+		}
+		valueStart := i
+		i = SkipValue(dictStr, i)
+		if dictStr[keyStart:keyEnd] == key {
+			return valueStart, i, true
+		}
+		i = SkipSpace(dictStr, i)
+	}
+	return -1, -1, false
+}
+
+// DictValue returns the value of a key of the outermost dictionary in dictStr, or "" if there is none
+func DictValue(dictStr, key string) string {
+	start, end, ok := findDictValue(dictStr, key)
+	if !ok {
+		return ""
+	}
+	return dictStr[start:end]
+}
+
+// SetDictValue sets or updates the value of a key of the outermost dictionary in dictStr
+func SetDictValue(dictStr, key, value string) string {
+	start, end, ok := findDictValue(dictStr, key)
+	if end == -1 {
+		return dictStr
+	}
+	if !ok {
+		return dictStr[:end] + key + " " + value + " " + dictStr[end:]
+	}
+	if isRegular(dictStr[start-1]) && value != "" && isRegular(value[0]) {
+		value = " " + value
+	}
+	return dictStr[:start] + value + " " + dictStr[end:]
+}
-- 
2.43.0


From 02c8c5c059b6dc2949a9543ddc74720a2c3992af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:19 +0000
Subject: [PATCH 34/35] fix: form fields are read as the file stores them, and
 filling appends an update that changes only the values it names

Values were cut at the first parenthesis and keys were found inside other
entries; filling rewrote the file in place and left wrong offsets; nested
fields were missed; button flags were shifted by one; /MaxLen counted
bytes; cyclic /Kids never ended.
---
 forms/acroform/dictionary.go    | 203 ++++++++++++++++++++
 forms/acroform/extract.go       |  75 +++++---
 forms/acroform/fill_streams.go  | 158 +++------------
 forms/acroform/parser.go        | 329 +++++++++++++++-----------------
 forms/acroform/replace.go       | 107 +++--------
 forms/acroform/stream_finder.go |  51 -----
 forms/acroform/update.go        | 134 +++++++++++++
 forms/acroform/validation.go    |  40 +---
 forms/acroform/writer.go        |  61 ++----
 9 files changed, 611 insertions(+), 547 deletions(-)
 create mode 100644 forms/acroform/dictionary.go
 delete mode 100644 forms/acroform/stream_finder.go
 create mode 100644 forms/acroform/update.go

diff --git a/forms/acroform/dictionary.go b/forms/acroform/dictionary.go
new file mode 100644
index 0000000..fd6643d
--- /dev/null
+++ b/forms/acroform/dictionary.go
@@ -0,0 +1,203 @@
+package acroform
+
+import (
+	"strconv"
+	"strings"
+	"unicode/utf16"
+	"unicode/utf8"
+
+	"github.com/benedoc-inc/pdfer/core/parse"
+)
+
+// escapeText writes a text as the inside of a literal string: ASCII as it is, other text as UTF-16 with a byte order mark
+func escapeText(s string) string {
+	ascii := true
+	for i := 0; i < len(s); i++ {
+		if s[i] > 127 {
+			ascii = false
+		}
+	}
+	if !ascii && utf8.ValidString(s) {
+		b := []byte{0xFE, 0xFF}
+		for _, u := range utf16.Encode([]rune(s)) {
+			b = append(b, byte(u>>8), byte(u))
+		}
+		s = string(b)
+	}
+	return escapeBytes(s)
+}
+
+// escapeBytes writes bytes as the inside of a literal string
+func escapeBytes(s string) string {
+	var result strings.Builder
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; {
+		case c == '\\' || c == '(' || c == ')':
+			result.WriteByte('\\')
+			result.WriteByte(c)
+		case c == '\n':
+			result.WriteString("\\n")
+		case c == '\r':
+			result.WriteString("\\r")
+		case c == '\t':
+			result.WriteString("\\t")
+		case c < 32 || c > 126:
+			result.WriteByte('\\')
+			result.WriteByte('0' + c>>6)
+			result.WriteByte('0' + c>>3&7)
+			result.WriteByte('0' + c&7)
+		default:
+			result.WriteByte(c)
+		}
+	}
+	return result.String()
+}
+
+// decodeText reads a literal or hexadecimal string, or the name in a name; anything else is left as it is
+func decodeText(value string) string {
+	switch {
+	case strings.HasPrefix(value, "("):
+		value = unescapeBytes(strings.TrimSuffix(value[1:], ")"))
+	case strings.HasPrefix(value, "<") && !strings.HasPrefix(value, "<<"):
+		value = decodeHex(value)
+	case strings.HasPrefix(value, "/"):
+		return value[1:]
+	default:
+		return value
+	}
+	if strings.HasPrefix(value, "\xFE\xFF") {
+		units := make([]uint16, 0, len(value)/2)
+		for i := 2; i+1 < len(value); i += 2 {
+			units = append(units, uint16(value[i])<<8|uint16(value[i+1]))
+		}
+		return string(utf16.Decode(units))
+	}
+	return value
+}
+
+// isText reports whether a value is a literal or hexadecimal string
+func isText(value string) bool {
+	return strings.HasPrefix(value, "(") || strings.HasPrefix(value, "<") && !strings.HasPrefix(value, "<<")
+}
+
+// decodeHex reads a hexadecimal string; a missing last digit is 0
+func decodeHex(value string) string {
+	var result strings.Builder
+	high, half := byte(0), false
+	for i := 0; i < len(value); i++ {
+		c := value[i]
+		switch {
+		case '0' <= c && c <= '9':
+			c -= '0'
+		case 'a' <= c && c <= 'f':
+			c -= 'a' - 10
+		case 'A' <= c && c <= 'F':
+			c -= 'A' - 10
+		default:
+			continue
+		}
+		if half {
+			result.WriteByte(high*16 + c)
+		} else {
+			high = c
+		}
+		half = !half
+	}
+	if half {
+		result.WriteByte(high * 16)
+	}
+	return result.String()
+}
+
+// unescapeBytes reads the inside of a literal string
+func unescapeBytes(s string) string {
+	var out strings.Builder
+	for i := 0; i < len(s); i++ {
+		if s[i] == '\r' { // a line end in a string is one line feed
+			if i+1 < len(s) && s[i+1] == '\n' {
+				i++
+			}
+			out.WriteByte('\n')
+			continue
+		}
+		if s[i] != '\\' {
+			out.WriteByte(s[i])
+			continue
+		}
+		i++
+		if i == len(s) {
+			break
+		}
+		switch c := s[i]; c {
+		case 'n':
+			out.WriteByte('\n')
+		case 'r':
+			out.WriteByte('\r')
+		case 't':
+			out.WriteByte('\t')
+		case 'b':
+			out.WriteByte('\b')
+		case 'f':
+			out.WriteByte('\f')
+		case '\n': // the string continues on the next line
+		case '\r':
+			if i+1 < len(s) && s[i+1] == '\n' {
+				i++
+			}
+		case '0', '1', '2', '3', '4', '5', '6', '7':
+			v := int(c - '0')
+			for k := 0; k < 2 && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '7'; k++ {
+				i++
+				v = v*8 + int(s[i]-'0')
+			}
+			out.WriteByte(byte(v))
+		default:
+			out.WriteByte(c)
+		}
+	}
+	return out.String()
+}
+
+// arrayValues gives the elements of an array, with those of the arrays in it
+func arrayValues(array string) []string {
+	var values []string
+	for i := parse.SkipSpace(array, 0); i < len(array); i = parse.SkipSpace(array, i) {
+		if array[i] == '[' || array[i] == ']' {
+			i++
+			continue
+		}
+		start := i
+		i = parse.SkipValue(array, i)
+		values = append(values, array[start:i])
+	}
+	return values
+}
+
+// referencedObjects gives the object and generation numbers of the references in an array
+func referencedObjects(array string) [][2]int {
+	var refs [][2]int
+	for _, value := range arrayValues(array) {
+		if parse.SkipReference(value, 0) != len(value) {
+			continue
+		}
+		objNum, err := leadingInteger(value)
+		if err != nil {
+			continue
+		}
+		genNum, err := leadingInteger(value[parse.SkipInteger(value, 0):])
+		if err != nil {
+			continue
+		}
+		refs = append(refs, [2]int{objNum, genNum})
+	}
+	return refs
+}
+
+// leadingInteger reads the digits that a value starts with
+func leadingInteger(value string) (int, error) {
+	end := 0
+	for end < len(value) && '0' <= value[end] && value[end] <= '9' {
+		end++
+	}
+	return strconv.Atoi(value[:end])
+}
diff --git a/forms/acroform/extract.go b/forms/acroform/extract.go
index 4107412..01980b7 100644
--- a/forms/acroform/extract.go
+++ b/forms/acroform/extract.go
@@ -2,10 +2,9 @@
 package acroform
 
 import (
-	"bytes"
 	"fmt"
 
-	"github.com/benedoc-inc/pdfer/core/encrypt"
+	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
 )
 
@@ -13,14 +12,14 @@ import (
 // This is the main entry point for AcroForm extraction
 func ExtractAcroForm(pdfBytes []byte, password []byte, verbose bool) (*AcroForm, error) {
 	// Handle encryption
-	var encryptInfo *types.PDFEncryption
-	if bytes.Contains(pdfBytes, []byte("/Encrypt")) {
-		var err error
-		_, encryptInfo, err = encrypt.DecryptPDF(pdfBytes, password, verbose)
-		if err != nil {
-			return nil, fmt.Errorf("failed to decrypt PDF: %w", err)
-		}
+	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
+		Password: password,
+		Verbose:  verbose,
+	})
+	if err != nil {
+		return nil, fmt.Errorf("failed to open PDF: %w", err)
 	}
+	encryptInfo := pdf.Encryption()
 
 	// Parse AcroForm
 	acroForm, err := ParseAcroForm(pdfBytes, encryptInfo, verbose)
@@ -41,24 +40,37 @@ func ExtractFormSchema(pdfBytes []byte, password []byte, verbose bool) (*types.F
 	return acroForm.ToFormSchema(), nil
 }
 
+// walkFields calls visit for the fields and the fields under them, in order.
+// A kid without a name is not a field, but a place on a page where its parent is shown.
+func walkFields(fields []*Field, visit func(*Field)) {
+	for _, field := range fields {
+		if field.T != "" || field.Parent == nil {
+			visit(field)
+		}
+		walkFields(field.Kids, visit)
+	}
+}
+
+// hasFields reports whether there are fields under a field
+func (f *Field) hasFields() bool {
+	for _, kid := range f.Kids {
+		if kid.T != "" {
+			return true
+		}
+	}
+	return false
+}
+
 // GetFieldValues extracts current values from all AcroForm fields
 func (af *AcroForm) GetFieldValues() map[string]interface{} {
 	values := make(map[string]interface{})
 
-	for _, field := range af.Fields {
+	walkFields(af.Fields, func(field *Field) {
 		fieldName := field.GetFullName()
 		if fieldName != "" && field.V != nil {
 			values[fieldName] = field.V
 		}
-
-		// Also get values from child fields
-		for _, kid := range field.Kids {
-			kidName := kid.GetFullName()
-			if kidName != "" && kid.V != nil {
-				values[kidName] = kid.V
-			}
-		}
-	}
+	})
 
 	return values
 }
@@ -67,6 +79,9 @@ func (af *AcroForm) GetFieldValues() map[string]interface{} {
 func (f *Field) GetFullName() string {
 	if f.Parent != nil {
 		parentName := f.Parent.GetFullName()
+		if f.T == "" {
+			return parentName
+		}
 		if parentName != "" {
 			return parentName + "." + f.T
 		}
@@ -74,19 +89,19 @@ func (f *Field) GetFullName() string {
 	return f.T
 }
 
-// FindFieldByName finds a field by its name
+// FindFieldByName finds a field by its full name, or else by its partial name
 func (af *AcroForm) FindFieldByName(name string) *Field {
-	for _, field := range af.Fields {
-		if field.GetFullName() == name || field.T == name {
-			return field
+	var full, partial *Field
+	walkFields(af.Fields, func(field *Field) {
+		if full == nil && field.GetFullName() == name {
+			full = field
 		}
-
-		// Search in kids
-		for _, kid := range field.Kids {
-			if kid.GetFullName() == name || kid.T == name {
-				return kid
-			}
+		if partial == nil && field.T == name {
+			partial = field
 		}
+	})
+	if full != nil {
+		return full
 	}
-	return nil
+	return partial
 }
diff --git a/forms/acroform/fill_streams.go b/forms/acroform/fill_streams.go
index 154e026..b36d27d 100644
--- a/forms/acroform/fill_streams.go
+++ b/forms/acroform/fill_streams.go
@@ -2,10 +2,8 @@
 package acroform
 
 import (
-	"bytes"
 	"fmt"
-	"regexp"
-	"strings"
+	"sort"
 
 	"github.com/benedoc-inc/pdfer/core/parse"
 	"github.com/benedoc-inc/pdfer/types"
@@ -41,14 +39,16 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 		return nil, fmt.Errorf("AcroForm is nil")
 	}
 
-	// Get object locations from parser
-	result := make([]byte, len(pdfBytes))
-	copy(result, pdfBytes)
-
-	// Track updates per stream
-	streamUpdates := make(map[int][]StreamObjectUpdate)
+	// The object of a field is read from the file, whether it is there by itself or in an object stream
+	getObject := pdf.GetObject
+	if encryptInfo != nil {
+		getObject = func(objNum int) ([]byte, error) {
+			return parse.GetObject(pdfBytes, objNum, encryptInfo, verbose)
+		}
+	}
 
-	for fieldName, value := range formData {
+	updates := make(map[int]updatedObject)
+	for _, fieldName := range sortedNames(formData) {
 		field := acroForm.FindFieldByName(fieldName)
 		if field == nil {
 			if verbose {
@@ -57,141 +57,39 @@ func FillFormFieldsWithStreams(pdfBytes []byte, formData types.FormData, passwor
 			continue
 		}
 
-		// Check if field is in an object stream by accessing xref
-		// We need to get the object reference from the parser's internal xref
-		// For now, try to get the object and check if it's accessible
-		objData, objErr := pdf.GetObject(field.ObjectNum)
-		if objErr != nil {
+		fieldData, err := getObject(field.ObjectNum)
+		if err != nil {
 			if verbose {
-				fmt.Printf("Warning: Cannot access object %d: %v, trying direct replacement\n", field.ObjectNum, objErr)
-			}
-			// Try direct replacement
-			var fillErr error
-			result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
-			if fillErr != nil && verbose {
-				fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
+				fmt.Printf("Warning: Cannot access object %d: %v\n", field.ObjectNum, err)
 			}
 			continue
 		}
-
-		// Check if object appears to be from a stream (no "obj" header)
-		checkLen := 50
-		if len(objData) < checkLen {
-			checkLen = len(objData)
-		}
-		isInStream := !bytes.Contains(objData[:checkLen], []byte(fmt.Sprintf("%d 0 obj", field.ObjectNum)))
-
-		if isInStream {
-			// Field is in an object stream - prepare update
-			updatedContent, err := updateFieldContent(objData, field, value)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: Failed to update field content: %v\n", err)
-				}
-				continue
-			}
-
-			// Find which stream contains this object
-			streamObjNum := findStreamForObject(pdfBytes, field.ObjectNum, encryptInfo, verbose)
-			if streamObjNum > 0 {
-				// Get stream index from xref
-				startXRef := findStartXRef(pdfBytes)
-				var streamIndex int
-				if startXRef >= 0 {
-					xrefResult, err := parse.ParseXRefStreamFull(pdfBytes, int64(startXRef), false)
-					if err == nil {
-						if entry, ok := xrefResult.ObjectStreams[field.ObjectNum]; ok {
-							streamIndex = entry.IndexInStream
-						}
-					}
-				}
-
-				// Add to stream updates
-				streamUpdates[streamObjNum] = append(streamUpdates[streamObjNum], StreamObjectUpdate{
-					ObjNum:     field.ObjectNum,
-					Index:      streamIndex,
-					NewContent: updatedContent,
-				})
-
-				if verbose {
-					fmt.Printf("Prepared update for field '%s' (obj %d) in stream %d at index %d\n",
-						fieldName, field.ObjectNum, streamObjNum, streamIndex)
-				}
-			} else {
-				if verbose {
-					fmt.Printf("Warning: Could not find stream for object %d, using direct replacement\n", field.ObjectNum)
-				}
-				// Fall back to direct replacement
-				var fillErr error
-				result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
-				if fillErr != nil && verbose {
-					fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
-				}
-			}
-		} else {
-			// Direct object - use simple replacement
-			var fillErr error
-			result, fillErr = FillFieldValue(result, field, value, encryptInfo, verbose)
-			if fillErr != nil {
-				if verbose {
-					fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, fillErr)
-				}
-				continue
-			}
-		}
-
-		if verbose {
-			fmt.Printf("Filled field '%s' with value '%v'\n", fieldName, value)
-		}
-	}
-
-	// Rebuild object streams that were modified
-	for streamObjNum, updates := range streamUpdates {
-		if verbose {
-			fmt.Printf("Rebuilding object stream %d with %d updates\n", streamObjNum, len(updates))
-		}
-
-		var rebuildErr error
-		result, rebuildErr = RebuildObjectStream(result, streamObjNum, updates, encryptInfo, verbose)
-		if rebuildErr != nil {
+		content, err := updateFieldContent(fieldData, field, formData[fieldName])
+		if err != nil {
 			if verbose {
-				fmt.Printf("Warning: Failed to rebuild object stream %d: %v\n", streamObjNum, rebuildErr)
+				fmt.Printf("Warning: Failed to fill field '%s': %v\n", fieldName, err)
 			}
-			// Continue with other streams
 			continue
 		}
+		updates[field.ObjectNum] = updatedObject{generation: field.Generation, content: content}
 
 		if verbose {
-			fmt.Printf("Successfully rebuilt object stream %d\n", streamObjNum)
+			fmt.Printf("Filled field '%s' with value '%v'\n", fieldName, formData[fieldName])
 		}
 	}
 
-	if len(result) == 0 {
-		return nil, fmt.Errorf("result PDF is empty after filling")
+	if len(updates) == 0 {
+		return append([]byte(nil), pdfBytes...), nil
 	}
-
-	return result, nil
+	return appendUpdate(pdfBytes, updates)
 }
 
-// updateFieldContent updates field content with new value
-func updateFieldContent(fieldData []byte, field *Field, value interface{}) ([]byte, error) {
-	fieldStr := string(fieldData)
-	valueStr := formatFieldValue(value, field.FT)
-
-	// Replace or add /V entry
-	vPattern := regexp.MustCompile(`/V\s*(?:\([^)]*\)|/[^\s]+|\[[^\]]*\])`)
-	newV := fmt.Sprintf("/V (%s)", escapeFieldValue(valueStr))
-
-	var newFieldStr string
-	if vPattern.MatchString(fieldStr) {
-		newFieldStr = vPattern.ReplaceAllString(fieldStr, newV)
-	} else {
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return nil, fmt.Errorf("field dictionary not found")
-		}
-		newFieldStr = fieldStr[:dictEnd] + newV + " " + fieldStr[dictEnd:]
+// sortedNames gives the names in form data in order
+func sortedNames(formData types.FormData) []string {
+	names := make([]string, 0, len(formData))
+	for name := range formData {
+		names = append(names, name)
 	}
-
-	return []byte(newFieldStr), nil
+	sort.Strings(names)
+	return names
 }
diff --git a/forms/acroform/parser.go b/forms/acroform/parser.go
index 6d764ae..eb492b7 100644
--- a/forms/acroform/parser.go
+++ b/forms/acroform/parser.go
@@ -45,7 +45,6 @@ type Field struct {
 
 // ParseAcroForm extracts AcroForm structure from a PDF
 func ParseAcroForm(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (*AcroForm, error) {
-	// Find AcroForm reference in catalog
 	pdf, err := parse.OpenWithOptions(pdfBytes, parse.ParseOptions{
 		Password: []byte(""),
 		Verbose:  verbose,
@@ -54,234 +53,203 @@ func ParseAcroForm(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bo
 		return nil, types.WrapError(types.ErrCodeMalformedPDF, "failed to parse PDF", err)
 	}
 
-	// Search for /AcroForm in the PDF
-	// We'll parse directly from bytes for now
-	_ = pdf // May use later for better catalog access
-	return parseAcroFormFromBytes(pdfBytes, encryptInfo, verbose)
-}
-
-// parseAcroFormFromBytes finds and parses AcroForm by searching PDF bytes
-func parseAcroFormFromBytes(pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) (*AcroForm, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find AcroForm reference
-	acroFormPattern := regexp.MustCompile(`/AcroForm\s+(\d+)\s+(\d+)\s+R`)
-	acroFormMatch := acroFormPattern.FindStringSubmatch(pdfStr)
+	p := &formParser{
+		getObject: pdf.GetObject,
+		visited:   make(map[int]bool),
+		verbose:   verbose,
+	}
+	if encryptInfo != nil {
+		p.getObject = func(objNum int) ([]byte, error) {
+			return parse.GetObject(pdfBytes, objNum, encryptInfo, verbose)
+		}
+	}
 
-	if acroFormMatch == nil {
-		// Try inline AcroForm
-		acroFormInlinePattern := regexp.MustCompile(`/AcroForm\s*<<`)
-		if acroFormInlinePattern.FindStringIndex(pdfStr) == nil {
-			return nil, types.NewPDFError(types.ErrCodeNoForms, "AcroForm not found in PDF")
+	// The AcroForm is an entry of the document catalog
+	if trailer := pdf.Trailer(); trailer != nil {
+		root := trailer.RootRef
+		if i := strings.IndexAny(root, "0123456789"); i > 0 {
+			root = root[i:]
+		}
+		if refs := referencedObjects(root); len(refs) == 1 {
+			if form := p.resolve(parse.DictValue(p.resolve(root), "/AcroForm")); strings.HasPrefix(form, "<<") {
+				return p.parseAcroFormDict(form)
+			}
 		}
-		// Inline AcroForm - would need more complex parsing
-		return nil, types.NewPDFError(types.ErrCodeUnsupportedPDF, "inline AcroForm not yet supported")
 	}
 
-	acroFormObjNum, err := strconv.Atoi(acroFormMatch[1])
+	// Without a readable catalog, search for an AcroForm reference
+	acroFormMatch := acroFormPattern.FindSubmatch(pdfBytes)
+	if acroFormMatch == nil {
+		return nil, types.NewPDFError(types.ErrCodeNoForms, "AcroForm not found in PDF")
+	}
+	acroFormObjNum, err := strconv.Atoi(string(acroFormMatch[1]))
 	if err != nil {
 		return nil, types.WrapError(types.ErrCodeInvalidObject, "invalid AcroForm object number", err)
 	}
-
-	// Get AcroForm object
-	acroFormData, err := parse.GetObject(pdfBytes, acroFormObjNum, encryptInfo, verbose)
+	acroFormData, err := p.getObject(acroFormObjNum)
 	if err != nil {
 		return nil, types.WrapErrorf(types.ErrCodeObjectNotFound, err, "failed to get AcroForm object %d", acroFormObjNum)
 	}
+	return p.parseAcroFormDict(string(parse.ObjectBody(acroFormData)))
+}
 
-	acroForm := &AcroForm{
-		Fields: make([]*Field, 0),
-	}
+// acroFormPattern matches a reference to an AcroForm
+var acroFormPattern = regexp.MustCompile(`/AcroForm\s+(\d+)\s+(\d+)\s+R`)
 
-	// Parse AcroForm dictionary
-	if err := parseAcroFormDict(acroFormData, acroForm, pdfBytes, encryptInfo, verbose); err != nil {
-		return nil, types.WrapError(types.ErrCodeInvalidForm, "failed to parse AcroForm dictionary", err)
-	}
+// formParser reads the fields of a form
+type formParser struct {
+	getObject func(objNum int) ([]byte, error)
+	visited   map[int]bool // field objects read so far
+	verbose   bool
+}
 
-	return acroForm, nil
+// resolve gives the value that a reference refers to, or the value itself if it is none
+func (p *formParser) resolve(value string) string {
+	if value == "" || parse.SkipReference(value, 0) != len(value) {
+		return value
+	}
+	refs := referencedObjects(value)
+	if len(refs) != 1 {
+		return ""
+	}
+	data, err := p.getObject(refs[0][0])
+	if err != nil {
+		return ""
+	}
+	return string(parse.ObjectBody(data))
 }
 
 // parseAcroFormDict parses the AcroForm dictionary
-func parseAcroFormDict(data []byte, acroForm *AcroForm, pdfBytes []byte, encryptInfo *types.PDFEncryption, verbose bool) error {
-	dataStr := string(data)
+func (p *formParser) parseAcroFormDict(dict string) (*AcroForm, error) {
+	acroForm := &AcroForm{
+		Fields:          make([]*Field, 0),
+		NeedAppearances: p.resolve(parse.DictValue(dict, "/NeedAppearances")) == "true",
+	}
 
 	// Check for XFA (hybrid form)
-	if strings.Contains(dataStr, "/XFA") {
+	if parse.DictValue(dict, "/XFA") != "" {
 		acroForm.XFA = true
-		if verbose {
+		if p.verbose {
 			fmt.Println("Found XFA in AcroForm (hybrid form)")
 		}
 	}
 
-	// Find Fields array
-	fieldsPattern := regexp.MustCompile(`/Fields\s*\[([^\]]*)\]`)
-	fieldsMatch := fieldsPattern.FindStringSubmatch(dataStr)
-	if fieldsMatch == nil {
-		return types.NewPDFError(types.ErrCodeInvalidForm, "Fields array not found in AcroForm")
+	fields := p.resolve(parse.DictValue(dict, "/Fields"))
+	if !strings.HasPrefix(fields, "[") {
+		return nil, types.NewPDFError(types.ErrCodeInvalidForm, "Fields array not found in AcroForm")
 	}
-
-	fieldsStr := fieldsMatch[1]
-	if verbose {
-		fmt.Printf("Found Fields array: %s\n", fieldsStr)
+	if p.verbose {
+		fmt.Printf("Found Fields array: %s\n", fields)
 	}
+	acroForm.Fields = p.parseFields(fields, nil)
 
-	// Extract field references
-	fieldRefPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+R`)
-	fieldRefs := fieldRefPattern.FindAllStringSubmatch(fieldsStr, -1)
+	return acroForm, nil
+}
 
-	for _, ref := range fieldRefs {
-		objNum, _ := strconv.Atoi(ref[1])
-		genNum, _ := strconv.Atoi(ref[2])
+// parseFields parses the fields an array refers to; a field is read only once
+func (p *formParser) parseFields(array string, parent *Field) []*Field {
+	fields := make([]*Field, 0)
+	for _, ref := range referencedObjects(array) {
+		if p.visited[ref[0]] {
+			continue
+		}
+		p.visited[ref[0]] = true
 
-		field, err := parseField(pdfBytes, objNum, genNum, encryptInfo, verbose)
+		data, err := p.getObject(ref[0])
 		if err != nil {
-			if verbose {
-				fmt.Printf("Warning: Failed to parse field %d: %v\n", objNum, err)
+			if p.verbose {
+				fmt.Printf("Warning: Failed to parse field %d: %v\n", ref[0], err)
 			}
 			continue
 		}
-
-		acroForm.Fields = append(acroForm.Fields, field)
+		field := &Field{ObjectNum: ref[0], Generation: ref[1], Parent: parent}
+		p.parseField(string(parse.ObjectBody(data)), field)
+		fields = append(fields, field)
 	}
-
-	return nil
+	return fields
 }
 
 // parseField parses a single field dictionary
-func parseField(pdfBytes []byte, objNum, genNum int, encryptInfo *types.PDFEncryption, verbose bool) (*Field, error) {
-	fieldData, err := parse.GetObject(pdfBytes, objNum, encryptInfo, verbose)
-	if err != nil {
-		return nil, types.WrapError(types.ErrCodeFieldNotFound, "failed to get field object", err)
+func (p *formParser) parseField(dict string, field *Field) {
+	value := func(key string) string {
+		return p.resolve(parse.DictValue(dict, key))
 	}
 
-	field := &Field{
-		ObjectNum:  objNum,
-		Generation: genNum,
-		Kids:       make([]*Field, 0),
+	// Field type and flags are inherited from the parent
+	if field.Parent != nil {
+		field.FT = field.Parent.FT
+		field.Ff = field.Parent.Ff
 	}
-
-	dataStr := string(fieldData)
-
-	// Extract field type (FT)
-	if ftMatch := regexp.MustCompile(`/FT\s*/(\w+)`).FindStringSubmatch(dataStr); ftMatch != nil {
-		field.FT = ftMatch[1]
+	if ft := value("/FT"); strings.HasPrefix(ft, "/") {
+		field.FT = ft[1:]
 	}
-
-	// Extract field name (T)
-	if tMatch := regexp.MustCompile(`/T\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); tMatch != nil {
-		field.T = tMatch[1]
-	} else if tMatch := regexp.MustCompile(`/T\s*/(\w+)`).FindStringSubmatch(dataStr); tMatch != nil {
-		field.T = tMatch[1]
+	if ff, err := strconv.Atoi(value("/Ff")); err == nil {
+		field.Ff = ff
 	}
 
-	// Extract alternate name (TU)
-	if tuMatch := regexp.MustCompile(`/TU\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); tuMatch != nil {
-		field.TU = tuMatch[1]
+	// Field name (T) and alternate name (TU)
+	if t := value("/T"); isText(t) || strings.HasPrefix(t, "/") {
+		field.T = decodeText(t)
 	}
-
-	// Extract field flags (Ff)
-	if ffMatch := regexp.MustCompile(`/Ff\s+(\d+)`).FindStringSubmatch(dataStr); ffMatch != nil {
-		field.Ff, _ = strconv.Atoi(ffMatch[1])
+	if tu := value("/TU"); isText(tu) {
+		field.TU = decodeText(tu)
 	}
 
-	// Extract value (V)
-	if vMatch := regexp.MustCompile(`/V\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); vMatch != nil {
-		field.V = vMatch[1]
-	} else if vMatch := regexp.MustCompile(`/V\s*/(\w+)`).FindStringSubmatch(dataStr); vMatch != nil {
-		field.V = vMatch[1]
-	} else if vMatch := regexp.MustCompile(`/V\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); vMatch != nil {
-		// Array value (for choice fields)
-		field.V = parseArray(vMatch[1])
-	}
-
-	// Extract default value (DV)
-	if dvMatch := regexp.MustCompile(`/DV\s*\(([^)]*)\)`).FindStringSubmatch(dataStr); dvMatch != nil {
-		field.DV = dvMatch[1]
-	}
-
-	// Extract maximum length (MaxLen)
-	if maxLenMatch := regexp.MustCompile(`/MaxLen\s+(\d+)`).FindStringSubmatch(dataStr); maxLenMatch != nil {
-		field.MaxLen, _ = strconv.Atoi(maxLenMatch[1])
-	}
-
-	// Extract options (Opt) - for choice fields
-	if optMatch := regexp.MustCompile(`/Opt\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); optMatch != nil {
-		field.Opt = parseOptions(optMatch[1])
-	}
+	// Value (V) and default value (DV)
+	field.V = fieldValue(value("/V"))
+	field.DV = fieldValue(value("/DV"))
 
-	// Extract rectangle (Rect) - field position
-	if rectMatch := regexp.MustCompile(`/Rect\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); rectMatch != nil {
-		field.Rect = parseRect(rectMatch[1])
+	// Maximum length
+	if maxLen, err := strconv.Atoi(value("/MaxLen")); err == nil {
+		field.MaxLen = maxLen
 	}
 
-	// Extract kids (child fields)
-	if kidsMatch := regexp.MustCompile(`/Kids\s*\[([^\]]*)\]`).FindStringSubmatch(dataStr); kidsMatch != nil {
-		kidsStr := kidsMatch[1]
-		kidRefPattern := regexp.MustCompile(`(\d+)\s+(\d+)\s+R`)
-		kidRefs := kidRefPattern.FindAllStringSubmatch(kidsStr, -1)
-
-		for _, ref := range kidRefs {
-			kidObjNum, _ := strconv.Atoi(ref[1])
-			kidGenNum, _ := strconv.Atoi(ref[2])
-
-			kidField, err := parseField(pdfBytes, kidObjNum, kidGenNum, encryptInfo, verbose)
-			if err != nil {
-				if verbose {
-					fmt.Printf("Warning: Failed to parse kid field %d: %v\n", kidObjNum, err)
-				}
-				continue
+	// Options of choice fields: strings, or arrays of an export value and the text to show
+	if opt := value("/Opt"); strings.HasPrefix(opt, "[") {
+		field.Opt = make([]interface{}, 0)
+		for _, item := range arrayValues(opt) {
+			if item = p.resolve(item); isText(item) {
+				field.Opt = append(field.Opt, decodeText(item))
 			}
-			kidField.Parent = field
-			field.Kids = append(field.Kids, kidField)
 		}
 	}
 
-	return field, nil
-}
-
-// parseArray parses a PDF array string
-func parseArray(arrStr string) []interface{} {
-	items := make([]interface{}, 0)
-	// Simple parsing - split by spaces and handle strings
-	parts := strings.Fields(arrStr)
-	for _, part := range parts {
-		if strings.HasPrefix(part, "(") && strings.HasSuffix(part, ")") {
-			items = append(items, part[1:len(part)-1])
-		} else {
-			items = append(items, part)
+	// Selected options
+	if selected := value("/I"); strings.HasPrefix(selected, "[") {
+		for _, item := range arrayValues(selected) {
+			if index, err := strconv.Atoi(item); err == nil {
+				field.I = append(field.I, index)
+			}
 		}
 	}
-	return items
-}
 
-// parseOptions parses choice field options
-func parseOptions(optStr string) []interface{} {
-	// Options can be array of strings or array of [value, display] pairs
-	options := make([]interface{}, 0)
-
-	// Try to parse as array of strings first
-	if strings.Contains(optStr, "(") {
-		// Extract string values
-		strPattern := regexp.MustCompile(`\(([^)]*)\)`)
-		matches := strPattern.FindAllStringSubmatch(optStr, -1)
-		for _, match := range matches {
-			options = append(options, match[1])
+	// Field position
+	if rect := value("/Rect"); strings.HasPrefix(rect, "[") {
+		field.Rect = make([]float64, 0, 4)
+		for _, item := range arrayValues(rect) {
+			if number, err := strconv.ParseFloat(item, 64); err == nil {
+				field.Rect = append(field.Rect, number)
+			}
 		}
 	}
 
-	return options
+	// Child fields
+	field.Kids = p.parseFields(value("/Kids"), field)
 }
 
-// parseRect parses a rectangle array [llx lly urx ury]
-func parseRect(rectStr string) []float64 {
-	parts := strings.Fields(rectStr)
-	rect := make([]float64, 0, 4)
-	for _, part := range parts {
-		if val, err := strconv.ParseFloat(part, 64); err == nil {
-			rect = append(rect, val)
+// fieldValue gives a string or a name as a string, an array as its elements, and anything else as nil
+func fieldValue(value string) interface{} {
+	switch {
+	case isText(value), strings.HasPrefix(value, "/"):
+		return decodeText(value)
+	case strings.HasPrefix(value, "["):
+		items := make([]interface{}, 0)
+		for _, item := range arrayValues(value) {
+			items = append(items, decodeText(item))
 		}
+		return items
 	}
-	return rect
+	return nil
 }
 
 // ToFormSchema converts AcroForm to FormSchema
@@ -294,12 +262,15 @@ func (af *AcroForm) ToFormSchema() *types.FormSchema {
 		Rules:     make([]types.Rule, 0),
 	}
 
-	for _, field := range af.Fields {
+	walkFields(af.Fields, func(field *Field) {
+		if field.hasFields() {
+			return // the fields under it have values, not the field itself
+		}
 		question := field.ToQuestion()
 		if question != nil {
 			schema.Questions = append(schema.Questions, *question)
 		}
-	}
+	})
 
 	return schema
 }
@@ -308,7 +279,7 @@ func (af *AcroForm) ToFormSchema() *types.FormSchema {
 func (f *Field) ToQuestion() *types.Question {
 	question := &types.Question{
 		ID:         fmt.Sprintf("field_%d", f.ObjectNum),
-		Name:       f.T,
+		Name:       f.GetFullName(),
 		Label:      f.TU,
 		Type:       mapFieldTypeWithFlags(f.FT, f.Ff),
 		Required:   (f.Ff & 0x2) != 0, // Required flag
@@ -385,21 +356,27 @@ func mapFieldType(ft string) types.ResponseType {
 	}
 }
 
+// Flags of button fields; a button field with neither is a checkbox
+const (
+	flagRadio      = 1 << 15
+	flagPushbutton = 1 << 16
+)
+
 // mapFieldTypeWithFlags maps field type using flags to distinguish checkboxes from buttons
 func mapFieldTypeWithFlags(ft string, flags int) types.ResponseType {
 	switch ft {
 	case "Tx":
 		return types.ResponseTypeText
 	case "Btn":
-		// Checkbox flag is 0x8000 (bit 15)
-		if (flags & 0x8000) != 0 {
-			return types.ResponseTypeCheckbox
+		// Pushbutton flag (bit position 17)
+		if (flags & flagPushbutton) != 0 {
+			return types.ResponseTypeButton
 		}
-		// Radio button flag is 0x10000 (bit 16)
-		if (flags & 0x10000) != 0 {
+		// Radio flag (bit position 16)
+		if (flags & flagRadio) != 0 {
 			return types.ResponseTypeRadio
 		}
-		return types.ResponseTypeButton
+		return types.ResponseTypeCheckbox
 	case "Ch":
 		// Combo box flag is 0x20000 (bit 17)
 		if (flags & 0x20000) != 0 {
diff --git a/forms/acroform/replace.go b/forms/acroform/replace.go
index 136ce0f..f82daa7 100644
--- a/forms/acroform/replace.go
+++ b/forms/acroform/replace.go
@@ -3,7 +3,6 @@ package acroform
 
 import (
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 
@@ -11,48 +10,19 @@ import (
 	"github.com/benedoc-inc/pdfer/types"
 )
 
-// ReplaceFieldObject replaces a field object in a PDF
+// ReplaceFieldObject replaces a field object in a PDF, by appending an update to it
 func ReplaceFieldObject(pdfBytes []byte, objNum, genNum int, newContent []byte, encryptInfo *types.PDFEncryption, verbose bool) ([]byte, error) {
-	pdfStr := string(pdfBytes)
-
-	// Find the object
-	objPattern := regexp.MustCompile(fmt.Sprintf(`%d\s+%d\s+obj`, objNum, genNum))
-	objMatch := objPattern.FindStringIndex(pdfStr)
-	if objMatch == nil {
-		return nil, fmt.Errorf("object %d %d not found", objNum, genNum)
+	if _, err := parse.GetObject(pdfBytes, objNum, encryptInfo, false); err != nil {
+		return nil, fmt.Errorf("object %d %d not found: %w", objNum, genNum, err)
 	}
 
-	objStart := objMatch[0]
-	objHeaderEnd := objStart + objMatch[1] - objMatch[0]
-
-	// Find endobj - search from after the header
-	searchStart := objHeaderEnd
-	endObjPattern := regexp.MustCompile(`endobj`)
-	endObjMatches := endObjPattern.FindAllStringIndex(pdfStr[searchStart:], -1)
-	if len(endObjMatches) == 0 {
-		return nil, fmt.Errorf("endobj not found for object %d", objNum)
-	}
-
-	// Find the first endobj after our object start
-	endObjPos := searchStart + endObjMatches[0][1]
-
-	// Reconstruct: before object + header + new content + endobj + after object
-	before := pdfBytes[:objHeaderEnd]
-	after := pdfBytes[endObjPos:]
-
-	result := make([]byte, 0, len(before)+len(newContent)+len(after)+20)
-	result = append(result, before...)
-	result = append(result, []byte("\n")...)
-	result = append(result, newContent...)
-	result = append(result, []byte("\nendobj\n")...)
-	result = append(result, after...)
-
 	if verbose {
-		oldSize := endObjPos - objHeaderEnd
-		fmt.Printf("Replaced object %d %d: %d bytes -> %d bytes\n", objNum, genNum, oldSize, len(newContent))
+		fmt.Printf("Replacing object %d %d: %d bytes\n", objNum, genNum, len(newContent))
 	}
 
-	return result, nil
+	return appendUpdate(pdfBytes, map[int]updatedObject{
+		objNum: {generation: genNum, content: parse.ObjectBody(newContent)},
+	})
 }
 
 // FillFieldValue fills a field with a value by replacing the object
@@ -63,28 +33,27 @@ func FillFieldValue(pdfBytes []byte, field *Field, value interface{}, encryptInf
 		return nil, fmt.Errorf("failed to get field object: %w", err)
 	}
 
-	fieldStr := string(fieldData)
-	valueStr := formatFieldValue(value, field.FT)
+	newContent, err := updateFieldContent(fieldData, field, value)
+	if err != nil {
+		return nil, err
+	}
 
-	// Replace or add /V entry
-	vPattern := regexp.MustCompile(`/V\s*(?:\([^)]*\)|/[^\s]+|\[[^\]]*\])`)
-	newV := fmt.Sprintf("/V (%s)", escapeFieldValue(valueStr))
+	// Replace the object
+	return ReplaceFieldObject(pdfBytes, field.ObjectNum, field.Generation, newContent, encryptInfo, verbose)
+}
 
-	var newFieldStr string
-	if vPattern.MatchString(fieldStr) {
-		// Replace existing value
-		newFieldStr = vPattern.ReplaceAllString(fieldStr, newV)
-	} else {
-		// Add new /V entry before the closing >>
-		dictEnd := strings.LastIndex(fieldStr, ">>")
-		if dictEnd == -1 {
-			return nil, fmt.Errorf("field dictionary not found")
-		}
-		newFieldStr = fieldStr[:dictEnd] + newV + " " + fieldStr[dictEnd:]
+// updateFieldContent gives the content of a field object with a new value
+func updateFieldContent(fieldData []byte, field *Field, value interface{}) ([]byte, error) {
+	fieldStr := string(parse.ObjectBody(fieldData))
+	if !strings.HasPrefix(fieldStr, "<<") {
+		return nil, fmt.Errorf("field dictionary not found")
 	}
+	return []byte(setFieldText(fieldStr, formatFieldValue(value, field.FT))), nil
+}
 
-	// Replace the object
-	return ReplaceFieldObject(pdfBytes, field.ObjectNum, field.Generation, []byte(newFieldStr), encryptInfo, verbose)
+// setFieldText sets the value of a field dictionary to a text
+func setFieldText(fieldDict, text string) string {
+	return parse.SetDictValue(fieldDict, "/V", "("+escapeText(text)+")")
 }
 
 // formatFieldValue formats a value for PDF based on field type
@@ -110,34 +79,6 @@ func formatFieldValue(value interface{}, fieldType string) string {
 	}
 }
 
-// escapeFieldValue escapes special characters in field values
-func escapeFieldValue(s string) string {
-	var result strings.Builder
-	for _, r := range s {
-		switch r {
-		case '\\':
-			result.WriteString("\\\\")
-		case '(':
-			result.WriteString("\\(")
-		case ')':
-			result.WriteString("\\)")
-		case '\n':
-			result.WriteString("\\n")
-		case '\r':
-			result.WriteString("\\r")
-		case '\t':
-			result.WriteString("\\t")
-		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				result.WriteRune(r)
-			}
-		}
-	}
-	return result.String()
-}
-
 // FillFormFields fills multiple fields in a PDF
 // This function attempts to handle both direct objects and object streams
 func FillFormFields(pdfBytes []byte, formData types.FormData, password []byte, verbose bool) ([]byte, error) {
diff --git a/forms/acroform/stream_finder.go b/forms/acroform/stream_finder.go
deleted file mode 100644
index 3736498..0000000
--- a/forms/acroform/stream_finder.go
+++ /dev/null
@@ -1,51 +0,0 @@
-// Package acroform provides utilities to find object streams
-package acroform
-
-import (
-	"regexp"
-	"strconv"
-
-	"github.com/benedoc-inc/pdfer/core/parse"
-	"github.com/benedoc-inc/pdfer/types"
-)
-
-// findStreamForObject finds which object stream contains a given object
-func findStreamForObject(pdfBytes []byte, objNum int, encryptInfo *types.PDFEncryption, verbose bool) int {
-	// Parse xref to find object stream info
-	startXRef := findStartXRef(pdfBytes)
-	if startXRef < 0 {
-		return 0
-	}
-
-	xrefResult, err := parse.ParseXRefStreamFull(pdfBytes, int64(startXRef), false)
-	if err != nil {
-		return 0
-	}
-
-	// Check if object is in a stream
-	if entry, ok := xrefResult.ObjectStreams[objNum]; ok {
-		return entry.StreamObjNum
-	}
-
-	return 0
-}
-
-// findStartXRef finds the startxref position
-func findStartXRef(pdfBytes []byte) int64 {
-	// Search from end
-	searchLen := 1024
-	if len(pdfBytes) < searchLen {
-		searchLen = len(pdfBytes)
-	}
-
-	tail := pdfBytes[len(pdfBytes)-searchLen:]
-	pattern := regexp.MustCompile(`startxref\s+(\d+)`)
-	match := pattern.FindSubmatch(tail)
-	if match != nil {
-		val, err := strconv.ParseInt(string(match[1]), 10, 64)
-		if err == nil {
-			return val
-		}
-	}
-	return -1
-}
diff --git a/forms/acroform/update.go b/forms/acroform/update.go
new file mode 100644
index 0000000..058e46a
--- /dev/null
+++ b/forms/acroform/update.go
@@ -0,0 +1,134 @@
+// Package acroform provides incremental updates for form filling
+package acroform
+
+import (
+	"bytes"
+	"compress/zlib"
+	"encoding/binary"
+	"fmt"
+	"sort"
+	"strconv"
+	"strings"
+
+	"github.com/benedoc-inc/pdfer/core/parse"
+)
+
+// updatedObject is the new content of an object
+type updatedObject struct {
+	generation int
+	content    []byte
+}
+
+// appendUpdate appends new versions of objects to a PDF, as an incremental update with a cross-reference
+// section of the kind the PDF has. What is in the PDF stays where it is.
+func appendUpdate(pdfBytes []byte, updates map[int]updatedObject) ([]byte, error) {
+	startXRef, err := lastXRef(pdfBytes)
+	if err != nil {
+		return nil, err
+	}
+	section := strings.TrimLeft(string(pdfBytes[startXRef:]), " \t\r\n")
+	isTable := strings.HasPrefix(section, "xref")
+	if isTable {
+		section = section[max(strings.Index(section, "trailer"), 0):]
+	}
+	size, err := strconv.Atoi(parse.DictValue(section, "/Size"))
+	if err != nil {
+		return nil, fmt.Errorf("trailer size not found: %w", err)
+	}
+
+	objNums := make([]int, 0, len(updates)+1)
+	for objNum := range updates {
+		objNums = append(objNums, objNum)
+		size = max(size, objNum+1)
+	}
+	sort.Ints(objNums)
+
+	result, offsets := appendObjects(pdfBytes, objNums, updates)
+	newXRef := len(result)
+	if isTable {
+		result = append(result, xrefTable(objNums, offsets, updates)...)
+		result = append(result, "trailer\n<< "+updateTrailer(section, size, startXRef)+" >>\n"...)
+	} else { // the cross-reference stream is an object too, and the last one
+		objNums = append(objNums, size)
+		offsets = append(offsets, newXRef)
+		result = append(result, xrefStream(size, updateTrailer(section, size+1, startXRef), objNums, offsets, updates)...)
+	}
+	return append(result, fmt.Sprintf("startxref\n%d\n%%%%EOF\n", newXRef)...), nil
+}
+
+// appendObjects appends objects to a PDF and gives the position of each
+func appendObjects(pdfBytes []byte, objNums []int, updates map[int]updatedObject) ([]byte, []int) {
+	result := append([]byte(nil), pdfBytes...)
+	if n := len(result); n > 0 && result[n-1] != '\n' {
+		result = append(result, '\n')
+	}
+	offsets := make([]int, 0, len(objNums)+1)
+	for _, objNum := range objNums {
+		offsets = append(offsets, len(result))
+		result = append(result, fmt.Sprintf("%d %d obj\n%s\nendobj\n", objNum, updates[objNum].generation, updates[objNum].content)...)
+	}
+	return result, offsets
+}
+
+// updateTrailer gives the entries of the trailer of an update, from those of the trailer before it
+func updateTrailer(previous string, size, prev int) string {
+	trailer := fmt.Sprintf("/Size %d /Prev %d", size, prev)
+	for _, key := range []string{"/Root", "/Info", "/ID", "/Encrypt"} {
+		if value := parse.DictValue(previous, key); value != "" {
+			trailer += " " + key + " " + value
+		}
+	}
+	return trailer
+}
+
+// xrefTable gives the cross-reference table for objects
+func xrefTable(objNums, offsets []int, updates map[int]updatedObject) []byte {
+	table := []byte("xref\n")
+	for i, objNum := range objNums {
+		table = append(table, fmt.Sprintf("%d 1\n%010d %05d n \n", objNum, offsets[i], updates[objNum].generation)...)
+	}
+	return table
+}
+
+// xrefStream gives the object that is the cross-reference stream for objects
+func xrefStream(num int, trailer string, objNums, offsets []int, updates map[int]updatedObject) []byte {
+	index := ""
+	var entries []byte
+	for i, objNum := range objNums {
+		index += fmt.Sprintf("%d 1 ", objNum)
+		entries = append(entries, 1)
+		entries = binary.BigEndian.AppendUint64(entries, uint64(offsets[i]))
+		entries = binary.BigEndian.AppendUint16(entries, uint16(updates[objNum].generation))
+	}
+	entries = compress(entries)
+	stream := fmt.Appendf(nil, "%d 0 obj\n<< /Type /XRef %s /W [1 8 2] /Index [%s] /Filter /FlateDecode /Length %d >>\nstream\n",
+		num, trailer, strings.TrimSpace(index), len(entries))
+	stream = append(stream, entries...)
+	return append(stream, "\nendstream\nendobj\n"...)
+}
+
+// lastXRef gives the position of the last cross-reference section
+func lastXRef(pdfBytes []byte) (int, error) {
+	i := bytes.LastIndex(pdfBytes, []byte("startxref"))
+	if i == -1 {
+		return 0, fmt.Errorf("startxref not found")
+	}
+	fields := strings.Fields(string(pdfBytes[i+len("startxref") : min(i+len("startxref")+40, len(pdfBytes))]))
+	if len(fields) == 0 {
+		return 0, fmt.Errorf("startxref not found")
+	}
+	startXRef, err := strconv.Atoi(fields[0])
+	if err != nil || startXRef < 0 || startXRef >= len(pdfBytes) {
+		return 0, fmt.Errorf("invalid startxref: %s", fields[0])
+	}
+	return startXRef, nil
+}
+
+// compress compresses data for the FlateDecode filter
+func compress(data []byte) []byte {
+	var buf bytes.Buffer
+	zw := zlib.NewWriter(&buf)
+	zw.Write(data)
+	zw.Close()
+	return buf.Bytes()
+}
diff --git a/forms/acroform/validation.go b/forms/acroform/validation.go
index d984078..e2da45f 100644
--- a/forms/acroform/validation.go
+++ b/forms/acroform/validation.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"regexp"
 	"strconv"
+	"unicode/utf8"
 
 	"github.com/benedoc-inc/pdfer/types"
 )
@@ -66,7 +67,7 @@ func validateTextField(field *Field, value interface{}) error {
 	}
 
 	// Check max length
-	if field.MaxLen > 0 && len(valueStr) > field.MaxLen {
+	if field.MaxLen > 0 && utf8.RuneCountInString(valueStr) > field.MaxLen {
 		return &ValidationError{
 			FieldName: field.GetFullName(),
 			Message:   fmt.Sprintf("value exceeds maximum length of %d", field.MaxLen),
@@ -86,18 +87,8 @@ func validateTextField(field *Field, value interface{}) error {
 
 // validateButtonField validates a button field (checkbox/radio/button)
 func validateButtonField(field *Field, value interface{}) error {
-	// Checkbox validation
-	if (field.Ff & 0x8000) != 0 { // Checkbox flag
-		// Checkbox values are typically "Yes", "On", "Off", or appearance state names
-		valueStr := fmt.Sprintf("%v", value)
-		if valueStr != "Yes" && valueStr != "On" && valueStr != "Off" && valueStr != "No" {
-			// Allow custom appearance state names
-			return nil
-		}
-	}
-
 	// Radio button validation
-	if (field.Ff & 0x10000) != 0 { // Radio button flag
+	if (field.Ff&flagRadio) != 0 && (field.Ff&flagPushbutton) == 0 {
 		// Radio buttons should match one of the option values
 		if len(field.Opt) > 0 {
 			valueStr := fmt.Sprintf("%v", value)
@@ -184,7 +175,10 @@ func ValidateFormData(acroForm *AcroForm, formData types.FormData) []error {
 	}
 
 	// Check for missing required fields
-	for _, field := range acroForm.Fields {
+	walkFields(acroForm.Fields, func(field *Field) {
+		if field.hasFields() {
+			return // the fields under it have values, not the field itself
+		}
 		if (field.Ff & 0x2) != 0 { // Required flag
 			fieldName := field.GetFullName()
 			if _, found := formData[fieldName]; !found {
@@ -195,21 +189,7 @@ func ValidateFormData(acroForm *AcroForm, formData types.FormData) []error {
 				})
 			}
 		}
-
-		// Check child fields too
-		for _, kid := range field.Kids {
-			if (kid.Ff & 0x2) != 0 {
-				kidName := kid.GetFullName()
-				if _, found := formData[kidName]; !found {
-					errors = append(errors, &ValidationError{
-						FieldName: kidName,
-						Message:   "required field is missing",
-						Value:     nil,
-					})
-				}
-			}
-		}
-	}
+	})
 
 	return errors
 }
@@ -233,7 +213,7 @@ func ValidateFieldValue(question *types.Question, value interface{}) error {
 	}
 
 	// Check min length
-	if question.Validation.MinLength != nil && len(valueStr) < *question.Validation.MinLength {
+	if question.Validation.MinLength != nil && utf8.RuneCountInString(valueStr) < *question.Validation.MinLength {
 		return &ValidationError{
 			FieldName: question.Name,
 			Message:   fmt.Sprintf("value is too short (minimum %d characters)", *question.Validation.MinLength),
@@ -242,7 +222,7 @@ func ValidateFieldValue(question *types.Question, value interface{}) error {
 	}
 
 	// Check max length
-	if question.Validation.MaxLength != nil && len(valueStr) > *question.Validation.MaxLength {
+	if question.Validation.MaxLength != nil && utf8.RuneCountInString(valueStr) > *question.Validation.MaxLength {
 		return &ValidationError{
 			FieldName: question.Name,
 			Message:   fmt.Sprintf("value is too long (maximum %d characters)", *question.Validation.MaxLength),
diff --git a/forms/acroform/writer.go b/forms/acroform/writer.go
index b19b7cf..e52bb49 100644
--- a/forms/acroform/writer.go
+++ b/forms/acroform/writer.go
@@ -54,11 +54,10 @@ func (fb *FieldBuilder) AddTextField(name string, rect []float64, page int) *Fie
 // AddCheckbox adds a checkbox field
 func (fb *FieldBuilder) AddCheckbox(name string, rect []float64, page int) *FieldDef {
 	field := &FieldDef{
-		Name:  name,
-		Type:  "Btn",
-		Rect:  rect,
-		Page:  page,
-		Flags: 0x8000, // Checkbox flag
+		Name: name,
+		Type: "Btn",
+		Rect: rect,
+		Page: page,
 	}
 	fb.fields = append(fb.fields, field)
 	return field
@@ -71,7 +70,7 @@ func (fb *FieldBuilder) AddRadioButton(name string, rect []float64, page int) *F
 		Type:  "Btn",
 		Rect:  rect,
 		Page:  page,
-		Flags: 0x10000, // Radio button flag
+		Flags: flagRadio,
 	}
 	fb.fields = append(fb.fields, field)
 	return field
@@ -93,10 +92,11 @@ func (fb *FieldBuilder) AddChoiceField(name string, rect []float64, page int, op
 // AddButton adds a push button
 func (fb *FieldBuilder) AddButton(name string, rect []float64, page int) *FieldDef {
 	field := &FieldDef{
-		Name: name,
-		Type: "Btn",
-		Rect: rect,
-		Page: page,
+		Name:  name,
+		Type:  "Btn",
+		Rect:  rect,
+		Page:  page,
+		Flags: flagPushbutton,
 	}
 	fb.fields = append(fb.fields, field)
 	return field
@@ -173,7 +173,7 @@ func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
 
 	// Field name
 	if field.Name != "" {
-		dict.WriteString(fmt.Sprintf(" /T (%s)", escapeFieldName(field.Name)))
+		dict.WriteString(fmt.Sprintf(" /T (%s)", escapeText(field.Name)))
 	}
 
 	// Rectangle
@@ -190,13 +190,13 @@ func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
 	// Value
 	if field.Value != nil {
 		valueStr := formatFieldValueForWriter(field.Value, field.Type)
-		dict.WriteString(fmt.Sprintf(" /V (%s)", escapeFieldValueForWriter(valueStr)))
+		dict.WriteString(fmt.Sprintf(" /V (%s)", escapeText(valueStr)))
 	}
 
 	// Default value
 	if field.DefaultValue != nil {
 		valueStr := formatFieldValueForWriter(field.DefaultValue, field.Type)
-		dict.WriteString(fmt.Sprintf(" /DV (%s)", escapeFieldValueForWriter(valueStr)))
+		dict.WriteString(fmt.Sprintf(" /DV (%s)", escapeText(valueStr)))
 	}
 
 	// Maximum length
@@ -211,7 +211,7 @@ func (fb *FieldBuilder) createFieldObject(field *FieldDef) int {
 			if i > 0 {
 				dict.WriteString(" ")
 			}
-			dict.WriteString(fmt.Sprintf("(%s)", escapeFieldValue(opt)))
+			dict.WriteString(fmt.Sprintf("(%s)", escapeText(opt)))
 		}
 		dict.WriteString("]")
 	}
@@ -246,39 +246,6 @@ func formatFieldValueForWriter(value interface{}, fieldType string) string {
 	}
 }
 
-// escapeFieldName escapes special characters in field names
-func escapeFieldName(s string) string {
-	return escapeFieldValueForWriter(s)
-}
-
-// escapeFieldValueForWriter escapes special characters in field values
-func escapeFieldValueForWriter(s string) string {
-	var result strings.Builder
-	for _, r := range s {
-		switch r {
-		case '\\':
-			result.WriteString("\\\\")
-		case '(':
-			result.WriteString("\\(")
-		case ')':
-			result.WriteString("\\)")
-		case '\n':
-			result.WriteString("\\n")
-		case '\r':
-			result.WriteString("\\r")
-		case '\t':
-			result.WriteString("\\t")
-		default:
-			if r > 127 {
-				result.WriteString(fmt.Sprintf("\\%03o", r))
-			} else {
-				result.WriteRune(r)
-			}
-		}
-	}
-	return result.String()
-}
-
 // AddAcroFormToCatalog adds AcroForm reference to catalog
 func AddAcroFormToCatalog(w *write.PDFWriter, catalogNum, acroFormNum int) error {
 	// Get existing catalog
-- 
2.43.0


From 305eb3cb8ed822d02cf9e022b6857fad2a9c02d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:19 +0000
Subject: [PATCH 35/35] fix: an option with a text to show is one option, with
 its export value

---
 forms/acroform/dictionary.go | 10 +++++-----
 forms/acroform/parser.go     |  8 ++++++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/forms/acroform/dictionary.go b/forms/acroform/dictionary.go
index fd6643d..f2f5f81 100644
--- a/forms/acroform/dictionary.go
+++ b/forms/acroform/dictionary.go
@@ -161,11 +161,11 @@ func unescapeBytes(s string) string {
 // arrayValues gives the elements of an array, with those of the arrays in it
 func arrayValues(array string) []string {
 	var values []string
-	for i := parse.SkipSpace(array, 0); i < len(array); i = parse.SkipSpace(array, i) {
-		if array[i] == '[' || array[i] == ']' {
-			i++
-			continue
-		}
+	first := parse.SkipSpace(array, 0)
+	if first < len(array) && array[first] == '[' {
+		first++
+	}
+	for i := parse.SkipSpace(array, first); i < len(array) && array[i] != ']'; i = parse.SkipSpace(array, i) {
 		start := i
 		i = parse.SkipValue(array, i)
 		values = append(values, array[start:i])
diff --git a/forms/acroform/parser.go b/forms/acroform/parser.go
index eb492b7..318b8ea 100644
--- a/forms/acroform/parser.go
+++ b/forms/acroform/parser.go
@@ -204,11 +204,15 @@ func (p *formParser) parseField(dict string, field *Field) {
 		field.MaxLen = maxLen
 	}
 
-	// Options of choice fields: strings, or arrays of an export value and the text to show
+	// Options of choice fields: strings, or arrays of an export value, which is what /V has, and the text to show
 	if opt := value("/Opt"); strings.HasPrefix(opt, "[") {
 		field.Opt = make([]interface{}, 0)
 		for _, item := range arrayValues(opt) {
-			if item = p.resolve(item); isText(item) {
+			item = p.resolve(item)
+			if pair := arrayValues(item); strings.HasPrefix(item, "[") && len(pair) > 0 {
+				item = p.resolve(pair[0])
+			}
+			if isText(item) {
 				field.Opt = append(field.Opt, decodeText(item))
 			}
 		}
-- 
2.43.0

