// Encryption: per-object keys, object ciphers, password algorithms.
package github.com/benedoc-inc/pdfer/core/encrypt
props C06

spec le3(n int) bytes = [n % 256, (n / 256) % 256, (n / 65536) % 256]
spec le2(n int) bytes = [n % 256, (n / 256) % 256]
// Algorithm 1 of ISO 32000-1: file key, object number, generation (key before hashing)
spec objseed(key bytes, n int, num int, gen int) bytes = key[0..n] ++ le3(num) ++ le2(gen)
spec rc4key(key bytes, n int, num int, gen int) bytes = md5(objseed(key, n, num, gen))[0..min(n+5, 16)]
spec aeskey(key bytes, n int, num int, gen int) bytes = md5(objseed(key, n, num, gen) ++ [115, 65, 108, 84])[0..min(n+5, 16)]

spec unpad(p bytes) bytes = p[0..len(p)-p[len(p)-1]]

func DecryptObject(objBytes, objNum, genNum, enc) (r, err)
    attr merge on
    ensures @plain isnil(enc) ==> isnil(err) && r == objBytes
    ensures @nokey !isnil(enc) && len(enc.EncryptKey) == 0 ==> isnil(err) && r == objBytes
    ensures @rc4v1 !isnil(enc) && enc.V == 1 && len(enc.EncryptKey) >= 5 ==> isnil(err) && r == rc4(rc4key(enc.EncryptKey, 5, objNum, genNum), objBytes)
    ensures @rc4v2 !isnil(enc) && enc.V == 2 && len(enc.EncryptKey) > 0 && 0 <= enc.KeyLength && enc.KeyLength <= len(enc.EncryptKey) ==> isnil(err) && r == rc4(rc4key(enc.EncryptKey, enc.KeyLength, objNum, genNum), objBytes)
    ensures @aes128 !isnil(enc) && enc.V == 4 && enc.KeyLength == 16 && len(enc.EncryptKey) >= 16 && len(objBytes) >= 32 && len(objBytes) % 16 == 0 && isnil(err) ==> r == unpad(cbcdec(aeskey(enc.EncryptKey, 16, objNum, genNum), objBytes[0..16], objBytes[16..]))
    ensures @aes128ok !isnil(enc) && enc.V == 4 && enc.KeyLength == 16 && len(enc.EncryptKey) >= 16 && len(objBytes) >= 32 && len(objBytes) % 16 == 0 && cbcdec(aeskey(enc.EncryptKey, 16, objNum, genNum), objBytes[0..16], objBytes[16..])[len(objBytes)-17] <= 16 ==> isnil(err)
    ensures @aes256 !isnil(enc) && enc.V == 5 && enc.KeyLength == 32 && len(enc.EncryptKey) == 32 && len(objBytes) >= 32 && len(objBytes) % 16 == 0 && isnil(err) ==> r == unpad(cbcdec(enc.EncryptKey, objBytes[0..16], objBytes[16..]))
    ensures @aes256ok !isnil(enc) && enc.V == 5 && enc.KeyLength == 32 && len(enc.EncryptKey) == 32 && len(objBytes) >= 32 && len(objBytes) % 16 == 0 && cbcdec(enc.EncryptKey, objBytes[0..16], objBytes[16..])[len(objBytes)-17] <= 16 ==> isnil(err)
    ensures @short !isnil(enc) && len(enc.EncryptKey) > 0 && (enc.V == 4 || enc.V == 5) && (len(objBytes) < 16 || len(objBytes) % 16 != 0) ==> !isnil(err)

props C07
func parseHexString(hexStr) (r)
spec zeros8() bytes = [0, 0, 0, 0, 0, 0, 0, 0]
spec id8(id bytes) bytes = if len(id) >= 8 then id[0..8] else id ++ zeros8()[0..8-len(id)]
spec rec sharounds(x bytes, i int) bytes = if i <= 0 then x else sha256(sharounds(x, i-1))
spec v5key(pw bytes, id bytes) bytes = sharounds(sha256(pw ++ id8(id)), 64)
spec ecb2(k bytes, h bytes) bytes = aesenc(k, h[0..16]) ++ aesenc(k, h[16..32])
spec uok(pw bytes, k bytes, u bytes) bool = len(u) >= 48 && u[8..40] == ecb2(k[0..16], sha256(pw ++ u[0..8]))
spec ook(pw bytes, k bytes, o bytes, u bytes) bool = len(o) >= 48 && o[8..40] == ecb2(k[0..16], sha256(pw ++ o[0..8] ++ u))
func DeriveEncryptionKeyV5(password, enc, fileID, verbose) (r, err)
    attr unroll off
    attr fuel 1
    attr nodefaults on
    attr merge same
    inv [i int] 0 <= i && i <= 64
    inv [key bytes, i int] key == sharounds(sha256(password ++ id8(fileID)), i)
    ensures @key r == v5key(password, fileID)
    requires !isnil(enc)
    ensures @len isnil(err) && len(r) == 32
func UnwrapUserKeyV5(pk, enc, verbose) (r, err)
    inv [i int] i % 16 == 0
    requires !isnil(enc)
func UnwrapOwnerKeyV5(pk, enc, verbose) (r, err)
    inv [i int] i % 16 == 0
    requires !isnil(enc)
func ComputeUValueV5(pw, pk, enc, fid, verbose) (r, err)
    attr merge same
    requires !isnil(enc)
    ensures @u isnil(err) ==> r == enc.U[0..8] ++ ecb2(pk[0..16], sha256(pw ++ enc.U[0..8])) ++ enc.U[40..48]
    ensures @ok isnil(err) <==> len(enc.U) >= 48 && len(pk) >= 16
func VerifyUValueV5(pw, pk, enc, fid, verbose) (r, err)
    attr merge same
    requires !isnil(enc)
    ensures @user isnil(err) ==> (r <==> uok(pw, pk, enc.U))
    ensures @ok len(pk) >= 16 && len(enc.U) >= 48 ==> isnil(err)
func VerifyOValueV5(pw, pk, enc, verbose) (r, err)
    attr merge same
    requires !isnil(enc)
    ensures @owner isnil(err) ==> (r <==> ook(pw, pk, enc.O, enc.U))
    ensures @ok len(pk) >= 16 && len(enc.O) >= 48 ==> isnil(err)
// Algorithm 2 of ISO 32000-1
spec padstr() bytes = [0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41, 0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08, 0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80, 0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A]
spec pad32(p bytes) bytes = if len(p) >= 32 then p[0..32] else p ++ padstr()[0..32-len(p)]
spec u32(p int) int = p % 4294967296
spec le4(u int) bytes = [u % 256, (u / 256) % 256, (u / 65536) % 256, (u / 16777216) % 256]
spec rec md5rounds(x bytes, n int, i int) bytes = if i <= 0 then x else md5(md5rounds(x, n, i-1)[0..n])
spec seed2(pw bytes, o bytes, p int, id bytes, r int, em bool) bytes = pad32(pw) ++ o ++ le4(u32(p)) ++ id ++ (if r >= 4 && !em then [255, 255, 255, 255] else [])
spec filekey(pw bytes, o bytes, p int, id bytes, r int, em bool, n int) bytes = md5rounds(md5(seed2(pw, o, p, id, r, em)), n, if r >= 3 then 50 else 0)[0..n]
func DeriveEncryptionKey(pw, enc, fid, verbose) (r, err)
    attr merge same
    attr fuel 1
    attr nodefaults on
    inv [i int] 0 <= i && i <= 50
    inv [key bytes] len(key) == 16
    inv [key bytes, i int] key == md5rounds(md5(seed2(pw, enc.O, enc.P, fid, enc.R, enc.EncryptMetadata)), enc.KeyLength, i)
    ensures @alg2 enc.R < 5 && 0 <= enc.KeyLength && enc.KeyLength <= 16 ==> isnil(err) && r == filekey(pw, enc.O, enc.P, fid, enc.R, enc.EncryptMetadata, enc.KeyLength)
    ensures @bad enc.R < 5 && (enc.KeyLength < 0 || enc.KeyLength > 16) ==> !isnil(err)
    attr unroll off
    requires !isnil(enc)
func DeriveOwnerKey(pw, enc, fid, verbose) (r, err)
    attr unroll off
    attr merge on
    requires !isnil(enc)
func ComputeUValue(key, enc, fid, verbose) (r, err)
    ensures @r2 enc.R == 2 && isnil(err) ==> r == rc4(key, padstr())
    ensures @len isnil(err) ==> len(r) == 32
    attr unroll off
    attr merge on
    requires !isnil(enc)
func readLiteralString(b) (r)
    attr merge on
func ExtractFileID(b, verbose) (r)
    attr merge on
// its result shape only: run-time safety of this function is left to the executable contract
func ParseEncryptionDictionary(b, verbose) (r, err)
    attr safety off
    attr termination off
    attr nodefaults on
    attr merge on
    ensures @ok isnil(err) ==> !isnil(r)
func DecryptPDF(b, pw, verbose) (r, e, err)
    attr merge same
    ensures @bytes isnil(err) ==> r == b && !isnil(e)


props C06
// what encryptStream writes is what DecryptObject gives back (together with their postconditions above)
lemma aes_roundtrip(d bytes, p bytes)
    requires prefix(d, p) && len(p) == len(d) + 16 - len(d) % 16 && p[len(p)-1] == 16 - len(d) % 16
    ensures  unpad(p) == d
lemma rc4_roundtrip(k bytes, d bytes)
    ensures  rc4(k, rc4(k, d)) == d

package github.com/benedoc-inc/pdfer/core/write
func (*PDFWriter).encryptStream(w, data, objNum, genNum) (r, err)
    inv [padded bytes, i int] len(data) <= i && prefix(data, padded) && len(padded) == len(data) + 16 - len(data) % 16
    inv [padded bytes, i int] i > len(data) ==> padded[i-1] == 16 - len(data) % 16
    attr merge on
    requires !isnil(w) && objNum >= 0 && genNum >= 0
    ensures @rc4v1 !isnil(w.encryptInfo) && w.encryptInfo.V == 1 && len(w.encryptInfo.EncryptKey) >= 5 ==> isnil(err) && r == rc4(rc4key(w.encryptInfo.EncryptKey, 5, objNum, genNum), data)
    ensures @rc4v2 !isnil(w.encryptInfo) && w.encryptInfo.V == 2 && len(w.encryptInfo.EncryptKey) > 0 && 0 < w.encryptInfo.KeyLength && w.encryptInfo.KeyLength <= len(w.encryptInfo.EncryptKey) ==> isnil(err) && r == rc4(rc4key(w.encryptInfo.EncryptKey, w.encryptInfo.KeyLength, objNum, genNum), data)
    ensures @aes128 !isnil(w.encryptInfo) && w.encryptInfo.V == 4 && w.encryptInfo.KeyLength == 16 && len(w.encryptInfo.EncryptKey) >= 16 && isnil(err) ==> len(r) == len(data) + 32 - len(data) % 16 && prefix(data, cbcdec(aeskey(w.encryptInfo.EncryptKey, 16, objNum, genNum), r[0..16], r[16..])) && cbcdec(aeskey(w.encryptInfo.EncryptKey, 16, objNum, genNum), r[0..16], r[16..])[len(r)-17] == 16 - len(data) % 16
    ensures @aes256 !isnil(w.encryptInfo) && w.encryptInfo.V == 5 && w.encryptInfo.KeyLength == 32 && len(w.encryptInfo.EncryptKey) == 32 && isnil(err) ==> len(r) == len(data) + 32 - len(data) % 16 && prefix(data, cbcdec(w.encryptInfo.EncryptKey, r[0..16], r[16..])) && cbcdec(w.encryptInfo.EncryptKey, r[0..16], r[16..])[len(r)-17] == 16 - len(data) % 16
    ensures @plain isnil(w.encryptInfo) ==> isnil(err) && r == data
