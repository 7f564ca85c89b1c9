package encrypt_test

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/rc4"
	"fmt"
	"math/rand"
	"testing"

	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/types"
)

// An independent implementation of the standard security handler, revisions 2 to 4 (ISO 32000-1, 7.6.3).
var stdPad = []byte("\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A")

func pad32(p []byte) []byte { return append(append([]byte{}, p...), stdPad...)[:32] }
func doRC4(k, d []byte) []byte {
	c, err := rc4.NewCipher(k)
	if err != nil {
		panic(err)
	}
	o := make([]byte, len(d))
	c.XORKeyStream(o, d)
	return o
}
func xorKey(k []byte, b byte) []byte {
	o := append([]byte{}, k...)
	for i := range o {
		o[i] ^= b
	}
	return o
}
func sum(d []byte) []byte { h := md5.Sum(d); return h[:] }

func refKey(pw, o []byte, p int32, id []byte, r int, em bool, n int) []byte {
	d := append(pad32(pw), o...)
	d = append(d, byte(p), byte(p>>8), byte(p>>16), byte(p>>24))
	d = append(d, id...)
	if r >= 4 && !em {
		d = append(d, 255, 255, 255, 255)
	}
	k := sum(d)
	if r >= 3 {
		for i := 0; i < 50; i++ {
			k = sum(k[:n])
		}
	}
	return k[:n]
}
func refO(owner, user []byte, r, n int) []byte {
	k := sum(pad32(owner))
	if r >= 3 {
		for i := 0; i < 50; i++ {
			k = sum(k)
		}
	}
	k = k[:n]
	o := doRC4(k, pad32(user))
	if r >= 3 {
		for i := 1; i <= 19; i++ {
			o = doRC4(xorKey(k, byte(i)), o)
		}
	}
	return o
}
func refU(key, id []byte, r int) []byte {
	if r == 2 {
		return doRC4(key, stdPad)
	}
	u := doRC4(key, sum(append(append([]byte{}, stdPad...), id...)))
	for i := 1; i <= 19; i++ {
		u = doRC4(xorKey(key, byte(i)), u)
	}
	return append(u, make([]byte, 16)...)
}
func refObjKey(key []byte, num, gen int, aesv2 bool) []byte {
	d := append(append([]byte{}, key...), byte(num), byte(num>>8), byte(num>>16), byte(gen), byte(gen>>8))
	if aesv2 {
		d = append(d, "sAlT"...)
	}
	return sum(d)[:min(len(key)+5, 16)]
}

type doc struct {
	v, r, n     int
	user, owner []byte
	id          []byte
	p           int32
	em          bool
	key, o, u   []byte
	pdf         []byte
}

func genDoc(rng *rand.Rand, lit bool) *doc {
	d := &doc{em: true, p: int32(rng.Uint32()), id: vBytes(rng, 16, "")}
	switch rng.Intn(3) {
	case 0:
		d.v, d.r, d.n = 1, 2, 5
	case 1:
		d.v, d.r, d.n = 2, 3, 5+rng.Intn(12)
	default:
		d.v, d.r, d.n = 4, 4, 16
		d.em = rng.Intn(2) == 0
	}
	if d.r == 3 && rng.Intn(3) == 0 {
		d.n = 16
	}
	d.user = vBytes(rng, []int{0, 1, 5, 8, 31, 32, 33, 40}[rng.Intn(8)], "")
	d.owner = vBytes(rng, []int{1, 4, 9, 16, 31, 32, 45}[rng.Intn(7)], "")
	d.o = refO(d.owner, d.user, d.r, d.n)
	d.key = refKey(d.user, d.o, d.p, d.id, d.r, d.em, d.n)
	d.u = refU(d.key, d.id, d.r)
	var b bytes.Buffer
	num := 1 + rng.Intn(30)
	other := num + 10*(1+rng.Intn(3)) // its header ends like the one of the encryption dictionary
	fmt.Fprintf(&b, "%%PDF-1.5\n%d 0 obj\n<< /Type /Catalog >>\nendobj\n", other)
	str := func(s []byte) string { return fmt.Sprintf("<%X>", s) }
	if lit {
		str = func(s []byte) string {
			o := "("
			for _, c := range s {
				switch c {
				case '(', ')', '\\':
					o += "\\" + string(rune(c))
				case '\r':
					o += "\\r"
				default:
					o += string([]byte{c})
				}
			}
			return o + ")"
		}
	}
	fmt.Fprintf(&b, "%d 0 obj\n<< /Filter /Standard /V %d /R %d /Length %d /P %d /O %s /U %s", num, d.v, d.r, d.n*8, d.p, str(d.o), str(d.u))
	if d.v == 4 {
		b.WriteString(" /CF << /StdCF << /AuthEvent /DocOpen /CFM /AESV2 /Length 16 >> >> /StmF /StdCF /StrF /StdCF")
	}
	if !d.em {
		b.WriteString(" /EncryptMetadata false")
	}
	b.WriteString(" >>\nendobj\n")
	x := b.Len()
	fmt.Fprintf(&b, "xref\n0 1\n0000000000 65535 f \ntrailer\n<< /Size 100 /Root %d 0 R /Encrypt %d 0 R /ID [ <%X> <%X> ] >>\nstartxref\n%d\n%%%%EOF\n", other, num, d.id, vBytes(rng, 16, ""), x)
	d.pdf = b.Bytes()
	return d
}

func tryOpen(v *vT, d *doc, pw []byte, what string) {
	v.in(what, fmt.Sprintf("V%d R%d n=%d em=%v user=%q owner=%q", d.v, d.r, d.n, d.em, d.user, d.owner), pw, d.pdf)
	v.safe(func() {
		in := append([]byte{}, d.pdf...)
		out, e, err := encrypt.DecryptPDF(d.pdf, pw, false)
		if !bytes.Equal(in, d.pdf) {
			v.fail("the input was modified")
		}
		if what == "wrong" {
			if err == nil {
				v.fail("a wrong password was accepted (key %x)", e.EncryptKey)
			}
			return
		}
		if err != nil {
			v.fail("the %s password was refused: %v", what, err)
			return
		}
		if !bytes.Equal(e.EncryptKey, d.key) {
			v.fail("the %s password gives key %x, the document's key is %x", what, e.EncryptKey, d.key)
		}
		if !bytes.Equal(out, in) {
			v.fail("the returned document differs from the input")
		}
	})
}

func TestVerif_C07_passwords(t *testing.T) {
	vRun(t, "random documents of revisions 2 to 4, key lengths 40 to 128 bits, passwords of 0 to 45 bytes; both passwords and wrong ones", func(v *vT) {
		for k := 0; k < vN(1500, 20000); k++ {
			d := genDoc(v.rng, false)
			tryOpen(v, d, d.user, "user")
			tryOpen(v, d, d.owner, "owner")
			w := append([]byte{}, d.user...)
			switch v.rng.Intn(4) {
			case 0:
				w = vBytes(v.rng, v.rng.Intn(20), "")
			case 1:
				w = append(w, 'x')
			case 2:
				if len(w) > 0 {
					w[v.rng.Intn(len(w))] ^= 1 << v.rng.Intn(8)
				}
			default:
				w = append([]byte{}, d.owner...)
				w[v.rng.Intn(len(w))] ^= 1 << v.rng.Intn(8)
			}
			if bytes.Equal(pad32(w), pad32(d.user)) || bytes.Equal(pad32(w), pad32(d.owner)) {
				continue
			}
			tryOpen(v, d, w, "wrong")
		}
	})
}

// O and U as literal strings: the bytes ( ) \ and CR are escaped.
func TestVerif_C07_literal(t *testing.T) {
	vRun(t, "as above with /O and /U written as literal strings", func(v *vT) {
		for k := 0; k < vN(300, 3000); k++ {
			d := genDoc(v.rng, true)
			esc := bytes.ContainsAny(append(append([]byte{}, d.o...), d.u...), "()\\\r")
			v.in(fmt.Sprintf("V%d R%d", d.v, d.r), d.user, d.pdf)
			v.safe(func() {
				_, e, err := encrypt.DecryptPDF(d.pdf, d.user, false)
				if err != nil || !bytes.Equal(e.EncryptKey, d.key) {
					if esc {
						v.failKey("ou-literal-escapes", "the user password does not open a document whose /O or /U string contains an escaped byte: %v", err)
					} else {
						v.fail("the user password does not open the document: %v", err)
					}
				}
			})
		}
	})
}

// keys against Algorithm 2 directly, also where no document is involved
func TestVerif_C07_keys(t *testing.T) {
	vRun(t, "DeriveEncryptionKey and ComputeUValue against Algorithms 2, 4 and 5 for random arguments", func(v *vT) {
		for k := 0; k < vN(3000, 40000); k++ {
			d := genDoc(v.rng, false)
			e := &types.PDFEncryption{V: d.v, R: d.r, KeyLength: d.n, O: d.o, U: d.u, P: d.p, EncryptMetadata: d.em}
			v.in(fmt.Sprintf("V%d R%d n=%d P=%d em=%v", d.v, d.r, d.n, d.p, d.em), d.user, d.o, d.id)
			v.safe(func() {
				k1, err := encrypt.DeriveEncryptionKey(d.user, e, d.id, false)
				if err != nil || !bytes.Equal(k1, d.key) {
					v.fail("DeriveEncryptionKey = %x, %v; Algorithm 2 gives %x", k1, err, d.key)
				}
				u, err := encrypt.ComputeUValue(d.key, e, d.id, false)
				if err != nil || len(u) != 32 || !bytes.Equal(u[:16], d.u[:16]) {
					v.fail("ComputeUValue = %x, %v; Algorithms 4/5 give %x", u, err, d.u)
				}
				k2, err := encrypt.DeriveOwnerKey(d.owner, e, d.id, false)
				if err != nil || !bytes.Equal(k2, d.key) {
					v.fail("DeriveOwnerKey = %x, %v; Algorithm 7 gives %x", k2, err, d.key)
				}
			})
		}
	})
}

func TestVerif_C06_decrypt(t *testing.T) {
	vRun(t, "DecryptObject against Algorithm 1 for random keys, object and generation numbers up to 24 and 16 bits, data of 0 to 200 bytes", func(v *vT) {
		nums := []int{0, 1, 2, 255, 256, 257, 65535, 65536, 70000, 1<<24 - 1}
		for k := 0; k < vN(20000, 300000); k++ {
			num, gen := nums[v.rng.Intn(len(nums))], []int{0, 1, 255, 256, 65535}[v.rng.Intn(5)]
			if v.rng.Intn(2) == 0 {
				num, gen = v.rng.Intn(1<<24), v.rng.Intn(1<<16)
			}
			e := &types.PDFEncryption{}
			data := vBytes(v.rng, v.rng.Intn(200), "")
			if v.rng.Intn(5) == 0 {
				data = vBytes(v.rng, 16*v.rng.Intn(4), "")
			}
			var ct []byte
			switch v.rng.Intn(4) {
			case 0:
				e.V, e.R, e.KeyLength = 1, 2, 5
			case 1:
				e.V, e.R, e.KeyLength = 2, 3, 5+v.rng.Intn(12)
			case 2:
				e.V, e.R, e.KeyLength = 4, 4, 16
			default:
				e.V, e.R, e.KeyLength = 5, 5+v.rng.Intn(2), 32
			}
			e.EncryptKey = vBytes(v.rng, e.KeyLength, "")
			if e.V <= 2 {
				ct = doRC4(refObjKey(e.EncryptKey, num, gen, false), data)
			} else {
				ak := e.EncryptKey
				if e.V == 4 {
					ak = refObjKey(e.EncryptKey, num, gen, true)
				}
				n := 16 - len(data)%16
				p := append(append([]byte{}, data...), bytes.Repeat([]byte{byte(n)}, n)...)
				blk, _ := aes.NewCipher(ak)
				iv := vBytes(v.rng, 16, "")
				ct = append(append([]byte{}, iv...), p...)
				cipher.NewCBCEncrypter(blk, iv).CryptBlocks(ct[16:], p)
			}
			v.in(fmt.Sprintf("V%d n=%d object %d %d key %x", e.V, e.KeyLength, num, gen, e.EncryptKey), ct)
			v.safe(func() {
				in := append([]byte{}, ct...)
				got, err := encrypt.DecryptObject(ct, num, gen, e)
				if err != nil || !bytes.Equal(got, data) {
					v.fail("DecryptObject = %q, %v; Algorithm 1 gives %q", got, err, data)
				}
				if !bytes.Equal(in, ct) {
					v.fail("the input was modified")
				}
				if e.V >= 4 && len(ct) > 17 {
					cut := ct[:len(ct)-1-v.rng.Intn(15)]
					if len(cut)%16 != 0 {
						if _, err := encrypt.DecryptObject(cut, num, gen, e); err == nil {
							v.fail("a truncated AES object was decrypted without error")
						}
					}
				}
			})
		}
	})
}
