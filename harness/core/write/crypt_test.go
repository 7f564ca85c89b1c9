package write_test

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"github.com/benedoc-inc/pdfer/core/encrypt"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
)

// streamOf returns the raw data of stream object n in a written file, by its own /Length.
func streamOf(pdf []byte, n int) ([]byte, bool) {
	h := []byte(fmt.Sprintf("\n%d 0 obj\n", n))
	i := bytes.Index(pdf, h)
	if i < 0 {
		return nil, false
	}
	rest := pdf[i+len(h):]
	s := bytes.Index(rest, []byte(">>\nstream\n"))
	if s < 0 {
		return nil, false
	}
	var l int
	k := strings.LastIndex(string(rest[:s]), "/Length ")
	if k < 0 {
		return nil, false
	}
	fmt.Sscanf(string(rest[k+8:s]), "%d", &l)
	rest = rest[s+len(">>\nstream\n"):]
	if l > len(rest) || !bytes.HasPrefix(rest[l:], []byte("\nendstream")) {
		return nil, false
	}
	return rest[:l], true
}

func TestVerif_C06_writer(t *testing.T) {
	vRun(t, "random streams of 0 to 300 bytes written under every cipher by PDFWriter and read back by DecryptObject", func(v *vT) {
		for k := 0; k < vN(1500, 20000); k++ {
			e := &types.PDFEncryption{EncryptMetadata: true}
			switch v.rng.Intn(4) {
			case 0:
				e.V, e.R, e.KeyLength = 1, 2, 5
			case 1:
				e.V, e.R, e.KeyLength = 2, 3, 5+v.rng.Intn(12)
			case 2:
				e.V, e.R, e.KeyLength = 4, 4, 16
			default:
				e.V, e.R, e.KeyLength = 5, 5, 32
			}
			e.EncryptKey = vBytes(v.rng, e.KeyLength, "")
			n := 1 + v.rng.Intn(4)
			if v.rng.Intn(40) == 0 {
				n = 300
			}
			w := write.NewPDFWriter()
			w.SetRoot(w.AddObject([]byte("<< /Type /Catalog >>")))
			data := map[int][]byte{}
			for i := 0; i < n; i++ {
				d := vBytes(v.rng, 1+v.rng.Intn(300), "")
				if n == 300 {
					d = vBytes(v.rng, 20, "")
				}
				data[w.AddStreamObject(write.Dictionary{"X": 1}, append([]byte{}, d...), false)] = d
			}
			if v.rng.Intn(4) == 0 {
				big := 60000 + v.rng.Intn(20000)
				d := vBytes(v.rng, 40, "")
				w.SetStreamObject(big, write.Dictionary{"X": 1}, append([]byte{}, d...), false)
				data[big] = d
			}
			w.SetEncryption(e, vBytes(v.rng, 16, ""))
			v.in(fmt.Sprintf("V%d n=%d, %d streams", e.V, e.KeyLength, n), e.EncryptKey)
			v.safe(func() {
				var buf bytes.Buffer
				if err := w.Write(&buf); err != nil {
					v.fail("Write: %v", err)
					return
				}
				for num, d := range data {
					raw, ok := streamOf(buf.Bytes(), num)
					if !ok {
						v.fail("stream object %d is not in the output with its /Length", num)
						return
					}
					if len(d) > 12 && bytes.Contains(raw, d) {
						v.fail("stream object %d is in the output in the clear", num)
						return
					}
					got, err := encrypt.DecryptObject(raw, num, 0, e)
					if err != nil || !bytes.Equal(got, d) {
						v.fail("stream object %d reads back as %q, %v; %q was written", num, got, err, d)
						return
					}
				}
			})
		}
	})
}

// a document encrypted with passwords opens with both of them, with the key its streams were encrypted with, and with no other
func TestVerif_C07_v5(t *testing.T) {
	vRun(t, "documents written with SetupEncryptionWithPasswords (AES-256), random passwords of 0 to 40 bytes", func(v *vT) {
		for k := 0; k < vN(800, 10000); k++ {
			user, owner := vBytes(v.rng, v.rng.Intn(40), ""), vBytes(v.rng, 1+v.rng.Intn(40), "")
			w := write.NewPDFWriter()
			d := vBytes(v.rng, 1+v.rng.Intn(100), "")
			sn := 0
			if v.rng.Intn(2) == 0 {
				sn = w.AddStreamObject(write.Dictionary{"X": 1}, append([]byte{}, d...), false)
			}
			if _, err := w.SetupEncryptionWithPasswords(user, owner, int32(v.rng.Uint32()), v.rng.Intn(2) == 0); err != nil {
				v.fail("SetupEncryptionWithPasswords: %v", err)
				return
			}
			w.SetRoot(w.AddObject([]byte("<< /Type /Catalog >>")))
			if sn == 0 {
				for i := v.rng.Intn(12); i > 0; i-- {
					w.AddObject([]byte("<< /X 1 >>"))
				}
				sn = w.AddStreamObject(write.Dictionary{"X": 1}, append([]byte{}, d...), false)
			}
			var buf bytes.Buffer
			if err := w.Write(&buf); err != nil {
				v.fail("Write: %v", err)
				return
			}
			pdf := buf.Bytes()
			raw, ok := streamOf(pdf, sn)
			v.in(user, owner, pdf)
			if !ok {
				v.fail("the stream is not in the output")
				return
			}
			wrong := append(append([]byte{}, user...), 'x')
			if len(owner) > 0 && v.rng.Intn(2) == 0 {
				wrong = append([]byte{}, owner...)
				wrong[v.rng.Intn(len(wrong))] ^= 1 << v.rng.Intn(8)
			}
			v.safe(func() {
				for i, pw := range [][]byte{user, owner, wrong} {
					_, e, err := encrypt.DecryptPDF(pdf, pw, false)
					if i == 2 {
						if err == nil && !bytes.Equal(wrong, user) && !bytes.Equal(wrong, owner) {
							v.fail("the wrong password %q was accepted", wrong)
						}
						continue
					}
					who := []string{"user", "owner"}[i]
					if err != nil {
						v.fail("the %s password was refused: %v", who, err)
						return
					}
					got, err := encrypt.DecryptObject(raw, sn, 0, e)
					if err != nil || !bytes.Equal(got, d) {
						v.fail("with the %s password the stream reads as %q, %v; %q was written", who, got, err, d)
						return
					}
				}
			})
		}
	})
}

var _ = parse.GetObject
