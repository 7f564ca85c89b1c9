package parse_test

import (
	"bytes"
	"compress/zlib"
	"io"
	"math/big"
	"testing"

	"github.com/benedoc-inc/pdfer/core/parse"
)

func vFilterData(v *vT, i int) []byte {
	r := v.rng
	switch i % 7 {
	case 0:
		return vBytes(r, r.Intn(12), "")
	case 1:
		return vBytes(r, r.Intn(600), "")
	case 2:
		return vBytes(r, r.Intn(700), "a")
	case 3:
		return vBytes(r, r.Intn(400), "\x00\xff")
	case 4: // runs whose lengths sit around the block limits
		var b []byte
		for k := 0; k < 1+r.Intn(5); k++ {
			n := []int{1, 2, 3, 126, 127, 128, 129, 130, 255, 256, 257}[r.Intn(11)]
			if r.Intn(2) == 0 {
				b = append(b, bytes.Repeat([]byte{byte(r.Intn(256))}, n)...)
			} else {
				for j := 0; j < n; j++ {
					b = append(b, byte(j*7+k))
				}
			}
		}
		return b
	case 5:
		return vBytes(r, 4*r.Intn(20)+r.Intn(4), "\x00\x01\x54\x55\x7f\x80\xfe\xff")
	default:
		return bytes.Repeat([]byte{0}, r.Intn(40))
	}
}

// every encoder's output decodes, under its own filter name, to the bytes that were encoded
func TestVerif_C01_filter_roundtrip(t *testing.T) {
	vRun(t, "all byte strings of length <= 2, then random ones up to 1300 bytes with runs around the block limits", func(v *vT) {
		one := func(d []byte) {
			v.in(d)
			orig := append([]byte{}, d...)
			type enc struct {
				name string
				f    func([]byte) []byte
			}
			for _, e := range []enc{{"ASCIIHexDecode", parse.EncodeASCIIHex}, {"ASCII85Decode", parse.EncodeASCII85}, {"RunLengthDecode", parse.EncodeRunLength}} {
				v.safe(func() {
					x := e.f(d)
					if !bytes.Equal(d, orig) {
						v.fail("Encode for %s modified its input", e.name)
					}
					x0 := append([]byte{}, x...)
					for _, n := range []string{e.name, "/" + e.name} {
						r, err := parse.DecodeFilter(x, n)
						if err != nil {
							v.fail("%s: decoding the encoder's own output %q fails: %v", n, x0, err)
						} else if !bytes.Equal(r, orig) {
							v.fail("%s: encoded as %q, decoded as %q", n, x0, r)
						}
						if !bytes.Equal(x, x0) {
							v.fail("%s: decoding modified its input", n)
						}
					}
				})
			}
			v.safe(func() {
				var z bytes.Buffer
				w := zlib.NewWriter(&z)
				w.Write(d)
				w.Close()
				for _, n := range []string{"FlateDecode", "/FlateDecode"} {
					r, err := parse.DecodeFilter(z.Bytes(), n)
					if err != nil || !bytes.Equal(r, orig) {
						v.fail("%s: got %q, %v", n, r, err)
					}
				}
				j := append([]byte{0xff, 0xd8}, d...)
				x, err := parse.EncodeDCTDecode(j)
				if err != nil || !bytes.Equal(x, j) {
					v.fail("EncodeDCTDecode(JPEG data): %q, %v", x, err)
				}
				for _, n := range []string{"DCTDecode", "/DCTDecode"} {
					r, err := parse.DecodeFilter(j, n)
					if err != nil || !bytes.Equal(r, j) {
						v.fail("%s: got %q, %v", n, r, err)
					}
				}
			})
		}
		one(nil)
		for a := 0; a < 256; a++ {
			one([]byte{byte(a)})
		}
		for a := 0; a < 256; a += 5 {
			for b := 0; b < 256; b++ {
				one([]byte{byte(a), byte(b)})
			}
		}
		vEnum("\x00\x01\xff", 7, one)
		for i := 0; i < vN(20000, 300000); i++ {
			one(vFilterData(v, i))
		}
	})
}

func refWS(b byte) bool { return b == ' ' || b == '\t' || b == '\r' || b == '\n' || b == '\f' }

func refHex(d []byte) (out []byte, ok bool) {
	nib := -1
	for _, b := range d {
		if refWS(b) {
			continue
		}
		if b == '>' {
			break
		}
		var n int
		switch {
		case b >= '0' && b <= '9':
			n = int(b) - '0'
		case b >= 'a' && b <= 'f':
			n = int(b) - 'a' + 10
		case b >= 'A' && b <= 'F':
			n = int(b) - 'A' + 10
		default:
			return nil, false
		}
		if nib < 0 {
			nib = n
		} else {
			out = append(out, byte(nib*16+n))
			nib = -1
		}
	}
	if nib >= 0 {
		out = append(out, byte(nib*16))
	}
	return out, true
}

// ref85: over reports a group above 2^32-1, which is outside the statement
func ref85(d []byte) (out []byte, ok, over bool) {
	if bytes.HasPrefix(d, []byte("<~")) {
		d = d[2:]
	}
	var g []int64
	val := func(g []int64) []byte {
		x := new(big.Int)
		for _, n := range g {
			x.Mul(x, big.NewInt(85)).Add(x, big.NewInt(n))
		}
		if x.BitLen() > 32 {
			over = true
		}
		y := x.Uint64()
		return []byte{byte(y >> 24), byte(y >> 16), byte(y >> 8), byte(y)}
	}
	for i, b := range d {
		if refWS(b) {
			continue
		}
		if b == '~' && i+1 < len(d) && d[i+1] == '>' {
			break
		}
		if b == 'z' {
			if len(g) != 0 {
				return nil, false, false
			}
			out = append(out, 0, 0, 0, 0)
			continue
		}
		if b < '!' || b > 'u' {
			return nil, false, false
		}
		g = append(g, int64(b-'!'))
		if len(g) == 5 {
			out = append(out, val(g)...)
			g = nil
		}
	}
	if n := len(g); n > 0 {
		for len(g) < 5 {
			g = append(g, 84)
		}
		out = append(out, val(g)[:n-1]...)
	}
	return out, true, over
}

func refRL(d []byte) (out []byte, ok bool) {
	for i := 0; i < len(d); {
		l := int(d[i])
		i++
		if l == 128 {
			break
		}
		if l < 128 {
			if i+l+1 > len(d) {
				return nil, false
			}
			out = append(out, d[i:i+l+1]...)
			i += l + 1
		} else {
			if i >= len(d) {
				return nil, false
			}
			out = append(out, bytes.Repeat(d[i:i+1], 257-l)...)
			i++
		}
	}
	return out, true
}

// each decoder accepts exactly the strings its format defines and returns what the format says they mean
func TestVerif_C02_filter_decoding(t *testing.T) {
	vRun(t, "all strings of length <= 5 over small format alphabets, then random strings and mutated encodings up to 700 bytes", func(v *vT) {
		one := func(d []byte) {
			v.in(d)
			orig := append([]byte{}, d...)
			cmp := func(name string, want []byte, ok bool) {
				v.safe(func() {
					for _, n := range []string{name, "/" + name} {
						r, err := parse.DecodeFilter(d, n)
						if (err == nil) != ok {
							v.fail("%s(%q): err=%v, but well-formed=%v", n, orig, err, ok)
						} else if ok && !bytes.Equal(r, want) {
							v.fail("%s(%q) = %q, want %q", n, orig, r, want)
						}
						if !bytes.Equal(d, orig) {
							v.fail("%s modified its input", n)
						}
					}
				})
			}
			w, ok := refHex(d)
			cmp("ASCIIHexDecode", w, ok)
			w, ok, over := ref85(d)
			if !over {
				cmp("ASCII85Decode", w, ok)
			} else {
				v.safe(func() { parse.DecodeASCII85(d) })
			}
			w, ok = refRL(d)
			cmp("RunLengthDecode", w, ok)
			cmp("DCTDecode", d, len(d) >= 2 && d[0] == 0xff && d[1] == 0xd8)
			// Flate: exactly what the standard library's reader accepts
			var zw []byte
			zr, err := zlib.NewReader(bytes.NewReader(d))
			if err == nil {
				zw, err = io.ReadAll(zr)
			}
			cmp("FlateDecode", zw, err == nil)
			v.safe(func() {
				x, err := parse.EncodeDCTDecode(d)
				if (err == nil) != (len(d) >= 2 && d[0] == 0xff && d[1] == 0xd8) || err == nil && !bytes.Equal(x, orig) {
					v.fail("EncodeDCTDecode(%q) = %q, %v", orig, x, err)
				}
			})
		}
		vEnum("0aF>G \x0b", 5, one)
		vEnum("!uz~>< v", 5, one)
		vEnum("\x00\x01\x7f\x80\x81\xff\xd8", 5, one)
		for i := 0; i < vN(30000, 400000); i++ {
			r := v.rng
			var d []byte
			switch i % 8 {
			case 0:
				d = vBytes(r, r.Intn(30), "0123456789abcdefABCDEF \n\t\r\f>gG\x00")
			case 1:
				d = vBytes(r, r.Intn(40), "!\"#$%&abcdefgstuz~> \n<")
				if r.Intn(2) == 0 {
					d = append([]byte("<~"), d...)
				}
			case 2:
				d = vBytes(r, r.Intn(40), "\x00\x01\x02\x03\x7f\x80\x81\x82\xfe\xff")
			case 3:
				d = vBytes(r, r.Intn(40), "")
			default:
				s := vFilterData(v, r.Intn(7))
				switch r.Intn(4) {
				case 0:
					d = parse.EncodeASCIIHex(s)
				case 1:
					d = parse.EncodeASCII85(s)
				case 2:
					d = parse.EncodeRunLength(s)
				default:
					var z bytes.Buffer
					w := zlib.NewWriter(&z)
					w.Write(s)
					w.Close()
					d = z.Bytes()
				}
				switch r.Intn(4) {
				case 0:
					d = d[:r.Intn(len(d)+1)]
				case 1:
					if len(d) > 0 {
						d[r.Intn(len(d))] = byte(r.Intn(256))
					}
				case 2:
					k := r.Intn(len(d) + 1)
					d = append(append(append([]byte{}, d[:k]...), " \n\t"[r.Intn(3)]), d[k:]...)
				}
			}
			one(d)
		}
		for _, n := range []string{"", "LZWDecode", "/LZW", "flatedecode", "//FlateDecode", "FlateDecode ", "/ASCIIHex", "JPXDecode", "Crypt"} {
			v.in(n)
			v.safe(func() {
				if r, err := parse.DecodeFilter([]byte("41>"), n); err == nil {
					v.fail("unknown filter %q accepted: %q", n, r)
				}
			})
		}
	})
}
