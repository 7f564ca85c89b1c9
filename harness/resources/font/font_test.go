package font_test

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"sort"
	"testing"

	"github.com/benedoc-inc/pdfer/resources/font"
)

func vPut16(b []byte, v ...int) []byte {
	for _, x := range v {
		b = binary.BigEndian.AppendUint16(b, uint16(x))
	}
	return b
}

func vPut32(b []byte, v ...int) []byte {
	for _, x := range v {
		b = binary.BigEndian.AppendUint32(b, uint32(x))
	}
	return b
}

type vSeg struct{ start, end, first int }

// vFormat4 is a format 4 subtable: each segment by delta or by glyph array, with the glyphs each code has
func vFormat4(r *rand.Rand, segs []vSeg, glyphs map[rune]uint16) []byte {
	n := len(segs) + 1
	var end, start, delta, ro, arr []byte
	for i, s := range segs {
		end, start = vPut16(end, s.end), vPut16(start, s.start)
		if r.Intn(2) == 0 {
			delta, ro = vPut16(delta, s.first-s.start), vPut16(ro, 0)
			for c := s.start; c <= s.end; c++ {
				if g := uint16(s.first + c - s.start); g != 0 {
					glyphs[rune(c)] = g
				}
			}
			continue
		}
		d := r.Intn(65536)
		delta = vPut16(delta, d)
		ro = vPut16(ro, 2*(n-i)+len(arr))
		for c := s.start; c <= s.end; c++ {
			raw := r.Intn(65536)
			if r.Intn(4) == 0 {
				raw = 0
			}
			arr = vPut16(arr, raw)
			if g := uint16(raw + d); raw != 0 && g != 0 {
				glyphs[rune(c)] = g
			}
		}
	}
	b := vPut16(nil, 4, 0, 0, 2*n, 0, 0, 0)
	b = append(b, end...)
	b = vPut16(b, 0xFFFF, 0)
	b = append(b, start...)
	b = vPut16(b, 0xFFFF)
	b = append(b, delta...)
	b = vPut16(b, 1)
	b = append(b, ro...)
	b = vPut16(b, 0)
	b = append(b, arr...)
	binary.BigEndian.PutUint16(b[2:], uint16(len(b)))
	return b
}

func vFormat12(segs []vSeg, glyphs map[rune]uint16) []byte {
	b := vPut16(nil, 12, 0)
	b = vPut32(b, 16+12*len(segs), 0, len(segs))
	for _, s := range segs {
		b = vPut32(b, s.start, s.end, s.first)
		for c := s.start; c <= s.end; c++ {
			glyphs[rune(c)] = uint16(s.first + c - s.start)
		}
	}
	return b
}

// vFontFile makes a font whose cmap gives the returned glyphs and whose hmtx gives the returned widths
func vFontFile(r *rand.Rand) ([]byte, map[rune]uint16, []int, int, string) {
	glyphs := map[rune]uint16{}
	wide := r.Intn(2) == 0
	var segs []vSeg
	for c := r.Intn(200); len(segs) < 6; {
		n := r.Intn(40)
		top := 0xFFFE
		if wide {
			top = 0x10FFFF
		}
		if c+n > top {
			break
		}
		segs = append(segs, vSeg{c, c + n, 1 + r.Intn(65535-n)})
		c += n + 2 + r.Intn(12000)
		if wide {
			c += r.Intn(200000)
		}
	}
	var sub []byte
	if wide {
		sub = vFormat12(segs, glyphs)
	} else {
		sub = vFormat4(r, segs, glyphs)
	}
	other := vFormat4(r, []vSeg{{0, 30, 5}}, map[rune]uint16{}) // a subtable that is not to be taken
	cmap := vPut16(nil, 0)
	switch {
	case wide && r.Intn(2) == 0: // full Unicode beats the BMP
		cmap = vPut16(cmap, 2, 3, 1)
		cmap = vPut32(cmap, 20+len(sub))
		cmap = vPut16(cmap, 3, 10)
		cmap = vPut32(cmap, 20)
	case r.Intn(2) == 0: // Windows beats others
		cmap = vPut16(cmap, 2, 1, 0)
		cmap = vPut32(cmap, 20+len(sub))
		cmap = vPut16(cmap, 3, 1)
		cmap = vPut32(cmap, 20)
	default:
		cmap = vPut16(cmap, 2, 1, 0)
		cmap = vPut32(cmap, 20+len(sub))
		cmap = vPut16(cmap, 0, 3)
		cmap = vPut32(cmap, 20)
	}
	cmap = append(append(cmap, sub...), other...)
	em := 16 + r.Intn(16369)
	var widths []int
	var hmtx []byte
	metrics := 1 + r.Intn(20)
	if r.Intn(2) == 0 {
		metrics = 1 + r.Intn(65535)
	}
	for i := 0; i < metrics; i++ {
		widths = append(widths, r.Intn(65536))
		hmtx = vPut16(hmtx, widths[i], 7)
	}
	for i := 0; i < 10; i++ {
		hmtx = vPut16(hmtx, 3)
	}
	ps := ""
	for n := 1 + r.Intn(12); n > 0; n-- {
		ps += string(rune('A' + r.Intn(26)))
	}
	u16 := func(s string) (b []byte) {
		for _, c := range s {
			b = vPut16(b, int(c))
		}
		return
	}
	storage := make([]byte, r.Intn(3)*r.Intn(40000))
	recs := r.Intn(3)
	name := vPut16(nil, 0, recs+2, 6+12*(recs+2))
	for i := 0; i < recs; i++ {
		name = vPut16(name, 1, 0, 0, 6, 3, 0)
	}
	off := len(storage)
	if off > 65535 {
		off = 65535
	}
	name = vPut16(name, 3, 1, 0x409, 4, len(u16("Full")), off+2*len(ps))
	name = vPut16(name, 3, 1, 0x409, 6, 2*len(ps), off)
	name = append(name, storage[:off]...)
	name = append(name, u16(ps)...)
	name = append(name, u16("Full")...)
	if off+2*len(ps)+8 > 65535 { // offsets have 16 bits
		return vFontFile(r)
	}
	head := make([]byte, 54)
	binary.BigEndian.PutUint16(head[18:], uint16(em))
	hhea := make([]byte, 36)
	binary.BigEndian.PutUint16(hhea[34:], uint16(metrics))
	tables := map[string][]byte{"head": head, "maxp": vPut16(nil, 1, 0, r.Intn(65536)), "hhea": hhea, "name": name, "post": make([]byte, 32), "cmap": cmap, "hmtx": hmtx, "OS/2": make([]byte, 96)}
	var tags []string
	for t := range tables {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	b := vPut32(nil, 0x00010000)
	b = vPut16(b, len(tags), 0, 0, 0)
	at := len(b) + 16*len(tags)
	var body []byte
	for _, t := range tags {
		b = append(b, t...)
		b = vPut32(b, 0, at+len(body), len(tables[t]))
		body = append(body, tables[t]...)
	}
	return append(b, body...), glyphs, widths, em, ps
}

func TestVerif_C11_glyphs(t *testing.T) {
	vRun(t, "fonts of up to 6 segments (format 4 by delta and by glyph array, format 12) in Windows and Unicode subtables, up to 65535 metrics, names behind up to 64 KiB of storage; subsets of up to 40 characters", func(v *vT) {
		for it := 0; it < vN(400, 8000); it++ {
			r := v.rng
			data, glyphs, widths, em, ps := vFontFile(r)
			var codes []rune
			for c := range glyphs {
				codes = append(codes, c)
			}
			sort.Slice(codes, func(i, j int) bool { return codes[i] < codes[j] })
			v.in(fmt.Sprintf("font of %d bytes, %d mapped codes", len(data), len(codes)))
			v.safe(func() {
				ttf, err := font.ParseTTF(data)
				if err != nil {
					v.fail("ParseTTF: %v", err)
					return
				}
				if int(ttf.UnitsPerEm) != em || ttf.FontName != ps || ttf.FullName != "Full" {
					v.fail("em %d, name %q, full name %q instead of %d, %q, Full", ttf.UnitsPerEm, ttf.FontName, ttf.FullName, em, ps)
				}
				f, err := font.NewFont("x", data)
				if err != nil {
					v.fail("NewFont: %v", err)
					return
				}
				want := map[int]bool{0: true}
				added := map[rune]bool{}
				for n := r.Intn(40); n > 0; n-- {
					c := rune(r.Intn(70000))
					if len(codes) > 0 && r.Intn(3) > 0 {
						c = codes[r.Intn(len(codes))]
					}
					if c == 0xFFFF {
						continue
					}
					f.AddRune(c)
					if r.Intn(3) == 0 {
						f.AddRune(c)
					}
					added[c] = true
					if g, ok := glyphs[c]; ok {
						want[int(g)] = true
					}
				}
				if len(f.Subset) != len(added) {
					v.fail("%d characters in the subset, %d were added", len(f.Subset), len(added))
				}
				var ws []int
				for g := range want {
					ws = append(ws, g)
				}
				sort.Ints(ws)
				gs, err := f.GetSubsetGlyphs()
				if err != nil {
					v.fail("GetSubsetGlyphs: %v", err)
					return
				}
				if fmt.Sprint(gs) != fmt.Sprint(ws) {
					v.fail("subset glyphs %v, the cmap gives %v", gs, ws)
					return
				}
				got, err := f.GetWidths()
				if err != nil || len(got) != len(ws) {
					v.fail("GetWidths: %v, %v", got, err)
					return
				}
				for i, g := range ws {
					if g >= len(widths) {
						g = len(widths) - 1
					}
					if got[i] != widths[g] {
						v.fail("glyph %d has width %d, hmtx gives %d", ws[i], got[i], widths[g])
						return
					}
				}
			})
		}
	})
}

func TestVerif_C11_damaged(t *testing.T) {
	vRun(t, "font files with up to 12 bytes or 16- and 32-bit fields changed, cut short, or table offsets and lengths exchanged", func(v *vT) {
		for it := 0; it < vN(2500, 60000); it++ {
			r := v.rng
			data, _, _, _, _ := vFontFile(r)
			if len(data) > 20000 {
				continue
			}
			for n := 1 + r.Intn(12); n > 0; n-- {
				p := r.Intn(len(data))
				if r.Intn(2) == 0 {
					p = r.Intn(140) // directory
				} else if r.Intn(2) == 0 {
					p = 140 + r.Intn(200) // OS/2 and cmap come first
				}
				if p+4 > len(data) {
					continue
				}
				switch r.Intn(4) {
				case 0:
					data[p] = byte(r.Intn(256))
				case 1:
					binary.BigEndian.PutUint16(data[p:], uint16(r.Intn(3)-1))
				case 2:
					binary.BigEndian.PutUint32(data[p:], uint32(len(data)-r.Intn(40)))
				default:
					binary.BigEndian.PutUint32(data[p:], []uint32{0, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 65535, uint32(r.Intn(3000))}[r.Intn(6)])
				}
			}
			if r.Intn(4) == 0 {
				data = data[:r.Intn(len(data))]
			}
			v.in(data)
			v.safe(func() {
				before := string(data)
				f, err := font.NewFont("x", data)
				if err == nil {
					f.AddString("ab cé\U0001F600")
					f.GetSubsetGlyphs()
					f.GetWidths()
				}
				font.ParseTTF(data)
				if string(data) != before {
					v.fail("the font data were changed")
				}
			})
		}
	})
}
