package parse_test

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/benedoc-inc/pdfer/core/parse"
)

// vHist writes a PDF revision by revision (an independent writer); snap[k] is the file after revision k,
// live[k] maps every object number defined so far to the unique token of its newest definition.
type vHist struct {
	buf   bytes.Buffer
	prev  int
	size  int
	snap  [][]byte
	live  []map[int]string
	pos   []map[int]bool // objects written directly in this revision
	tab   bool           // every section so far is a classic table
	raw   []map[int]string
	crlf  string
	stm   int         // the latest object stream
	where map[int]int // object -> the object stream that holds its newest definition
	shape []string
	root  []string // the catalog reference of each revision
	start []int64  // and where its cross-reference section starts
	back  bool     // updates may take an object back to an earlier definition, by its offset alone
	defs  map[int][]vDef
}

type vDef struct {
	off int
	tok string
}

func (h *vHist) revision(r *rand.Rand, objs []int, mode int) {
	k := len(h.snap)
	live := map[int]string{}
	if k > 0 {
		for n, t := range h.live[k-1] {
			live[n] = t
		}
	}
	if k == 0 {
		h.tab = true
		h.crlf = "\n"
		if r.Intn(4) == 0 {
			h.crlf = "\r\n"
		}
		h.buf.WriteString("%PDF-1.7" + h.crlf)
		if r.Intn(2) == 0 {
			h.buf.WriteString("%\xe2\xe3\xcf\xd3" + h.crlf)
		}
		h.size = 1
	}
	off := map[int]int{}
	inStm := map[int][2]int{}
	raw := map[int]string{}
	body := func(n int) string {
		t := fmt.Sprintf("(v%dn%dx)", k, n)
		live[n] = t
		switch r.Intn(4) {
		case 0:
			return t
		case 1:
			return fmt.Sprintf("<< /T %s /A [1 2 %d 0 R] >>", t, n)
		case 2:
			return fmt.Sprintf("<< /Type /Catalog /T %s /D << /E 1 >> >>", t)
		}
		return fmt.Sprintf("[ %s %d ]", t, r.Intn(100000))
	}
	direct := append([]int{}, objs...)
	var packed []int
	if mode == 2 {
		direct = nil
		for _, n := range objs {
			if n != 1 && r.Intn(2) == 0 {
				packed = append(packed, n)
			} else {
				direct = append(direct, n)
			}
		}
	}
	for _, n := range objs {
		if n+1 > h.size {
			h.size = n + 1
		}
	}
	if h.defs == nil {
		h.defs = map[int][]vDef{}
	}
	for _, n := range direct {
		if d := h.defs[n]; h.back && len(d) > 0 && r.Intn(4) == 0 {
			o := d[r.Intn(len(d))]
			off[n], live[n] = o.off, o.tok
			continue
		}
		off[n] = h.buf.Len()
		start := h.buf.Len()
		b := body(n)
		if r.Intn(3) == 0 {
			d := fmt.Sprintf("data %d %d", k, n)
			b = fmt.Sprintf("<< /Length %d /T %s >>%sstream\n%s\nendstream", len(d), live[n], h.crlf, d)
		}
		fmt.Fprintf(&h.buf, "%d 0 obj%s%s%sendobj", n, h.crlf, b, h.crlf)
		raw[n] = string(h.buf.Bytes()[start:])
		h.defs[n] = append(h.defs[n], vDef{start, live[n]})
		h.buf.WriteString(h.crlf)
	}
	xrefNum := 0
	if h.where == nil {
		h.where = map[int]int{}
	}
	for _, n := range direct {
		delete(h.where, n)
		if n == h.stm {
			h.stm = 0
		}
	}
	if mode > 0 {
		if len(packed) > 0 {
			var hd, bd strings.Builder
			sn := 0
			if h.stm != 0 && !vHas(packed, h.stm) && r.Intn(2) == 0 { // rewrite the latest object stream, keeping what still lives there
				sn = h.stm
				for n, s := range h.where {
					if s == sn && !vHas(packed, n) && !vHas(direct, n) {
						packed = append(packed, n)
					}
				}
				sort.Ints(packed)
			} else {
				for n := 2; n < h.size && r.Intn(3) > 0; n++ {
					if _, used := live[n]; !used && !vHas(objs, n) {
						sn = n // a number left free by a gap
						break
					}
				}
				if sn == 0 {
					sn = h.size
					h.size++
				}
			}
			h.stm = sn
			for i, n := range packed {
				fmt.Fprintf(&hd, "%d %d ", n, bd.Len())
				bd.WriteString(body(n) + " ")
				inStm[n] = [2]int{sn, i}
				h.where[n] = sn
			}
			first := hd.Len()
			var z bytes.Buffer
			w := zlib.NewWriter(&z)
			w.Write([]byte(hd.String() + bd.String()))
			w.Close()
			off[sn] = h.buf.Len()
			fmt.Fprintf(&h.buf, "%d 0 obj\n<< /Type /ObjStm /N %d /First %d /Filter /FlateDecode /Length %d >>\nstream\n", sn, len(packed), first, z.Len())
			h.buf.Write(z.Bytes())
			h.buf.WriteString("\nendstream\nendobj\n")
			live[sn] = "/ObjStm"
		}
		xrefNum = h.size
		h.size++
		live[xrefNum] = "/XRef"
		off[xrefNum] = h.buf.Len()
	}
	sx := h.buf.Len()
	var nums []int
	for n := range off {
		nums = append(nums, n)
	}
	for n := range inStm {
		nums = append(nums, n)
	}
	sort.Ints(nums)
	var subs [][]int
	for _, n := range nums {
		if l := len(subs); l > 0 && subs[l-1][len(subs[l-1])-1] == n-1 {
			subs[l-1] = append(subs[l-1], n)
		} else {
			subs = append(subs, []int{n})
		}
	}
	root := 1
	if len(objs) == 0 && r.Intn(2) == 0 {
		root = 2
	}
	h.root = append(h.root, fmt.Sprintf("%d 0 R", root))
	h.start = append(h.start, int64(sx))
	dict := fmt.Sprintf("/Size %d /Root %d 0 R", h.size, root)
	if k > 0 {
		dict += fmt.Sprintf(" /Prev %d", h.prev)
	}
	if mode == 0 {
		h.buf.WriteString("xref" + h.crlf)
		eol := " \n"
		if h.crlf == "\r\n" {
			eol = "\r\n"
		}
		if k == 0 && r.Intn(2) == 0 { // one subsection, with free entries for the numbers not used
			fmt.Fprintf(&h.buf, "0 %d%s", h.size, h.crlf)
			for n := 0; n < h.size; n++ {
				if o, ok := off[n]; ok {
					fmt.Fprintf(&h.buf, "%010d %05d n%s", o, 0, eol)
				} else {
					fmt.Fprintf(&h.buf, "%010d %05d f%s", 0, []int{65535, 0, 1}[r.Intn(3)], eol)
				}
			}
			subs = nil
		} else if k == 0 {
			fmt.Fprintf(&h.buf, "0 1%s0000000000 65535 f%s", h.crlf, eol)
		}
		if r.Intn(4) == 0 {
			r.Shuffle(len(subs), func(i, j int) { subs[i], subs[j] = subs[j], subs[i] })
		}
		for _, s := range subs {
			fmt.Fprintf(&h.buf, "%d %d%s", s[0], len(s), h.crlf)
			for _, n := range s {
				fmt.Fprintf(&h.buf, "%010d %05d n%s", off[n], 0, eol)
			}
		}
		if r.Intn(2) == 0 {
			fmt.Fprintf(&h.buf, "trailer%s<<%s>>%s", h.crlf, strings.ReplaceAll(dict, " /", "/"), h.crlf)
		} else {
			fmt.Fprintf(&h.buf, "trailer%s<< %s >>%s", h.crlf, dict, h.crlf)
		}
	} else {
		h.tab = false
		var idx strings.Builder
		var data []byte
		for _, s := range subs {
			fmt.Fprintf(&idx, "%d %d ", s[0], len(s))
			for _, n := range s {
				e := []byte{1, 0, 0, 0, 0, 0}
				v := off[n]
				if p, ok := inStm[n]; ok {
					e[0] = 2
					v = p[0]
					e[5] = byte(p[1])
				}
				e[1], e[2], e[3], e[4] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
				data = append(data, e...)
			}
		}
		parms := ""
		if r.Intn(2) == 0 {
			parms = "/DecodeParms << /Columns 6 /Predictor 12 >> "
			var p []byte
			for i := 0; i < len(data); i += 6 {
				f := r.Intn(3)
				p = append(p, byte(f))
				for j := 0; j < 6; j++ {
					b := data[i+j]
					switch {
					case f == 1 && j > 0:
						b -= data[i+j-1]
					case f == 2 && i > 0:
						b -= data[i+j-6]
					}
					p = append(p, b)
				}
			}
			data = p
		}
		var z bytes.Buffer
		w := zlib.NewWriter(&z)
		w.Write(data)
		w.Close()
		fmt.Fprintf(&h.buf, "%d 0 obj\n<< /Type /XRef %s /W [1 4 1] /Index [%s] /Filter /FlateDecode %s/Length %d >>\nstream\n", xrefNum, dict, strings.TrimSpace(idx.String()), parms, z.Len())
		h.buf.Write(z.Bytes())
		h.buf.WriteString("\nendstream\nendobj\n")
	}
	fmt.Fprintf(&h.buf, "startxref%s%d%s%%%%EOF%s", h.crlf, sx, h.crlf, strings.Repeat(h.crlf, 1+r.Intn(5)/4*r.Intn(4)))
	h.prev = sx
	h.snap = append(h.snap, append([]byte{}, h.buf.Bytes()...))
	h.live = append(h.live, live)
	h.raw = append(h.raw, raw)
	h.shape = append(h.shape, fmt.Sprintf("%d%v/%v", mode, direct, packed))
}

func vHistory(r *rand.Rand, maxRev int) *vHist { return vHistoryB(r, maxRev, false) }

func vHistoryB(r *rand.Rand, maxRev int, back bool) *vHist {
	h := &vHist{back: back}
	n := 1 + r.Intn(maxRev)
	kind := r.Intn(3) // tables only, streams only, mixed
	top := 3 + r.Intn(9)
	for k := 0; k < n; k++ {
		var objs []int
		for i := 1; i <= top; i++ {
			busy := false // an object stream that something still lives in
			for _, s := range h.where {
				busy = busy || s == i
			}
			if busy {
				continue
			}
			if k == 0 && i <= 2 || r.Intn(3) == 0 {
				objs = append(objs, i)
			}
		}
		if k > 0 && r.Intn(3) == 0 && h.size < 230 { // new objects, possibly leaving a gap
			if n := h.size + r.Intn(6); !vHas(objs, n) {
				objs = append(objs, n)
			}
		}
		if len(objs) == 0 && k == 0 {
			objs = []int{1}
		}
		mode := 0
		switch kind {
		case 1:
			mode = 1 + r.Intn(2)
		case 2:
			mode = r.Intn(3)
		}
		if k > 0 && r.Intn(8) == 0 { // an update that changes nothing
			objs = nil
		}
		h.revision(r, objs, mode)
	}
	return h
}

func vHas(l []int, n int) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}

func vTokens(h *vHist, n int) []string {
	var out []string
	for k := range h.snap {
		out = append(out, fmt.Sprintf("(v%dn%dx)", k, n))
	}
	return out
}

// after every revision, the newest definition of each object is the one that is found
func TestVerif_C04_newest_definition_wins(t *testing.T) {
	vRun(t, "random histories of up to 6 revisions over up to 12+ objects, each revision a classic table or a cross-reference stream with directly stored and compressed objects; every prefix state is checked", func(v *vT) {
		for it := 0; it < vN(500, 6000); it++ {
			h := vHistoryB(v.rng, 6, true)
			for k, data := range h.snap {
				v.in(data)
				v.safe(func() {
					pdf, err := parse.Open(data)
					if err != nil {
						v.fail("revision %d of %v does not open: %v", k+1, h.shape, err)
						return
					}
					check := func(how string, n int, b []byte, err error) {
						want := h.live[k][n]
						if err != nil {
							v.fail("%s: object %d after revision %d of %v: %v", how, n, k+1, h.shape, err)
							return
						}
						if !bytes.Contains(b, []byte(want)) {
							v.fail("%s: object %d after revision %d of %v is %q, its newest definition holds %s", how, n, k+1, h.shape, b, want)
						}
						for _, o := range vTokens(h, n) {
							if o != want && bytes.Contains(b, []byte(o)) {
								v.fail("%s: object %d after revision %d of %v mixes in the definition %s: %q", how, n, k+1, h.shape, o, b)
							}
						}
					}
					for n := range h.live[k] {
						b, err := pdf.GetObject(n)
						check("PDF.GetObject", n, b, err)
						if k == len(h.snap)-1 {
							b, err = parse.GetObject(data, n, nil, false)
							check("parse.GetObject", n, b, err)
						}
						if !pdf.HasObject(n) {
							v.fail("HasObject(%d) is false after revision %d of %v", n, k+1, h.shape)
						}
					}
					if pdf.ObjectCount() != len(h.live[k]) {
						v.fail("%d objects counted after revision %d of %v, %d are defined", pdf.ObjectCount(), k+1, h.shape, len(h.live[k]))
					}
					if pdf.Trailer() == nil || pdf.Trailer().RootRef != h.root[k] {
						v.fail("the trailer after revision %d of %v is %+v, its /Root is %s", k+1, h.shape, pdf.Trailer(), h.root[k])
					}
					if pdf.HasObject(100000) {
						v.fail("an object that no revision defines exists")
					}
				})
			}
		}
	})
}

// a /Prev may name a section further on in the file (as in linearized files)
func TestVerif_C04_forward_prev(t *testing.T) {
	vRun(t, "two classic sections in either order in the file, over random object sets", func(v *vT) {
		for it := 0; it < vN(300, 3000); it++ {
			var b []byte
			newest := map[int]string{}
			sect := func(k int, prev string) int {
				off := map[int]int{}
				var nums []int
				for n := 1; n < 8; n++ {
					if n <= 2 && k == 0 || v.rng.Intn(2) == 0 {
						nums = append(nums, n)
					}
				}
				for _, n := range nums {
					off[n] = len(b)
					tok := fmt.Sprintf("(k%dn%dx)", k, n)
					if newest[n] < tok {
						newest[n] = tok
					}
					b = append(b, fmt.Sprintf("%d 0 obj\n%s\nendobj\n", n, tok)...)
				}
				x := len(b)
				b = append(b, "xref\n"...)
				for _, n := range nums {
					b = append(b, fmt.Sprintf("%d 1\n%010d 00000 n \n", n, off[n])...)
				}
				b = append(b, fmt.Sprintf("trailer\n<< /Size 8 /Root 1 0 R %s >>\n", prev)...)
				return x
			}
			b = append(b, "%PDF-1.4\n"...)
			fwd := v.rng.Intn(2) == 0
			var last int
			if fwd {
				last = sect(1, "/Prev @@@@@@@@@@")
				b = append(b, "startxref\n0\n%%EOF\n"...)
				x := sect(0, "")
				b = []byte(strings.Replace(string(b), "@@@@@@@@@@", fmt.Sprintf("%010d", x), 1))
			} else {
				x := sect(0, "")
				b = append(b, fmt.Sprintf("startxref\n%d\n%%%%EOF\n", x)...)
				last = sect(1, fmt.Sprintf("/Prev %d", x))
			}
			b = append(b, fmt.Sprintf("startxref\n%d\n%%%%EOF\n", last)...)
			v.in(b)
			v.safe(func() {
				pdf, err := parse.Open(b)
				if err != nil {
					v.fail("does not open: %v", err)
					return
				}
				for n, want := range newest {
					o, err := pdf.GetObject(n)
					if err != nil || !bytes.Contains(o, []byte(want)) {
						v.fail("object %d is %q (%v), its newest definition is %s", n, o, err, want)
					}
				}
			})
		}
	})
}

// the bytes of revision k are the file as it was after revision k; parsing byte-perfectly returns the file itself
func TestVerif_C04_revision_bytes(t *testing.T) {
	vRun(t, "the same histories: every revision of the final file against the file as it was then, and byte-perfect parsing", func(v *vT) {
		for it := 0; it < vN(500, 6000); it++ {
			h := vHistory(v.rng, 6)
			full := h.snap[len(h.snap)-1]
			v.in(full)
			v.safe(func() {
				orig := append([]byte{}, full...)
				if c := parse.CountRevisions(full); c != len(h.snap) {
					v.fail("CountRevisions says %d, %d were written", c, len(h.snap))
				}
				for k, s := range h.snap {
					b, err := parse.ExtractRevision(full, k+1)
					if err != nil || !bytes.Equal(b, s) {
						v.fail("ExtractRevision(%d) gives %d bytes (err %v), the file had %d then", k+1, len(b), err, len(s))
					}
				}
				for _, k := range []int{-1, 0, len(h.snap) + 1, len(h.snap) + 7} {
					if b, err := parse.ExtractRevision(full, k); err == nil {
						v.fail("ExtractRevision(%d) of %d revisions gives %d bytes", k, len(h.snap), len(b))
					}
				}
				pdf, err := parse.OpenWithOptions(full, parse.ParseOptions{BytePerfect: true})
				if err != nil {
					v.fail("byte-perfect parsing fails: %v", err)
					return
				}
				if !bytes.Equal(pdf.Bytes(), orig) || !bytes.Equal(pdf.Raw(), orig) || !bytes.Equal(pdf.Document().Bytes(), orig) {
					v.fail("byte-perfect parsing does not return the input")
				}
				if pdf.RevisionCount() != len(h.snap) {
					v.fail("byte-perfect parsing finds %d revisions, %d were written", pdf.RevisionCount(), len(h.snap))
					return
				}
				d := pdf.Document()
				newest := map[int]string{}
				for k := range h.snap {
					if rev := d.Revisions[k]; rev.StartXRef != h.start[k] || rev.EndOffset != int64(len(h.snap[k])) {
						v.fail("revision %d starts its cross-reference at %d and ends at %d, it was written at %d and %d", k+1, rev.StartXRef, rev.EndOffset, h.start[k], len(h.snap[k]))
					}
					for n, raw := range h.raw[k] {
						newest[n] = raw
						o := d.GetObjectInRevision(n, k+1)
						if o == nil || string(o.Bytes()) != raw {
							v.fail("object %d of revision %d: raw bytes %q are not the ones written %q", n, k+1, vRaw(o), raw)
						}
					}
				}
				all := d.AllObjects()
				for n, raw := range newest {
					o, err := pdf.GetRawObject(n)
					if err != nil || string(o.Bytes()) != raw {
						v.fail("GetRawObject(%d) is not the newest directly written definition %q", n, raw)
					}
					if g := d.GetObject(n); g == nil || string(g.Bytes()) != raw {
						v.fail("PDFDocument.GetObject(%d) is not the newest directly written definition %q", n, raw)
					}
					if g := all[n]; g == nil || string(g.Bytes()) != raw {
						v.fail("AllObjects()[%d] is not the newest directly written definition %q", n, raw)
					}
				}
				if !bytes.Equal(full, orig) {
					v.fail("parsing modified its input")
				}
			})
		}
	})
}

func vRaw(o *parse.PDFRawObject) string {
	if o == nil {
		return "none"
	}
	return string(o.Bytes())
}

// whatever the bytes are, a byte-perfect parse that succeeds gives them back
func TestVerif_C04_byte_perfect_any(t *testing.T) {
	vRun(t, "histories with 1 to 3 random bytes changed, inserted or removed after the cross-reference sections", func(v *vT) {
		for it := 0; it < vN(1500, 20000); it++ {
			h := vHistory(v.rng, 3)
			d := append([]byte{}, h.snap[len(h.snap)-1]...)
			for i := 1 + v.rng.Intn(3); i > 0; i-- {
				p := 8 + v.rng.Intn(len(d)-8)
				d[p] = byte(v.rng.Intn(256))
			}
			orig := append([]byte{}, d...)
			v.in(d)
			func() {
				defer func() { recover() }() // refusing damaged files is another property
				pdf, err := parse.OpenWithOptions(d, parse.ParseOptions{BytePerfect: true})
				if err == nil && !bytes.Equal(pdf.Bytes(), orig) {
					v.fail("byte-perfect parsing succeeded and does not return the input")
				}
			}()
		}
	})
}

// an object that a later revision marks free is no longer there
func TestVerif_C04_deleted_objects(t *testing.T) {
	vRun(t, "one fixed two-revision file whose second table marks object 2 free", func(v *vT) {
		h := &vHist{}
		h.revision(rand.New(rand.NewSource(1)), []int{1, 2, 3}, 0)
		first := h.snap[0]
		var b bytes.Buffer
		b.Write(first)
		sx := b.Len()
		fmt.Fprintf(&b, "xref\n0 1\n0000000002 65535 f \n2 1\n0000000000 00001 f \ntrailer\n<< /Size 4 /Root 1 0 R /Prev %d >>\nstartxref\n%d\n%%%%EOF\n", h.prev, sx)
		v.in(b.Bytes())
		pdf, err := parse.Open(b.Bytes())
		if err != nil {
			v.fail("does not open: %v", err)
			return
		}
		if pdf.HasObject(2) {
			v.failKey("free-entry-ignored", "object 2 was deleted in revision 2 and is still returned")
		}
		if !pdf.HasObject(1) || !pdf.HasObject(3) {
			v.fail("deleting object 2 removed another object")
		}
	})
}
