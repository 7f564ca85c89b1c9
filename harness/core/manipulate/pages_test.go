package manipulate_test

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/benedoc-inc/pdfer/core/manipulate"
)

// an independent reader of uncompressed files

type vRef int
type vStream struct {
	dict map[string]any
	data string
}

type vReader struct{ s string }

func (p *vReader) ws() {
	for p.s != "" {
		if p.s[0] == '%' {
			if i := strings.IndexAny(p.s, "\r\n"); i >= 0 {
				p.s = p.s[i:]
			} else {
				p.s = ""
			}
		} else if strings.IndexByte(" \t\r\n\f\x00", p.s[0]) >= 0 {
			p.s = p.s[1:]
		} else {
			return
		}
	}
}

func (p *vReader) word() string {
	i := 0
	for i < len(p.s) && strings.IndexByte(" \t\r\n\f\x00()<>[]{}/%", p.s[i]) < 0 {
		i++
	}
	w := p.s[:i]
	p.s = p.s[i:]
	return w
}

func (p *vReader) value() any {
	p.ws()
	switch {
	case strings.HasPrefix(p.s, "<<"):
		p.s = p.s[2:]
		d := map[string]any{}
		for p.ws(); !strings.HasPrefix(p.s, ">>"); p.ws() {
			if p.s == "" || p.s[0] != '/' {
				panic(fmt.Sprintf("dictionary key expected at %.40q", p.s))
			}
			p.s = p.s[1:]
			k := p.word()
			if _, twice := d[k]; twice {
				panic(fmt.Sprintf("key /%s twice in a dictionary", k))
			}
			d[k] = p.value()
		}
		p.s = p.s[2:]
		return d
	case p.s == "":
		panic("value expected at the end")
	case p.s[0] == '[':
		p.s = p.s[1:]
		a := []any{}
		for p.ws(); !strings.HasPrefix(p.s, "]"); p.ws() {
			a = append(a, p.value())
		}
		p.s = p.s[1:]
		return a
	case p.s[0] == '(':
		d, i := 0, 0
		for ; ; i++ {
			if p.s[i] == '\\' {
				i++
			} else if p.s[i] == '(' {
				d++
			} else if p.s[i] == ')' {
				if d--; d == 0 {
					break
				}
			}
		}
		v := p.s[:i+1]
		p.s = p.s[i+1:]
		return v
	case p.s[0] == '<':
		i := strings.IndexByte(p.s, '>')
		v := p.s[:i+1]
		p.s = p.s[i+1:]
		return v
	case p.s[0] == '/':
		p.s = p.s[1:]
		return "/" + p.word()
	}
	w := p.word()
	if w == "" {
		panic(fmt.Sprintf("value expected at %.40q", p.s))
	}
	if n, err := strconv.Atoi(w); err == nil && n >= 0 {
		rest := p.s
		if p.ws(); p.word() == "0" {
			if p.ws(); p.word() == "R" {
				return vRef(n)
			}
		}
		p.s = rest
	}
	if w == "null" {
		return nil
	}
	return w
}

type vDoc struct {
	obj  map[int]any
	root int
}

// vRead reads a file with one classic cross-reference table
func vRead(file []byte) (d *vDoc, err error) {
	defer func() {
		if r := recover(); r != nil {
			d, err = nil, fmt.Errorf("the file cannot be read: %v", r)
		}
	}()
	s := string(file)
	at, _ := strconv.Atoi(strings.Fields(s[strings.LastIndex(s, "startxref")+9:])[0])
	d = &vDoc{obj: map[int]any{}}
	p := &vReader{s[at:]}
	if p.word() != "xref" {
		panic("no xref table where startxref points")
	}
	p.ws()
	p.word()
	p.ws()
	n, _ := strconv.Atoi(p.word())
	for i := 0; i < n; i++ {
		p.ws()
		off, _ := strconv.Atoi(p.word())
		p.ws()
		p.word()
		p.ws()
		if p.word() == "n" {
			q := &vReader{s[off:]}
			if q.word() != strconv.Itoa(i) {
				panic(fmt.Sprintf("object %d is not where the table says", i))
			}
			q.ws()
			q.word()
			q.ws()
			if q.word() != "obj" {
				panic(fmt.Sprintf("object %d has no header", i))
			}
			v := q.value()
			if q.ws(); strings.HasPrefix(q.s, "stream") {
				l, _ := strconv.Atoi(fmt.Sprint(v.(map[string]any)["Length"]))
				q.s = strings.TrimPrefix(strings.TrimPrefix(q.s[6:], "\r"), "\n")
				v = vStream{v.(map[string]any), q.s[:l]}
				q.s = q.s[l:]
				if q.ws(); q.word() != "endstream" {
					panic(fmt.Sprintf("stream %d has another length", i))
				}
				q.ws()
			}
			if q.word() != "endobj" {
				panic(fmt.Sprintf("object %d does not end: %.30q", i, q.s))
			}
			d.obj[i] = v
		}
	}
	if p.ws(); p.word() != "trailer" {
		panic("no trailer")
	}
	d.root = int(p.value().(map[string]any)["Root"].(vRef))
	return d, nil
}

type vPage struct {
	num int
	inh map[string]any // with what it inherits
}

func (d *vDoc) walk(num int, inh map[string]any, depth int) ([]vPage, error) {
	node, ok := d.obj[num].(map[string]any)
	if !ok || depth > 50 {
		return nil, fmt.Errorf("page tree node %d is %v", num, d.obj[num])
	}
	all := map[string]any{}
	for k, v := range inh {
		all[k] = v
	}
	for _, k := range []string{"Resources", "MediaBox", "CropBox", "Rotate"} {
		if v, ok := node[k]; ok {
			all[k] = v
		}
	}
	if node["Type"] == "/Page" {
		for k, v := range node {
			all[k] = v
		}
		delete(all, "Parent")
		return []vPage{{num, all}}, nil
	}
	kids, ok := node["Kids"].([]any)
	if !ok {
		return nil, fmt.Errorf("Pages object %d has Kids %v", num, node["Kids"])
	}
	var pages []vPage
	for _, k := range kids {
		r, ok := k.(vRef)
		if !ok {
			return nil, fmt.Errorf("Pages object %d has Kids %v", num, kids)
		}
		if kid, ok := d.obj[int(r)].(map[string]any); ok && kid["Parent"] != any(vRef(num)) {
			return nil, fmt.Errorf("/Parent of %d is %v instead of %d", r, kid["Parent"], num)
		}
		sub, err := d.walk(int(r), all, depth+1)
		if err != nil {
			return nil, err
		}
		pages = append(pages, sub...)
	}
	if fmt.Sprint(node["Count"]) != strconv.Itoa(len(pages)) {
		return nil, fmt.Errorf("/Count of %d is %v with %d pages", num, node["Count"], len(pages))
	}
	return pages, nil
}

func (d *vDoc) pages() ([]vPage, error) {
	cat, ok := d.obj[d.root].(map[string]any)
	if !ok {
		return nil, fmt.Errorf("the catalog is %v", d.obj[d.root])
	}
	r, ok := cat["Pages"].(vRef)
	if !ok {
		return nil, fmt.Errorf("/Pages is %v", cat["Pages"])
	}
	return d.walk(int(r), nil, 0)
}

// show writes a value with all it refers to; a page referred to is shown by its marker, or null if it is not kept
func (d *vDoc) show(v any, marks map[int]string, open map[int]bool) string {
	switch v := v.(type) {
	case vRef:
		if m, ok := marks[int(v)]; ok {
			return m
		}
		if open[int(v)] {
			return "loop"
		}
		open[int(v)] = true
		defer delete(open, int(v))
		return d.show(d.obj[int(v)], marks, open)
	case vStream:
		return d.show(v.dict, marks, open) + fmt.Sprintf("stream %q", v.data)
	case map[string]any:
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := "<<"
		for _, k := range ks {
			s += "/" + k + " " + d.show(v[k], marks, open) + " "
		}
		return s + ">>"
	case []any:
		s := "["
		for _, x := range v {
			s += d.show(x, marks, open) + " "
		}
		return s + "]"
	case nil:
		return "null"
	}
	return fmt.Sprint(v)
}

// texts shows pages; kept says which of all pages references still find
func (d *vDoc) texts(pages []vPage, kept map[int]bool) []string {
	all, _ := d.pages()
	marks := map[int]string{}
	for _, p := range all {
		marks[p.num] = "null"
		if kept == nil || kept[p.num] {
			marks[p.num] = "page " + fmt.Sprint(p.inh["Marker"])
		}
	}
	var out []string
	for _, p := range pages {
		out = append(out, d.show(p.inh, marks, map[int]bool{}))
	}
	return out
}

// vMake makes a document with n pages in a tree of random shape
func vMake(r *rand.Rand, n int, name string) []byte {
	free := r.Perm(9*n + 40)
	num := func() int { x := free[0]; free = free[1:]; return x + 1 }
	bodies := map[int]string{}
	sp := func() string { return []string{" ", "", "\n", " % 7 0 R /Type\n"}[r.Intn(4)] }
	sep := func() string { return []string{" ", "\n", "  "}[r.Intn(3)] }
	ws := func() string { return []string{" ", " ", "\n", "\t", "\r\n", " \n "}[r.Intn(6)] }
	ref := func(n int) string { return fmt.Sprintf("%d%s0%sR", n, ws(), ws()) }
	attrs := func(p float64) (out []string) {
		if r.Float64() < p {
			out = append(out, fmt.Sprintf("/MediaBox%s[0 0 %d %d]", sp(), 100+r.Intn(900), 100+r.Intn(900)))
		}
		if r.Float64() < p {
			out = append(out, fmt.Sprintf("/Rotate%s%d", sep(), 90*(r.Intn(9)-4)))
		}
		if r.Float64() < p {
			f := num()
			bodies[f] = fmt.Sprintf("<< /Type /Font /BaseFont /F%d /Count 99 /Widths [%d] >>", f, f)
			res := fmt.Sprintf("<</Font%s<<%s/F1%s%s%s>>/Type /Res/Rotate 33>>", sp(), sp(), sep(), ref(f), sp())
			if r.Intn(2) == 0 {
				x := num()
				bodies[x] = res
				res = sep() + ref(x)
			}
			out = append(out, "/Resources"+res)
		}
		return out
	}
	dict := func(entries []string) string {
		r.Shuffle(len(entries), func(i, j int) { entries[i], entries[j] = entries[j], entries[i] })
		s := "<<"
		for _, e := range entries {
			s += sp() + e
			if !strings.HasSuffix(e, "]") && !strings.HasSuffix(e, ")") && !strings.HasSuffix(e, ">") {
				s += " "
			}
		}
		return s + sp() + ">>"
	}
	pageNums := make([]int, n)
	for i := range pageNums {
		pageNums[i] = num()
	}
	at := 0
	var node func(parent, k, depth int) int
	node = func(parent, k, depth int) int { // a node with k pages
		self := num()
		e := []string{"/Type /Pages", fmt.Sprintf("/Count%s%d", sep(), k)}
		if parent > 0 {
			e = append(e, "/Parent"+sep()+ref(parent))
		}
		e = append(e, attrs([]float64{0.8, 0.3}[min(depth, 1)])...)
		kids := "["
		for k > 0 {
			kid := 0
			if depth < 3 && r.Intn(3) == 0 {
				m := 1 + r.Intn(k)
				kid = node(self, m, depth+1)
				k -= m
			} else {
				kid = pageNums[at]
				c := num()
				data := fmt.Sprintf("BT (%s page %d of 1 0 R and 2 0 R) Tj ET", name, at)
				if r.Intn(3) == 0 {
					data += string([]byte{0, 13, 255, 10}) + " 3 0 R >> << [ ( "
				}
				bodies[c] = fmt.Sprintf("<</Length %d%s>>stream\n%s\nendstream", len(data), sp(), data)
				pe := []string{"/Type/Page", "/Parent" + sep() + ref(self), "/Contents " + ref(c), fmt.Sprintf("/Marker (%s%d: 4 0 R \\) /Parent 5 0 R)", name, at)}
				pe = append(pe, attrs(0.4)...)
				if r.Intn(3) == 0 {
					a := num()
					bodies[a] = fmt.Sprintf("<< /Type /Annot /Subtype /Link /P %s /Dest [%s /Fit] /Parent %s /Next [%s] >>", ref(kid), ref(pageNums[r.Intn(n)]), ref(c), ref(a))
					pe = append(pe, "/Annots [" + ref(a) + "]")
				}
				if r.Intn(4) == 0 {
					pe = append(pe, "/PieceInfo << /Parent 1 /Rotate 77 /Kids [1 2] /Count 3 >>")
				}
				bodies[kid] = dict(pe)
				at++
				k--
			}
			kids += ref(kid) + sep()
		}
		e = append(e, "/Kids"+sp()+kids+"]")
		bodies[self] = dict(e)
		return self
	}
	root := node(0, n, 0)
	cat := num()
	bodies[cat] = dict([]string{"/Type /Catalog", "/Pages " + ref(root), "/PageMode /UseNone", "/Names << /Pages 1 >>"})
	extra := num()
	bodies[extra] = "[ (not a page) <</Type/Page/Count 4>> 12 ]"
	var nums []int
	for k := range bodies {
		nums = append(nums, k)
	}
	sort.Ints(nums)
	off := map[int]int{}
	out := "%PDF-1.7\n"
	for _, i := range r.Perm(len(nums)) {
		k := nums[i]
		off[k] = len(out)
		out += fmt.Sprintf("%d 0 obj\n%s\nendobj\n", k, bodies[k])
	}
	x := len(out)
	size := nums[len(nums)-1] + 1
	out += fmt.Sprintf("xref\n0 %d\n", size)
	for i := 0; i < size; i++ {
		if o, ok := off[i]; ok {
			out += fmt.Sprintf("%010d 00000 n \n", o)
		} else {
			out += "0000000000 65535 f \n"
		}
	}
	return []byte(out + fmt.Sprintf("trailer\n<< /Size %d /Root %d 0 R >>\nstartxref\n%d\n%%%%EOF\n", size, cat, x))
}

func vSame(v *vT, what string, got, want []string) bool {
	if fmt.Sprintf("%q", got) == fmt.Sprintf("%q", want) {
		return true
	}
	for i := range want {
		if i >= len(got) || got[i] != want[i] {
			g := "nothing"
			if i < len(got) {
				g = got[i]
			}
			v.fail("%s: %d pages instead of %d, page %d is\n%s\ninstead of\n%s", what, len(got), len(want), i+1, g, want[i])
			return false
		}
	}
	v.fail("%s: %d pages instead of %d", what, len(got), len(want))
	return false
}

func (v *vT) result(what string, out []byte, err error) (*vDoc, []vPage, bool) {
	if err != nil {
		v.fail("%s: %v", what, err)
		return nil, nil, false
	}
	d, err := vRead(out)
	if err != nil {
		v.fail("%s: %v\n%s", what, err, out)
		return nil, nil, false
	}
	ps, err := d.pages()
	if err != nil {
		v.fail("%s: %v\n%s", what, err, out)
		return nil, nil, false
	}
	return d, ps, true
}

func TestVerif_C09_edits(t *testing.T) {
	vRun(t, "documents of 1 to 9 pages in trees up to 4 deep with inherited attributes, sequences of up to 7 deletions, rotations and insertions, valid and invalid", func(v *vT) {
		for it := 0; it < vN(500, 12000); it++ {
			r := v.rng
			n := 1 + r.Intn(9)
			file := vMake(r, n, "a")
			orig, err := vRead(file)
			if err != nil {
				panic(err)
			}
			start, err := orig.pages()
			if err != nil {
				panic(err)
			}
			type page struct {
				num, rot int
				shown    string // without the rotation
			}
			var want []page
			marks := map[int]string{}
			show := func(d *vDoc, p vPage) page {
				inh := map[string]any{}
				for k, x := range p.inh {
					inh[k] = x
				}
				rot, _ := strconv.Atoi(fmt.Sprint(inh["Rotate"]))
				delete(inh, "Rotate")
				return page{p.num, ((rot % 360) + 360) % 360, d.show(inh, marks, map[int]bool{})}
			}
			for _, p := range start {
				marks[p.num] = "page " + fmt.Sprint(p.inh["Marker"])
			}
			for _, p := range start {
				want = append(want, show(orig, p))
			}
			var script []string
			in := append([]byte(nil), file...)
			m, err := manipulate.NewPDFManipulator(in, nil, false)
			if err != nil {
				v.in(file)
				v.fail("NewPDFManipulator: %v", err)
				continue
			}
			next := 10000
			for k := r.Intn(8); k > 0; k-- {
				var err error
				ok := true
				n := len(want)
				switch op := r.Intn(5); op {
				case 0:
					i := r.Intn(n+4) - 1
					script = append(script, fmt.Sprintf("DeletePage(%d)", i))
					v.in(script, file)
					ok = i >= 1 && i <= n && n > 1
					if !v.safe(func() { err = m.DeletePage(i) }) {
						continue
					}
					if ok {
						want = append(append([]page(nil), want[:i-1]...), want[i:]...)
					}
				case 1:
					var l []int
					gone := map[int]bool{}
					for j := r.Intn(4); j > 0; j-- {
						i := 1 + r.Intn(n)
						if r.Intn(12) == 0 {
							i = []int{0, n + 1, -1}[r.Intn(3)]
						}
						l = append(l, i)
						gone[i] = true
						ok = ok && i >= 1 && i <= n
					}
					ok = ok && len(gone) < n
					script = append(script, fmt.Sprintf("DeletePages(%v)", l))
					v.in(script, file)
					if !v.safe(func() { err = m.DeletePages(l) }) {
						continue
					}
					if ok {
						var rest []page
						for i, p := range want {
							if !gone[i+1] {
								rest = append(rest, p)
							}
						}
						want = rest
					}
				case 2:
					i := r.Intn(n+2)
					a := []int{90, 180, 270, 0, 45, 360, -90}[r.Intn(7)]
					ok = i >= 1 && i <= n && (a == 90 || a == 180 || a == 270)
					script = append(script, fmt.Sprintf("RotatePage(%d, %d)", i, a))
					v.in(script, file)
					if !v.safe(func() { err = m.RotatePage(i, a) }) {
						continue
					}
					if ok {
						want = append([]page(nil), want...)
						want[i-1].rot = (want[i-1].rot + a) % 360
					}
				case 3:
					a := 90 * (1 + r.Intn(3))
					script = append(script, fmt.Sprintf("RotateAllPages(%d)", a))
					v.in(script, file)
					if !v.safe(func() { err = m.RotateAllPages(a) }) {
						continue
					}
					want = append([]page(nil), want...)
					for i := range want {
						want[i].rot = (want[i].rot + a) % 360
					}
				default:
					i := r.Intn(n+4) - 1
					ok = i >= 0 && i <= n+1
					next++
					mark := fmt.Sprintf("(new %d)", next)
					body := fmt.Sprintf("<</Type /Page /Marker %s /MediaBox [0 0 1 %d] /CropBox[1 1 2 2]/Resources<</Kids [1]>> /Rotate %d>>", mark, next, 90*r.Intn(4))
					if r.Intn(2) == 0 {
						body = strings.Replace(body, "<</Type", "<</Parent 1 0 R /Type", 1)
					}
					script = append(script, fmt.Sprintf("InsertPage(%d, %d, %s)", i, next, body))
					v.in(script, file)
					if !v.safe(func() { err = m.InsertPage(i, next, []byte(body)) }) {
						continue
					}
					if ok {
						marks[next] = "page " + mark
						nd := (&vReader{body}).value().(map[string]any)
						delete(nd, "Parent")
						p := show(orig, vPage{next, nd})
						if i == 0 || i > n {
							want = append(append([]page(nil), want...), p)
						} else {
							want = append(append(append([]page(nil), want[:i-1]...), p), want[i-1:]...)
						}
					}
				}
				if (err == nil) != ok {
					v.fail("%s on %d pages: error %v", script[len(script)-1], n, err)
				}
			}
			v.in(script, file)
			v.safe(func() {
				out, err := m.Rebuild()
				d, pages, ok := v.result("Rebuild", out, err)
				if !ok {
					return
				}
				var got, exp []string
				for _, p := range pages {
					x := show(d, p)
					got = append(got, fmt.Sprintf("object %d, rotated by %d: %s", x.num, x.rot, x.shown))
				}
				for _, x := range want {
					exp = append(exp, fmt.Sprintf("object %d, rotated by %d: %s", x.num, x.rot, x.shown))
				}
				if !vSame(v, "after "+strings.Join(script, ", "), got, exp) {
					return
				}
				for num, x := range orig.obj {
					if f, ok := x.(map[string]any); ok && (f["Type"] == "/Page" || f["Type"] == "/Pages") {
						continue
					}
					if a, b := fmt.Sprintf("%q", d.obj[num]), fmt.Sprintf("%q", x); a != b {
						v.fail("object %d is %s instead of %s", num, a, b)
					}
				}
				if !bytes.Equal(in, file) {
					v.fail("the bytes given were changed")
				}
			})
		}
	})
}

func TestVerif_C09_new_documents(t *testing.T) {
	vRun(t, "documents of 1 to 9 pages in trees up to 4 deep: extraction of up to 6 pages in any order, splits by ranges and by every page count, merges of up to 3 documents", func(v *vT) {
		for it := 0; it < vN(400, 10000); it++ {
			r := v.rng
			n := 1 + r.Intn(9)
			file := vMake(r, n, "a")
			in := append([]byte(nil), file...)
			orig, err := vRead(file)
			if err != nil {
				panic(err)
			}
			pages, err := orig.pages()
			if err != nil {
				panic(err)
			}
			pick := func(l []int) []string {
				kept := map[int]bool{}
				var ps []vPage
				for _, i := range l {
					kept[pages[i-1].num] = true
					ps = append(ps, pages[i-1])
				}
				return orig.texts(ps, kept)
			}
			check := func(what string, out []byte, err error, want []string) {
				if d, ps, ok := v.result(what, out, err); ok {
					vSame(v, what, d.texts(ps, nil), want)
				}
			}
			switch r.Intn(4) {
			case 0:
				var l []int
				ok := true
				for k := r.Intn(7); k > 0; k-- {
					i := 1 + r.Intn(n)
					if r.Intn(20) == 0 {
						i = []int{0, n + 1, -1}[r.Intn(3)]
					}
					ok = ok && i >= 1 && i <= n
					l = append(l, i)
				}
				ok = ok && len(l) > 0
				v.in("ExtractPages", l, file)
				v.safe(func() {
					out, err := manipulate.ExtractPages(in, l, nil, false)
					if !ok {
						if err == nil {
							v.fail("ExtractPages(%v) of %d pages succeeded", l, n)
						}
						return
					}
					check(fmt.Sprintf("ExtractPages(%v)", l), out, err, pick(l))
				})
			case 1:
				var l []manipulate.PageRange
				ok := true
				for k := r.Intn(4); k > 0; k-- {
					a := 1 + r.Intn(n)
					b := a + r.Intn(n-a+1)
					if r.Intn(15) == 0 {
						b = []int{a - 1, n + 1, 0}[r.Intn(3)]
					}
					ok = ok && a <= b && b <= n
					l = append(l, manipulate.PageRange{Start: a, End: b})
				}
				ok = ok && len(l) > 0
				v.in("SplitPDF", l, file)
				v.safe(func() {
					outs, err := manipulate.SplitPDF(in, l, nil, false)
					if ok != (err == nil) || ok && len(outs) != len(l) {
						v.fail("SplitPDF(%v) of %d pages: %d documents, %v", l, n, len(outs), err)
						return
					}
					for i, out := range outs {
						var p []int
						for k := l[i].Start; k <= l[i].End; k++ {
							p = append(p, k)
						}
						check(fmt.Sprintf("SplitPDF(%v) part %d", l, i+1), out, nil, pick(p))
					}
				})
			case 2:
				k := []int{1, 2, 3, n - 1, n, n + 1, math.MaxInt, math.MaxInt - n, math.MaxInt / 2, 0, -1}[r.Intn(11)]
				v.in("SplitPDFByPageCount", k, file)
				v.safe(func() {
					outs, err := manipulate.SplitPDFByPageCount(in, k, nil, false)
					if k < 1 {
						if err == nil {
							v.fail("SplitPDFByPageCount(%d) succeeded", k)
						}
						return
					}
					if want := (n-1)/k + 1; err != nil || len(outs) != want {
						v.fail("SplitPDFByPageCount(%d) of %d pages: %d documents instead of %d, %v", k, n, len(outs), want, err)
						return
					}
					for i, out := range outs {
						var p []int
						for j := i*k + 1; j <= n && j-i*k <= k; j++ {
							p = append(p, j)
						}
						check(fmt.Sprintf("SplitPDFByPageCount(%d) part %d", k, i+1), out, nil, pick(p))
					}
				})
			default:
				files := [][]byte{in}
				want := orig.texts(pages, nil)
				for k := r.Intn(3); k > 0; k-- {
					f := vMake(r, 1+r.Intn(5), string(rune('a'+k)))
					d, err := vRead(f)
					if err != nil {
						panic(err)
					}
					ps, _ := d.pages()
					files = append(files, f)
					want = append(want, d.texts(ps, nil)...)
				}
				v.in("MergePDFs", files)
				v.safe(func() {
					out, err := manipulate.MergePDFs(files, nil, false)
					check(fmt.Sprintf("MergePDFs of %d", len(files)), out, err, want)
				})
			}
			if !bytes.Equal(in, file) {
				v.fail("the bytes given were changed")
			}
		}
	})
}

func TestVerif_C09_damaged(t *testing.T) {
	vRun(t, "documents of 1 to 9 pages with up to 4 references or bytes changed: every operation ends without a panic", func(v *vT) {
		for it := 0; it < vN(1500, 30000); it++ {
			r := v.rng
			file := vMake(r, 1+r.Intn(9), "a")
			for k := 1 + r.Intn(4); k > 0; k-- {
				if r.Intn(3) == 0 {
					file[r.Intn(len(file))] = "0123456789<>[]()/R %\\"[r.Intn(21)]
					continue
				}
				at := 0
				for j := r.Intn(60); j >= 0; j-- {
					if x := bytes.Index(file[at+1:], []byte(" 0 R")); x >= 0 {
						at += 1 + x
					}
				}
				for j := at - 1; j > 0 && file[j] >= '0' && file[j] <= '9'; j-- {
					file[j] = byte('0' + r.Intn(10))
				}
			}
			i, a := r.Intn(5), 90*(1+r.Intn(3))
			v.in(i, a, file)
			v.safe(func() {
				m, err := manipulate.NewPDFManipulator(file, nil, false)
				if err != nil {
					return
				}
				m.RotatePage(i, a)
				m.DeletePage(i)
				m.InsertPage(i, 5000, []byte("<</Type/Page>>"))
				m.RotateAllPages(a)
				m.DeletePages([]int{1, 2})
				m.Rebuild()
				manipulate.ExtractPages(file, []int{i}, nil, false)
				manipulate.SplitPDFByPageCount(file, 2, nil, false)
				manipulate.MergePDFs([][]byte{file, file}, nil, false)
			})
		}
	})
}
