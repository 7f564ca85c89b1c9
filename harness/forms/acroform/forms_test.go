package acroform_test

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"testing"
	"unicode/utf16"

	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/forms/acroform"
	"github.com/benedoc-inc/pdfer/types"
)

// an independent reader

type vRef int
type vStream struct {
	dict map[string]any
	data string
}

type vReader struct{ s string }

func (p *vReader) ws() {
	for p.s != "" {
		if p.s[0] == '%' {
			if i := strings.IndexAny(p.s, "\r\n"); i >= 0 {
				p.s = p.s[i:]
			} else {
				p.s = ""
			}
		} else if strings.IndexByte(" \t\r\n\f\x00", p.s[0]) >= 0 {
			p.s = p.s[1:]
		} else {
			return
		}
	}
}

func (p *vReader) word() string {
	i := 0
	for i < len(p.s) && strings.IndexByte(" \t\r\n\f\x00()<>[]{}/%", p.s[i]) < 0 {
		i++
	}
	w := p.s[:i]
	p.s = p.s[i:]
	return w
}

func (p *vReader) value() any {
	p.ws()
	switch {
	case strings.HasPrefix(p.s, "<<"):
		p.s = p.s[2:]
		d := map[string]any{}
		for p.ws(); !strings.HasPrefix(p.s, ">>"); p.ws() {
			if p.s == "" || p.s[0] != '/' {
				panic(fmt.Sprintf("dictionary key expected at %.40q", p.s))
			}
			p.s = p.s[1:]
			k := p.word()
			if _, twice := d[k]; twice {
				panic(fmt.Sprintf("key /%s twice in a dictionary", k))
			}
			d[k] = p.value()
		}
		p.s = p.s[2:]
		return d
	case p.s == "":
		panic("value expected at the end")
	case p.s[0] == '[':
		p.s = p.s[1:]
		a := []any{}
		for p.ws(); !strings.HasPrefix(p.s, "]"); p.ws() {
			a = append(a, p.value())
		}
		p.s = p.s[1:]
		return a
	case p.s[0] == '(':
		d, i := 0, 0
		for ; ; i++ {
			if p.s[i] == '\\' {
				i++
			} else if p.s[i] == '(' {
				d++
			} else if p.s[i] == ')' {
				if d--; d == 0 {
					break
				}
			}
		}
		v := p.s[:i+1]
		p.s = p.s[i+1:]
		return v
	case p.s[0] == '<':
		i := strings.IndexByte(p.s, '>')
		v := p.s[:i+1]
		p.s = p.s[i+1:]
		return v
	case p.s[0] == '/':
		p.s = p.s[1:]
		return "/" + p.word()
	}
	w := p.word()
	if w == "" {
		panic(fmt.Sprintf("value expected at %.40q", p.s))
	}
	if n, err := strconv.Atoi(w); err == nil && n >= 0 {
		rest := p.s
		if p.ws(); p.word() == "0" {
			if p.ws(); p.word() == "R" {
				return vRef(n)
			}
		}
		p.s = rest
	}
	if w == "null" {
		return nil
	}
	return w
}

type vDoc struct {
	obj     map[int]any
	trailer map[string]any
}

func vInflate(s string) string {
	z, err := zlib.NewReader(strings.NewReader(s))
	if err != nil {
		panic(err)
	}
	b, err := io.ReadAll(z)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// vObject reads the object at an offset
func vObject(s string, off, num int) any {
	if off < 0 || off >= len(s) {
		panic(fmt.Sprintf("offset %d of object %d is outside the file", off, num))
	}
	q := &vReader{s[off:]}
	if q.word() != strconv.Itoa(num) {
		panic(fmt.Sprintf("object %d is not where the table says", num))
	}
	q.ws()
	q.word()
	q.ws()
	if q.word() != "obj" {
		panic(fmt.Sprintf("object %d has no header", num))
	}
	v := q.value()
	if q.ws(); strings.HasPrefix(q.s, "stream") {
		l, _ := strconv.Atoi(fmt.Sprint(v.(map[string]any)["Length"]))
		q.s = strings.TrimPrefix(strings.TrimPrefix(q.s[6:], "\r"), "\n")
		v = vStream{v.(map[string]any), q.s[:l]}
		q.s = q.s[l:]
		if q.ws(); q.word() != "endstream" {
			panic(fmt.Sprintf("stream %d has another length", num))
		}
		q.ws()
	}
	if q.word() != "endobj" {
		panic(fmt.Sprintf("object %d does not end: %.30q", num, q.s))
	}
	return v
}

// vRead reads a file through its cross-reference sections, newest first
func vRead(file []byte) (d *vDoc, err error) {
	defer func() {
		if r := recover(); r != nil {
			d, err = nil, fmt.Errorf("the file cannot be read: %v", r)
		}
	}()
	s := string(file)
	tail := s[strings.LastIndex(s, "startxref")+9:]
	if !strings.HasSuffix(strings.TrimSpace(tail), "%%EOF") {
		panic("no %%EOF at the end")
	}
	at, _ := strconv.Atoi(strings.Fields(tail)[0])
	d = &vDoc{obj: map[int]any{}}
	seen := map[int]bool{}
	set := func(num int, get func() any) {
		if !seen[num] {
			seen[num] = true
			d.obj[num] = get()
		}
	}
	var later []func() // objects in object streams
	for more := true; more; {
		p := &vReader{s[at:]}
		var t map[string]any
		if strings.HasPrefix(p.s, "xref") {
			p.word()
			for p.ws(); p.s[0] != 't'; p.ws() {
				first, _ := strconv.Atoi(p.word())
				p.ws()
				n, _ := strconv.Atoi(p.word())
				for i := first; i < first+n; i++ {
					p.ws()
					line := p.s[:20]
					if line[10] != ' ' || line[16] != ' ' || strings.TrimSpace(line[18:]) != "" {
						panic(fmt.Sprintf("table line %q", line))
					}
					off, _ := strconv.Atoi(line[:10])
					p.s = p.s[20:]
					if line[17] == 'n' {
						set(i, func() any { return vObject(s, off, i) })
					}
				}
			}
			if p.word() != "trailer" {
				panic("no trailer")
			}
			t = p.value().(map[string]any)
		} else {
			num, _ := strconv.Atoi(p.word())
			x := vObject(s, at, num).(vStream)
			t = x.dict
			if t["Type"] != "/XRef" {
				panic("no cross-reference section where it should be")
			}
			data := vInflate(x.data)
			var w [3]int
			for i, v := range t["W"].([]any) {
				w[i], _ = strconv.Atoi(fmt.Sprint(v))
			}
			field := func(k int) (n int) {
				for i := 0; i < w[k]; i++ {
					n = n<<8 | int(data[0])
					data = data[1:]
				}
				return n
			}
			index, ok := t["Index"].([]any)
			if !ok {
				index = []any{"0", t["Size"]}
			}
			self := false
			for k := 0; k < len(index); k += 2 {
				first, _ := strconv.Atoi(fmt.Sprint(index[k]))
				n, _ := strconv.Atoi(fmt.Sprint(index[k+1]))
				for i := first; i < first+n; i++ {
					kind, a, b := field(0), field(1), field(2)
					if i == num && kind == 1 && a == at {
						self = true
					}
					switch kind {
					case 1:
						set(i, func() any { return vObject(s, a, i) })
					case 2:
						if seen[i] {
							continue
						}
						seen[i] = true
						i := i
						later = append(later, func() {
							st := d.obj[a].(vStream)
							body := vInflate(st.data)
							f, _ := strconv.Atoi(fmt.Sprint(st.dict["First"]))
							nums := strings.Fields(body[:f])
							if nums[2*b] != strconv.Itoa(i) {
								panic(fmt.Sprintf("object %d is not in its stream", i))
							}
							o, _ := strconv.Atoi(nums[2*b+1])
							d.obj[i] = (&vReader{body[f+o:]}).value()
						})
					}
				}
			}
			if data != "" || !self {
				panic("the cross-reference stream does not fit its index or does not list itself")
			}
		}
		n, _ := strconv.Atoi(fmt.Sprint(t["Size"]))
		if d.trailer == nil {
			d.trailer = t
			for num := range seen {
				if num >= n {
					panic(fmt.Sprintf("object %d is not below the size %d", num, n))
				}
			}
		}
		prev, err := strconv.Atoi(fmt.Sprint(t["Prev"]))
		more = err == nil
		if more && prev >= at {
			panic("/Prev does not go back")
		}
		at = prev
	}
	for num := range seen {
		if n, _ := strconv.Atoi(fmt.Sprint(d.trailer["Size"])); num >= n {
			panic(fmt.Sprintf("object %d is not below the size %d", num, n))
		}
	}
	for _, f := range later {
		f()
	}
	return d, nil
}

// vField is a field as it should be read
type vField struct {
	num       int
	ft, ownFT string
	ff        int
	t, tu     string
	v, dv     any
	maxLen    int
	opt       []string
	sel       []int
	rect      []float64
	kids      []*vField
	full      string
	widget    bool
	where     string
}

var vWords = []string{"name", "V", "/V (x)", "a b", "Größe", "価格", "𝄞", "(", ")", "\\", "()", "<<", ">>", "[1 0 R]", "$1", "${1}", "%", "\n", "\r", "\t", "\x00", "\x7f", "5", "12", "0", " ", "/T", "FT", "\ufeff", "é", "7 0 R", "~", "\b", "\f", ".", "end", "obj", "/Encrypt", "startxref", "%%EOF", "xref", "trailer", "/Root 3 0 R", "stream", "4 0 obj", "\r\n"}

// the library takes this for a document's own entry wherever it stands
var vEncrypted = regexp.MustCompile(`/Encrypt\s+\d`)

func vText(r *rand.Rand, n int) string {
	s := ""
	for k := 0; k < n; k++ {
		s += vWords[r.Intn(len(vWords))]
	}
	s = strings.ReplaceAll(strings.ReplaceAll(s, "endobj", "e"), "endstream", "e")
	return vEncrypted.ReplaceAllString(s, "/Encrypt")
}

// vString writes a text in one of the ways a file may have it
func vString(r *rand.Rand, s string) string {
	b := s
	ascii := true
	for _, c := range s {
		ascii = ascii && c < 128
	}
	if !ascii || r.Intn(5) == 0 {
		b = "\xfe\xff"
		for _, u := range utf16.Encode([]rune(s)) {
			b += string([]byte{byte(u >> 8), byte(u)})
		}
	}
	if r.Intn(4) == 0 {
		h := ""
		for i := 0; i < len(b); i++ {
			h += fmt.Sprintf([]string{"%02x", "%02X"}[r.Intn(2)], b[i]) + []string{"", "", " ", "\n"}[r.Intn(4)]
		}
		if i := strings.TrimRight(h, " \n"); strings.HasSuffix(i, "0") && r.Intn(2) == 0 {
			h = i[:len(i)-1]
		}
		return "<" + h + ">"
	}
	// parentheses that match may stand as they are
	match := map[int]bool{}
	var open []int
	for i := 0; i < len(b); i++ {
		if b[i] == '(' {
			open = append(open, i)
		} else if b[i] == ')' && len(open) > 0 {
			match[i], match[open[len(open)-1]] = true, true
			open = open[:len(open)-1]
		}
	}
	raw := r.Intn(2) == 0
	o := "("
	for i := 0; i < len(b); i++ {
		c := b[i]
		next := byte('x')
		if i+1 < len(b) {
			next = b[i+1]
		}
		switch {
		case raw && match[i]:
			o += string(rune(c))
		case r.Intn(12) == 0 && (next < '0' || next > '7'):
			o += fmt.Sprintf("\\%o", c)
		case r.Intn(12) == 0:
			o += fmt.Sprintf("\\%03o", c)
		case c == '(' || c == ')' || c == '\\':
			o += "\\" + string(rune(c))
		case c == '\r':
			o += "\\r"
		case strings.IndexByte("\n\t\b\f", c) >= 0 && r.Intn(2) == 0:
			o += map[byte]string{'\n': "\\n", '\t': "\\t", '\b': "\\b", '\f': "\\f"}[c]
		case c == '\n' && r.Intn(2) == 0:
			o += []string{"\r", "\r\n"}[r.Intn(2)]
			if i+1 < len(b) && b[i+1] == '\n' {
				o += "\\n"
				i++
			}
		default:
			o += string([]byte{c})
		}
		if r.Intn(20) == 0 {
			o += []string{"\\\n", "\\\r\n"}[r.Intn(2)]
		}
	}
	return o + ")"
}

// vMake makes a document with a form; fields lists its fields in order, tree the outermost ones
func vMake(r *rand.Rand) (file []byte, tree, fields []*vField) {
	free := r.Perm(120)
	num := func() int { x := free[0]; free = free[1:]; return x + 1 }
	bodies := map[int]string{}
	var order []int
	add := func(n int, body string) { bodies[n] = body; order = append(order, n) }
	sp := func() string { return []string{" ", "", "\n", " % /V (no) 3 0 R >>\n"}[r.Intn(4)] }
	ws := func() string { return []string{" ", " ", "\n", "\t", "\r\n", " \n "}[r.Intn(6)] }
	ref := func(n int) string { return fmt.Sprintf("%d%s0%sR", n, ws(), ws()) }
	// a value is sometimes in an object of its own
	out := func(v string) string {
		if r.Intn(8) == 0 {
			n := num()
			add(n, v)
			return ws() + ref(n)
		}
		if strings.IndexByte("/([<", v[0]) >= 0 {
			return sp() + v
		}
		return ws() + v
	}
	used := map[string]bool{"": true}
	var build func(parent *vField, depth int, pnum int) *vField
	build = func(parent *vField, depth int, pnum int) *vField {
		f := &vField{num: num()}
		for {
			f.t = vText(r, 1+r.Intn(3))
			f.full = f.t
			if parent != nil {
				f.full = parent.full + "." + f.t
			}
			if f.t != "" && !used[f.full] {
				break
			}
		}
		used[f.full] = true
		fields = append(fields, f)
		e := []string{"/T" + out(vString(r, f.t))}
		if parent != nil {
			f.ft, f.ff = parent.ft, parent.ff
		}
		if parent == nil || r.Intn(2) == 0 {
			f.ft = []string{"Tx", "Ch", "Btn", "Sig"}[r.Intn(4)]
			e = append(e, "/FT"+out("/"+f.ft))
		}
		if r.Intn(2) == 0 {
			f.ff = r.Intn(1 << 20)
			e = append(e, "/Ff"+out(strconv.Itoa(f.ff)))
		}
		if r.Intn(2) == 0 {
			f.tu = vText(r, r.Intn(4))
			e = append(e, "/TU"+out(vString(r, f.tu)))
		}
		if r.Intn(3) > 0 {
			switch r.Intn(4) {
			case 0:
				f.v = "Opt" + strconv.Itoa(r.Intn(9))
				e = append(e, "/V"+out("/"+f.v.(string)))
			case 1:
				a, s := []any{}, "["
				for k := r.Intn(4); k > 0; k-- {
					x := vText(r, r.Intn(3))
					a = append(a, x)
					s += sp() + vString(r, x) + sp()
				}
				f.v = a
				e = append(e, "/V"+out(s+"]"))
			default:
				f.v = vText(r, r.Intn(5))
				e = append(e, "/V"+out(vString(r, f.v.(string))))
			}
		}
		if r.Intn(3) == 0 {
			f.dv = vText(r, r.Intn(5))
			e = append(e, "/DV"+out(vString(r, f.dv.(string))))
		}
		if r.Intn(3) == 0 {
			f.maxLen = 1 + r.Intn(40)
			e = append(e, "/MaxLen"+out(strconv.Itoa(f.maxLen)))
		}
		if r.Intn(3) == 0 {
			s := "["
			for k := r.Intn(4); k > 0; k-- {
				x := vText(r, r.Intn(3))
				f.opt = append(f.opt, x)
				if r.Intn(3) == 0 { // an export value and the text to show
					s += sp() + "[" + sp() + vString(r, x) + sp() + vString(r, vText(r, 1)) + sp() + "]"
				} else {
					s += sp() + vString(r, x) + sp()
				}
			}
			e = append(e, "/Opt"+out(s+"]"))
			if len(f.opt) > 0 && r.Intn(2) == 0 {
				s := "["
				for j := range f.opt {
					if r.Intn(2) == 0 {
						f.sel = append(f.sel, j)
						s += fmt.Sprintf("%s%d ", sp(), j)
					}
				}
				e = append(e, "/I"+out(s+sp()+"]"))
			}
		}
		if r.Intn(2) == 0 {
			f.rect = []float64{float64(r.Intn(300)), -1.5, float64(r.Intn(999)) / 4, 700}
			e = append(e, fmt.Sprintf("/Rect%s[ %v %v %s%v %v]", sp(), f.rect[0], f.rect[1], sp(), f.rect[2], f.rect[3]))
		}
		if r.Intn(2) == 0 {
			e = append(e, "/MK<</V (no)/T (no)/Kids [1 0 R]>>")
		}
		if r.Intn(3) == 0 {
			e = append(e, "/AA << /K << /S /JavaScript /JS (this.V = '/V \\(x\\)' ) >> /Opt [(no)] >>")
		}
		if r.Intn(3) == 0 {
			e = append(e, "/DA (/Helv 12 Tf 0 g /MaxLen 3 )")
		}
		if pnum > 0 {
			e = append(e, "/Parent "+ref(pnum))
		}
		s := "["
		kids := 0
		if depth < 3 && r.Intn(3) == 0 {
			for k := 1 + r.Intn(3); k > 0; k-- {
				kid := build(f, depth+1, f.num)
				f.kids = append(f.kids, kid)
				s += sp() + ref(kid.num) + ws()
				kids++
			}
		} else if r.Intn(4) == 0 {
			for k := 1 + r.Intn(2); k > 0; k-- {
				w := &vField{num: num(), ft: f.ft, ff: f.ff, widget: true, full: f.full}
				add(w.num, fmt.Sprintf("<< /Subtype /Widget /Parent %s >>", ref(f.num)))
				f.kids = append(f.kids, w)
				s += sp() + ref(w.num) + ws()
				kids++
			}
		}
		if kids > 0 {
			e = append(e, "/Kids"+out(s+"]"))
		}
		r.Shuffle(len(e), func(i, j int) { e[i], e[j] = e[j], e[i] })
		add(f.num, "<<"+sp()+strings.Join(e, sp()+" ")+sp()+">>")
		return f
	}
	list := "["
	for k := 1 + r.Intn(4); k > 0; k-- {
		f := build(nil, 0, 0)
		tree = append(tree, f)
		list += sp() + ref(f.num) + ws()
	}
	form := "<</DR << /Fields [9 0 R] >>" + sp() + "/Fields" + out(list+"]") + sp() + "/DA (/Helv 0 Tf /Fields [8 0 R])>>"
	root := num()
	if r.Intn(4) == 0 {
		form = sp() + form
	} else {
		n := num()
		add(n, form)
		form = ws() + ref(n)
	}
	pages := num()
	add(pages, "<< /Type /Pages /Kids [] /Count 0 >>")
	add(root, fmt.Sprintf("<< /Type /Catalog /Note (/AcroForm 1 0 R) /Pages %s /AcroForm%s >>", ref(pages), form))
	extra := num()
	add(extra, "<< /Length 10 >>\nstream\n/V (x) /T \nendstream")
	if r.Intn(3) == 0 {
		// what a writer left behind: an older form that nothing refers to
		n := num()
		add(n, "<< /Note << /AcroForm 1 0 R >> >>")
	}
	r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })

	var b bytes.Buffer
	b.WriteString("%PDF-1.7\n")
	size := 0
	for n := range bodies {
		size = max(size, n+1)
	}
	trailer := fmt.Sprintf("/Root %d 0 R /ID [<01><02>]", root)
	offs := map[int]int{}
	write := func(n int, body string) {
		offs[n] = b.Len()
		fmt.Fprintf(&b, "%d 0 obj%s%s\nendobj\n", n, []string{"\n", " "}[r.Intn(2)], body)
	}
	if r.Intn(2) == 0 { // classic tables, one or two revisions
		old := map[int]bool{}
		prev := ""
		section := func(nums []int) {
			at := b.Len()
			b.WriteString("xref\n0 1\n0000000000 65535 f \n")
			sort.Ints(nums)
			for _, n := range nums {
				fmt.Fprintf(&b, "%d 1\n%010d 00000 n \n", n, offs[n])
			}
			fmt.Fprintf(&b, "trailer\n<< /Size %d %s %s >>\nstartxref\n%d\n%%%%EOF", size, trailer, prev, at)
			if r.Intn(2) == 0 {
				b.WriteString("\n")
			}
			prev = fmt.Sprintf("/Prev %d", at)
		}
		if r.Intn(2) == 0 {
			var nums []int
			for _, n := range order {
				if r.Intn(2) == 0 || n == root || n == pages {
					old[n] = true
					body := bodies[n]
					if r.Intn(2) == 0 && n != root && n != pages {
						body = "<< /T (old) /V (old) >>"
						old[n] = false
					}
					write(n, body)
					nums = append(nums, n)
				}
			}
			section(nums)
			b.WriteString("\n")
		}
		var nums []int
		for _, n := range order {
			if !old[n] {
				write(n, bodies[n])
				nums = append(nums, n)
			}
		}
		section(nums)
	} else { // a cross-reference stream and an object stream
		sn, xn := size, size+1
		size += 2
		var in []int
		for _, n := range order {
			if n != extra && r.Intn(2) == 0 {
				in = append(in, n)
			} else {
				write(n, bodies[n])
			}
		}
		idx := map[int]int{}
		index, body := "", ""
		for i, n := range in {
			idx[n] = i
			index += fmt.Sprintf("%d %d ", n, len(body))
			body += bodies[n] + []string{" ", "\n"}[r.Intn(2)]
		}
		var z bytes.Buffer
		zw := zlib.NewWriter(&z)
		zw.Write([]byte(index + body))
		zw.Close()
		write(sn, fmt.Sprintf("<< /Type /ObjStm /N %d /First %d /Filter /FlateDecode /Length %d >>\nstream\n%s\nendstream", len(in), len(index), z.Len(), z.String()))
		at := b.Len()
		offs[xn] = at
		var rows []byte
		for n := 0; n < size; n++ {
			row := []byte{0, 0, 0, 0, 0, 0}
			if i, ok := idx[n]; ok {
				row = []byte{2, 0, byte(sn >> 8), byte(sn), byte(i >> 8), byte(i)}
			} else if o, ok := offs[n]; ok {
				row = []byte{1, byte(o >> 16), byte(o >> 8), byte(o), 0, 0}
			}
			rows = append(rows, row...)
		}
		z.Reset()
		zw = zlib.NewWriter(&z)
		zw.Write(rows)
		zw.Close()
		fmt.Fprintf(&b, "%d 0 obj\n<< /Type /XRef /Size %d /W [1 3 2] %s /Filter /FlateDecode /Length %d >>\nstream\n%s\nendstream\nendobj\nstartxref\n%d\n%%%%EOF\n", xn, size, trailer, z.Len(), z.String(), at)
	}
	return b.Bytes(), tree, fields
}

// vDiffer compares fields as read with what they should be
func vDiffer(got []*acroform.Field, want []*vField, parent *acroform.Field) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d fields instead of %d", len(got), len(want))
	}
	for i, g := range got {
		w := want[i]
		opt := []any{}
		for _, o := range w.opt {
			opt = append(opt, o)
		}
		var wv any = w.v
		switch {
		case g.ObjectNum != w.num:
			return fmt.Sprintf("field %d instead of %d", g.ObjectNum, w.num)
		case g.Parent != parent:
			return fmt.Sprintf("the parent of %q", w.full)
		case g.T != w.t, g.GetFullName() != w.full:
			return fmt.Sprintf("field %d has the name %q (%q) instead of %q (%q)", w.num, g.T, g.GetFullName(), w.t, w.full)
		case g.TU != w.tu:
			return fmt.Sprintf("field %q: TU %q instead of %q", w.full, g.TU, w.tu)
		case g.FT != w.ft:
			return fmt.Sprintf("field %q: FT %q instead of %q", w.full, g.FT, w.ft)
		case g.Ff != w.ff:
			return fmt.Sprintf("field %q: Ff %d instead of %d", w.full, g.Ff, w.ff)
		case !reflect.DeepEqual(g.V, wv):
			return fmt.Sprintf("field %q: V %#v instead of %#v", w.full, g.V, w.v)
		case !reflect.DeepEqual(g.DV, w.dv):
			return fmt.Sprintf("field %q: DV %#v instead of %#v", w.full, g.DV, w.dv)
		case g.MaxLen != w.maxLen:
			return fmt.Sprintf("field %q: MaxLen %d instead of %d", w.full, g.MaxLen, w.maxLen)
		case len(g.Opt) != len(opt) || len(opt) > 0 && !reflect.DeepEqual(g.Opt, opt):
			return fmt.Sprintf("field %q: Opt %#v instead of %#v", w.full, g.Opt, opt)
		case len(g.Rect) != len(w.rect) || len(w.rect) > 0 && !reflect.DeepEqual(g.Rect, w.rect):
			return fmt.Sprintf("field %q: Rect %v instead of %v", w.full, g.Rect, w.rect)
		}
		if d := vDiffer(g.Kids, w.kids, g); d != "" {
			return d
		}
	}
	return ""
}

func vCheckRead(v *vT, what string, file []byte, tree, fields []*vField) bool {
	af, err := acroform.ExtractAcroForm(file, nil, false)
	if err != nil {
		v.fail("%s: ExtractAcroForm: %v\n%q", what, err, file)
		return false
	}
	if d := vDiffer(af.Fields, tree, nil); d != "" {
		v.fail("%s: %s\n%q", what, d, file)
		return false
	}
	values := map[string]any{}
	for _, f := range fields {
		if f.v != nil {
			values[f.full] = f.v
		}
		if g := af.FindFieldByName(f.full); g == nil || g.ObjectNum != f.num {
			v.fail("%s: FindFieldByName(%q) finds another field\n%q", what, f.full, file)
			return false
		}
	}
	if got := af.GetFieldValues(); !reflect.DeepEqual(got, values) {
		v.fail("%s: GetFieldValues gives %#v instead of %#v\n%q", what, got, values, file)
		return false
	}
	// the schema has a question for every field that has a value of its own
	var leaves []*vField
	for _, f := range fields {
		leaf := true
		for _, k := range f.kids {
			leaf = leaf && k.widget
		}
		if leaf {
			leaves = append(leaves, f)
		}
	}
	qs := af.ToFormSchema().Questions
	if len(qs) != len(leaves) {
		v.fail("%s: the schema has %d questions for %d fields\n%q", what, len(qs), len(leaves), file)
		return false
	}
	for i, q := range qs {
		f := leaves[i]
		kind := map[string]types.ResponseType{"Tx": types.ResponseTypeText, "Ch": types.ResponseTypeSelect, "Sig": types.ResponseTypeSignature, "Btn": types.ResponseTypeCheckbox}[f.ft]
		if f.ft == "Btn" && f.ff&(1<<16) != 0 {
			kind = types.ResponseTypeButton
		} else if f.ft == "Btn" && f.ff&(1<<15) != 0 {
			kind = types.ResponseTypeRadio
		}
		good := q.Name == f.full && q.Label == f.tu && q.Type == kind && q.Required == (f.ff&2 != 0) && q.ReadOnly == (f.ff&1 != 0) && len(q.Options) == len(f.opt) && reflect.DeepEqual(q.Default, f.dv)
		good = good && (q.Validation != nil && q.Validation.MaxLength != nil) == (f.maxLen > 0) && (f.maxLen == 0 || *q.Validation.MaxLength == f.maxLen)
		for j, o := range q.Options {
			good = good && o.Value == f.opt[j] && o.Label == f.opt[j] && o.Selected == slices.Contains(f.sel, j)
		}
		if !good {
			v.fail("%s: the schema describes the field %+v as %+v", what, f, q)
			return false
		}
	}
	return true
}

func TestVerif_C10_reading(t *testing.T) {
	vRun(t, "forms of 1 to 30 fields up to 4 deep, in classic files of one or two revisions and files with object streams; every kind of string", func(v *vT) {
		for it := 0; it < vN(1500, 40000); it++ {
			file, tree, fields := vMake(v.rng)
			v.in(file)
			v.safe(func() { vCheckRead(v, "read", file, tree, fields) })
		}
	})
}

func TestVerif_C10_filling(t *testing.T) {
	vRun(t, "sequences of up to 4 fillings of 1 to 4 fields each, with texts, numbers and truth values, in all the files of the reading test", func(v *vT) {
		for it := 0; it < vN(900, 25000); it++ {
			r := v.rng
			file, tree, fields := vMake(r)
			if _, err := vRead(file); err != nil {
				panic(err)
			}
			var log []any
			for step := 1 + r.Intn(4); step > 0; step-- {
				data := types.FormData{}
				want := map[int]string{}
				for k := 1 + r.Intn(4); k > 0; k-- {
					f := fields[r.Intn(len(fields))]
					var x any
					var s string
					switch r.Intn(8) {
					case 0:
						n := r.Intn(2000) - 1000
						x, s = n, strconv.Itoa(n)
					case 1:
						n := float64(r.Intn(2000)-1000) / 8
						x, s = n, strconv.FormatFloat(n, 'f', -1, 64)
					case 2:
						on := r.Intn(2) == 0
						x, s = on, strconv.FormatBool(on)
						if f.ft == "Btn" {
							s = map[bool]string{true: "Yes", false: "Off"}[on]
						}
					default:
						s = vText(r, r.Intn(6))
						x = s
					}
					data[f.full] = x
					want[f.num] = s
				}
				if r.Intn(4) == 0 {
					data["no such field at all"] = "x"
				}
				log = append(log, data)
				how := r.Intn(2)
				v.in(file, log, how)
				before, _ := vRead(file)
				input := append([]byte(nil), file...)
				ok := false
				v.safe(func() {
					var out []byte
					var err error
					if how == 0 {
						out, err = acroform.FillForm(file, data, nil, false)
					} else {
						af, e := acroform.ExtractAcroForm(file, nil, false)
						if e != nil {
							v.fail("ExtractAcroForm: %v", e)
							return
						}
						out = file
						for name, x := range data {
							if f := af.FindFieldByName(name); f != nil && err == nil {
								out, err = acroform.FillFieldValue(out, f, x, nil, false)
							}
						}
					}
					if err != nil {
						v.fail("filling: %v", err)
						return
					}
					if !bytes.Equal(file, input) {
						v.fail("filling changed the bytes passed in")
						return
					}
					for _, f := range fields {
						if s, ok := want[f.num]; ok {
							f.v = s
						}
					}
					after, err := vRead(out)
					if err != nil {
						v.fail("filled: %v\n%q", err, out)
						return
					}
					for _, key := range []string{"Root", "ID", "Info"} {
						if !reflect.DeepEqual(before.trailer[key], after.trailer[key]) {
							v.fail("filling changed /%s of the trailer", key)
							return
						}
					}
					for num, o := range before.obj {
						n := after.obj[num]
						if _, changed := want[num]; changed {
							od, _ := o.(map[string]any)
							nd, _ := n.(map[string]any)
							if nd == nil {
								v.fail("field %d is no dictionary any more: %v", num, n)
								return
							}
							delete(od, "V")
							delete(nd, "V")
						}
						if !reflect.DeepEqual(o, n) {
							v.fail("filling changed object %d from %v to %v\n%q", num, o, n, out)
							return
						}
					}
					if !vCheckRead(v, "filled", out, tree, fields) {
						return
					}
					file, ok = out, true
				})
				if !ok {
					break
				}
			}
		}
	})
}

func TestVerif_C10_building(t *testing.T) {
	vRun(t, "forms of up to 12 fields made by FieldBuilder, with any names, values and options, read back", func(v *vT) {
		for it := 0; it < vN(1500, 30000); it++ {
			r := v.rng
			w := write.NewPDFWriter()
			fb := acroform.NewFieldBuilder(w)
			var want []*vField
			used := map[string]bool{}
			for k := 1 + r.Intn(12); k > 0; k-- {
				f := &vField{t: vText(r, 1+r.Intn(3)), rect: []float64{float64(r.Intn(500)), 1.25, 300, float64(r.Intn(500))}}
				if used[f.t] || f.t == "" {
					continue
				}
				used[f.t] = true
				f.full = f.t
				var d *acroform.FieldDef
				switch r.Intn(5) {
				case 0:
					d, f.ft, f.ff = fb.AddCheckbox(f.t, f.rect, 0), "Btn", 0
				case 1:
					d, f.ft, f.ff = fb.AddRadioButton(f.t, f.rect, 0), "Btn", 0x8000
				case 2:
					for k := 1 + r.Intn(4); k > 0; k-- {
						f.opt = append(f.opt, vText(r, r.Intn(3)))
					}
					d, f.ft = fb.AddChoiceField(f.t, f.rect, 0, f.opt), "Ch"
				case 3:
					d, f.ft, f.ff = fb.AddButton(f.t, f.rect, 0), "Btn", 0x10000
				default:
					d, f.ft = fb.AddTextField(f.t, f.rect, 0), "Tx"
				}
				if r.Intn(2) == 0 {
					s := vText(r, r.Intn(5))
					f.v = s
					d.SetValue(s)
				}
				if r.Intn(2) == 0 {
					s := vText(r, r.Intn(5))
					f.dv = s
					d.SetDefault(s)
				}
				if r.Intn(2) == 0 {
					f.maxLen = r.Intn(50)
					d.SetMaxLength(f.maxLen)
				}
				for k := r.Intn(3); k > 0; k-- {
					if r.Intn(2) == 0 {
						on := r.Intn(2) == 0
						f.ff &^= 2
						if on {
							f.ff |= 2
						}
						d.SetRequired(on)
					} else {
						on := r.Intn(2) == 0
						f.ff &^= 1
						if on {
							f.ff |= 1
						}
						d.SetReadOnly(on)
					}
				}
				want = append(want, f)
			}
			if len(want) == 0 {
				continue
			}
			v.in(want)
			v.safe(func() {
				form, err := fb.Build()
				if err != nil {
					v.fail("Build: %v", err)
					return
				}
				pages := w.AddObject([]byte("<</Type/Pages/Kids[]/Count 0>>"))
				cat := w.AddObject([]byte(fmt.Sprintf("<</Type/Catalog/Pages %d 0 R>>", pages)))
				if err := acroform.AddAcroFormToCatalog(w, cat, form); err != nil {
					v.fail("AddAcroFormToCatalog: %v", err)
					return
				}
				w.SetRoot(cat)
				file, err := w.Bytes()
				if err != nil {
					v.fail("Bytes: %v", err)
					return
				}
				d, err := vRead(file)
				if err != nil {
					v.fail("%v\n%q", err, file)
					return
				}
				refs := d.obj[form].(map[string]any)["Fields"].([]any)
				for i := range want {
					want[i].num = int(refs[i].(vRef))
				}
				vCheckRead(v, "built", file, want, want)
			})
		}
	})
}

func TestVerif_C10_validation(t *testing.T) {
	vRun(t, "forms as in the reading test, with form data that fits them or not", func(v *vT) {
		for it := 0; it < vN(1000, 20000); it++ {
			r := v.rng
			file, _, fields := vMake(r)
			data := types.FormData{}
			bad := 0
			var which []string
			for _, f := range fields {
				was := bad
				leaf := true
				for _, k := range f.kids {
					leaf = leaf && k.widget
				}
				required := f.ff&2 != 0
				if r.Intn(2) == 0 {
					if required && leaf {
						bad++
						which = append(which, f.full)
					}
					continue
				}
				s := vText(r, r.Intn(8))
				if len(f.opt) > 0 && r.Intn(2) == 0 {
					s = f.opt[r.Intn(len(f.opt))]
				}
				data[f.full] = s
				in := len(f.opt) == 0
				for _, o := range f.opt {
					in = in || o == s
				}
				switch {
				case required && s == "":
					bad++
				case f.ft == "Tx" && f.maxLen > 0 && len([]rune(s)) > f.maxLen:
					bad++
				case f.ft == "Ch" && !in:
					bad++
				case f.ft == "Btn" && f.ff&0x18000 == 0x8000 && !in:
					bad++
				}
				if bad > was {
					which = append(which, f.full)
				}
			}
			for k := r.Intn(3); k > 0; k-- {
				data[fmt.Sprintf("no such field %d", k)] = "x"
				bad++
			}
			v.in(file, data)
			v.safe(func() {
				af, err := acroform.ExtractAcroForm(file, nil, false)
				if err != nil {
					v.fail("ExtractAcroForm: %v", err)
					return
				}
				if errs := acroform.ValidateFormData(af, data); len(errs) != bad {
					v.fail("ValidateFormData finds %d faults instead of %d (%q): %v", len(errs), bad, which, errs)
				}
			})
		}
	})
}

func TestVerif_C10_damaged(t *testing.T) {
	vRun(t, "the files of the reading test with up to 6 bytes or references changed: reading and filling end without a panic", func(v *vT) {
		for it := 0; it < vN(1500, 40000); it++ {
			r := v.rng
			file, _, fields := vMake(r)
			for k := 1 + r.Intn(6); k > 0; k-- {
				at := r.Intn(len(file))
				if r.Intn(2) == 0 {
					if i := bytes.Index(file[at:], []byte(" R")); i >= 0 {
						at += i
						for at > 0 && (file[at] < '0' || file[at] > '9') {
							at--
						}
						for ; at > 0 && file[at-1] != ' ' && r.Intn(4) > 0; at-- {
						}
					}
				}
				file[at] = "0123456789<>[]()/R %\\"[r.Intn(21)]
			}
			data := types.FormData{fields[r.Intn(len(fields))].full: vText(r, 3)}
			v.in(file, data)
			v.safe(func() {
				af, err := acroform.ExtractAcroForm(file, nil, false)
				if err == nil {
					af.GetFieldValues()
					acroform.ValidateFormData(af, data)
				}
				acroform.FillForm(file, data, nil, false)
			})
		}
	})
}
