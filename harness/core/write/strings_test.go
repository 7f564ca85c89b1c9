package write_test

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/benedoc-inc/pdfer/content/extract"
	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
)

var vTextParts = []string{"(", ")", "\\", "\\(", "\\)", "\\\\", "\\n", "\\1", "\\053", "/", "/Title", "/Author (x)", " R", "1 0 R", ">>", "<<", "<41>", "[", "]", "\n", "\r", "\r\n", "\t", "\b", "\f", "\x00", "\xff\xfe", "\x80", "é", "日本", "%", "a", "b c", "  ", "Tj", "'", "BT", "12", "-5", "()", "((", "))", "$1", "\\\r\n"}

// vText is a text made of characters that mean something in PDF syntax
func vText(r *rand.Rand, max int) string {
	s := ""
	for n := 1 + r.Intn(max); n > 0; n-- {
		if r.Intn(8) == 0 {
			s += string([]byte{byte(r.Intn(256))})
		} else {
			s += vTextParts[r.Intn(len(vTextParts))]
		}
	}
	return s
}

// vLiteral reads the literal string at the start of b the way ISO 32000-1, 7.3.4.2 says
func vLiteral(b []byte) (string, bool) {
	if len(b) == 0 || b[0] != '(' {
		return "", false
	}
	var out []byte
	depth := 0
	for i := 1; i < len(b); i++ {
		switch c := b[i]; {
		case c == '(':
			depth++
			out = append(out, c)
		case c == ')':
			if depth == 0 {
				return string(out), true
			}
			depth--
			out = append(out, c)
		case c == '\r':
			if i+1 < len(b) && b[i+1] == '\n' {
				i++
			}
			out = append(out, '\n')
		case c == '\\':
			i++
			if i == len(b) {
				return "", false
			}
			if k := strings.IndexByte("nrtbf", b[i]); k >= 0 {
				out = append(out, "\n\r\t\b\f"[k])
			} else if b[i] >= '0' && b[i] <= '7' {
				o := 0
				k := 0
				for ; k < 3 && i+k < len(b) && b[i+k] >= '0' && b[i+k] <= '7'; k++ {
					o = o*8 + int(b[i+k]-'0')
				}
				i += k - 1
				out = append(out, byte(o))
			} else if b[i] == '\r' {
				if i+1 < len(b) && b[i+1] == '\n' {
					i++
				}
			} else if b[i] != '\n' {
				out = append(out, b[i])
			}
		default:
			out = append(out, c)
		}
	}
	return "", false
}

// vEntry is the literal string under key in an object the writer made
func vEntry(obj []byte, key string) (string, bool) {
	i := bytes.Index(obj, []byte("/"+key+" ("))
	if i < 0 {
		return "", false
	}
	return vLiteral(obj[i+len(key)+2:])
}

func TestVerif_C08_metadata(t *testing.T) {
	vRun(t, "documents whose title, author, subject, keywords, creator, producer and up to 3 custom entries are texts of PDF delimiters, escapes, names, references and arbitrary bytes; written as table, xref stream and object stream", func(v *vT) {
		for it := 0; it < vN(1500, 40000); it++ {
			r := v.rng
			m := &types.DocumentMetadata{Custom: map[string]string{}}
			want := map[string]string{}
			for _, f := range []struct {
				key string
				p   *string
			}{{"Title", &m.Title}, {"Author", &m.Author}, {"Subject", &m.Subject}, {"Keywords", &m.Keywords}, {"Creator", &m.Creator}, {"Producer", &m.Producer}} {
				if r.Intn(2) == 0 {
					*f.p = vText(r, 6)
					want[f.key] = *f.p
				}
			}
			for n := r.Intn(4); n > 0; n-- {
				k := []string{"Dept", "X_1", "Subtitle", "Author2", "R"}[r.Intn(5)]
				m.Custom[k] = vText(r, 6)
				want[k] = m.Custom[k]
			}
			v.in(want)
			v.safe(func() {
				w := write.NewPDFWriter()
				pages := w.AddObject([]byte("<< /Type /Pages /Kids [] /Count 0 >>"))
				w.SetRoot(w.AddObject([]byte(fmt.Sprintf("<< /Type /Catalog /Pages %d 0 R >>", pages))))
				info := w.SetMetadata(m)
				mode := r.Intn(3)
				w.UseXRefStream(mode > 0)
				w.UseObjectStream(mode == 2)
				pdf, err := w.Bytes()
				if err != nil {
					v.fail("Bytes: %v", err)
					return
				}
				obj, err := parse.GetObject(pdf, info, nil, false)
				if err != nil {
					v.fail("the Info dictionary is not found: %v", err)
					return
				}
				for k, s := range want {
					if got, ok := vEntry(obj, k); !ok || got != s {
						v.fail("written /%s is %q, not %q: %q", k, got, s, obj)
						return
					}
				}
				p, err := parse.Open(pdf)
				if err != nil {
					v.fail("Open: %v", err)
					return
				}
				x, err := extract.ExtractMetadata(pdf, p, false)
				if err != nil {
					v.fail("ExtractMetadata: %v", err)
					return
				}
				got := map[string]string{}
				for k, s := range x.Custom {
					got[k] = s
				}
				for k, s := range map[string]string{"Title": x.Title, "Author": x.Author, "Subject": x.Subject, "Keywords": x.Keywords, "Creator": x.Creator, "Producer": x.Producer} {
					if s != "" {
						got[k] = s
					}
				}
				for k, s := range want {
					if got[k] != s {
						v.fail("/%s is read as %q, was set to %q", k, got[k], s)
					}
				}
				if len(got) != len(want) {
					v.fail("read %q, set %q", got, want)
				}
			})
		}
	})
}

func vBookmarks(r *rand.Rand, depth int, n *int) []types.Bookmark {
	var bs []types.Bookmark
	for k := 1 + r.Intn(3); k > 0 && *n > 0; k-- {
		*n--
		b := types.Bookmark{Title: vText(r, 5)}
		if r.Intn(3) == 0 {
			b.URI = "http://h/" + vText(r, 4)
		} else {
			b.PageNumber = 1
		}
		if depth > 0 && r.Intn(2) == 0 {
			b.Children = vBookmarks(r, depth-1, n)
		}
		bs = append(bs, b)
	}
	return bs
}

func vSameBookmarks(a, b []types.Bookmark) error {
	if len(a) != len(b) {
		return fmt.Errorf("%d bookmarks instead of %d", len(a), len(b))
	}
	for i := range a {
		if a[i].Title != b[i].Title {
			return fmt.Errorf("title is %q, was set to %q", a[i].Title, b[i].Title)
		}
		if a[i].URI != b[i].URI {
			return fmt.Errorf("URI is %q, was set to %q", a[i].URI, b[i].URI)
		}
		if err := vSameBookmarks(a[i].Children, b[i].Children); err != nil {
			return err
		}
	}
	return nil
}

func TestVerif_C08_bookmarks(t *testing.T) {
	vRun(t, "outlines of up to 9 bookmarks in 3 levels with titles and URIs of PDF delimiters, escapes, keys and arbitrary bytes", func(v *vT) {
		for it := 0; it < vN(600, 15000); it++ {
			r := v.rng
			n := 9
			bs := vBookmarks(r, 2, &n)
			v.in(bs)
			v.safe(func() {
				b := write.NewSimplePDFBuilder()
				b.FinalizePage(b.AddPage(write.PageSizeLetter))
				if err := b.SetBookmarks(bs); err != nil {
					v.fail("SetBookmarks: %v", err)
					return
				}
				pdf, err := b.Bytes()
				if err != nil {
					v.fail("Bytes: %v", err)
					return
				}
				p, err := parse.Open(pdf)
				if err != nil {
					v.fail("Open: %v", err)
					return
				}
				got, err := extract.ExtractBookmarks(pdf, p, false)
				if err == nil {
					err = vSameBookmarks(got, bs)
				}
				if err != nil {
					v.fail("%v", err)
				}
			})
		}
	})
}

func TestVerif_C08_shown_text(t *testing.T) {
	vRun(t, "pages of up to 6 texts shown with Tj, ' and TJ, of PDF delimiters, escapes, operators and bytes 0 to 127 (no quotes, which the standard fonts show as typographic quotes)", func(v *vT) {
		for it := 0; it < vN(600, 15000); it++ {
			r := v.rng
			b := write.NewSimplePDFBuilder()
			p := b.AddPage(write.PageSizeLetter)
			f := p.AddStandardFont("Helvetica")
			c := p.Content().BeginText().SetFont(f, 12)
			var want []string
			ascii := func() string {
				var s []byte
				for _, x := range []byte(vText(r, 5)) {
					if x &= 127; x == '\'' || x == '`' { // quoteright and quoteleft in StandardEncoding
						x = '"'
					}
					s = append(s, x)
				}
				return string(s)
			}
			for n := 1 + r.Intn(6); n > 0; n-- {
				s := ascii()
				switch r.Intn(3) {
				case 0:
					c.ShowText(s)
				case 1:
					c.ShowTextNextLine(s)
				default:
					s2 := ascii()
					c.ShowTextArray([]interface{}{s, -50, s2, 2.5})
					s += s2
				}
				want = append(want, s)
			}
			c.EndText()
			v.in(want)
			v.safe(func() {
				rest := c.Bytes()
				for _, s := range want {
					got := ""
					for i := bytes.IndexByte(rest, '('); i >= 0 && len(got) < len(s); i = bytes.IndexByte(rest, '(') {
						x, ok := vLiteral(rest[i:])
						if !ok {
							break
						}
						got += x
						rest = rest[i+1:]
						for j := 0; j < len(rest); j++ { // to the end of this string
							if rest[j] == '\\' {
								j++
							} else if rest[j] == ')' {
								rest = rest[j+1:]
								break
							}
						}
					}
					if got != s {
						v.fail("the content stream shows %q instead of %q: %q", got, s, c.Bytes())
						return
					}
				}
				b.FinalizePage(p)
				pdf, err := b.Bytes()
				if err != nil {
					v.fail("Bytes: %v", err)
					return
				}
				d, err := parse.Open(pdf)
				if err != nil {
					v.fail("Open: %v", err)
					return
				}
				pages, err := extract.ExtractPages(pdf, d, false)
				if err != nil || len(pages) != 1 {
					v.fail("ExtractPages: %d pages, %v", len(pages), err)
					return
				}
				var got []string
				for _, e := range pages[0].Text {
					got = append(got, e.Text)
				}
				if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
					v.fail("extracted %q, shown was %q", got, want)
				}
			})
		}
	})
}
