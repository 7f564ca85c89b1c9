package write_test

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
)

// vValue writes a random PDF object; words the library's own reader takes for markers are left out
func vValue(r *rand.Rand, depth int) string {
	switch k := r.Intn(8); {
	case k == 0:
		return strconv.Itoa(r.Intn(100000) - 50000)
	case k == 1:
		return "/N" + strconv.Itoa(r.Intn(50))
	case k == 2:
		return fmt.Sprintf("%d 0 R", 1+r.Intn(30))
	case k == 3:
		return "(s" + strings.Repeat("x", r.Intn(300)) + "\\) " + strconv.Itoa(r.Intn(9)) + ")"
	case k == 4 && depth > 0:
		var s []string
		for n := r.Intn(4); n > 0; n-- {
			s = append(s, vValue(r, depth-1))
		}
		return "[" + strings.Join(s, " ") + "]"
	case k == 5 && depth > 0:
		return vDictText(r, depth-1)
	default:
		return "true"
	}
}
func vDictText(r *rand.Rand, depth int) string {
	s := "<<"
	for n := r.Intn(4); n > 0; n-- {
		s += fmt.Sprintf(" /K%d %s", n, vValue(r, depth))
	}
	return s + " >>"
}

type vWant struct {
	text   string
	data   []byte
	stream bool
}

var vStartX = regexp.MustCompile(`startxref\s+(\d+)\s+%%EOF\s*$`)
var vW = regexp.MustCompile(`/W ?\[ ?(\d+) (\d+) (\d+) ?\]`)
var vLen = regexp.MustCompile(`/Length (\d+)`)

func vInflate(b []byte) ([]byte, error) {
	z, err := zlib.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(z)
}

// vObjAt is the object at off: its text up to endobj or, for a stream, its dictionary and data, taken by /Length
func vObjAt(pdf []byte, off, num int) (dict string, data []byte, stream bool, err error) {
	h := fmt.Sprintf("%d 0 obj\n", num)
	if off < 0 || off > len(pdf) || !bytes.HasPrefix(pdf[off:], []byte(h)) {
		return "", nil, false, fmt.Errorf("no %q at offset %d", h, off)
	}
	body := pdf[off+len(h):]
	e := bytes.Index(body, []byte("\nendobj\n"))
	s := bytes.Index(body, []byte(">>\nstream\n"))
	if s >= 0 && (e < 0 || s < e) {
		dict = string(body[:s+2])
		all := vLen.FindAllStringSubmatch(dict, -1)
		if len(all) != 1 {
			return dict, nil, true, fmt.Errorf("object %d: %d /Length entries in %s", num, len(all), dict)
		}
		n, _ := strconv.Atoi(all[0][1])
		rest := body[s+len(">>\nstream\n"):]
		if n > len(rest) || !bytes.HasPrefix(rest[n:], []byte("\nendstream\nendobj\n")) {
			return dict, nil, true, fmt.Errorf("object %d: /Length %d does not end at endstream", num, n)
		}
		return dict, rest[:n], true, nil
	}
	if e < 0 {
		return "", nil, false, fmt.Errorf("object %d has no end", num)
	}
	return string(body[:e]), nil, false, nil
}

// vCheckFile reads the file the way ISO 32000 7.5 says and compares every object with what was given to the writer
func vCheckFile(pdf []byte, want map[int]vWant, root int) error {
	m := vStartX.FindSubmatch(pdf)
	if m == nil {
		return fmt.Errorf("no startxref at the end")
	}
	x, _ := strconv.Atoi(string(m[1]))
	if x >= len(pdf) {
		return fmt.Errorf("startxref %d is beyond the file", x)
	}
	direct, packed := map[int]int{}, map[int][2]int{}
	size := 0
	rootWant := fmt.Sprintf("/Root %d 0 R", root)
	if bytes.HasPrefix(pdf[x:], []byte("xref\n0 ")) {
		nl := bytes.IndexByte(pdf[x+5:], '\n')
		size, _ = strconv.Atoi(string(pdf[x+7 : x+5+nl]))
		tab := pdf[x+5+nl+1:]
		for n := 0; n < size; n++ {
			l := tab[20*n : 20*n+20]
			off, e1 := strconv.Atoi(string(l[:10]))
			_, e2 := strconv.Atoi(string(l[11:16]))
			if e1 != nil || e2 != nil || l[10] != ' ' || l[16] != ' ' || (l[17] != 'n' && l[17] != 'f') || (n == 0) != (l[17] == 'f' && string(l[11:16]) == "65535") || string(l[18:]) != " \n" {
				return fmt.Errorf("entry %d of the table is %q", n, l)
			}
			if l[17] == 'n' {
				direct[n] = off
			}
		}
		t := tab[20*size:]
		if !bytes.HasPrefix(t, []byte("trailer\n<<")) || !bytes.Contains(t, []byte(fmt.Sprintf("/Size %d\n", size))) || root > 0 && !bytes.Contains(t, []byte(rootWant+"\n")) {
			return fmt.Errorf("trailer is %q", t)
		}
	} else {
		sp := bytes.IndexByte(pdf[x:], ' ')
		num, _ := strconv.Atoi(string(pdf[x : x+sp]))
		dict, data, stream, err := vObjAt(pdf, x, num)
		if err != nil || !stream {
			return fmt.Errorf("xref stream: %v", err)
		}
		w := vW.FindStringSubmatch(dict)
		if w == nil || !strings.Contains(dict, "/Type /XRef") || !strings.Contains(dict, fmt.Sprintf("/Size %d ", num+1)) || root > 0 && !strings.Contains(dict, rootWant+" ") {
			return fmt.Errorf("xref stream dictionary %s", dict)
		}
		var f [3]int
		for i := range f {
			f[i], _ = strconv.Atoi(w[i+1])
		}
		b, err := vInflate(data)
		size = num + 1
		if err != nil || len(b) != size*(f[0]+f[1]+f[2]) {
			return fmt.Errorf("xref stream data of %d bytes for %d entries of %v: %v", len(b), size, f, err)
		}
		for n := 0; n < size; n++ {
			var v [3]int
			for i := range f {
				for k := 0; k < f[i]; k++ {
					v[i] = v[i]<<8 + int(b[0])
					b = b[1:]
				}
			}
			switch v[0] {
			case 1:
				direct[n] = v[1]
			case 2:
				packed[n] = [2]int{v[1], v[2]}
			}
		}
		if direct[num] != x {
			return fmt.Errorf("the xref stream records itself at %d instead of %d", direct[num], x)
		}
	}
	for n, off := range direct {
		if _, _, _, err := vObjAt(pdf, off, n); err != nil {
			return err
		}
	}
	for n, wn := range want {
		if n >= size {
			return fmt.Errorf("object %d is beyond /Size %d", n, size)
		}
		off, isDirect := direct[n]
		at, isPacked := packed[n]
		switch {
		case isDirect:
			text, data, stream, err := vObjAt(pdf, off, n)
			if err != nil {
				return err
			}
			if stream != wn.stream {
				return fmt.Errorf("object %d: stream=%v, was added with stream=%v", n, stream, wn.stream)
			}
			if stream {
				if strings.Contains(text, "/FlateDecode") {
					if data, err = vInflate(data); err != nil {
						return err
					}
				}
				if !bytes.Equal(data, wn.data) {
					return fmt.Errorf("object %d: stream data of %d bytes differ from the %d given", n, len(data), len(wn.data))
				}
				if !strings.Contains(text, wn.text) {
					return fmt.Errorf("object %d: dictionary %s lacks %s", n, text, wn.text)
				}
			} else if text != wn.text {
				return fmt.Errorf("object %d is %q, was added as %q", n, text, wn.text)
			}
		case isPacked && !wn.stream:
			off, ok := direct[at[0]]
			if !ok {
				return fmt.Errorf("object stream %d is not in the file", at[0])
			}
			dict, data, _, err := vObjAt(pdf, off, at[0])
			if err != nil {
				return err
			}
			var first, cnt int
			for _, e := range []struct {
				k string
				p *int
			}{{"/First", &first}, {"/N", &cnt}} {
				mm := regexp.MustCompile(e.k + ` (\d+)`).FindStringSubmatch(dict)
				if mm == nil {
					return fmt.Errorf("object stream %s", dict)
				}
				*e.p, _ = strconv.Atoi(mm[1])
			}
			b, err := vInflate(data)
			if err != nil || first > len(b) {
				return fmt.Errorf("object stream %d: %v", at[0], err)
			}
			nums := strings.Fields(string(b[:first]))
			if len(nums) != 2*cnt || at[1] >= cnt || nums[2*at[1]] != strconv.Itoa(n) {
				return fmt.Errorf("object stream header %v has no object %d at %d", nums, n, at[1])
			}
			o, _ := strconv.Atoi(nums[2*at[1]+1])
			end := len(b)
			if at[1]+1 < cnt {
				e, _ := strconv.Atoi(nums[2*at[1]+3])
				end = first + e
			}
			if first+o > end || end > len(b) || strings.TrimSpace(string(b[first+o:end])) != wn.text {
				return fmt.Errorf("object %d in object stream %d (offset %d to %d of %q) is not %q", n, at[0], first+o, end, b, wn.text)
			}
		default:
			return fmt.Errorf("object %d is not in the file", n)
		}
	}
	return nil
}

func TestVerif_C03_written_file(t *testing.T) {
	vRun(t, "sequences of up to 40 AddObject, AddStreamObject, SetObject, SetStreamObject calls (numbers up to 400 apart, shared dictionaries, empty and nil data, data over 64 KiB, replaced objects), tables, xref streams and object streams; the file is read by an independent reader and by core/parse", func(v *vT) {
		for it := 0; it < vN(400, 8000); it++ {
			r := v.rng
			w := write.NewPDFWriter()
			want := map[int]vWant{}
			var log []string
			shared := write.Dictionary{"Kind": "/Shared"}
			maxNum := 0
			v.safe(func() {
				for n := 1 + r.Intn(40); n > 0; n-- {
					text := vValue(r, 2)
					if it%5 == 0 && n == 3 {
						text = "(" + strings.Repeat("long ", 14000) + ")"
					}
					data := vBytes(r, r.Intn(40), "")
					if r.Intn(8) == 0 {
						data = nil
					}
					d := write.Dictionary{"Kind": "/K" + strconv.Itoa(r.Intn(9))}
					if r.Intn(3) == 0 {
						d = shared
					} else if r.Intn(3) == 0 {
						d = write.Dictionary{"/Kind": "/K1", "/Length": 7}
					}
					kind := "/Kind " + fmt.Sprint(d["Kind"])
					if d["/Kind"] != nil {
						kind = "/Kind /K1"
					}
					num := 0
					switch k := r.Intn(6); {
					case k == 0: // a chosen number, free or taken
						num = 1 + r.Intn(maxNum+2)
						if r.Intn(4) == 0 {
							num = maxNum + 1 + r.Intn(400)
						}
						w.SetObject(num, []byte(text))
						want[num] = vWant{text: text}
						log = append(log, fmt.Sprintf("SetObject(%d, %.30q)", num, text))
					case k == 1:
						num = 1 + r.Intn(maxNum+2)
						z := r.Intn(2) == 0
						w.SetStreamObject(num, d, data, z)
						want[num] = vWant{text: kind, data: data, stream: true}
						log = append(log, fmt.Sprintf("SetStreamObject(%d, %v, %d bytes, %v)", num, d, len(data), z))
					case k == 2 || k == 3:
						z := r.Intn(2) == 0
						num = w.AddStreamObject(d, data, z)
						log = append(log, fmt.Sprintf("AddStreamObject(%v, %d bytes, %v) = %d", d, len(data), z, num))
						if _, dup := want[num]; dup || num != maxNum+1 {
							v.fail("AddStreamObject returned number %d after %d: %v", num, maxNum, log)
						}
						want[num] = vWant{text: kind, data: data, stream: true}
					default:
						num = w.AddObject([]byte(text))
						log = append(log, fmt.Sprintf("AddObject(%.30q) = %d", text, num))
						if _, dup := want[num]; dup || num != maxNum+1 {
							v.fail("AddObject returned number %d after %d: %v", num, maxNum, log)
						}
						want[num] = vWant{text: text}
					}
					if num > maxNum {
						maxNum = num
					}
				}
				root := 0
				if r.Intn(4) > 0 {
					root = w.AddObject([]byte("<< /Type /Catalog >>"))
					want[root] = vWant{text: "<< /Type /Catalog >>"}
					w.SetRoot(root)
				}
				mode := r.Intn(3)
				w.UseXRefStream(mode > 0)
				w.UseObjectStream(mode == 2)
				if mode == 1 {
					w.UseXRefStream(true)
				}
				log = append(log, fmt.Sprintf("mode %d", mode))
				for k := 0; k <= r.Intn(2); k++ { // writing again gives the same objects
					pdf, err := w.Bytes()
					if err != nil {
						v.fail("Bytes: %v after %v", err, log)
						return
					}
					v.in(pdf)
					if err := vCheckFile(pdf, want, root); err != nil {
						v.fail("%v after %v", err, log)
						return
					}
					for n, wn := range want {
						obj, err := parse.GetObject(pdf, n, nil, false)
						if err != nil {
							v.fail("core/parse does not find object %d: %v after %v", n, err, log)
							return
						}
						got := strings.TrimSpace(string(obj))
						got = strings.TrimPrefix(got, fmt.Sprintf("%d 0 obj\n", n))
						got = strings.TrimSuffix(got, "\nendobj")
						if !wn.stream && got != wn.text {
							v.fail("core/parse reads object %d as %.60q, written was %.60q after %v", n, obj, wn.text, log)
							return
						}
					}
				}
			})
		}
	})
}
