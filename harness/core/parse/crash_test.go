// with: revisions_test.go
package parse_test

import (
	"bytes"
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"testing"

	"github.com/benedoc-inc/pdfer/core/parse"
	"github.com/benedoc-inc/pdfer/core/write"
	"github.com/benedoc-inc/pdfer/types"
)

var vDigits = regexp.MustCompile(`\d+`)
var vWords = regexp.MustCompile(`endobj|endstream|stream|startxref|xref|trailer|%%EOF|obj|<<|>>|/[A-Za-z]+|\[|\]`)

var vStreams = regexp.MustCompile(`(?s)stream\r?\n.*?endstream`)

// vMutate damages a document in a few places, keeping most of its structure
func vMutate(r *rand.Rand, doc []byte, others [][]byte) []byte {
	b := append([]byte{}, doc...)
	pick := func(re *regexp.Regexp) (int, int, bool) {
		all := re.FindAllIndex(b, -1)
		if len(all) == 0 {
			return 0, 0, false
		}
		k := r.Intn(len(all))
		if r.Intn(2) == 0 { // rather towards the end, where the cross-reference data is
			k = len(all) - 1 - r.Intn(len(all))/4
		}
		return all[k][0], all[k][1], true
	}
	splice := func(i, j int, s string) { b = append(append(append([]byte{}, b[:i]...), s...), b[j:]...) }
	for n := 1 + r.Intn(3); n > 0; n-- {
		switch r.Intn(13) {
		case 0, 1, 2, 3: // another number
			if i, j, ok := pick(vDigits); ok {
				old, _ := strconv.Atoi(string(b[i:j]))
				v := []string{"0", "1", "-1", strconv.Itoa(old + 1), strconv.Itoa(old - 1), strconv.Itoa(len(b)), strconv.Itoa(len(b) - 1), strconv.Itoa(len(b) - r.Intn(20)), "99", "65536", "2147483648", "9223372036854775807", "9223372036854775806", "99999999999999999999", strconv.Itoa(r.Intn(len(b) + 1))}
				splice(i, j, v[r.Intn(len(v))])
			}
		case 4, 5: // a word removed, doubled or replaced
			if i, j, ok := pick(vWords); ok {
				w := string(b[i:j])
				k, l, _ := pick(vWords)
				splice(i, j, []string{"", w + w, w + " ", string(b[k:l]), w[:len(w)-1], "(", ")", "<", ">"}[r.Intn(9)])
			}
		case 6: // cut
			b = b[:r.Intn(len(b)+1)]
		case 7: // cut shortly after a word
			if _, j, ok := pick(vWords); ok {
				e := j + r.Intn(12)
				if e < len(b) {
					b = b[:e]
				}
			}
		case 8: // a piece of another document
			if len(others) > 0 {
				o := others[r.Intn(len(others))]
				i := r.Intn(len(o))
				b = append(b, o[i:]...)
			}
		case 9: // a piece left out
			if len(b) > 2 {
				i := r.Intn(len(b))
				j := i + r.Intn(1+min(len(b)-i, 40))
				splice(i, j, "")
			}
		case 10: // random bytes
			for k := 0; k < 1+r.Intn(4) && len(b) > 0; k++ {
				b[r.Intn(len(b))] = byte(r.Intn(256))
			}
		case 12: // a stream emptied
			if all := vStreams.FindAllIndex(b, -1); len(all) > 0 {
				m := all[r.Intn(len(all))]
				splice(m[0], m[1], []string{"stream\nendstream", "stream\r\nendstream", "streamendstream", "stream\n\nendstream", "stream\r\n"}[r.Intn(5)])
			}
		case 11: // a piece repeated
			if len(b) > 2 {
				i := r.Intn(len(b))
				j := i + r.Intn(1+min(len(b)-i, 200))
				splice(j, j, string(b[i:j]))
			}
		}
		if len(b) == 0 {
			b = []byte("%PDF-1.4\n")
		}
	}
	return b
}

// vEncrypted writes a small encrypted document by hand through the writer
func vEncrypted(r *rand.Rand) []byte {
	w := write.NewPDFWriter()
	w.AddObject([]byte("<< /Type /Catalog /Pages 2 0 R >>"))
	w.AddObject([]byte("<< /Type /Pages /Kids [] /Count 0 >>"))
	w.AddStreamObject(write.Dictionary{}, []byte("some stream data"), false)
	w.SetRoot(1)
	id := make([]byte, 16)
	r.Read(id)
	if e, err := write.SetupAES256Encryption([]byte(""), []byte("owner"), id, -4, true); err == nil {
		w.SetEncryption(e, id)
	}
	b, _ := w.Bytes()
	return b
}

func vDocs(r *rand.Rand, n int) [][]byte {
	var docs [][]byte
	for i := 0; i < n; i++ {
		h := vHistoryB(r, 3, true)
		docs = append(docs, h.snap[len(h.snap)-1])
	}
	for i := 0; i < n/8+1; i++ {
		docs = append(docs, vEncrypted(r))
	}
	// literal encryption dictionaries of several revisions
	for _, d := range []string{
		"<< /Filter /Standard /V 1 /R 2 /O (aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa) /U (bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb) /P -4 >>",
		"<< /Filter /Standard /V 2 /R 3 /Length 128 /O <" + string(bytes.Repeat([]byte("61"), 32)) + "> /U (bb\\142bbbbbbbbbbbbbbbbbbbbbbbbbbbbbb) /P -4 >>",
		"<< /Filter /Standard /V 4 /R 4 /Length 128 /O (aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa) /U (bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb) /P -4 /CF << /StdCF << /CFM /AESV2 /Length 16 >> >> /StmF /StdCF /StrF /StdCF >>",
		"<< /Filter /Standard /V 5 /R 5 /Length 256 /O (" + string(bytes.Repeat([]byte("a"), 48)) + ") /U (" + string(bytes.Repeat([]byte("b"), 48)) + ") /OE (" + string(bytes.Repeat([]byte("c"), 32)) + ") /UE (" + string(bytes.Repeat([]byte("d"), 32)) + ") /Perms (eeeeeeeeeeeeeeee) /P -4 >>",
	} {
		b := []byte("%PDF-1.7\n")
		var off [4]int
		for i, s := range []string{"<< /Type /Catalog /Pages 2 0 R >>", "<< /Type /Pages /Kids [] /Count 0 >>", d} {
			off[i+1] = len(b)
			b = append(b, fmt.Sprintf("%d 0 obj\n%s\nendobj\n", i+1, s)...)
		}
		x := len(b)
		b = append(b, fmt.Sprintf("xref\n0 4\n0000000000 65535 f \n%010d 00000 n \n%010d 00000 n \n%010d 00000 n \ntrailer\n<< /Size 4 /Root 1 0 R /Encrypt 3 0 R /ID [<30313233> <30313233>] >>\nstartxref\n%d\n%%%%EOF\n", off[1], off[2], off[3], x)...)
		docs = append(docs, b)
	}
	return docs
}

// vExercise goes through everything a caller can do with bytes it does not trust
func vExercise(b []byte, r *rand.Rand) {
	for _, o := range []parse.ParseOptions{{}, {BytePerfect: true}, {Password: []byte("pw")}} {
		pdf, err := parse.OpenWithOptions(b, o)
		if err != nil || pdf == nil {
			continue
		}
		pdf.Version()
		pdf.RevisionCount()
		pdf.Bytes()
		pdf.Trailer()
		for k, n := range pdf.Objects() {
			if k > 30 {
				break
			}
			pdf.GetObject(n)
			if raw, err := pdf.GetRawObject(n); err == nil && raw != nil {
				raw.Content()
				raw.StreamData()
			}
		}
		if d := pdf.Document(); d != nil {
			d.AllObjects()
			d.ObjectCount()
			for _, rev := range d.Revisions {
				rev.RevisionBytes(d)
			}
		}
	}
	enc := &types.PDFEncryption{V: 4, R: 4, KeyLength: 16, EncryptKey: []byte("0123456789abcdef")}
	for n := 1; n < 9; n++ {
		parse.GetObject(b, n, nil, false)
		parse.GetObject(b, n, enc, false)
		parse.FindObjectByNumber(b, n+90, nil, false)
		parse.GetObjectFromStream(b, n, 1+r.Intn(8), r.Intn(4)-1, nil, false)
	}
	parse.ParsePDFTrailer(b)
	parse.ParsePDFHeader(b)
	for _, x := range []int64{-1, 0, 1, int64(len(b)) - 1, int64(len(b)), int64(len(b)) + 1, int64(r.Intn(len(b) + 1)), 1 << 62} {
		parse.ParseCrossReferenceTable(b, x)
		parse.ParseTraditionalXRefTable(b, x)
		parse.ParseXRefStream(b, x)
		parse.ParseXRefStreamFull(b, x, false)
		parse.ParseXRefDataRaw(b, x)
		parse.ParseTrailerDataRaw(b, x, len(b))
		parse.ParseRawObject(b, 1, 0, x)
		parse.ParseRawObjectAt(b, x)
		parse.GetDirectObject(b, 1, x, nil, false)
	}
	parse.CountRevisions(b)
	parse.ExtractRevision(b, 1)
}

func TestVerif_C05_parser_never_crashes(t *testing.T) {
	vRun(t, "documents of up to 3 revisions (tables, cross-reference and object streams, encryption dictionaries), each damaged in 1 to 3 places, and random bytes; every reading entry point of core/parse", func(v *vT) {
		docs := vDocs(v.rng, 40)
		for it := 0; it < vN(3000, 60000); it++ {
			var b []byte
			switch {
			case it < len(docs):
				b = docs[it]
			case it%200 == 0:
				b = vBytes(v.rng, v.rng.Intn(300), "")
			default:
				b = vMutate(v.rng, docs[v.rng.Intn(len(docs))], docs)
			}
			v.in(b)
			v.safe(func() {
				keep := append([]byte{}, b...)
				vExercise(b, v.rng)
				if !bytes.Equal(keep, b) {
					v.fail("reading changed its input")
				}
			})
		}
	})
}
