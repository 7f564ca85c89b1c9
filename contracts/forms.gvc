// Forms: the texts of field names and values, and what filling writes.
package github.com/benedoc-inc/pdfer/forms/acroform
props C10
// a byte inside a literal string
spec foct(c int) bytes = [92, 48 + c/64, 48 + (c/8)%8, 48 + c%8]
spec fesc1(c int) bytes = if c == 92 || c == 40 || c == 41 then [92, c] else if c == 10 then [92, 110] else if c == 13 then [92, 114] else if c == 9 then [92, 116] else if c < 32 || c > 126 then foct(c) else [c]
spec rec fesc(s bytes) bytes = if len(s) == 0 then [] else fesc1(s[0]) ++ fesc(s[1..])
// the bytes the inside of a literal string stands for: the reading of text, and a line end is a line feed
spec rec funesc(s bytes) bytes =
    if len(s) == 0 then []
    else if s[0] == 13 then (if len(s) > 1 && s[1] == 10 then [10] ++ funesc(s[2..]) else [10] ++ funesc(s[1..]))
    else if s[0] != 92 then [s[0]] ++ funesc(s[1..])
    else if len(s) == 1 then []
    else if s[1] == 110 then [10] ++ funesc(s[2..])
    else if s[1] == 114 then [13] ++ funesc(s[2..])
    else if s[1] == 116 then [9] ++ funesc(s[2..])
    else if s[1] == 98 then [8] ++ funesc(s[2..])
    else if s[1] == 102 then [12] ++ funesc(s[2..])
    else if s[1] == 10 then funesc(s[2..])
    else if s[1] == 13 then (if len(s) > 2 && s[2] == 10 then funesc(s[3..]) else funesc(s[2..]))
    else if oct(s[1]) then
        (if len(s) > 2 && oct(s[2]) then
            (if len(s) > 3 && oct(s[3]) then [((s[1]-48)*64 + (s[2]-48)*8 + s[3]-48) % 256] ++ funesc(s[4..])
             else [(s[1]-48)*8 + s[2]-48] ++ funesc(s[3..]))
         else [s[1]-48] ++ funesc(s[2..]))
    else [s[1]] ++ funesc(s[2..])
lemma funesc_fesc(s bytes)
    ensures funesc(fesc(s)) == s
    measure len(s)
    case len(s) > 0
    use funesc_fesc(s[1..])
func escapeBytes(s) (r)
    inv [result bytes, i int] result ++ fesc(s[i..]) == fesc(s)
    ensures @escaped r == fesc(s)
    ensures @roundtrip funesc(r) == s
    use funesc_fesc(s)
func unescapeBytes(s) (r)
    inv [out bytes, i int] out ++ funesc(s[i..]) == funesc(s)
    ensures @meaning r == funesc(s)
spec fascii(s bytes) bool = forall i int :: 0 <= i && i < len(s) ==> s[i] < 128
func escapeText(s) (r)
    inv [ascii bool, i int] ascii ==> (forall j int :: 0 <= j && j < i ==> s[j] < 128)
    inv [ascii bool, i int] !ascii ==> !fascii(s)
    ensures @ascii fascii(s) ==> r == fesc(s)
    ensures @roundtrip fascii(s) ==> funesc(r) == s
func isText(v) (r)
    ensures @text r <==> (len(v) > 0 && v[0] == 40) || (len(v) > 0 && v[0] == 60 && !(len(v) > 1 && v[1] == 60))
spec fdig(c int) int = if 48 <= c && c <= 57 then c - 48 else if 97 <= c && c <= 102 then c - 87 else if 65 <= c && c <= 70 then c - 55 else -1
spec rec fhex(s bytes, h int) bytes = if len(s) == 0 then (if h >= 0 then [h*16] else []) else if fdig(s[0]) < 0 then fhex(s[1..], h) else if h >= 0 then [h*16 + fdig(s[0])] ++ fhex(s[1..], -1) else fhex(s[1..], fdig(s[0]))
func decodeHex(v) (r)
    inv [half bool, high byte, result bytes, i int] result ++ fhex(v[i..], if half then high else -1) == fhex(v, -1)
    inv [half bool, high byte] high < 16
    ensures @hex r == fhex(v, -1)
func leadingInteger(v) (r, err)
func arrayValues(array) (r)
    inv [i int] i >= 0
func referencedObjects(array) (r)
func setFieldText(d, text) (r)
    attr fuel 0
    ensures @set fascii(text) ==> r == dset(d, "/V", [40] ++ fesc(text) ++ [41])
func updateFieldContent(data, field, value) (r, err)
    attr fuel 0
    requires !isnil(field)
extern compress(data) (r)
func lastXRef(b) (at, err)
    ensures @range isnil(err) ==> 0 <= at && at < len(b)
func xrefTable(objNums, offsets, updates) (r)
    attr nodefaults on
    requires len(objNums) == len(offsets)
    inv [rangeindex int, s ints] rangeindex >= 0 && rangeindex <= len(s)
func xrefStream(num, trailer, objNums, offsets, updates) (r)
    attr nodefaults on
    requires len(objNums) == len(offsets)
    inv [rangeindex int, s ints] rangeindex >= 0 && rangeindex <= len(s)
func appendObjects(pdfBytes, objNums, updates) (r, offsets)
    attr nodefaults on
    inv [result bytes] len(result) >= len(pdfBytes) && result[..len(pdfBytes)] == bytes(pdfBytes)
    inv [rangeindex int, s ints] rangeindex >= 0 && rangeindex <= len(s)
    inv [offsets ints, rangeindex int] len(offsets) == rangeindex
    inv [offsets ints, result bytes] len(offsets) == 0 || offsets[0] >= len(pdfBytes)
    ensures @kept len(r) >= len(pdfBytes) && bytes(r)[..len(pdfBytes)] == bytes(pdfBytes)
    ensures @offsets len(offsets) == len(objNums)
func updateTrailer(previous, size, prev) (r)
    attr fuel 0
func appendUpdate(pdfBytes, updates) (r, err)
    attr fuel 0
    attr nodefaults on
    ensures @kept isnil(err) ==> len(r) >= len(pdfBytes) && bytes(r)[..len(pdfBytes)] == bytes(pdfBytes)
extern ParseAcroForm(pdfBytes, encryptInfo, verbose) (f, err)
    ensures @form isnil(err) ==> !isnil(f)
extern (*AcroForm).FindFieldByName(af, name) (f)
extern formatFieldValue(value, fieldType) (r)
func sortedNames(formData) (r)
func ReplaceFieldObject(pdfBytes, objNum, genNum, newContent, encryptInfo, verbose) (r, err)
    attr fuel 0
    ensures @kept isnil(err) ==> len(r) >= len(pdfBytes) && bytes(r)[..len(pdfBytes)] == bytes(pdfBytes)
func FillFieldValue(pdfBytes, field, value, encryptInfo, verbose) (r, err)
    attr fuel 0
    requires !isnil(field)
    ensures @kept isnil(err) ==> len(r) >= len(pdfBytes) && bytes(r)[..len(pdfBytes)] == bytes(pdfBytes)
func FillFormFieldsWithStreams(pdfBytes, formData, password, verbose) (r, err)
    attr fuel 0
    inv [rangeindex int, n int] rangeindex >= 0 && rangeindex <= n
    attr nodefaults on
    ensures @kept isnil(err) ==> len(r) >= len(pdfBytes) && bytes(r)[..len(pdfBytes)] == bytes(pdfBytes)
// which values a field takes
func validateTextField(field, value) (err)
    attr fuel 0
    requires !isnil(field)
func (*Field).GetFullName(f) (r)
    attr termination off
    requires !isnil(f)
    ensures @top isnil(f.Parent) ==> r == f.T
func mapFieldTypeWithFlags(ft, flags) (r)
    requires flags >= 0
    ensures @text ft == "Tx" ==> r == "text"
    ensures @choice ft == "Ch" ==> r == "select"
    ensures @push ft == "Btn" && flags/65536 % 2 == 1 ==> r == "button"
    ensures @radio ft == "Btn" && flags/65536 % 2 == 0 && flags/32768 % 2 == 1 ==> r == "radio"
    ensures @check ft == "Btn" && flags/65536 % 2 == 0 && flags/32768 % 2 == 0 ==> r == "checkbox"
package github.com/benedoc-inc/pdfer/core/parse
extern GetObject(pdfBytes, objNum, encryptInfo, verbose) (r, err)
