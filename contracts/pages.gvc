// Page operations: entries of a dictionary, and which objects an operation changes.
package github.com/benedoc-inc/pdfer/core/parse
props C09 C10

spec pws(c int) bool = c == 32 || c == 9 || c == 10 || c == 13 || c == 12 || c == 0
spec preg(c int) bool = !pws(c) && c != 40 && c != 41 && c != 60 && c != 62 && c != 91 && c != 93 && c != 123 && c != 125 && c != 47 && c != 37
// to the end of the line
spec rec peol(s bytes, i int) int = if i >= len(s) || i < 0 || s[i] == 10 || s[i] == 13 then i else peol(s, i+1)
// over white space and comments
spec rec psp(s bytes, i int, com bool) int = if i >= len(s) || i < 0 then i else if com then (if s[i] == 10 || s[i] == 13 then psp(s, i, false) else psp(s, i+1, true)) else if pws(s[i]) then psp(s, i+1, false) else if s[i] == 37 then psp(s, i+1, true) else i
// over regular characters
spec rec pregs(s bytes, i int) int = if i >= len(s) || i < 0 || !preg(s[i]) then i else pregs(s, i+1)
spec rec pdigs(s bytes, i int) int = if i >= len(s) || i < 0 || !(48 <= s[i] && s[i] <= 57) then i else pdigs(s, i+1)
spec rec pblank(s bytes, i int) int = if i >= len(s) || i < 0 || !pws(s[i]) then i else pblank(s, i+1)
spec pint(s bytes, i int) int = if pdigs(s, i) == i || pblank(s, pdigs(s, i)) == pdigs(s, i) then -1 else pblank(s, pdigs(s, i))
spec pref2(s bytes, j int) int = if j == -1 then -1 else if pint(s, j) == -1 then -1 else if pint(s, j) >= len(s) || s[pint(s, j)] != 82 || (pint(s, j)+1 < len(s) && preg(s[pint(s, j)+1])) then -1 else pint(s, j)+1
// the end of the reference at i, or -1
spec pref(s bytes, i int) int = pref2(s, pint(s, i))
// the end of a literal string
spec rec plit(s bytes, i int, d int) int = if i >= len(s) || i < 0 then len(s) else if s[i] == 92 then plit(s, i+2, d) else if s[i] == 40 then plit(s, i+1, d+1) else if s[i] == 41 then (if d == 1 then i+1 else plit(s, i+1, d-1)) else plit(s, i+1, d)
spec rec phex(s bytes, i int) int = if i >= len(s) || i < 0 then len(s) else if s[i] == 62 then i+1 else phex(s, i+1)
spec ptok(s bytes, i int) int = if s[i] == 40 then plit(s, i, 0) else if i+1 < len(s) && ((s[i] == 60 && s[i+1] == 60) || (s[i] == 62 && s[i+1] == 62)) then i+2 else if s[i] == 60 then phex(s, i) else if s[i] == 47 || preg(s[i]) then pregs(s, i+1) else i+1

func isSpace(c) (r)
    ensures @white r == pws(c)
func isRegular(c) (r)
    ensures @regular r == preg(c)
func SkipSpace(s, i) (r)
    requires 0 <= i
    inv [i int] psp(s, i, false) == psp(s, old(i), false)
    inv [i int] psp(s, i, true) == psp(s, old(i), false)
    inv [i int] i >= old(i)
    inv [i int] i <= max(len(s), old(i))
    ensures @space r == psp(s, i, false)
    ensures @bounds i <= r && r <= max(len(s), i)
func SkipInteger(s, i) (r)
    requires 0 <= i
    inv [i int] pdigs(s, i) == pdigs(s, old(i))
    inv [i int] pblank(s, i) == pblank(s, pdigs(s, old(i)))
    inv [i int] i >= old(i)
    ensures @integer r == pint(s, i)
    ensures @bounds r == -1 || (i < r && r <= len(s))
func SkipReference(s, i) (r)
    requires 0 <= i
    ensures @reference r == pref(s, i)
    ensures @bounds r == -1 || (i < r && r <= len(s))
func SkipToken(s, i) (r)
    requires 0 <= i && i < len(s)
    inv [i int, depth int] plit(s, i, depth) == plit(s, old(i), 0)
    inv [i int] phex(s, i) == phex(s, old(i))
    inv [i int] pregs(s, i) == pregs(s, old(i)+1)
    inv [i int] i >= old(i)
    inv [i int, depth int] depth <= i && 0 - i <= depth
    ensures @token r == ptok(s, i)
    ensures @bounds i < r && r <= len(s)
// nesting after the token from a to b
spec pdep(s bytes, a int, b int, d int) int = if s[a] == 60 then (if b == a+2 && s[a+1] == 60 then d+1 else d) else if s[a] == 91 then d+1 else if s[a] == 62 || s[a] == 93 then d-1 else d
spec rec pval(s bytes, i int, d int) int = if i >= len(s) || i < 0 then len(s) else if pdep(s, i, ptok(s, i), d) <= 0 then ptok(s, i) else pval(s, psp(s, ptok(s, i), false), pdep(s, i, ptok(s, i), d))
// the end of the value at i
spec pvalue(s bytes, i int) int = if i >= len(s) then len(s) else if pref(s, i) != -1 then pref(s, i) else pval(s, i, 0)
func SkipValue(s, i) (r)
    requires 0 <= i
    inv [i int, depth int] pval(s, i, depth) == pval(s, old(i), 0)
    inv [i int, depth int] depth <= i && 0 - i <= depth
    inv [i int] i >= old(i)
    ensures @value r == pvalue(s, i) || i > len(s)
    ensures @bounds r <= len(s) && (i < len(s) ==> i < r)

// the key of the entry at i, and where its value is
spec pkey(s bytes, i int) bytes = s[i..ptok(s, i)]
spec pvat(s bytes, i int) int = psp(s, ptok(s, i), false)
spec pbare(s bytes, i int) bool = s[i] != 47 || (pvat(s, i) < len(s) && s[pvat(s, i)] == 62)
// where the value of a key starts (-1: there is none) and ends (without a value: where the dictionary does), from i on
spec rec pfs(s bytes, k bytes, i int) int = if i >= len(s) || i < 0 then -1 else if s[i] == 62 then -1 else if pbare(s, i) then pfs(s, k, pvat(s, i)) else if pkey(s, i) == k then pvat(s, i) else pfs(s, k, psp(s, pvalue(s, pvat(s, i)), false))
spec rec pfe(s bytes, k bytes, i int) int = if i >= len(s) || i < 0 then -1 else if s[i] == 62 then i else if pbare(s, i) then pfe(s, k, pvat(s, i)) else if pkey(s, i) == k then pvalue(s, pvat(s, i)) else pfe(s, k, psp(s, pvalue(s, pvat(s, i)), false))
spec pstart(s bytes) int = indexof(s, "<<", 0)
spec dstart(s bytes, k bytes) int = if pstart(s) < 0 then -1 else pfs(s, k, psp(s, pstart(s)+2, false))
spec dend(s bytes, k bytes) int = if pstart(s) < 0 then -1 else pfe(s, k, psp(s, pstart(s)+2, false))
spec dval(s bytes, k bytes) bytes = if dstart(s, k) == -1 then [] else s[dstart(s, k)..dend(s, k)]
spec dgap(c int, v bytes) bytes = if preg(c) && len(v) > 0 && preg(v[0]) then [32] ++ v else v
spec dset(s bytes, k bytes, v bytes) bytes = if dend(s, k) == -1 then s else if dstart(s, k) == -1 then s[..dend(s, k)] ++ k ++ [32] ++ v ++ [32] ++ s[dend(s, k)..] else s[..dstart(s, k)] ++ dgap(s[dstart(s, k)-1], v) ++ [32] ++ s[dend(s, k)..]
func findDictValue(s, k) (start, end, ok)
    inv [i int] pfs(s, k, i) == dstart(s, k)
    inv [i int] pfe(s, k, i) == dend(s, k)
    inv [i int] i >= 2
    inv [i int] i <= len(s)
    ensures @start start == dstart(s, k)
    ensures @end end == dend(s, k)
    ensures @found ok <==> start != -1
    ensures @bounds ok ==> 2 <= start && start <= end && end <= len(s)
    ensures @close !ok ==> end < len(s) && end >= -1
func ObjectBody(obj) (r)
    ensures @body len(obj) > 0 && obj[0] == 60 ==> bytes(r) == bytes(obj)
func DictValue(s, k) (r)
    ensures @value r == dval(s, k)
func SetDictValue(s, k, v) (r)
    ensures @value r == dset(s, k, v)

package github.com/benedoc-inc/pdfer/core/manipulate
props C09
func extractDictValue(s, k) (r)
    ensures @value r == dval(s, k)
func setDictValue(s, k, v) (r)
    ensures @value r == dset(s, k, v)

// An object number that stands for every object number
spec anyobj() int

func (*PDFManipulator).getObject(m, n) (r, err)
    requires !isnil(m)
    ensures @found isnil(err) <==> has(m.objects, n)
    ensures @object isnil(err) ==> bytes(r) == bytes(m.objects[n])
func parseObjectRefArray(s) (r)
func parseObjectRef(s) (r, err)
func (*PDFManipulator).getAllPageObjectNumbers(m) (r, err)
    requires !isnil(m) && !isnil(m.pdf)
func (*PDFManipulator).extractPageObjectNumbers(m, n, visited) (r, err)
    inv [rangeindex int, s slice] rangeindex >= 0 && rangeindex <= len(s)
    attr fuel 0
    attr nodefaults on
    requires !isnil(m) && !isnil(visited)
    attr termination off
    modifies visited
func (*PDFManipulator).getPageObjectNumber(m, pageNumber) (r, err)
    requires !isnil(m) && !isnil(m.pdf)
    ensures @range isnil(err) ==> pageNumber >= 1
func (*PDFManipulator).inheritedValue(m, n, key) (r)
    attr fuel 1
    attr nodefaults on
    requires !isnil(m)
    attr termination off
    inv [pageObjNum int] pageObjNum == n || !has(m.objects, n) || len(dval(m.objects[n], key)) == 0
    inv [visited map] has(visited, n) ==> !has(m.objects, n) || len(dval(m.objects[n], key)) == 0
    ensures @own has(m.objects, n) && len(dval(m.objects[n], key)) > 0 ==> bytes(r) == dval(m.objects[n], key)
func (*PDFManipulator).RotatePage(m, pageNumber, angle) (err)
    attr fuel 0
    attr nodefaults on
    modifies m.objects
    requires !isnil(m) && !isnil(m.objects) && !isnil(m.pdf)
    ensures @angle isnil(err) ==> angle == 90 || angle == 180 || angle == 270
    ensures @page isnil(err) ==> pageNumber >= 1
    ensures @nothing !isnil(err) ==> (if has(m.objects, anyobj()) then bytes(m.objects[anyobj()]) else []) == old((if has(m.objects, anyobj()) then bytes(m.objects[anyobj()]) else []))
    // an object that is changed gets its own rotation, if it has one, with the angle added, and nothing else
    ensures @rotated old(has(m.objects, anyobj())) && bytes(m.objects[anyobj()]) != old((if has(m.objects, anyobj()) then bytes(m.objects[anyobj()]) else [])) && len(old(dval(m.objects[anyobj()], "/Rotate"))) > 0 && abs(atoi(old(dval(m.objects[anyobj()], "/Rotate")))) <= 1000000000 ==> (if has(m.objects, anyobj()) then bytes(m.objects[anyobj()]) else []) == dset(old((if has(m.objects, anyobj()) then bytes(m.objects[anyobj()]) else [])), "/Rotate", itoa((atoi(old(dval(m.objects[anyobj()], "/Rotate"))) + angle) % 360))
func (*PDFManipulator).findParentPagesObject(m, n) (r, err)
    requires !isnil(m) && !isnil(m.pdf)
func (*PDFManipulator).findParentPagesObjectRecursive(m, n, target, visited) (r, err)
    inv [rangeindex int, s slice] rangeindex >= 0 && rangeindex <= len(s)
    attr fuel 0
    attr nodefaults on
    requires !isnil(m) && !isnil(visited)
    attr termination off
    modifies visited
func (*PDFManipulator).findParentPagesObjectForInsertion(m) (r, err)
    requires !isnil(m) && !isnil(m.pdf)
spec pcount(c bytes, delta int) bytes = dset(c, "/Count", itoa(max(0, atoi(dval(c, "/Count")) + delta)))
func (*PDFManipulator).updatePageCounts(m, n, delta)
    attr fuel 0
    attr nodefaults on
    requires !isnil(m) && !isnil(m.objects)
    requires abs(delta) <= 1000000000
    attr termination off
    modifies m.objects
    inv [visited map] has(m.objects, anyobj()) <==> old(has(m.objects, anyobj()))
    inv [visited map] old(has(m.objects, anyobj())) && !has(visited, anyobj()) ==> bytes(m.objects[anyobj()]) == old(bytes(m.objects[anyobj()]))
    inv [visited map] old(has(m.objects, anyobj())) && has(visited, anyobj()) && abs(atoi(old(dval(m.objects[anyobj()], "/Count")))) <= 1000000000 ==> bytes(m.objects[anyobj()]) == pcount(old(bytes(m.objects[anyobj()])), delta)
    inv [visited map, pagesObjNum int] pagesObjNum == n || has(visited, n)
    inv [visited map] forall k int :: has(visited, k) ==> visited[k]
    // the count of the node named changes by delta, that of any other node by delta or not at all
    ensures @same has(m.objects, anyobj()) <==> old(has(m.objects, anyobj()))
    ensures @count old(has(m.objects, anyobj())) && abs(atoi(old(dval(m.objects[anyobj()], "/Count")))) <= 1000000000 && (n == anyobj() || bytes(m.objects[anyobj()]) != old(bytes(m.objects[anyobj()]))) ==> bytes(m.objects[anyobj()]) == pcount(old(bytes(m.objects[anyobj()])), delta)
func (*PDFManipulator).DeletePage(m, pageNumber) (err)
    inv [rangeindex int, s slice] rangeindex >= 0 && rangeindex <= len(s)
    attr fuel 0
    attr nodefaults on
    modifies m.objects
    requires !isnil(m) && !isnil(m.objects) && !isnil(m.pdf)
    ensures @nothing !isnil(err) ==> (if has(m.objects, anyobj()) then bytes(m.objects[anyobj()]) else []) == old((if has(m.objects, anyobj()) then bytes(m.objects[anyobj()]) else []))
    ensures @page isnil(err) ==> pageNumber >= 1
func (*PDFManipulator).InsertPage(m, pageNumber, num, content) (err)
    inv [rangeindex int, s slice] rangeindex >= 0 && rangeindex <= len(s)
    attr fuel 0
    attr nodefaults on
    modifies m.objects
    requires !isnil(m) && !isnil(m.objects) && !isnil(m.pdf)
    ensures @nothing !isnil(err) ==> (if has(m.objects, anyobj()) then bytes(m.objects[anyobj()]) else []) == old((if has(m.objects, anyobj()) then bytes(m.objects[anyobj()]) else []))
    ensures @page isnil(err) ==> pageNumber >= 0

func objectBody(obj) (r)
func NewPDFManipulator(data, password, verbose) (m, err)
    ensures @ready isnil(err) ==> !isnil(m) && !isnil(m.pdf) && !isnil(m.objects)
func mapReferences(obj, renumber) (r)
    inv [i int] i >= 0
func newPageCopier(m, w, n) (c, err)
    attr termination off
    attr nodefaults on
    attr fuel 0
    requires !isnil(m) && !isnil(m.pdf) && !isnil(m.objects)
    inv [rangeindex int, s ints] rangeindex >= 0 && rangeindex <= len(s)
    ensures @ready isnil(err) ==> !isnil(c) && c.m == m && c.writer == w && !isnil(c.newNums) && !isnil(c.pageTree)
extern (*pageCopier).copyPages(c, nums) (r, err)
    requires !isnil(c)
    modifies c.newNums, c.pending, c.writer
extern finishPages(w, n, nums)
    requires !isnil(w)
    modifies w
func ExtractPages(data, pageNumbers, password, verbose) (r, err)
    attr nodefaults on
    attr fuel 0
    inv [rangeindex int, s ints] rangeindex >= 0 && rangeindex <= len(s)
    inv [rangeindex int] forall k int :: 0 <= k && k < rangeindex && k < len(pageNumbers) ==> pageNumbers[k] >= 1
    inv [rangeindex int, allPageObjNums ints] forall k int :: 0 <= k && k < rangeindex && k < len(pageNumbers) ==> pageNumbers[k] <= len(allPageObjNums)
    ensures @pages isnil(err) ==> len(pageNumbers) > 0 && forall k int :: 0 <= k && k < len(pageNumbers) ==> pageNumbers[k] >= 1
func SplitPDF(data, ranges, password, verbose) (r, err)
    attr termination off
    attr nodefaults on
    attr fuel 0
    inv [rangeindex int, s slice] rangeindex >= 0 && rangeindex <= len(s)
    inv [rangeindex int, totalPages int] totalPages >= 0 && totalPages < 9223372036854775807 && forall k int :: 0 <= k && k < rangeindex && k < len(ranges) ==> 1 <= ranges[k].Start && ranges[k].Start <= ranges[k].End && ranges[k].End <= totalPages
    inv [rangeindex int, result slice] len(result) == rangeindex
    inv [totalPages int] totalPages >= 0 && totalPages < 9223372036854775807 && forall k int :: 0 <= k && k < len(ranges) ==> 1 <= ranges[k].Start && ranges[k].Start <= ranges[k].End && ranges[k].End <= totalPages
    inv [i int] i >= 1
    ensures @ranges isnil(err) ==> len(ranges) > 0 && forall k int :: 0 <= k && k < len(ranges) ==> 1 <= ranges[k].Start && ranges[k].Start <= ranges[k].End
    ensures @each isnil(err) ==> len(r) == len(ranges)
func SplitPDFByPageCount(data, n, password, verbose) (r, err)
    ensures @count isnil(err) ==> n >= 1 && len(r) > 0
func (*PDFManipulator).DeletePages(m, pageNumbers) (err)
    attr nodefaults on
    attr fuel 0
    requires !isnil(m) && !isnil(m.objects) && !isnil(m.pdf)
    modifies m.objects
    inv [rangeindex int, s ints] rangeindex >= 0 && rangeindex <= len(s)
    inv [rangeindex int] forall k int :: 0 <= k && k < rangeindex && k < len(pageNumbers) ==> pageNumbers[k] >= 1
    ensures @pages isnil(err) ==> forall k int :: 0 <= k && k < len(pageNumbers) ==> pageNumbers[k] >= 1
    // a page number that is out of range leaves all as it is
    ensures @nothing (exists k int :: 0 <= k && k < len(pageNumbers) && pageNumbers[k] < 1) ==> !isnil(err) && (if has(m.objects, anyobj()) then bytes(m.objects[anyobj()]) else []) == old((if has(m.objects, anyobj()) then bytes(m.objects[anyobj()]) else []))
func (*PDFManipulator).RotateAllPages(m, angle) (err)
    attr nodefaults on
    attr fuel 0
    requires !isnil(m) && !isnil(m.objects) && !isnil(m.pdf)
    modifies m.objects

package github.com/benedoc-inc/pdfer/core/parse
extern OpenWithOptions(data, o) (r, err)
    ensures isnil(err) ==> !isnil(r)
extern (*PDF).Objects(p) (r)
    requires !isnil(p)
extern (*PDF).GetObject(p, n) (r, err)
    requires !isnil(p)

package github.com/benedoc-inc/pdfer/core/write
extern (*PDFWriter).Bytes(w) (r, err)
    requires !isnil(w)
