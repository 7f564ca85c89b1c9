// Writing: object numbers, and the integers of cross-reference streams.
package github.com/benedoc-inc/pdfer/core/write
props C03

spec numbered(w PDFWriter) bool = w.nextObjNum >= 1 && w.nextObjNum < 4294967296 && forall n int :: has(w.objects, n) ==> 1 <= n && n < w.nextObjNum && !isnil(w.objects[n])

func NewPDFWriter() (w)
    ensures @fresh !isnil(w) && !isnil(w.objects) && w.nextObjNum == 1 && forall n int :: !has(w.objects, n)

func (*PDFWriter).NextObjectNumber(w) (n)
    requires !isnil(w)
    ensures @next n == w.nextObjNum

func (*PDFWriter).AddStreamObject(w, dict, data, compress) (r)
    attr frame off
    requires !isnil(w) && !isnil(w.objects) && !isnil(dict) && w.nextObjNum >= 1 && w.nextObjNum < 4294967296
    requires forall n int :: has(w.objects, n) ==> n < w.nextObjNum
    modifies w.objects, w.nextObjNum
    ensures @number r == old(w.nextObjNum) && w.nextObjNum == r + 1
    ensures @unused !old(has(w.objects, r))
    ensures @others forall n int :: n != r ==> (has(w.objects, n) <==> old(has(w.objects, n))) && w.objects[n] == old(w.objects[n])
    ensures @stored has(w.objects, r) && w.objects[r].Number == r && w.objects[r].Generation == 0
    ensures @data !compress ==> w.objects[r].Stream == data
    ensures @bound forall n int :: has(w.objects, n) ==> n < w.nextObjNum

func (*PDFWriter).SetStreamObject(w, objNum, dict, data, compress)
    attr frame off
    requires !isnil(w) && !isnil(w.objects) && !isnil(dict) && w.nextObjNum >= 1 && w.nextObjNum < 4294967296 && objNum < 4294967296
    requires forall n int :: has(w.objects, n) ==> n < w.nextObjNum
    modifies w.objects, w.nextObjNum
    ensures @others forall n int :: n != objNum ==> (has(w.objects, n) <==> old(has(w.objects, n))) && w.objects[n] == old(w.objects[n])
    ensures @stored has(w.objects, objNum) && w.objects[objNum].Number == objNum && w.objects[objNum].Generation == 0
    ensures @data !compress ==> w.objects[objNum].Stream == data
    ensures @bound forall n int :: has(w.objects, n) ==> n < w.nextObjNum
    ensures @next w.nextObjNum == max(old(w.nextObjNum), objNum + 1)

func (*PDFWriter).AddObject(w, content) (r)
    requires !isnil(w) && !isnil(w.objects) && w.nextObjNum >= 1 && w.nextObjNum < 4294967296
    requires forall n int :: has(w.objects, n) ==> n < w.nextObjNum
    modifies w.objects, w.nextObjNum
    ensures @number r == old(w.nextObjNum) && w.nextObjNum == r + 1
    ensures @unused !old(has(w.objects, r))
    ensures @others forall n int :: n != r ==> (has(w.objects, n) <==> old(has(w.objects, n))) && w.objects[n] == old(w.objects[n])
    ensures @stored has(w.objects, r)
    ensures @stored2 w.objects[r].Number == r && w.objects[r].Generation == 0
    ensures @c w.objects[r].Content == content
    ensures @n len(w.objects[r].Stream) == 0
    ensures @bound forall n int :: has(w.objects, n) ==> n < w.nextObjNum

func (*PDFWriter).SetObject(w, objNum, content)
    requires !isnil(w) && !isnil(w.objects) && w.nextObjNum >= 1 && w.nextObjNum < 4294967296 && objNum < 4294967296
    requires forall n int :: has(w.objects, n) ==> n < w.nextObjNum
    modifies w.objects, w.nextObjNum
    ensures @others forall n int :: n != objNum ==> (has(w.objects, n) <==> old(has(w.objects, n))) && w.objects[n] == old(w.objects[n])
    ensures @stored has(w.objects, objNum) && w.objects[objNum].Number == objNum && w.objects[objNum].Generation == 0 && w.objects[objNum].Content == content && len(w.objects[objNum].Stream) == 0
    ensures @bound forall n int :: has(w.objects, n) ==> n < w.nextObjNum
    ensures @next w.nextObjNum == max(old(w.nextObjNum), objNum + 1)

spec rec pow256(n int) int = if n <= 0 then 1 else 256 * pow256(n-1)
spec rec nbytes(n int) int = if n < 256 then 1 else 1 + nbytes(n / 256)
spec rec bew(v int, w int) bytes = if w <= 0 then [] else bew(v / 256, w-1) ++ [v % 256]
spec rec be(b bytes) int = if len(b) == 0 then 0 else 256 * be(b[0..len(b)-1]) + b[len(b)-1]
lemma nbytes_enough(n int)
    requires n >= 0
    ensures nbytes(n) >= 1 && n < pow256(nbytes(n)) && (n > 0 ==> n >= pow256(nbytes(n) - 1))
    measure n
    case n >= 256
    use nbytes_enough(n / 256)
lemma bew_len(v int, w int)
    requires w >= 0
    ensures len(bew(v, w)) == w
    trigger bew(v, w)
    measure w
    case w > 0
    use bew_len(v / 256, w - 1)
// a big-endian field read back is the value written, if it fits
lemma bew_be(v int, w int)
    requires v >= 0 && w >= 0 && v < pow256(w)
    ensures be(bew(v, w)) == v
    measure w
    case w > 0
    use bew_be(v / 256, w - 1)
func calculateBytesNeeded(n) (r)
    requires n >= 0
    inv [n int, bytes int] n >= 0 && bytes >= 0 && (n > 0 ==> bytes + nbytes(n) == nbytes(old(n)))
    inv [n int, bytes int] n >= 0 && bytes >= 0 && bytes + n <= old(n)
    inv [n int, bytes int] n == 0 && old(n) > 0 ==> bytes == nbytes(old(n))
    ensures @exact r == nbytes(n)
func writeBigEndian(dst, value, width)
    requires value >= 0 && 0 <= width && width <= len(dst)
    modifies dst
    inv [dst bytes, value int, width int, i int] value >= 0 && i < width && i + 1 >= 0 && bew(old(value), width) == bew(value, i+1) ++ dst[i+1..width]
    inv [dst bytes] len(dst) == len(old(dst))
    inv [dst bytes, width int] dst[width..] == old(dst)[width..]
    ensures @value dst[0..width] == bew(value, width)
    ensures @rest dst[width..] == old(dst)[width..]
    ensures @length len(dst) == len(old(dst))
    ensures @field value < pow256(width) ==> be(dst[0..width]) == value
    use bew_be(value, width)
