// Reading TrueType fonts (ISO/IEC 14496-22): no font file makes the library crash, and a glyph is the one the cmap names.
package github.com/benedoc-inc/pdfer/resources/font
props C11

spec be16(d bytes, o int) int = d[o]*256 + d[o+1]
spec beu32(d bytes, o int) int = ((d[o]*256 + d[o+1])*256 + d[o+2])*256 + d[o+3]
// format 4: segment i of n
spec end4(d bytes, i int) int = be16(d, 14 + 2*i)
spec start4(d bytes, n int, i int) int = be16(d, 16 + 2*n + 2*i)
spec delta4(d bytes, n int, i int) int = be16(d, 16 + 4*n + 2*i)
spec ro4(d bytes, n int, i int) int = be16(d, 16 + 6*n + 2*i)
spec at4(d bytes, n int, i int, c int) int = 16 + 6*n + 2*i + ro4(d, n, i) + 2*(c - start4(d, n, i))
spec gl4(d bytes, n int, i int, c int) int =
    if ro4(d, n, i) == 0 then (c + delta4(d, n, i)) % 65536
    else if at4(d, n, i, c) + 2 <= len(d) then (if be16(d, at4(d, n, i, c)) == 0 then 0 else (be16(d, at4(d, n, i, c)) + delta4(d, n, i)) % 65536)
    else 0
spec in4(d bytes, n int, i int, c int) bool = start4(d, n, i) <= c && c <= end4(d, i) && c != 65535
// glyph of c once segments i..n-1 are added to a map that gives it g
spec rec m4(d bytes, n int, i int, c int, g int) int =
    if i >= n then g
    else if end4(d, i) == 65535 && start4(d, n, i) == 65535 then g
    else m4(d, n, i+1, c, if in4(d, n, i, c) && gl4(d, n, i, c) != 0 then gl4(d, n, i, c) else g)

// anychar stands for any character code: what is proved of it holds for all
spec anychar() int
// format 12: group i, at offset o
spec gl12(d bytes, o int, c int) int = (beu32(d, o+8) + (c - beu32(d, o))) % 4294967296 % 65536
spec in12(d bytes, o int, c int) bool = beu32(d, o) <= c && c <= beu32(d, o+4) && c <= 1114111
spec rec m12(d bytes, i int, o int, c int, g int) int =
    if i >= beu32(d, 12) || o + 12 > len(d) then g
    else m12(d, i+1, o+12, c, if in12(d, o, c) then gl12(d, o, c) else g)
func parseCmapFormat12(data, glyphMap) (r, err)
    requires !isnil(glyphMap)
    modifies glyphMap
    attr fuel 1
    attr merge same
    inv [i int] 0 <= i && i <= beu32(data, 12)
    inv [offset int] offset >= 16
    inv [i int, offset int] m12(data, 0, 16, anychar(), old((if has(glyphMap, anychar()) then glyphMap[anychar()] else 0))) == m12(data, i, offset, anychar(), (if has(glyphMap, anychar()) then glyphMap[anychar()] else 0))
    inv [i int] 0 <= i && i < beu32(data, 12)
    inv [offset int] 16 <= offset && offset + 12 <= len(data)
    inv [code int, offset int] beu32(data, offset) <= code
    inv [i int, code int, offset int] m12(data, 0, 16, anychar(), old((if has(glyphMap, anychar()) then glyphMap[anychar()] else 0))) == (if beu32(data, offset) <= anychar() && anychar() < code then m12(data, i+1, offset+12, anychar(), (if has(glyphMap, anychar()) then glyphMap[anychar()] else 0)) else m12(data, i, offset, anychar(), (if has(glyphMap, anychar()) then glyphMap[anychar()] else 0)))
    ensures @short len(data) < 16 ==> !isnil(err)
    ensures @glyph isnil(err) ==> (if has(r, anychar()) then r[anychar()] else 0) == m12(data, 0, 16, anychar(), old((if has(glyphMap, anychar()) then glyphMap[anychar()] else 0)))

func parseCmapFormat4(data, glyphMap) (r, err)
    requires !isnil(glyphMap)
    modifies glyphMap
    attr fuel 1
    attr merge same
    ensures @short len(data) < 14 ==> !isnil(err)
    inv [i int] 0 <= i && i <= be16(data, 6)/2
    inv [i int] m4(data, be16(data, 6)/2, 0, anychar(), old((if has(glyphMap, anychar()) then glyphMap[anychar()] else 0))) == m4(data, be16(data, 6)/2, i, anychar(), (if has(glyphMap, anychar()) then glyphMap[anychar()] else 0))
    inv [i int] 0 <= i && i < be16(data, 6)/2
    inv [i int, code int] start4(data, be16(data, 6)/2, i) <= code
    inv [i int, code int] m4(data, be16(data, 6)/2, 0, anychar(), old((if has(glyphMap, anychar()) then glyphMap[anychar()] else 0))) == (if start4(data, be16(data, 6)/2, i) <= anychar() && anychar() < code then m4(data, be16(data, 6)/2, i+1, anychar(), (if has(glyphMap, anychar()) then glyphMap[anychar()] else 0)) else m4(data, be16(data, 6)/2, i, anychar(), (if has(glyphMap, anychar()) then glyphMap[anychar()] else 0)))
    ensures @glyph isnil(err) ==> (if has(r, anychar()) then r[anychar()] else 0) == m4(data, be16(data, 6)/2, 0, anychar(), old((if has(glyphMap, anychar()) then glyphMap[anychar()] else 0)))

func parseCmap(data) (r, err)
    ensures @version len(data) < 4 || be16(data, 0) != 0 ==> !isnil(err)

func (*TTF).parseHead(ttf) (err)
    requires !isnil(ttf) && !isnil(ttf.Tables) && forall k bytes :: has(ttf.Tables, k) ==> !isnil(ttf.Tables[k])
    modifies ttf.UnitsPerEm
    ensures @err isnil(err) <==> has(ttf.Tables, "head") && len(ttf.Tables["head"].Data) >= 54
    ensures @em isnil(err) ==> ttf.UnitsPerEm == be16(ttf.Tables["head"].Data, 18)
func (*TTF).parseMaxp(ttf) (err)
    requires !isnil(ttf) && !isnil(ttf.Tables) && forall k bytes :: has(ttf.Tables, k) ==> !isnil(ttf.Tables[k])
    modifies ttf.NumGlyphs
    ensures @err isnil(err) <==> has(ttf.Tables, "maxp") && len(ttf.Tables["maxp"].Data) >= 6
    ensures @n isnil(err) ==> ttf.NumGlyphs == be16(ttf.Tables["maxp"].Data, 4)
func (*TTF).parseHhea(ttf) (err)
    requires !isnil(ttf) && !isnil(ttf.Tables) && forall k bytes :: has(ttf.Tables, k) ==> !isnil(ttf.Tables[k])
    modifies ttf.Ascent, ttf.Descent
    ensures @err isnil(err) <==> has(ttf.Tables, "hhea") && len(ttf.Tables["hhea"].Data) >= 36
func (*TTF).parseName(ttf) (err)
    requires !isnil(ttf) && !isnil(ttf.Tables) && forall k bytes :: has(ttf.Tables, k) ==> !isnil(ttf.Tables[k])
    modifies ttf.FontName, ttf.FamilyName, ttf.FullName, ttf.PostScriptName
    attr nodefaults on
    inv [offset int] offset >= 6
    inv [offset int, i int] offset == 6 + 12*i
    inv [j int] j % 2 == 0 && j >= 0
    ensures @err isnil(err) <==> has(ttf.Tables, "name") && len(ttf.Tables["name"].Data) >= 6
func (*TTF).parsePost(ttf) (err)
    requires !isnil(ttf) && !isnil(ttf.Tables) && forall k bytes :: has(ttf.Tables, k) ==> !isnil(ttf.Tables[k])
    modifies ttf.ItalicAngle, ttf.UnderlinePosition, ttf.UnderlineThickness, ttf.IsFixedPitch, ttf.CapHeight, ttf.XHeight
    ensures @err isnil(err) <==> has(ttf.Tables, "post") && len(ttf.Tables["post"].Data) >= 32
func ParseTTF(data) (ttf, err)
    inv [offset int, ttf TTF] offset >= 12 && !isnil(ttf.Tables) && forall k bytes :: has(ttf.Tables, k) ==> !isnil(ttf.Tables[k])
    ensures @err len(data) < 12 ==> !isnil(err)
    ensures @ok isnil(err) ==> !isnil(ttf) && !isnil(ttf.Tables) && forall k bytes :: has(ttf.Tables, k) ==> !isnil(ttf.Tables[k])
    ensures @ok2 isnil(err) ==> has(ttf.Tables, "hhea") && len(ttf.Tables["hhea"].Data) >= 36
func NewFont(name, data) (f, err)
    ensures @ok isnil(err) ==> !isnil(f) && f.Data == data && len(f.Subset) == 0
func (*Font).AddRune(f, r)
    requires !isnil(f)
    modifies f.Subset
    inv [rangeindex int] forall i int :: 0 <= i && i < rangeindex ==> f.Subset[i] != r
    ensures @has exists i int :: 0 <= i && i < len(f.Subset) && f.Subset[i] == r
    ensures @once f.Subset == old(f.Subset) || f.Subset == old(f.Subset) ++ [r] && forall i int :: 0 <= i && i < len(old(f.Subset)) ==> old(f.Subset)[i] != r
func (*Font).GetSubsetGlyphs(f) (gs, err)
    requires !isnil(f)
func (*Font).GetWidths(f) (ws, err)
    requires !isnil(f)
