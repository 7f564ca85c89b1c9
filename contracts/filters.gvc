// Stream filters: what each decoder accepts and produces, and encode/decode inverses.
package github.com/benedoc-inc/pdfer/core/parse
props C01 C02

// ---- RunLength -------------------------------------------------------------
spec rec rep(b byte, n int) bytes = if n <= 0 then [] else [b] ++ rep(b, n-1)
spec rec rlok(s bytes) bool =
    if len(s) == 0 then true
    else if s[0] == 128 then true
    else if s[0] < 128 then len(s) >= 2 + s[0] && rlok(s[2+s[0]..])
    else len(s) >= 2 && rlok(s[2..])
spec rec rldec(s bytes) bytes =
    if len(s) == 0 then []
    else if s[0] == 128 then []
    else if s[0] < 128 then s[1..2+s[0]] ++ rldec(s[2+s[0]..])
    else rep(s[1], 257-s[0]) ++ rldec(s[2..])
// a string of complete runs with no end marker
spec rec rlfull(s bytes) bool =
    if len(s) == 0 then true
    else if s[0] == 128 then false
    else if s[0] < 128 then len(s) >= 2 + s[0] && rlfull(s[2+s[0]..])
    else len(s) >= 2 && rlfull(s[2..])

lemma rl_append(s bytes, t bytes)
    requires rlfull(s)
    ensures  rldec(s ++ t) == rldec(s) ++ rldec(t)
    ensures  rlfull(t) ==> rlfull(s ++ t)
    ensures  rlok(t) ==> rlok(s ++ t)
    measure  len(s)
    use rl_append(s[2+s[0]..], t)
    use rl_append(s[2..], t)

lemma rl_run(s bytes, x byte, b byte)
    requires rlfull(s) && x > 128
    ensures  rldec(s ++ [x, b]) == rldec(s) ++ rep(b, 257-x)
    ensures  rlfull(s ++ [x, b])
    trigger  rldec(s ++ [x, b])
    trigger  rlfull(s ++ [x, b])
    use rl_append(s, [x, b])

lemma rl_lit(s bytes, x byte, t bytes)
    requires rlfull(s) && len(t) == x + 1 && x < 128
    ensures  rldec(s ++ [x] ++ t) == rldec(s) ++ t
    ensures  rlfull(s ++ [x] ++ t)
    trigger  rldec(s ++ [x] ++ t)
    trigger  rlfull(s ++ [x] ++ t)
    use rl_append(s, [x] ++ t)

lemma rl_end(s bytes)
    requires rlfull(s)
    ensures  rldec(s ++ [128]) == rldec(s)
    ensures  rlok(s ++ [128])
    trigger  rldec(s ++ [128])
    trigger  rlok(s ++ [128])
    use rl_append(s, [128])

lemma rep_snoc(b byte, n int)
    requires n >= 0
    ensures  rep(b, n+1) == rep(b, n) ++ [b]
    trigger  rep(b, n) && rep(b, n+1)
    measure  n
    use rep_snoc(b, n-1)

func DecodeRunLength(data) (r, err)
    ensures @accepts isnil(err) <==> rlok(data)
    ensures @decodes isnil(err) ==> r == rldec(data)
    inv [i int, result bytes] result ++ rldec(data[i..]) == rldec(data)
    inv [i int] rlok(data[i..]) <==> rlok(data)
    inv [i int, result bytes, repeatByte byte, count int, j int] result ++ rep(repeatByte, count-j) ++ rldec(data[i..]) == rldec(data)

func EncodeRunLength(data) (r)
    ensures @roundtrip rlok(r) && rldec(r) == data
    inv [result bytes, i int] rlfull(result) && rldec(result) == data[..i]
    inv [i int, runStart int] rep(data[runStart], i-runStart+1) == data[runStart..i+1]
    inv [i int, runStart int] i < len(data) && runStart <= i && data[i] == data[runStart]
    inv [i int, runStart int] i > runStart || i == len(data)-1 || data[i] != data[i+1]
    inv [i int, runStart int] i - runStart <= 127
    inv [i int] i <= len(data)

// ---- ASCIIHex --------------------------------------------------------------
spec isws(b byte) bool = b == 32 || b == 9 || b == 13 || b == 10 || b == 12
spec ishex(b byte) bool = (48 <= b && b <= 57) || (65 <= b && b <= 70) || (97 <= b && b <= 102)
spec hexval(b byte) int = if b <= 57 then b - 48 else if b <= 70 then b - 55 else b - 87
spec hexdig(n int) byte = if n < 10 then 48 + n else 55 + n
spec rec hexok(s bytes) bool =
    if len(s) == 0 then true
    else if isws(s[0]) then hexok(s[1..])
    else if s[0] == '>' then true
    else ishex(s[0]) && hexok(s[1..])
spec rec hexdec(s bytes, have bool, nib int) bytes =
    if len(s) == 0 then (if have then [nib*16] else [])
    else if isws(s[0]) then hexdec(s[1..], have, nib)
    else if s[0] == '>' then (if have then [nib*16] else [])
    else if have then [nib*16 + hexval(s[0])] ++ hexdec(s[1..], false, 0)
    else hexdec(s[1..], true, hexval(s[0]))
spec rec hexenc(d bytes) bytes = if len(d) == 0 then [] else [hexdig(d[0]/16), hexdig(d[0]%16)] ++ hexenc(d[1..])

lemma hex_roundtrip(d bytes)
    ensures hexok(hexenc(d) ++ ">")
    ensures hexdec(hexenc(d) ++ ">", false, 0) == d
    measure len(d)
    use hex_roundtrip(d[1..])
    attr fuel 3

func DecodeASCIIHex(data) (r, err)
    ensures @accepts isnil(err) <==> hexok(data)
    ensures @decodes isnil(err) ==> r == hexdec(data, false, 0)
    inv [pos int, result bytes, haveNibble bool, hexByte byte] result ++ hexdec(data[pos..], haveNibble, if haveNibble then hexByte else 0) == hexdec(data, false, 0)
    inv [pos int] hexok(data[pos..]) <==> hexok(data)
    inv [hexByte byte] hexByte < 16

func EncodeASCIIHex(data) (r)
    ensures @encodes r == hexenc(data) ++ ">"
    ensures @roundtrip hexok(r) && hexdec(r, false, 0) == data
    inv [pos int, result bytes] result[..2*pos] ++ hexenc(data[pos..]) == hexenc(data)
    use hex_roundtrip(data)

// ---- DCT -------------------------------------------------------------------
func DecodeDCTDecode(data) (r, err)
    ensures @accepts isnil(err) <==> len(data) >= 2 && data[0] == 255 && data[1] == 216
    ensures @identity isnil(err) ==> r == data

func EncodeDCTDecode(data) (r, err)
    ensures @accepts isnil(err) <==> len(data) >= 2 && data[0] == 255 && data[1] == 216
    ensures @identity isnil(err) ==> r == data

// ---- ASCII85 ---------------------------------------------------------------
spec a85val(t bytes) int = t[0]*52200625 + t[1]*614125 + t[2]*7225 + t[3]*85 + t[4]
spec be32(x int) bytes = [x/16777216%256, x/65536%256, x/256%256, x%256]
spec a85quad(t bytes) bytes = be32(a85val(t))
spec a85pad(t bytes) bytes = if len(t) == 2 then t ++ [84,84,84] else if len(t) == 3 then t ++ [84,84] else t ++ [84]
spec a85tail(t bytes) bytes = if len(t) <= 1 then [] else a85quad(a85pad(t))[..len(t)-1]
spec a85end(s bytes) bool = len(s) >= 2 && s[0] == '~' && s[1] == '>'
spec rec a85ok(s bytes, n int) bool =
    if len(s) == 0 then true
    else if isws(s[0]) then a85ok(s[1..], n)
    else if a85end(s) then true
    else if s[0] == 'z' then n == 0 && a85ok(s[1..], 0)
    else 33 <= s[0] && s[0] <= 117 && a85ok(s[1..], (if n == 4 then 0 else n+1))
spec rec a85dec(s bytes, t bytes) bytes =
    if len(s) == 0 then a85tail(t)
    else if isws(s[0]) then a85dec(s[1..], t)
    else if a85end(s) then a85tail(t)
    else if s[0] == 'z' then [0,0,0,0] ++ a85dec(s[1..], [])
    else if len(t) == 4 then a85quad(t ++ [s[0]-33]) ++ a85dec(s[1..], [])
    else a85dec(s[1..], t ++ [s[0]-33])
spec a85strip(s bytes) bytes = if prefix("<~", s) then s[2..] else s

func DecodeASCII85(data) (r, err)
    ensures @accepts isnil(err) <==> a85ok(a85strip(data), 0)
    ensures @decodes isnil(err) ==> r == a85dec(a85strip(data), [])
    inv [i int, result bytes, tuple bytes, tupleIndex int, data bytes] result ++ a85dec(data[i..], tuple[..tupleIndex]) == a85dec(data, [])
    inv [i int, tupleIndex int, data bytes] a85ok(data[i..], tupleIndex) <==> a85ok(data, 0)
    inv [tupleIndex int] 0 <= tupleIndex && tupleIndex < 5
    inv [tuple bytes] len(tuple) == 5
    inv [i int] i <= 5
    inv [i int, tupleIndex int] tupleIndex <= i
    inv [i int, tuple bytes, tupleIndex int] forall k int :: tupleIndex <= k && k < i ==> tuple[k] == 84
    inv [result bytes, tuple bytes, tupleIndex int, data bytes] result ++ a85tail(tuple[..tupleIndex]) == a85dec(data, [])
    inv [data bytes] a85ok(data, 0)

func decodeASCII85Tuple(tuple, count) (r)
    requires len(tuple) == 5
    ensures @bigendian r == a85quad(tuple)

// the encoder: four bytes (big endian) to five base-85 digits, 'z' for zero, a short last group
spec be4(a int, b int, c int, d int) int = a*16777216 + b*65536 + c*256 + d
spec dig5(x int) bytes = [x/52200625%85 + 33, x/614125%85 + 33, x/7225%85 + 33, x/85%85 + 33, x%85 + 33]
spec rec a85enc(s bytes) bytes =
    if len(s) == 0 then []
    else if len(s) == 1 then dig5(be4(s[0], 0, 0, 0))[..2]
    else if len(s) == 2 then dig5(be4(s[0], s[1], 0, 0))[..3]
    else if len(s) == 3 then dig5(be4(s[0], s[1], s[2], 0))[..4]
    else if be4(s[0], s[1], s[2], s[3]) == 0 then "z" ++ a85enc(s[4..])
    else dig5(be4(s[0], s[1], s[2], s[3])) ++ a85enc(s[4..])

lemma b85_sum(x int)
    requires 0 <= x && x < 4437053125
    ensures  x/52200625%85*52200625 + x/614125%85*614125 + x/7225%85*7225 + x/85%85*85 + x%85 == x
lemma b85_be(a byte, b byte, c byte, d byte)
    ensures  be32(be4(a, b, c, d)) == [a, b, c, d]
    ensures  0 <= be4(a, b, c, d) && be4(a, b, c, d) < 4294967296
// the digits kept for a short group of n bytes, padded with 84, still carry the n bytes
lemma b85_short1(a byte)
    ensures  be32(be4(a,0,0,0)/52200625%85*52200625 + be4(a,0,0,0)/614125%85*614125 + 614124)[..1] == [a]
lemma b85_near2(a byte, b byte, y int)
    requires be4(a,b,0,0) <= y && y < be4(a,b,0,0) + 65536
    ensures  be32(y)[..2] == [a,b]
lemma b85_near3(a byte, b byte, c byte, y int)
    requires be4(a,b,c,0) <= y && y < be4(a,b,c,0) + 256
    ensures  be32(y)[..3] == [a,b,c]
lemma b85_hi2(x int)
    requires 0 <= x && x < 4437053125
    ensures  x/52200625%85*52200625 + x/614125%85*614125 + x/7225%85*7225 == x - x%7225
lemma b85_hi3(x int)
    requires 0 <= x && x < 4437053125
    ensures  x/52200625%85*52200625 + x/614125%85*614125 + x/7225%85*7225 + x/85%85*85 == x - x%85
lemma b85_short2(a byte, b byte)
    ensures  be32(be4(a,b,0,0)/52200625%85*52200625 + be4(a,b,0,0)/614125%85*614125 + be4(a,b,0,0)/7225%85*7225 + 7224)[..2] == [a,b]
    use b85_hi2(be4(a,b,0,0))
    use b85_near2(a, b, be4(a,b,0,0) - be4(a,b,0,0)%7225 + 7224)
lemma b85_short3(a byte, b byte, c byte)
    ensures  be32(be4(a,b,c,0)/52200625%85*52200625 + be4(a,b,c,0)/614125%85*614125 + be4(a,b,c,0)/7225%85*7225 + be4(a,b,c,0)/85%85*85 + 84)[..3] == [a,b,c]
    use b85_hi3(be4(a,b,c,0))
    use b85_near3(a, b, c, be4(a,b,c,0) - be4(a,b,c,0)%85 + 84)
// one digit consumed
lemma a85_d(x byte, t bytes, r bytes)
    requires 33 <= x && x <= 117
    ensures  a85ok([x] ++ r, len(t)) <==> a85ok(r, (if len(t) == 4 then 0 else len(t)+1))
    ensures  a85dec([x] ++ r, t) == (if len(t) == 4 then a85quad(t ++ [x-33]) ++ a85dec(r, []) else a85dec(r, t ++ [x-33]))
    attr fuel 1
spec dg(x byte) bool = 33 <= x && x <= 117
lemma a85_group(a byte, b byte, c byte, d byte, e byte, r bytes)
    requires dg(a) && dg(b) && dg(c) && dg(d) && dg(e)
    ensures  a85ok([a,b,c,d,e] ++ r, 0) <==> a85ok(r, 0)
    ensures  a85dec([a,b,c,d,e] ++ r, []) == a85quad([a-33,b-33,c-33,d-33,e-33]) ++ a85dec(r, [])
    use a85_d(a, [], [b,c,d,e] ++ r)
    use a85_d(b, [a-33], [c,d,e] ++ r)
    use a85_d(c, [a-33,b-33], [d,e] ++ r)
    use a85_d(d, [a-33,b-33,c-33], [e] ++ r)
    use a85_d(e, [a-33,b-33,c-33,d-33], r)
    attr fuel 0
lemma a85_eod(t bytes)
    ensures a85ok("~>", len(t)) && a85dec("~>", t) == a85tail(t)
    attr fuel 1
lemma a85_last2(a byte, b byte)
    requires dg(a) && dg(b)
    ensures  a85ok([a,b] ++ "~>", 0)
    ensures  a85dec([a,b] ++ "~>", []) == a85quad([a-33,b-33,84,84,84])[..1]
    use a85_d(a, [], [b] ++ "~>")
    use a85_d(b, [a-33], "~>")
    use a85_eod([a-33,b-33])
    attr fuel 0
lemma a85_last3(a byte, b byte, c byte)
    requires dg(a) && dg(b) && dg(c)
    ensures  a85ok([a,b,c] ++ "~>", 0)
    ensures  a85dec([a,b,c] ++ "~>", []) == a85quad([a-33,b-33,c-33,84,84])[..2]
    use a85_d(a, [], [b,c] ++ "~>")
    use a85_d(b, [a-33], [c] ++ "~>")
    use a85_d(c, [a-33,b-33], "~>")
    use a85_eod([a-33,b-33,c-33])
    attr fuel 0
lemma a85_last4(a byte, b byte, c byte, d byte)
    requires dg(a) && dg(b) && dg(c) && dg(d)
    ensures  a85ok([a,b,c,d] ++ "~>", 0)
    ensures  a85dec([a,b,c,d] ++ "~>", []) == a85quad([a-33,b-33,c-33,d-33,84])[..3]
    use a85_d(a, [], [b,c,d] ++ "~>")
    use a85_d(b, [a-33], [c,d] ++ "~>")
    use a85_d(c, [a-33,b-33], [d] ++ "~>")
    use a85_d(d, [a-33,b-33,c-33], "~>")
    use a85_eod([a-33,b-33,c-33,d-33])
    attr fuel 0
spec d5(x int, k int) byte = (if k == 0 then x/52200625%85 else if k == 1 then x/614125%85 else if k == 2 then x/7225%85 else if k == 3 then x/85%85 else x%85) + 33
lemma dig5_ok(x int)
    ensures dig5(x) == [d5(x,0), d5(x,1), d5(x,2), d5(x,3), d5(x,4)]
    ensures dg(d5(x,0)) && dg(d5(x,1)) && dg(d5(x,2)) && dg(d5(x,3)) && dg(d5(x,4))
// a whole group of four bytes comes back, in front of whatever follows
lemma a85_rt4(a byte, b byte, c byte, d byte, r bytes)
    ensures  a85ok(dig5(be4(a,b,c,d)) ++ r, 0) <==> a85ok(r, 0)
    ensures  a85dec(dig5(be4(a,b,c,d)) ++ r, []) == [a,b,c,d] ++ a85dec(r, [])
    use dig5_ok(be4(a,b,c,d))
    use a85_group(d5(be4(a,b,c,d),0), d5(be4(a,b,c,d),1), d5(be4(a,b,c,d),2), d5(be4(a,b,c,d),3), d5(be4(a,b,c,d),4), r)
    use b85_sum(be4(a,b,c,d))
    use b85_be(a,b,c,d)
    attr fuel 0
lemma a85_rt1(a byte)
    ensures  a85ok(dig5(be4(a,0,0,0))[..2] ++ "~>", 0)
    ensures  a85dec(dig5(be4(a,0,0,0))[..2] ++ "~>", []) == [a]
    use dig5_ok(be4(a,0,0,0))
    use a85_last2(d5(be4(a,0,0,0),0), d5(be4(a,0,0,0),1))
    use b85_short1(a)
    attr fuel 0
lemma a85_rt2(a byte, b byte)
    ensures  a85ok(dig5(be4(a,b,0,0))[..3] ++ "~>", 0)
    ensures  a85dec(dig5(be4(a,b,0,0))[..3] ++ "~>", []) == [a,b]
    use dig5_ok(be4(a,b,0,0))
    use a85_last3(d5(be4(a,b,0,0),0), d5(be4(a,b,0,0),1), d5(be4(a,b,0,0),2))
    use b85_short2(a,b)
    attr fuel 0
lemma a85_rt3(a byte, b byte, c byte)
    ensures  a85ok(dig5(be4(a,b,c,0))[..4] ++ "~>", 0)
    ensures  a85dec(dig5(be4(a,b,c,0))[..4] ++ "~>", []) == [a,b,c]
    use dig5_ok(be4(a,b,c,0))
    use a85_last4(d5(be4(a,b,c,0),0), d5(be4(a,b,c,0),1), d5(be4(a,b,c,0),2), d5(be4(a,b,c,0),3))
    use b85_short3(a,b,c)
    attr fuel 0
lemma a85_z(r bytes)
    ensures  a85ok("z" ++ r, 0) <==> a85ok(r, 0)
    ensures  a85dec("z" ++ r, []) == [0,0,0,0] ++ a85dec(r, [])
    attr fuel 1
lemma a85_roundtrip(s bytes)
    ensures  a85ok(a85enc(s) ++ "~>", 0)
    ensures  a85dec(a85enc(s) ++ "~>", []) == s
    measure  len(s)
    trigger  a85ok(a85enc(s) ++ "~>", 0)
    trigger  a85dec(a85enc(s) ++ "~>", [])
    use a85_roundtrip(s[4..])
    use a85_rt1(s[0])
    use a85_rt2(s[0], s[1])
    use a85_rt3(s[0], s[1], s[2])
    use a85_rt4(s[0], s[1], s[2], s[3], a85enc(s[4..]) ++ "~>")
    use a85_z(a85enc(s[4..]) ++ "~>")
    use b85_be(s[0], s[1], s[2], s[3])
    use a85_eod([])
    case len(s) == 0
    case len(s) == 1
    case len(s) == 2
    case len(s) == 3
    case len(s) >= 4 && be4(s[0], s[1], s[2], s[3]) == 0
    attr fuel 1

func EncodeASCII85(data) (r)
    ensures @encodes r == "<~" ++ a85enc(data) ++ "~>"
    ensures @roundtrip prefix("<~", r) && a85ok(r[2..], 0) && a85dec(r[2..], []) == data
    use a85_roundtrip(data)
    attr fuel 1
    inv [i int, result bytes, data bytes] (i <= len(data) ==> result ++ a85enc(data[i..]) == "<~" ++ a85enc(data)) && (i > len(data) ==> result == "<~" ++ a85enc(data))
    inv [i int, data bytes] i <= len(data) + 3
