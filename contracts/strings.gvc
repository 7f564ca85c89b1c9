// Text in literal strings (ISO 32000-1, 7.3.4.2): what is written, read back, is the text.
package strings
spec rec repl(s bytes, c int, t bytes) bytes = if len(s) == 0 then [] else (if s[0] == c then t else [s[0]]) ++ repl(s[1..], c, t)
extern ReplaceAll(s, old, new) (r)
    ensures @onebyte len(old) == 1 ==> r == repl(s, old[0], new)

package github.com/benedoc-inc/pdfer/content/extract
props C08
spec oct(c int) bool = 48 <= c && c <= 55
// the text a literal string stands for
spec rec unesc(s bytes) bytes =
    if len(s) == 0 then []
    else if s[0] != 92 then [s[0]] ++ unesc(s[1..])
    else if len(s) == 1 then []
    else if s[1] == 110 then [10] ++ unesc(s[2..])
    else if s[1] == 114 then [13] ++ unesc(s[2..])
    else if s[1] == 116 then [9] ++ unesc(s[2..])
    else if s[1] == 98 then [8] ++ unesc(s[2..])
    else if s[1] == 102 then [12] ++ unesc(s[2..])
    else if s[1] == 10 then unesc(s[2..])
    else if s[1] == 13 then (if len(s) > 2 && s[2] == 10 then unesc(s[3..]) else unesc(s[2..]))
    else if oct(s[1]) then
        (if len(s) > 2 && oct(s[2]) then
            (if len(s) > 3 && oct(s[3]) then [((s[1]-48)*64 + (s[2]-48)*8 + s[3]-48) % 256] ++ unesc(s[4..])
             else [(s[1]-48)*8 + s[2]-48] ++ unesc(s[3..]))
         else [s[1]-48] ++ unesc(s[2..]))
    else [s[1]] ++ unesc(s[2..])
func unescapePDFString(s) (r)
    inv [out bytes, i int] out ++ unesc(s[i..]) == unesc(s)
    ensures @meaning r == unesc(s)

package github.com/benedoc-inc/pdfer/core/write
props C08
spec esc1(c int) bytes = if c == 92 then [92, 92] else if c == 40 then [92, 40] else if c == 41 then [92, 41] else if c == 13 then [92, 114] else if c == 10 then [92, 110] else if c == 9 then [92, 116] else [c]
spec rec esc(s bytes) bytes = if len(s) == 0 then [] else esc1(s[0]) ++ esc(s[1..])
lemma unesc_esc(s bytes)
    ensures unesc(esc(s)) == s
    measure len(s)
    case len(s) > 0
    use unesc_esc(s[1..])
// six replacements one after the other escape each byte once
lemma repl_esc(s bytes)
    ensures repl(repl(repl(repl(repl(repl(s, 92, [92, 92]), 40, [92, 40]), 41, [92, 41]), 13, [92, 114]), 10, [92, 110]), 9, [92, 116]) == esc(s)
    measure len(s)
    case len(s) > 0
    use repl_esc(s[1..])
func escapePDFStringForMetadata(s) (r)
    use repl_esc(s)
    ensures @escaped r == esc(s)
    ensures @roundtrip unesc(r) == s
    use unesc_esc(s)
func escapePDFString(s) (r)
    inv [result bytes, i int] result ++ esc(s[i..]) == esc(s)
    ensures @escaped r == esc(s)
    ensures @roundtrip unesc(r) == s
    use unesc_esc(s)
