// Revision history: where revisions end, what a revision's bytes are, and which definition of an object wins.
package github.com/benedoc-inc/pdfer/core/parse
props C04

spec eofidx(s bytes) int = indexof(s, "%%EOF", 0)
spec rec eofs(s bytes, p int) ints =
    if eofidx(s) < 0 then []
    else [p + eofidx(s)] ++ eofs(s[eofidx(s)+5..], p + eofidx(s) + 5)
spec rec addfive(s ints) ints = if len(s) == 0 then [] else [s[0] + 5] ++ addfive(s[1..])
spec sorted(s ints) bool = forall k int, m int :: 0 <= k && k < m && m < len(s) ==> s[k] <= s[m]

lemma eofs_at(s bytes, p int, k int)
    requires 0 <= k && k < len(eofs(s, p))
    ensures p <= eofs(s, p)[k] && eofs(s, p)[k] + 5 <= p + len(s)
    measure k
    case k == 0
    use eofs_at(s[eofidx(s)+5..], p + eofidx(s) + 5, k-1)
lemma eofs_bounds(s bytes, p int)
    ensures forall k int :: 0 <= k && k < len(eofs(s, p)) ==> p <= eofs(s, p)[k] && eofs(s, p)[k] + 5 <= p + len(s)
    trigger eofs(s, p)
    use forall k int :: eofs_at(s, p, k)
    attr fuel 0
lemma eofs_pair(s bytes, p int, k int, m int)
    requires 0 <= k && k < m && m < len(eofs(s, p))
    ensures eofs(s, p)[k] + 5 <= eofs(s, p)[m]
    measure k
    case k == 0
    use eofs_pair(s[eofidx(s)+5..], p + eofidx(s) + 5, k-1, m-1)
    use eofs_at(s[eofidx(s)+5..], p + eofidx(s) + 5, m-1)
lemma eofs_sorted(s bytes, p int)
    ensures forall k int, m int :: 0 <= k && k < m && m < len(eofs(s, p)) ==> eofs(s, p)[k] + 5 <= eofs(s, p)[m]
    trigger eofs(s, p)
    use forall k int, m int :: eofs_pair(s, p, k, m)
    attr fuel 0

func FindAllEOFMarkers(pdfBytes) (r)
    ensures @all r == eofs(pdfBytes, 0)
    inv [offsets ints, pos int] offsets ++ eofs(pdfBytes[pos..], pos) == eofs(pdfBytes, 0)

func CountRevisions(pdfBytes) (n)
    ensures @count n == len(eofs(pdfBytes, 0))

func GetRevisionBoundaries(pdfBytes) (r)
    ensures @length len(r) == len(eofs(pdfBytes, 0))
    inv [offsets ints, i int, pdfBytes bytes] forall k int :: 0 <= k && k < len(offsets) ==> offsets[k] == eofs(pdfBytes, 0)[k] + (if k < i then 5 else 0)
    inv [offsets ints, pdfBytes bytes] len(offsets) == len(eofs(pdfBytes, 0))
    ensures @ends forall k int :: 0 <= k && k < len(r) ==> r[k] == eofs(pdfBytes, 0)[k] + 5

func ExtractRevision(pdfBytes, revisionNum) (r, err)
    ensures @range isnil(err) <==> 1 <= revisionNum && revisionNum <= len(eofs(pdfBytes, 0))
    ensures @prefix isnil(err) ==> prefix(r, pdfBytes)
    ensures @whole isnil(err) ==> len(r) >= eofs(pdfBytes, 0)[revisionNum-1] + 5
    ensures @newlines isnil(err) ==> forall k int :: eofs(pdfBytes, 0)[revisionNum-1] + 5 <= k && k < len(r) ==> r[k] == 13 || r[k] == 10
    inv [endPos int, pdfBytes bytes, revisionNum int] forall k int :: eofs(pdfBytes, 0)[revisionNum-1] + 5 <= k && k < endPos ==> pdfBytes[k] == 13 || pdfBytes[k] == 10
    inv [endPos int, pdfBytes bytes, revisionNum int] eofs(pdfBytes, 0)[revisionNum-1] + 5 <= endPos && endPos <= len(pdfBytes)
    ensures @maximal isnil(err) ==> len(r) == len(pdfBytes) || (pdfBytes[len(r)] != 13 && pdfBytes[len(r)] != 10)

// ---- merging revisions: the newest definition of an object is the one in force ----
func (*PDFDocument).GetObject(d, objNum) (r)
    requires !isnil(d) && forall k int :: 0 <= k && k < len(d.Revisions) ==> !isnil(d.Revisions[k])
    inv [i int, d PDFDocument, objNum int] forall k int :: i < k && k < len(d.Revisions) ==> !has(d.Revisions[k].Objects, objNum)
    ensures @absent (forall k int :: 0 <= k && k < len(d.Revisions) ==> !has(d.Revisions[k].Objects, objNum)) ==> isnil(r)
    ensures @newest forall k int :: 0 <= k && k < len(d.Revisions) && has(d.Revisions[k].Objects, objNum) && (forall m int :: k < m && m < len(d.Revisions) ==> !has(d.Revisions[m].Objects, objNum)) ==> r == d.Revisions[k].Objects[objNum]

func (*PDFDocument).GetObjectInRevision(d, objNum, revisionNum) (r)
    requires !isnil(d) && forall k int :: 0 <= k && k < len(d.Revisions) ==> !isnil(d.Revisions[k])
    ensures @out (revisionNum < 1 || revisionNum > len(d.Revisions)) ==> isnil(r)
    ensures @in 1 <= revisionNum && revisionNum <= len(d.Revisions) && has(d.Revisions[revisionNum-1].Objects, objNum) ==> r == d.Revisions[revisionNum-1].Objects[objNum]

func (*PDFDocument).RevisionCount(d) (n)
    requires !isnil(d)
    ensures @count n == len(d.Revisions)
func (*PDFDocument).LatestRevision(d) (r)
    requires !isnil(d)
    ensures @none len(d.Revisions) == 0 ==> isnil(r)
    ensures @last len(d.Revisions) > 0 ==> r == d.Revisions[len(d.Revisions)-1]
func (*PDFDocument).Bytes(d) (r)
    ensures @same !isnil(d) ==> r == d.RawBytes

func (*incrementalParser).mergeSections(p)
    requires !isnil(p) && !isnil(p.mergedObjs) && !isnil(p.mergedStreams)
    requires forall k int :: 0 <= k && k < len(p.sections) ==> !isnil(p.sections[k])
    requires forall n int :: !has(p.mergedObjs, n) && !has(p.mergedStreams, n)
    modifies p.mergedObjs, p.mergedStreams
    inv [rangeindex int, p incrementalParser] rangeindex <= len(p.sections)
    inv [rangeindex int, p incrementalParser] forall n int, k int :: 0 <= k && k < rangeindex && has(p.sections[k].Objects, n) && !has(p.sections[k].Streams, n) && (forall m int :: k < m && m < rangeindex ==> !(has(p.sections[m].Objects, n) || has(p.sections[m].Streams, n))) ==> has(p.mergedObjs, n) && p.mergedObjs[n] == p.sections[k].Objects[n] && !has(p.mergedStreams, n)
    inv [visited map, rangeindex int, p incrementalParser] forall n int, k int :: !has(visited, n) && 0 <= k && k < rangeindex && has(p.sections[k].Objects, n) && !has(p.sections[k].Streams, n) && (forall m int :: k < m && m < rangeindex ==> !(has(p.sections[m].Objects, n) || has(p.sections[m].Streams, n))) ==> has(p.mergedObjs, n) && p.mergedObjs[n] == p.sections[k].Objects[n] && !has(p.mergedStreams, n)
    inv [rangeindex int, p incrementalParser] forall n int, k int :: 0 <= k && k < rangeindex && has(p.sections[k].Streams, n) && (forall m int :: k < m && m < rangeindex ==> !(has(p.sections[m].Objects, n) || has(p.sections[m].Streams, n))) ==> has(p.mergedStreams, n) && p.mergedStreams[n] == p.sections[k].Streams[n] && !has(p.mergedObjs, n)
    inv [visited map, rangeindex int, p incrementalParser] forall n int, k int :: !has(visited, n) && 0 <= k && k < rangeindex && has(p.sections[k].Streams, n) && (forall m int :: k < m && m < rangeindex ==> !(has(p.sections[m].Objects, n) || has(p.sections[m].Streams, n))) ==> has(p.mergedStreams, n) && p.mergedStreams[n] == p.sections[k].Streams[n] && !has(p.mergedObjs, n)
    inv [visited map, rangeindex int, p incrementalParser] forall n int, k int :: !has(visited, n) && k == rangeindex && has(p.sections[k].Objects, n) ==> has(p.mergedObjs, n) && p.mergedObjs[n] == p.sections[k].Objects[n] && !has(p.mergedStreams, n)
    inv [visited map, rangeindex int, p incrementalParser] forall n int, k int :: !has(visited, n) && !has(p.sections[rangeindex].Objects, n) && 0 <= k && k < rangeindex && has(p.sections[k].Objects, n) && !has(p.sections[k].Streams, n) && (forall m int :: k < m && m < rangeindex ==> !(has(p.sections[m].Objects, n) || has(p.sections[m].Streams, n))) ==> has(p.mergedObjs, n) && p.mergedObjs[n] == p.sections[k].Objects[n] && !has(p.mergedStreams, n)
    inv [visited map, rangeindex int, p incrementalParser] forall n int, k int :: !has(visited, n) && !has(p.sections[rangeindex].Objects, n) && 0 <= k && k < rangeindex && has(p.sections[k].Streams, n) && (forall m int :: k < m && m < rangeindex ==> !(has(p.sections[m].Objects, n) || has(p.sections[m].Streams, n))) ==> has(p.mergedStreams, n) && p.mergedStreams[n] == p.sections[k].Streams[n] && !has(p.mergedObjs, n)
    inv [visited map, section xrefSection, p incrementalParser] forall n int :: has(visited, n) ==> has(p.mergedObjs, n) && p.mergedObjs[n] == section.Objects[n] && !has(p.mergedStreams, n)
    inv [visited map, section xrefSection, p incrementalParser] forall n int :: has(visited, n) ==> has(p.mergedStreams, n) && p.mergedStreams[n] == section.Streams[n] && !has(p.mergedObjs, n)
    inv [visited map, section xrefSection] forall n int :: has(visited, n) ==> has(section.Objects, n)
    inv [visited map, section xrefSection] forall n int :: has(visited, n) ==> has(section.Streams, n)
    ensures @newest_direct forall n int, k int :: 0 <= k && k < len(p.sections) && has(p.sections[k].Objects, n) && !has(p.sections[k].Streams, n) && (forall m int :: k < m && m < len(p.sections) ==> !(has(p.sections[m].Objects, n) || has(p.sections[m].Streams, n))) ==> has(p.mergedObjs, n) && p.mergedObjs[n] == p.sections[k].Objects[n] && !has(p.mergedStreams, n)
    ensures @newest_compressed forall n int, k int :: 0 <= k && k < len(p.sections) && has(p.sections[k].Streams, n) && (forall m int :: k < m && m < len(p.sections) ==> !(has(p.sections[m].Objects, n) || has(p.sections[m].Streams, n))) ==> has(p.mergedStreams, n) && p.mergedStreams[n] == p.sections[k].Streams[n] && !has(p.mergedObjs, n)

func (*PDFDocument).AllObjects(d) (r)
    requires !isnil(d) && forall k int :: 0 <= k && k < len(d.Revisions) ==> !isnil(d.Revisions[k])
    inv [rangeindex int, d PDFDocument] rangeindex <= len(d.Revisions)
    inv [rangeindex int, d PDFDocument, result map] forall n int, k int :: 0 <= k && k < rangeindex && has(d.Revisions[k].Objects, n) && (forall m int :: k < m && m < rangeindex ==> !has(d.Revisions[m].Objects, n)) ==> has(result, n) && result[n] == d.Revisions[k].Objects[n]
    inv [visited map, rangeindex int, d PDFDocument, result map] forall n int, k int :: !has(visited, n) && 0 <= k && k < rangeindex && has(d.Revisions[k].Objects, n) && (forall m int :: k < m && m < rangeindex ==> !has(d.Revisions[m].Objects, n)) ==> has(result, n) && result[n] == d.Revisions[k].Objects[n]
    inv [visited map, rev PDFRevision, result map] forall n int :: has(visited, n) ==> has(result, n) && result[n] == rev.Objects[n]
    inv [visited map, rev PDFRevision] forall n int :: has(visited, n) ==> has(rev.Objects, n)
    ensures @newest forall n int, k int :: 0 <= k && k < len(d.Revisions) && has(d.Revisions[k].Objects, n) && (forall m int :: k < m && m < len(d.Revisions) ==> !has(d.Revisions[m].Objects, n)) ==> has(r, n) && r[n] == d.Revisions[k].Objects[n]
