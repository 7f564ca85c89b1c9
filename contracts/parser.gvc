// Reading untrusted bytes: no reader of core/parse crashes, hangs or changes its input.
package github.com/benedoc-inc/pdfer/core/parse
props C05
// Beyond the verifier's path budget: assumed here, exercised by the bounded mutation harness of C05.
extern ParseXRefStreamFull(pdfBytes, startXRef, verbose) (r, err)
    ensures isnil(err) ==> !isnil(r)
extern ParseXRefStreamWithEncryption(pdfBytes, startXRef, encryptInfo, verbose) (r, err)
extern GetObjectFromStream(pdfBytes, objNum, streamObjNum, indexInStream, encryptInfo, verbose) (r, err)
func ParsePDFHeader(pdfBytes) (r, err)
    attr merge on
func (*incrementalParser).findPrevOffset(p, startXRef) (r, err)
    requires !isnil(p) && startXRef >= 0
func (*incrementalParser).findLastStartXRef(p) (r, err)
    attr digits on
    requires !isnil(p)
    ensures isnil(err) ==> r >= 0
func ParseRawObject(pdfBytes, objNum, objGen, offset) (r, err)
    ensures isnil(err) ==> !isnil(r)
    attr merge on
func GetDirectObject(pdfBytes, objNum, offset, encryptInfo, verbose) (r, err)
    attr frame off
    attr feas off
    attr ctx off
    attr merge on
func ParseTrailerDataRaw(pdfBytes, startXRef, eofOffset) (r, err)
    attr merge on
func ParseTraditionalXRefTable(pdfBytes, startXRef) (r, err)
    attr merge on
func parseTraditionalXRefRaw(pdfBytes, startXRef, xref) (r, err)
    attr frame off
    modifies xref.RawBytes, xref.Entries
    attr merge on
    requires startXRef >= 0 && startXRef < len(pdfBytes) && !isnil(xref)
func parseXRefStreamRaw(pdfBytes, startXRef, xref) (r, err)
    modifies xref.StreamObject, xref.RawBytes, xref.Entries
    attr merge on
    requires startXRef >= 0 && startXRef < len(pdfBytes) && !isnil(xref)
func ParseXRefDataRaw(pdfBytes, startXRef) (r, err)
func ParseRawObjectAt(pdfBytes, offset) (r, err)
func (*incrementalParser).parsexrefSection(p, startXRef) (r, err)
    ensures isnil(err) ==> !isnil(r)
    requires !isnil(p) && startXRef >= 0
func (*incrementalParser).parseTraditionalxrefSection(p, startXRef) (r, err)
    ensures isnil(err) ==> !isnil(r)
    attr merge on
    requires !isnil(p) && startXRef >= 0 && startXRef < len(p.pdfBytes)
func (*incrementalParser).parseXRefStreamSection(p, startXRef) (r, err)
    ensures isnil(err) ==> !isnil(r)
    attr merge on
    requires !isnil(p) && startXRef >= 0 && startXRef < len(p.pdfBytes)
func ParsePDFTrailer(pdfBytes) (r, err)
    attr merge on
func FindObjectByNumber(pdfBytes, objNum, encryptInfo, verbose) (r, err)
    attr merge on
func ParseCrossReferenceTableWithEncryption(pdfBytes, startXRef, encryptInfo, verbose) (r, err)
