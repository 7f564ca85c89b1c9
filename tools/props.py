prop("C01", "Stream filter encoders are inverted by the matching decoders",
 "For every byte string, encoding it with the library's ASCIIHex, ASCII85 or RunLength encoder and decoding the result under the same filter name returns exactly the original bytes without error, and so does decoding a zlib stream of it under Flate. A DCT stream that is accepted passes through unchanged. Neither direction modifies its input.",
 ["inputs"], "every byte string of every length, each filter, with and without the leading slash in the filter name",
 "Tests encode a few short literals; run lengths around 128, partial ASCII85 groups, zero groups and arbitrary bytes are never enumerated.",
 ["core/parse/filters.go"],
 [("encoders and decoders", "core/parse/filters.go: Encode*/Decode*"), ("filter dispatch", "core/parse/filters.go: DecodeFilter")],
 note="RunLength, ASCIIHex and DCT are proved against a recursive specification of the format; ASCII85 is proved where evidence says so; Flate rests on the model of compress/zlib.")
prop("C02", "Stream filter decoders accept and mean exactly what the format says",
 "A RunLength, ASCIIHex, ASCII85 or DCT stream decodes without error exactly when it is well formed under that filter's format, and the bytes it decodes to are the ones the format defines, whatever the input. Whitespace and end markers are handled as the format says, and a malformed or truncated stream is reported as an error, never as a crash or as invented data.",
 ["inputs"], "every byte string given to each decoder (for ASCII85: those whose groups encode a value below 2^32)",
 "A decoder has unboundedly many malformed inputs; the tests try one or two per filter.",
 ["core/parse/filters.go"],
 [("decoders", "core/parse/filters.go: DecodeASCIIHex, DecodeASCII85, DecodeRunLength, DecodeDCTDecode")],
 note="RunLength, ASCIIHex and DCT acceptance and meaning are proved for all inputs.")
prop("C03", "A written file's cross-reference data locate every object exactly",
 "After any sequence of adding and setting objects and streams on a writer, every object number handed out is new, and the file written lists under each number exactly the last object or stream given for it: at the byte offset the cross-reference table or stream records, or in the object stream and position it records, with a /Length and data that give back the bytes passed in. This holds for classic tables, cross-reference streams and object streams, with gaps in the numbering, shared or nil dictionaries, empty data and objects of any size, and writing does not change what the caller passed.",
 ["inputs", "histories"], "every sequence of AddObject, AddStream(Object), SetObject, SetStream(Object) and Write calls in each of the three cross-reference modes",
 "Tests write a few objects in one fixed order and look for substrings; offsets, field widths, entry order and gaps depend on how many and how large the objects are.",
 ["core/write/writer.go", "core/write/xref_stream.go", "core/write/object_stream.go"],
 [("numbering and storing", "core/write/writer.go: AddObject, AddStreamObject, SetObject, SetStreamObject"), ("cross-reference data", "core/write/writer.go: Write; core/write/xref_stream.go: writeXRefStream, calculateBytesNeeded, writeBigEndian; core/write/object_stream.go: createObjectStreams")],
 note="Numbering, stream storing and the width and byte order of cross-reference stream fields are proved; the assembly of the whole file (Write, writeXRefStream, createObjectStreams) is a bounded executable contract against an independent reader.")
prop("C04", "Incremental updates: the newest definition wins, old revisions survive",
 "After any sequence of incremental updates, looking an object up returns its newest definition, whether that definition or an older one is stored directly or in an object stream, and whichever kind of cross-reference section recorded it. An object that the newest section mentioning it marks free is not returned. The k-th revision extracted from the file is byte for byte the file as it stood after its k-th update, and byte-perfect parsing returns exactly the input bytes.",
 ["inputs", "histories"], "every sequence of updates, every prefix of it, every object number, every mix of classic tables and cross-reference streams",
 "Tests have two or three fixed update files; which definition wins depends on the order and kind of all sections in the chain, of which there are unboundedly many.",
 ["core/parse/incremental.go", "core/parse/document.go", "core/parse/document_parser.go", "core/parse/get_object.go", "core/parse/api.go"],
 [("merging", "core/parse/incremental.go: mergeSections, parseXRefChain, FindAllEOFMarkers, ExtractRevision"), ("lookup", "core/parse/document.go: GetObject, GetObjectInRevision, AllObjects; core/parse/get_object.go: FindObjectLocation")],
 note="The merge rule, the revision boundaries and the byte-preserving accessors are proved; reading cross-reference sections out of bytes (regular expressions, zlib) is only covered by the bounded executable contracts.")
prop("C05", "Reading a damaged or hostile PDF never crashes and never alters it",
 "Whatever bytes are given as a PDF, opening it, reading its header, trailer, cross-reference tables and streams, and looking up any object number or revision in it returns a result or an error in finite time: it never panics, never reads outside the file and never loops or recurses without end. The bytes passed in are left as they were.",
 ["inputs"], "every byte string, every object number and offset, with and without encryption information",
 "A PDF comes from anyone; the tests read well-formed files and a few truncations, while every number in a file can be anything.",
 ["core/parse/parser.go", "core/parse/xref_stream.go", "core/parse/object_stream.go", "core/parse/get_object.go", "core/parse/document_parser.go", "core/parse/incremental.go", "core/parse/api.go"],
 [("cross-reference reading", "core/parse/incremental.go, document_parser.go, parser.go, xref_stream.go"), ("object reading", "core/parse/get_object.go: GetDirectObject; core/parse/document_parser.go: ParseRawObject; core/parse/object_stream.go: GetObjectFromStream")],
 note="Absence of panics is proved for the readers listed in evidence; ParseXRefStreamFull, ParseXRefStreamWithEncryption and GetObjectFromStream are beyond the verifier's path budget and are covered by the bounded mutation harness only.")
prop("C06", "Every object is encrypted and decrypted with exactly its own key",
 "For every file key, object number, generation and byte string, a stream the writer encrypts under RC4 (V1, V2), AES-128 (V4) or AES-256 (V5) is decrypted by DecryptObject to exactly the original bytes, both using the key Algorithm 1 of ISO 32000 prescribes for that object (for V5, the file key), and the plain bytes do not appear in the output. AES data that is truncated is refused with an error. Nothing is encrypted or decrypted when no encryption is set up, and neither direction modifies its input.",
 ["inputs"], "every key of the cipher's length, every object number below 2^24 and generation below 2^16, every byte string",
 "Object numbers above 255, generations above 0, key lengths other than 40 and 128 bits and all data lengths modulo the block size are unboundedly many combinations; tests decrypt a handful of fixed ones.",
 ["core/encrypt/decrypt.go", "core/write/writer.go"],
 [("decryption", "core/encrypt/decrypt.go: DecryptObject"), ("encryption", "core/write/writer.go: encryptStream, Write")],
 note="Proved against Algorithm 1 with MD5, RC4, AES and CBC as uninterpreted functions with their inverse laws; that Write passes each stream's own number is a bounded executable contract.")
prop("C07", "Only the right password opens a document, and it yields the right key",
 "For every document encrypted with the standard security handler of revisions 2 to 4, and every document this library encrypts with AES-256, opening it with the user or the owner password succeeds and yields the file key its objects were encrypted with, and opening it with any other password is refused. The file key, the U value and the O value are those of Algorithms 2 to 7 of ISO 32000-1 for every password, key length, permission word and file identifier.",
 ["inputs"], "every password of any length, key length of 40 to 128 bits, permission word, file identifier and metadata flag",
 "Passwords, permissions, identifiers and revisions combine without bound; tests use a few fixed ones, mostly checking that no error occurs.",
 ["core/encrypt/key_derivation.go", "core/encrypt/decrypt.go", "core/encrypt/parser.go", "core/write/encryption_v5.go"],
 [("keys and verification values", "core/encrypt/key_derivation.go: DeriveEncryptionKey, ComputeUValue, DeriveOwnerKey, VerifyUValueV5, VerifyOValueV5"), ("opening", "core/encrypt/decrypt.go: DecryptPDF; core/encrypt/parser.go: ParseEncryptionDictionary"), ("setting up", "core/write/encryption_v5.go: SetupAES256Encryption")],
 note="Algorithm 2 and the AES-256 password key and verification values are proved for all inputs; Algorithms 3, 5 and 7 for revisions 3 and 4 and the reading of the encryption dictionary are bounded executable contracts. The AES-256 password algorithm itself is this library's own, not ISO 32000-2's (recorded in DESIGN.md).")
prop("C08", "Text stored in a PDF comes back unchanged",
 "Any text given as document metadata, custom metadata entry, bookmark title, bookmark URI or shown text is written as a well-formed literal string that denotes exactly those bytes, and reading the document back yields the same text, whatever parentheses, backslashes, line ends, names, references, operators or non-ASCII bytes it contains. A literal string from any PDF is read with the meaning ISO 32000 gives its escapes.",
 ["inputs"], "every text (for shown text: of bytes below 128 other than quote and backquote, as fonts give the others another meaning)",
 "The text can be any byte string; tests use plain words and one pair of parentheses.",
 ["core/write/metadata.go", "core/write/content.go", "core/write/bookmarks.go", "content/extract/metadata.go", "content/extract/bookmarks.go", "content/extract/content_stream.go"],
 [("escaping", "core/write/metadata.go: escapePDFStringForMetadata; core/write/content.go: escapePDFString"), ("unescaping", "content/extract/metadata.go: unescapePDFString"), ("finding the string", "content/extract: parseInfoDict, ExtractBookmarks, parseContentStreamWithDecoders")],
 note="Both escaping functions, unescaping and their round trip are proved for every byte string; finding the string in the file (regular expressions) is a bounded executable contract.")
prop("C11", "Any font file is read safely, and glyphs and widths are the ones it defines",
 "Whatever bytes are given as a TrueType or OpenType font, parsing it, mapping characters to glyphs and looking up widths return a result or an error in finite time, without a panic and without changing the bytes. For a well-formed font, a subset consists of glyph 0 and exactly the glyphs the font's preferred Unicode cmap subtable (format 4 or 12) assigns to the characters added, each once and in ascending order, and each width is the advance width hmtx gives that glyph, glyphs beyond the last metric having the last one.",
 ["inputs"], "every byte string as a font, every set of characters",
 "Tests use one system font if it is installed; segment layouts, offsets and glyph numbers beyond what that font has never occur.",
 ["resources/font/font.go"],
 [("reading", "resources/font/font.go: ParseTTF, parseHead, parseMaxp, parseHhea, parseName, parsePost"), ("cmap", "resources/font/font.go: parseCmap, parseCmapFormat4, parseCmapFormat12"), ("subset", "resources/font/font.go: AddRune, GetSubsetGlyphs, GetWidths")],
 note="The meaning of formats 4 and 12 and the absence of panics are proved for every byte string; the choice of subtable, the sorted subset and the widths are bounded executable contracts.")
prop("C09", "Page operations yield exactly the pages asked for, intact and in order",
 "Deleting, rotating, inserting, extracting, splitting and merging pages of an unencrypted document yields exactly the intended pages in the intended order, each with the content, resources and attributes it had, whether its own or inherited, under a page tree whose /Count and /Parent entries are right in every node. Rotations add to the page's rotation modulo 360, page numbers mean the pages as they are at that moment, and what an operation is not about stays as it was. A request for a page that does not exist, a wrong angle or the deletion of the last page is an error that changes nothing; the bytes passed in are never changed, and a damaged page tree ends in a result or an error, not in a crash or an endless loop.",
 ["inputs", "histories"], "every unencrypted document and page tree with objects of generation 0, every sequence of operations and every page number, range and angle",
 "Tests use flat documents of a few pages and one operation each; trees nest and inherit without bound and operations follow each other in any order.",
 ["core/manipulate/manipulate.go", "core/manipulate/rotation.go", "core/manipulate/deletion.go", "core/manipulate/insertion.go", "core/manipulate/extraction.go", "core/manipulate/splitting.go", "core/manipulate/merging.go", "core/manipulate/copying.go"],
 [("entries of a dictionary", "core/manipulate/manipulate.go: findDictValue, extractDictValue, setDictValue"), ("editing", "core/manipulate: RotatePage, DeletePage, DeletePages, InsertPage, updatePageCounts"), ("new documents", "core/manipulate: ExtractPages, SplitPDF, SplitPDFByPageCount, MergePDFs, copyPages, mapReferences")],
 note="Reading and replacing a dictionary entry, the arithmetic of rotations and counts and that a failed rotation, deletion or insertion changes no object are proved for every object; which page a number names, the order of pages and the copying into new documents are bounded executable contracts against an independent reader.")
prop("C10", "Form fields are read as stored; filling changes only the named values",
 "Reading the AcroForm of an unencrypted document gives every field once, in order and under its full name, with the type and flags it has or inherits, its alternate name, value, default, maximum length, options and position, in whatever way the file writes those strings, names, numbers and references; the schema describes each field that holds a value accordingly, and validation reports exactly the missing required, too long and unlisted values. Filling fields by their full names keeps the bytes of the document, appends an update whose cross-reference data locate every object, sets the value of exactly the named fields to the text given, whatever characters it has, and changes nothing else; filled or built forms read back with these values. Damaged forms end in a result or an error, not in a crash or an endless loop.",
 ["inputs", "histories"], "every unencrypted document with a form whose objects have generation 0, every sequence of fillings and every text without the keywords endobj, endstream and /Encrypt",
 "Tests use one or two fields with short ASCII names and values in one layout; names, values, nesting, spacing and earlier updates vary without bound.",
 ["forms/acroform/parser.go", "forms/acroform/extract.go", "forms/acroform/dictionary.go", "forms/acroform/replace.go", "forms/acroform/fill_streams.go", "forms/acroform/update.go", "forms/acroform/validation.go", "forms/acroform/writer.go"],
 [("reading", "forms/acroform/parser.go: ParseAcroForm, parseFields, parseField; extract.go: GetFullName, FindFieldByName, GetFieldValues"), ("texts", "forms/acroform/dictionary.go: escapeText, escapeBytes, decodeText, unescapeBytes, decodeHex"), ("filling", "forms/acroform: FillForm, FillFieldValue, ReplaceFieldObject, setFieldText, appendUpdate"), ("building and validating", "forms/acroform: FieldBuilder, ValidateFormData, ToFormSchema")],
 note="That every byte string survives being written and read as a literal string, what a hexadecimal string means, where the value of an entry is and how it is replaced, that a filled document starts with the original bytes, and the types the flags give are proved; the tree of fields and the cross-reference data of the update are bounded executable contracts against an independent reader.")
