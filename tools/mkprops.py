import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))
PA="vtdxml/parser/"
NA="vtdxml/navigation/"
BU="vtdxml/buffer/"
RE="vtdxml/reader/"
p("C01","Parsing always returns a verdict, whatever bytes storage delivers",
 "For any bytes in the parse window (intact, cut at any byte, bit-flipped, zero-filled, with sectors lost, duplicated or swapped), any window placement, any parser configuration and any repetition of the calls, constructing a parser and parsing always return either success or an error: they never panic and never run on without end. The work done is bounded by a fixed polynomial of the window size, and this also holds when the parser is called again after an earlier failure or success.",
 ["inputs","fault_sequences","configurations","histories"],"all delivered byte windows and all storage fault sequences that produce them, all option combinations, all repeat-call histories",
 "The suite parses 9 valid and 7 invalid fixed files; it never cuts a document, never corrupts one at an arbitrary byte and never calls Parse twice.",
 [PA+"parse.go",PA+"common.go",PA+"process_*.go",RE+"utf8_reader.go",RE+"ascii_reader.go"],
 [("state machine loop",PA+"parse.go Parse"),("end-of-window test in character readers",RE+"utf8_reader.go GetChar/SkipChar"),("encoding sniffing",PA+"common.go decideEncoding")],
 observe=["return of Parse","panic","reader operations performed"],hook="none (the reader is wrapped by reflection)")
p("C02","A torn or corrupted document is never acknowledged",
 "If parsing reports success then the bytes in the window are one complete well-formed XML document: one root element, every start tag closed by the matching end tag, attribute names unique within a tag, only legal characters, names and references, and every comment, CDATA section, processing instruction, declaration and DOCTYPE properly placed and terminated (what is declared inside a DOCTYPE is not checked). In particular no copy cut inside the prolog or root element, and no copy whose storage corruption made it ill-formed, is ever acknowledged.",
 ["inputs","fault_sequences"],"all documents and all cuts, flips, lost/duplicated/swapped/zeroed sectors applied to them between writing and parsing",
 "Seven hand-made invalid files cover the XML declaration and one comment error; no test checks tag mismatch, duplicate attributes, references, or truncation.",
 [PA+"process_*.go",PA+"common.go","vtdxml/common/xml_char.go"],
 [("per-construct state handlers",PA+"process_*.go"),("tag stack comparison",PA+"process_end_tag.go"),("attribute uniqueness",PA+"process_attr_name.go checkAttrUniqueness"),("reference validation",PA+"common.go entityIdentifier")],
 state=[("tagStack","open start tags (offset,length) by depth",PA+"vtd_parser.go"),("attrNameSlice","attribute names seen in the current tag",PA+"vtd_parser.go")],
 observe=["return of Parse"])
p("C03","Intact documents are acknowledged in any interleaving and on retry after faults",
 "Every complete well-formed document within the documented limits (UTF-8 or ASCII, element depth at most 254, names at most 2047 bytes with prefixes at most 511, attribute values and PI parts below 1 MiB, window ending below offset 1 GiB, no references to declared entities) is accepted, with namespace checking off, whatever other parse tasks are interleaved with it. Once faults stop, a fresh attempt on the intact bytes is acknowledged within work bounded by the document size, no matter how earlier attempts failed or were abandoned.",
 ["inputs","schedules","fault_sequences","histories"],"all supported well-formed documents, all interleavings with other parsers, all failed or abandoned earlier attempts",
 "Nine valid files; comments or PIs after the root, DOCTYPE, BOMs, many attributes, references at text boundaries and brackets in text never occur in them, and nothing is retried or interleaved.",
 [PA+"process_*.go",PA+"parse.go",RE+"utf8_reader.go"],
 [("state handlers accept each construct",PA+"process_*.go"),("growable attribute and tag bookkeeping",PA+"process_attr_name.go")],
 observe=["return of Parse"])
p("C04","An acknowledged parse left an exact token index",
 "If parsing reports success, the navigator obtained from the parser lists, in document order, exactly one token per markup item and text run of the bytes in the window, each with the right kind, byte offset, byte length (for names, of the full qualified name) and element depth; text longer than one token can carry is covered by consecutive tokens without gap or overlap. This holds whichever storage faults the document survived, wherever the window starts, for every index layout option and for every document size class; a document whose offsets the index cannot hold is refused.",
 ["inputs","fault_sequences","configurations"],"all acknowledged windows, intact or surviving corruption, all options and size classes (index page sizes depend on document size)",
 "No test reads the index a parse produced: parse tests only look at the error, navigation tests use a hand-typed index.",
 [PA+"common.go",PA+"process_*.go",BU+"long_buffer.go",NA+"common.go"],
 [("64-bit token packing",PA+"common.go writeVtd"),("token unpacking",NA+"common.go GetToken*"),("text splitting",PA+"common.go writeVtdText")],
 state=[("vtdBuffer","packed tokens",PA+"vtd_parser.go")],
 observe=["GetTokenType/Offset/Length/Depth on the navigator from GetNav"])
p("C05","Bytes outside the parse window never matter",
 "When a document occupies a window of a larger byte array, verdict, token index (relative to the window start), text extracted and reported error lines depend only on the bytes inside the window: replacing everything before and after it by stale data from other documents, including data that would complete or contradict a construct cut at the window's end, changes nothing, and the bytes are never read past the window to decide the outcome.",
 ["inputs","fault_sequences","configurations"],"all windows, all stale surroundings (recycled buffers, short reads), all placements",
 "No test uses a window other than the whole array.",
 [PA+"vtd_parser.go",RE+"utf8_reader.go",RE+"ascii_reader.go",PA+"common.go"],
 [("endOffset checks",RE+"utf8_reader.go"),("offset/docOffset/endOffset bookkeeping",PA+"vtd_parser.go WithXmlDocCustomOffset")],
 observe=["verdict, index and error line of the same window in different surroundings"])
p("C06","Concurrent, failed or abandoned tasks never influence one another",
 "Any number of tasks that each use their own parser or navigator, over separate or shared document bytes and over separate or shared finished indexes, observe exactly the results they would observe running alone, for every interleaving of their steps and even when some of the tasks fail or are abandoned midway and restarted. The library shares no unsynchronised mutable state between them (no data race), its first use in a process included, and nothing an earlier or concurrent task did is observable by another one.",
 ["schedules","crash_points","histories"],"all interleavings of parser/navigator steps of concurrent tasks, all abandonment points",
 "All tests are single-threaded and the suite runs without the race detector; every schedule but one is unexplored.",
 [PA+"parse.go","vtdxml/erroring/erroring.go","vtdxml/common/xml_char.go",NA+"vtd_nav.go"],
 [("all parser state lives in the parser instance",PA+"vtd_parser.go"),("navigators only read the shared index",NA+"to_element.go")],
 observe=["per-task results vs. solo run","same task alone in a new process","race detector"],hook="none for the yield points (wrappers set by reflection); a build-tagged memory of character-class answers makes long runs affordable")
p("C07","A failing index store or character source always surfaces as a parse error",
 "If an index buffer refuses to store or return an entry, or the character source fails, at any single operation of a parse, then the parse either reports an error whose chain contains that failure, or has completed with an index identical to the fault-free one. It never reports success with missing, extra or altered tokens and never panics.",
 ["fault_sequences","inputs"],"every operation of every parse as the failing one (append, read, character fetch), every option set",
 "Buffers and readers never fail in the tests; every error-propagation branch is unexecuted.",
 [PA+"common.go",PA+"process_*.go",PA+"parse.go",BU+"long_buffer.go",BU+"int_buffer.go"],
 [("error return of every Append/At/GetChar",PA+"process_*.go"),("error wrapping","vtdxml/erroring/erroring.go")],
 observe=["error chain of Parse","index after success"],hook="none (reader and buffers are wrapped by reflection)")
p("C08","Parsing and navigating have no side effects",
 "Parsing a document and navigating or extracting text from its index never modify the document bytes (inside or outside the window) or a finished index, never write anything to standard output or standard error, and start no goroutine that outlives the call. Consequently the verdict does not depend on the condition of the standard streams (closed, full, broken pipe).",
 ["fault_sequences","inputs","schedules"],"all documents and faults, all conditions of the standard streams",
 "No test checks input bytes after a parse or captures the streams.",
 [PA+"parse.go",PA+"process_*.go",NA+"to_element.go",NA+"to_string.go"],
 [("read-only access to the document slice",PA+"vtd_parser.go"),("read-only access to index buffers",NA+"vtd_nav.go")],
 observe=["document bytes, standard streams, index snapshot before/after"])
p("C09","Namespace-aware parsing accepts exactly the namespace-well-formed documents",
 "With namespace checking on, a well-formed supported document whose element and attribute names are QNames is accepted if and only if every element and attribute prefix is declared in scope at its use (the xml prefix always is), no two attributes of a tag have the same expanded name, no declared prefix is bound to an empty or reserved namespace name and the reserved prefixes are not misused. Scopes end exactly with their element, however elements nest and follow one another, and a storage fault that damages a declaration or a prefix in use turns acceptance into rejection exactly when the result is no longer namespace-well-formed.",
 ["inputs","histories","fault_sequences"],"all nesting/sibling histories of declarations and uses, all corruptions of them",
 "Namespace tests parse nine valid files; scope exit, redeclaration, undeclared prefixes, colliding attributes and reserved names never occur.",
 [PA+"process_start_tag.go",PA+"process_attr_name.go",PA+"process_attr_val.go",PA+"common.go",BU+"int_buffer.go",BU+"long_buffer.go"],
 [("scope rollback by truncating the declaration buffers",PA+"process_start_tag.go"),("prefix lookup",PA+"common.go qualifyElement, process_attr_val.go qualifyAttributes"),("expanded-name comparison",PA+"process_attr_val.go checkQualifiedAttributeUniqueness")],
 state=[("nsBuffer1..3","declaration counts per depth, URL and prefix positions",PA+"vtd_parser.go")],
 observe=["return of Parse with namespace awareness on"])
p("C10","Navigation walks the document tree exactly, and a failed move changes nothing",
 "From any cursor position reached by any history of moves, moving to the root, parent, first or last child, or next or previous sibling succeeds exactly when that element exists in the document and then designates it; otherwise it reports false and leaves the cursor where it was. If reading the index fails during a move, or the direction is illegal, the move reports an error and the cursor is unchanged, so that once faults stop the same and all later moves give the right answers; navigators over one shared index are independent.",
 ["histories","fault_sequences","schedules","inputs"],"all trees, all move histories, all index read failures during them, all interleavings of navigators",
 "No test moves a cursor at all.",
 [NA+"to_element.go",NA+"common.go",NA+"vtd_nav.go",PA+"common.go",PA+"get_nav.go"],
 [("location caches for the first levels",PA+"common.go writeVtdL5; "+NA+"to_element.go"),("token scan for deeper levels",NA+"to_element.go toFirstChild..toPrevSibling")],
 state=[("context","path of token indexes from root to cursor",NA+"vtd_nav.go"),("l1index..l3index, l2lower..l3upper","position in location caches",NA+"vtd_nav.go")],
 observe=["ToElement result and GetCurrentIndex after each move"],hook="none (index buffers are wrapped by reflection)")
p("C11","Extracted token text is exact or an error, never wrong, endless or a panic",
 "Extracting a token yields, raw, exactly the bytes of the token and, resolved (character data and attribute values), those bytes with each character or built-in entity reference replaced by the UTF-8 form of the character it denotes (line-end normalisation aside). If the stored bytes were damaged after the parse so that a reference is no longer valid, or reading the bytes or the index fails, extraction returns an error, never partial or invented text, and it always ends within work bounded by the token length.",
 ["inputs","fault_sequences"],"all tokens of all documents, all damage to the stored bytes after parsing, all byte/index read failures",
 "Text tests extract from one document without any reference in the range and without faults.",
 [NA+"to_string.go",NA+"get_char_resolved.go",NA+"common.go",BU+"byte_buffer.go"],
 [("reference resolution",NA+"get_char_resolved.go resolveEntity"),("range walk",NA+"to_string.go ToStringAtRange")],
 observe=["ToStringAtIndex, ToRawStringAtIndex, ToStringAtRange, ToRawStringAtRange"],hook="none (byte buffer is wrapped by reflection)")
p("C12","Index buffers are faithful stores across append, modify, rollback and reuse",
 "Each paged buffer, for every page size, behaves as one growable array shared by its clients: an entry that was acknowledged as appended or modified reads back, in both its full and its upper/lower-half forms, until it is modified or discarded; any other index is refused with an error. Rolling the size back to an earlier value or clearing discards exactly the entries beyond it and the buffer then accepts new entries at that point; a byte range copy holds exactly the requested bytes (one that ends exactly at the last byte may be refused), and the object buffer counts its size in pages.",
 ["histories","configurations","schedules"],"all histories of appends, modifications, rollbacks, clears and reads by interleaved clients, all page sizes",
 "Tests append 1024 entries into a single huge page and never roll back, reuse after Clear, or cross a page.",
 [BU+"long_buffer.go",BU+"int_buffer.go",BU+"object_buffer.go",BU+"byte_buffer.go"],
 [("page table arithmetic",BU+"*_buffer.go"),("size bookkeeping",BU+"*_buffer.go SetSize/Clear/Append")],
 observe=["results of every buffer call against a plain array"])
p("C13","Character readers deliver each character of their window once and never leave it",
 "A character reader over a window delivers, in order and exactly once, the characters whose encoding lies in the window and then reports end of input at every further request, wherever the stream is cut; malformed encodings are reported as errors. Conditional skips consume exactly the character or sequence they match and nothing otherwise, also at the cut; repositioning resumes delivery at the given offset, and no operation at any position panics.",
 ["inputs","histories","crash_points"],"all byte windows, all cut points, all histories of fetch, skip and reposition operations",
 "Reader tests use one ASCII document, uncut, with three skips; the ASCII reader has no test.",
 [RE+"utf8_reader.go",RE+"ascii_reader.go",RE+"reader.go"],
 [("offset/endOffset comparison",RE+"utf8_reader.go, ascii_reader.go")],
 observe=["results of reader calls against a plain decoder"])
p("C14","A rejection is located between the damage and the last byte read",
 "When storage damage makes an otherwise acceptable document unacceptable and, with namespace checking off, the rejection carries a line number, that number is at least the line of the first damaged byte and at most the line of the reading position reached, which is the one behind the last byte consumed before rejecting. Lines are counted from the window start, whatever precedes the window.",
 ["fault_sequences","inputs"],"all documents, all damage positions and kinds, all window placements",
 "No test looks at the line number of any error.",
 [PA+"common.go",PA+"process_*.go","vtdxml/erroring/erroring.go"],
 [("line formatting",PA+"common.go fmtLine/fmtCustomLine"),("offset kept in step with the reader",PA+"common.go getChar/skipChar")],
 observe=["LineNumber of the parse error"])
p("N01","Character classes are those of XML",
 "For every code point the answers 'valid', 'space', 'name start', 'name' and 'content' are those of the productions of XML 1.0, fifth edition.",
 ["inputs"],"all code points","One test samples some letters and digits for one class.",
 ["vtdxml/common/xml_char.go"],[("range tables","vtdxml/common/xml_char.go")])
p("N02","Errors keep their kind, message and cause",
 "Each error constructor yields an error of its own kind, whose message contains the given text and whose cause is the wrapped error.",
 ["inputs"],"all constructors and arguments","The error package has no tests.",
 ["vtdxml/erroring/erroring.go"],[("typed constructors","vtdxml/erroring/erroring.go")])
p("N03","The modifier binds only to encodings it can write, with the right charset",
 "Binding a modifier to a navigator succeeds exactly for encodings the modifier can write and selects that encoding's charset; a missing navigator is refused by modifier and pilot alike.",
 ["inputs","configurations"],"all encodings","Neither package has tests.",
 ["vtdxml/modifier/xml_modifier.go","vtdxml/pilot/auto_pilot.go"],[("option validation","vtdxml/modifier/xml_modifier.go WithNavigation")])
p("N04","Hash width grows monotonically with the index size",
 "The bucket count chosen for the modifier's hash never decreases as the index grows and is always a power of two between 8 and 4 Mi.",
 ["inputs"],"all sizes","No test.",
 ["vtdxml/common/int_hash.go"],[("threshold table","vtdxml/common/int_hash.go determineHashWidth")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80,x['id']; print(x['id'], x['statement'].count('. ')+1)
