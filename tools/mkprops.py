import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
E_="rust/src/escaping.rs"; PP="rust/src/poparser.rs"; MP="rust/src/moparser.rs"; EM="rust/src/entry/mod.rs"; PE="rust/src/entry/poentry.rs"; ME="rust/src/entry/moentry.rs"; FM="rust/src/file/mod.rs"; PF="rust/src/file/pofile.rs"; MF="rust/src/file/mofile.rs"; ER="rust/src/errors.rs"; TW="rust/src/twrapper.rs"
p("C01","Unescaping undoes escaping for every string",
 "For every string s, unescaping the escaped form of s succeeds and yields exactly s. The escaped form never contains a raw double quote or line break, so it can be put between quotes on one line.",
 ["inputs"],"all Unicode strings, including ones mixing every special character, backslashes before letters and control characters",
 "Tests try a few strings; the inverse relation is over every character and every adjacency of characters.",
 [E_],[("escape","the per-character table in "+E_),("unescape","the escape-sequence table in "+E_)])
p("C02","Malformed escape sequences are rejected, never guessed",
 "Unescaping fails for every text with a backslash at the end or a backslash followed by a character that escaping never emits, and succeeds otherwise. Reading a PO whose string fields contain such a sequence returns an error instead of an entry.",
 ["inputs"],"all texts; all string fields of an entry (msgid, msgstr, plural forms, context, and the three previous-* fields)",
 "There are over a million invalid follow-up characters and eight fields in which they can occur.",
 [E_,PE,PP],[("unescape","error arms of the escape-sequence table in "+E_),("entry unescaping","the pass applied to each finished entry in "+PE),("error propagation","finishing an entry in "+PP)])
p("C03","Reading a PO never panics",
 "Reading a PO from any path, text or bytes returns either a file or an error. No input makes it panic or abort.",
 ["inputs","fault_sequences"],"all texts and byte sequences (truncated, non-ASCII, malformed, reordered, huge indexes) and all valid-Unicode paths, readable or not",
 "Panics hide in slices, unwraps, table lookups and arithmetic that only a specific malformed line reaches.",
 [PP,PF,PE,E_],[("line parser","slicing, indexing and unwrap sites reachable from the PO reader in "+PP),("state table","lookup of the state transition in "+PP)])
p("C04","Reading a MO never panics or over-allocates",
 "Reading a MO from any path or bytes returns either a file or an error. No input makes it panic, and no single allocation it asks for is larger than the data actually present, whatever lengths are found inside.",
 ["inputs","fault_sequences"],"all byte sequences (truncated at any byte, lying lengths and offsets, any endianness) and all paths",
 "The failing inputs are corrupted binaries; tests hold four of them.",
 [MP,MF],[("reader","unwrap, index and allocation sites reachable from the MO reader in "+MP)])
p("C05","MO read failures become errors, never invented data",
 "If any seek or read needed while reading a MO fails or comes up short, reading returns an error. No entry and no metadata is ever built from bytes that were not read from the input.",
 ["inputs","fault_sequences"],"truncation at every byte offset, offsets beyond the end, I/O errors at each seek and read",
 "Each fallible operation has its own failure point; tests cover the header ones only.",
 [MP],[("seek/read results","every use of the input handle in "+MP)])
p("C06","Unreadable or undecodable PO input is an error, and every line counts",
 "If opening or reading the PO input fails, or a line is not valid UTF-8, reading returns an error rather than the part read so far. Otherwise every line of the input, from first to last, is processed.",
 ["inputs","fault_sequences"],"I/O failures and invalid UTF-8 at any line; any number of lines",
 "An early stop looks exactly like a shorter file, and tests' fixtures are all valid UTF-8.",
 [PP],[("line source","the line iterator and its consumers in "+PP)])
p("C07","Saving writes exactly the serialized file to the given path",
 "Saving a PO or MO file, directly or as the other format, creates the given path and writes the complete serialized form of that file to it: the text form for PO, the little-endian bytes for MO. A failure to create or write is never ignored.",
 ["inputs","fault_sequences"],"all files; write failing at any point (full disk, missing directory)",
 "Tests cannot fill the disk, and only look at the files they wrote.",
 [FM,PF,MF],[("save","save, save_as_pofile, save_as_mofile of both file types")])
p("C08","String fields are escaped once on write and unescaped once on read",
 "Each string value of an entry reaches the PO text through exactly one escaping, and each string value read from a PO reaches the entry through exactly one unescaping. MO reading and writing, comments, flags, occurrences and the header apply neither.",
 ["inputs"],"all field values, in particular those containing backslashes, quotes and escape-like text; all fields",
 "A missing or doubled pass is only visible for values with special characters in that one field.",
 [EM,PE,PP,MF,MP],[("field writer","the keyword line writer in "+EM),("entry unescaping","the pass applied to each finished entry in "+PE)])
p("C09","Every entry field is written under its own keyword and marker",
 "In the text form of an entry each present string field appears exactly once under its own keyword (msgctxt, msgid, msgid_plural, msgstr or the numbered msgstr[i] in order), with previous values under the previous-message marker. An obsolete entry has the obsolete marker on each of these lines, a non-obsolete entry on none.",
 ["inputs"],"all entries: every combination of present and absent fields, plural counts, obsolete or not, wrapped or not",
 "There are thousands of combinations of optional fields; fixtures cover a handful.",
 [EM,PE,ME],[("entry writer","text form of an entry in "+PE+" and "+EM)])
p("C10","Comments, occurrences and flags are all written, each line marked",
 "In the text form of an entry every line coming from the translator comment, the extracted comment, the occurrences and the flags starts with its own marker, also when wrapped. No comment text, occurrence or flag is lost, repeated or reordered; occurrences are omitted only for obsolete entries.",
 ["inputs"],"all comments, occurrence lists and flags; all wrap widths",
 "Wrapped lines and accumulation across lines are only exercised by specific widths and lists.",
 [PE],[("comment and occurrence writers","text form of an entry in "+PE)])
p("C11","Each PO line is stored in the right field of the right entry",
 "While reading a PO, the content of every keyword, continuation and comment line ends up in the field named by its keyword or marker, of the entry it belongs to, appended after what came before for continuations. Entries appear in input order, an entry starts clean without values of the previous one, and the obsolete mark is taken from the entry's own lines.",
 ["inputs","histories"],"all sequences of well-formed entries (comments, then previous-*, msgctxt, msgid, msgid_plural, msgstr lines): every keyword in every parser state, any number of continuation lines and entries",
 "The reader is a state machine with 15 symbols and 14 states; tests walk few of its paths.",
 [PP],[("state machine","line classification, transition table and line handlers in "+PP)],
 [("current state","what the last line was, deciding where a continuation goes",PP),("current entry","entry under construction",PP)])
p("C12","Malformed PO lines are rejected",
 "Reading a PO returns an error for a string field line whose value is not enclosed in double quotes or has an unescaped quote inside, for an unknown keyword, for a non-numeric plural index, and for a continuation line with no string field to continue. None of these lines is silently skipped or stored.",
 ["inputs","histories"],"all lines, all keywords including previous-message and numbered ones, in every parser state",
 "Each keyword form has its own validation path, and the missing one is only visible on a malformed line of that form.",
 [PP],[("quote validation","checks on string field lines in "+PP),("state table","rejection of impossible line orders in "+PP)])
p("C13","Syntax errors name the right line and file",
 "A positioned syntax error carries the 1-based number of the offending line, counting every line of the input including blank ones. Errors carry the input path when, and only when, the input was given as a path.",
 ["inputs"],"all malformed inputs, with any number and kind of preceding lines, given by path or as content",
 "A skipped increment or a swapped argument is invisible for most inputs.",
 [PP,ER],[("line counter","counting of lines in "+PP),("file name","construction of errors in "+PP+" and their text in "+ER)])
p("C14","MO bytes have a consistent layout in the requested byte order",
 "The MO bytes are: magic, revision, entry count, offset of key table, offset of value table, empty hash table, then the two tables of (length, offset) pairs, then the strings, each followed by a NUL not counted in its length. Every offset and length addresses exactly its string, and every number uses the byte order selected by the requested magic number.",
 ["inputs"],"all entry sets (any count, any lengths, multi-byte strings) and both byte orders",
 "An offset error shows only for particular sizes, and round trips through the same library hide symmetric mistakes.",
 [MF],[("MO writer","as_bytes_with and the byte-order variants in "+MF+" and "+PF)])
p("C15","MO bytes contain every entry once, sorted by key",
 "The MO bytes contain exactly the metadata entry plus every entry of the file, none dropped or duplicated, with keys in ascending byte order as binary search at run time requires. The key and value tables are in the same order.",
 ["inputs"],"all files; any number of entries with and without contexts and plurals, in any order",
 "Sortedness and completeness concern all permutations of all entry sets.",
 [MF,EM],[("MO writer","collection and sorting of entries in "+MF),("sort key","key of an entry in "+EM)])
p("C16","MO header is interpreted by its magic, revision and table offsets",
 "Reading a MO accepts exactly the two magic numbers and revisions 0 and 1, reads every later number in the byte order implied by the magic, and reports the magic and revision it found. The key and value tables are read from their own offsets in the header and each key is paired with the value at the same index.",
 ["inputs"],"all headers: both byte orders, any revision, any table placement",
 "Fixtures have one table layout; a reader ignoring an offset still passes on it.",
 [MP],[("header parser","magic, revision, count and table offsets in "+MP)])
p("C17","Contexts and plurals survive a trip through MO bytes",
 "A MO key is the context, an EOT character and the msgid when there is a context, else the msgid, followed by a NUL and the plural msgid when there is one; a plural value is the plural translations joined by NULs. The writer produces and the reader decodes exactly this structure, so context, msgid, msgid_plural and msgstr_plural come back in their own fields.",
 ["inputs"],"all entries with any combination of context and plural, including empty strings",
 "Writer and reader can disagree on a combination that no fixture has.",
 [MP,MF,EM],[("key writer","key construction in "+MF+" and "+EM),("key reader","splitting of keys in "+MP)])
p("C18","Compiling PO to MO keeps exactly the translated entries",
 "Converting a PO file to MO keeps its metadata and exactly its translated entries, in order; untranslated, fuzzy and obsolete ones are left out. Converting an entry between PO and MO keeps msgid, msgstr, msgid_plural, msgstr_plural and msgctxt unchanged.",
 ["inputs"],"all files and entries; every mixture of translated, fuzzy, obsolete, plural and context entries",
 "Leaks of a fuzzy entry or loss of one field show only for that mixture.",
 [MF,PF,ME,PE],[("conversion","conversions between file types and entry types")])
p("C19","Translated, untranslated, fuzzy and obsolete are classified consistently",
 "A PO entry is translated exactly when it is not obsolete, not flagged fuzzy, and has a non-empty msgstr or, without msgstr, a non-empty list of plural translations all non-empty; fuzzy means having the fuzzy flag. The file lists are exactly the entries with the respective status in file order, fuzzy ones being not obsolete, and the percentage is translated entries over all entries times 100, 0 for an empty file.",
 ["inputs"],"all entries and files",
 "Each status is a boolean function of several fields; tests sample a few rows.",
 [PE,ME,PF],[("status predicates","translated and fuzzy of entries"),("status lists","entry lists and percentage in "+PF)])
p("C20","Lookups and removals match exactly the entries asked for",
 "find returns, in file order, exactly the entries whose named field equals the value, restricted to the given context if any, and leaves out obsolete entries unless asked; find_by_* return the first match or none. remove* remove exactly the matching entries and keep the others in order, an absent context matches the empty one, and PO and MO files agree on all this.",
 ["inputs"],"all files, values, field names and contexts",
 "The relation is over every field name, context and obsolete combination, and must agree between two sibling types.",
 [PF,MF],[("lookup","find, find_by_msgid, find_by_msgid_msgctxt, remove, remove_by_msgid, remove_by_msgid_msgctxt of both file types")])
p("C21","Entry comparison is a consistent order controlled by its options",
 "Comparing entries is antisymmetric and transitive, equal entries compare as equal, and the result depends only on the fields whose options are enabled, each option controlling exactly its own field. With every option enabled a difference in any comparable field, lists being compared regardless of order, gives a non-equal result.",
 ["inputs"],"all pairs and triples of entries (of values without NUL characters) and all option sets",
 "Order laws are about all triples; 256 option sets times all field differences.",
 [PE,ME,EM],[("comparison","cmp_by of both entry types"),("options","EntryCmpByOptions and its builders")])
p("C22","Merging transfers every field and marks what disappeared",
 "Merging an entry into another makes it equal to the other in every field. Merging a file brings in every entry of the other file that is missing here with all its fields, updates the ones present, marks as obsolete exactly the entries whose msgid the other file lacks, and removes nothing.",
 ["inputs"],"all pairs of entries and files",
 "A forgotten field or a lost entry is visible only when that field or entry differs.",
 [PE,ME,PF],[("merge","merge of both entry types and of PO files")])
p("C23","The Python API mirrors the Rust API",
 "Every Python property reads and writes the Rust field of the same name, every constructor argument sets its own field, and every Python method returns what the Rust operation of the same name returns for the same arguments. The comparison operators agree with cmp_by.",
 ["inputs"],"all attributes and methods of the four Python classes and the module functions, for all values, and for arguments left out their documented defaults",
 "There are over a hundred hand-written forwarding methods; a crossed field in an untested one compiles and passes.",
 ["python/src/pypoentry.rs","python/src/pymoentry.rs","python/src/pypofile.rs","python/src/pymofile.rs","python/src/escaping.rs","python/src/lib.rs"],
 [("forwarding methods","the pymethods of each class")])
p("C24","Python callers get the library's exceptions, not panics",
 "From Python, a syntax error raises SyntaxError, a MO reading error raises IOError and an escaping error raises EscapingError, each with the Rust error's text. Index lookups out of range raise IndexError.",
 ["inputs"],"all failing inputs given to the module functions, constructors and lookups",
 "Each entry point maps errors separately.",
 ["python/src/pypofile.rs","python/src/pymofile.rs","python/src/escaping.rs","python/src/lib.rs","python/src/exceptions.rs"],
 [("exception mapping","error arms of module functions and constructors")])
p("C25","Wrapping never changes content and follows the configured width",
 "For any wrap width the pieces into which a string value is wrapped are contiguous and concatenate to the unwrapped value, and no piece boundary falls inside an escape sequence, so the same value is read back. Writing a file uses the wrap width configured for it.",
 ["inputs","configurations"],"all strings (any scripts, long words, runs of backslashes) and all wrap widths including 0 and 1",
 "Break positions depend on Unicode line-breaking classes of every adjacent pair and on the width.",
 [TW,EM,PF,MF],[("wrapper","text wrapping in "+TW),("field writer","the keyword line writer in "+EM)])
p("C26","Metadata output is complete and deterministic",
 "The metadata written for a file contains every metadata key once with its value, the well-known keys first in their fixed order and the rest in an order that depends only on the keys. Two files with equal contents have identical text and bytes.",
 ["inputs","schedules"],"all metadata maps, and every iteration order the hash maps may have",
 "Hash iteration order changes from run to run; a test sees one order.",
 [FM],[("metadata ordering","metadata to text in "+FM)])
p("C27","Metadata, header and fuzzy mark are recognised on reading",
 "Reading a PO takes the entry with empty msgid and no context as metadata: its lines of the form key: value are stored under their key, it is not listed among the entries, and the file is marked fuzzy exactly when that entry has the fuzzy flag. Comment lines before anything else form the header, in order; a MO takes its metadata from its first entry when the msgid is empty.",
 ["inputs"],"all files, with or without metadata, header, and with any flags",
 "Position, flags, context and line shape of the header vary independently.",
 [PP,MP],[("metadata extraction","end of reading in "+PP+" and first entry in "+MP)])
p("C28","All ways of giving the input are equivalent",
 "Reading a path, the text content, the byte content, or options holding either gives the same entries, header and metadata for the same data. Options given are kept: the wrap width and content passed are the ones the resulting file reports.",
 ["inputs","configurations"],"all contents and wrap widths through each conversion into file options",
 "Each conversion copies fields by hand; one that drops the bytes still parses, as an empty file.",
 [FM,PP,MP,PF,MF],[("options","conversions into FileOptions in "+FM),("source selection","choice of input in "+PP+" and "+MP)])
p("C29","Files and entries can be used from any thread without shared state",
 "All public data types can be sent to and shared between threads, and reading, writing and querying touch no mutable global state, environment or working directory. Concurrent use of different files gives the same results as sequential use.",
 ["schedules"],"all interleavings of library calls on different values",
 "Race windows are not reproducible in unit tests.",
 ["rust/src/lib.rs",PP,MP,FM],[("global state","statics of the crate in "+PP),("ownership","public data types")])
p("C30","Reading back a written PO gives an equal file",
 "For every file obtained by reading a PO, writing it and reading the text again gives equal entries (up to line numbers), header and metadata.",
 ["inputs"],"all files","A whole-program relation over all inputs.",
 [PP,PF,PE],[("round trip","reader and writer together")])
p("C31","Written lines respect the wrap width where a break exists",
 "No written line of a string field is wider than the wrap width unless it has no break opportunity inside.",
 ["inputs","configurations"],"all strings and widths","Width depends on Unicode data and break classes.",
 [TW,EM],[("wrapper","width accounting in "+TW)])
p("C32","Reading and writing take time linear in the size of the file",
 "Time and memory for reading and writing grow at most proportionally to n log n of the input size.",
 ["inputs"],"all inputs","Complexity is asymptotic; tests use small files.",
 [PP,MP,PF,MF],[("loops","loops over lines and entries")])
p("C33","The text of a file holds its header, metadata and every entry once",
 "The text form of a PO or MO file consists of the header as comment lines, the metadata, and then the text of every entry exactly once. In a PO the entries that are not obsolete come first, then the obsolete ones, each group in the order of the file.",
 ["inputs"],"all files: any header, metadata, number and mix of obsolete and other entries",
 "An entry lost or repeated shows only for particular mixes of entries.",
 [PF,MF],[("file writer","text form of a file in "+PF+" and "+MF)])
p("C34","Writing, converting, comparing and querying never panic",
 "Writing as text or MO bytes, converting, comparing, merging and querying entries and files never panics, for any field values and any wrap width. Only saving to a path may fail, when the file cannot be written.",
 ["inputs","configurations"],"all entries and files built or read by a program: empty, non-ASCII, inconsistent or missing fields; all wrap widths",
 "Slices, indexes, unwraps and subtractions fail only for particular shapes of data, such as a list that is empty or text outside ASCII.",
 [EM,PE,ME,FM,PF,MF,TW,E_],[("failing operations","slice, index, unwrap, division and subtraction sites reachable from public functions that do not read or save")])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
