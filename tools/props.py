import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":mech}
    if state: a["state"]=state
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))
E="src/Engine/"
def m(name,where): return {"name":name,"where":where}
p("C01","Text is cut only at UTF-8 code-point boundaries, for every byte string",
 "For every byte string, counting, taking a prefix of, indexing into and splitting text by code points agrees with the UTF-8 standard: exactly the longest well-formed prefix is counted and split (overlong forms, surrogates, values above U+10FFFF and truncated sequences are not well-formed), every piece is exactly one code point, and the pieces joined together are that prefix. Taking the first n code points yields exactly the first min(n, count) of them, and no operation ever reads outside the string or loops forever.",
 ["inputs"],"every byte string of every length, every requested count or index",
 "Tests sample a dozen strings; the claim is about all 2^(8n) byte strings, including malformed ones at every truncation point.",
 [E+"UTF8Helper.cpp",E+"UTF8Helper.h"],
 [m("code-point decoder with limit table and continuation checks",E+"UTF8Helper.cpp DecodeUTF8"),m("split/count/substring loops that stop at the first malformed sequence",E+"UTF8Helper.cpp Split, CodePointCount, SubstringToCodePoints, GetCodePoint")])
p("C02","The user-dictionary text reader accepts exactly its documented grammar",
 "For every byte buffer, repeatedly reading entries yields exactly the (key, value) pairs of the documented format, in order: blank and comment lines are skipped, the key and the value are maximal runs of non-blank characters on one line separated by blanks, the rest of the line is ignored, and the text ends at the end of the buffer or at the first NUL. A key without a value yields a permanent error state, every key and value returned lies inside the buffer, nothing outside the buffer is read, and reading always terminates.",
 ["inputs","histories"],"every byte buffer (with or without trailing newline, NULs, CR/LF mixes, non-UTF-8 bytes) and every number of successive reads",
 "Tests check about ten fixed files; memory safety and grammar conformance range over all buffers and over repeated calls after the end or an error.",
 [E+"KeyValueBlobReader.cpp",E+"KeyValueBlobReader.h"],
 [m("state machine with skip-until helpers",E+"KeyValueBlobReader.cpp Next, SkipUntil, SkipUntilNot"),m("sticky error state",E+"KeyValueBlobReader.cpp Next")],
 [{"name":"read position","meaning":"always between the start and the end of the buffer","where":E+"KeyValueBlobReader.h"}])
p("C03","Phrase-table lookup returns exactly the rows that start with the key",
 "For every phrase table whose lines are sorted bytewise, and every non-empty lookup key containing no control characters, the lookup returns every line that starts with the key, each exactly once and in table order, and no other line. It terminates and never reads outside the table, for any table content, any key length and whether or not the last line ends with a newline; a table without the required header behaves as empty.",
 ["inputs"],"every sorted table of at least one byte and every key, including keys longer than the table, at its first and last line, or absent",
 "The lookup is a binary search with backtracking over raw bytes; tests try a handful of keys on fixed tables and cannot reach every alignment of midpoint, line start and table end.",
 [E+"ParselessPhraseDB.cpp",E+"ParselessPhraseDB.h"],
 [m("binary search with backtracking to the line start",E+"ParselessPhraseDB.cpp findFirstMatchingLine"),m("forward scan over matching rows",E+"ParselessPhraseDB.cpp findRows"),m("header check",E+"ParselessPhraseDB.cpp ValidatePragma and constructor")])
p("C04","Reverse lookup finds every row whose value starts with the given text",
 "For every phrase table and every non-empty text without line breaks, reverse lookup returns exactly the lines whose part after the first run of spaces starts with that text, each once and in table order, including a match that ends exactly at the end of the table. It terminates and reads nothing outside the table.",
 ["inputs"],"every table content (sorted or not, with or without a final newline) and every text",
 "Tests use two small tables that end in a newline; the boundary at the last byte and malformed lines are not sampled.",
 [E+"ParselessPhraseDB.cpp",E+"ParselessLM.cpp"],
 [m("linear scan over records",E+"ParselessPhraseDB.cpp reverseFindRows")])
p("C05","A failed or closed dictionary file is never exposed as readable data",
 "After any sequence of opening, closing, moving and destroying dictionary file mappings, an object reports data exactly when it owns a live mapping whose length is the file's length, and otherwise reports no data with length zero; each mapping and descriptor is released exactly once. An open that cannot map the file (missing, empty, a directory, or a failing system call) reports failure, leaves nothing open and keeps the object usable for a later open.",
 ["histories","fault_sequences"],"every sequence of operations on any number of objects, and every combination of system-call failures",
 "Tests open one existing and one missing file; they never make an individual system call fail nor chain moves, closes and reopens.",
 [E+"MemoryMappedFile.cpp",E+"MemoryMappedFile.h"],
 [m("open/close/move operations keeping descriptor, length and data in step",E+"MemoryMappedFile.cpp")],
 [{"name":"mapping","meaning":"descriptor, length and address, set and cleared together","where":E+"MemoryMappedFile.h"}])
p("C06","The composing grid stays consistent through every edit",
 "After any sequence of insertions, deletions, cursor moves and clears, the grid holds one span per reading, the cursor lies between 0 and the number of readings, and every node in the grid covers exactly the readings at its position (its reading is those readings joined with the separator), fits inside the grid and is at most six readings long. Every stretch of up to six readings for which the language model has entries is covered by a node, and no node exists for a stretch the language model knows nothing about; an edit that is refused (unknown or empty reading, deletion at an edge) changes nothing.",
 ["histories","inputs"],"every history of edits, every reading string, every language model with fixed contents",
 "Node invalidation depends on where the edit falls relative to up to six overlapping spans; tests walk a few hand-made histories.",
 [E+"gramambular2/reading_grid.cpp",E+"gramambular2/reading_grid.h"],
 [m("expand/shrink and invalidation of affected nodes",E+"gramambular2/reading_grid.cpp expandGridAt, shrinkGridAt, removeAffectedNodes, Span"),m("re-population around the cursor",E+"gramambular2/reading_grid.cpp update"),m("reading insertion and deletion",E+"gramambular2/reading_grid.cpp insertReading, deleteReadingBeforeCursor, deleteReadingAfterCursor")],
 [{"name":"spans and readings","meaning":"one span per reading; node of length n at position i covers readings i..i+n","where":E+"gramambular2/reading_grid.h"}])
p("C07","The sentence found covers every reading once and no other path scores higher",
 "For every consistent grid, the conversion result is a sequence of grid nodes laid end to end that together cover every reading exactly once, from the first to the last. Its total score (the scores of its nodes added in order) is at least that of every other such sequence of nodes in the grid, under the overrides currently in force, and converting changes nothing in the grid.",
 ["inputs","histories"],"every grid reachable by edits and overrides, every assignment of scores",
 "Optimality is a claim about exponentially many paths and all score assignments; tests compare a few sentences with an expected answer.",
 [E+"gramambular2/reading_grid.cpp"],
 [m("topological order and longest-path relaxation",E+"gramambular2/reading_grid.cpp walk, TopologicalSort, Relax")])
p("C08","Candidates at a position are exactly what the overlapping nodes offer",
 "At every position the candidate list contains exactly the entries of every node overlapping that position (at the end of the grid: of the last reading), longer nodes first, and nothing else. Selecting a listed candidate makes the node that offers it use that entry, and every other node overlapping it loses its earlier selection; selecting something that is not listed changes nothing and is reported as failure.",
 ["inputs","histories"],"every grid state, position (including past the end), candidate and selection type",
 "Which nodes overlap depends on all span lengths around a position; tests check few positions in few grids.",
 [E+"gramambular2/reading_grid.cpp",E+"gramambular2/reading_grid.h"],
 [m("overlap enumeration",E+"gramambular2/reading_grid.cpp overlappingNodesAt, candidatesAt"),m("selection and reset of neighbours",E+"gramambular2/reading_grid.cpp overrideCandidate, Node::selectOverrideUnigram, Node::reset, Node::score")])
p("C09","Bopomofo syllables convert losslessly between their representations",
 "For every Bopomofo syllable (any combination of at most one consonant, one medial, one vowel and one tone), converting it to display text (the Bopomofo letters of its components, in the order consonant, medial, vowel, tone) and back gives the same syllable; adding a component replaces only the component of that kind and keeps the others. Parsing arbitrary text as a syllable or as Hanyu Pinyin never reads outside the text, terminates, and yields a syllable with at most one component of each kind.",
 ["inputs"],"all syllables with every combination of components, and every byte string given to the parsers",
 "Tests check a few syllables per function; the claim spans the full component product and arbitrary malformed strings.",
 [E+"Mandarin/Mandarin.cpp",E+"Mandarin/Mandarin.h"],
 [m("bit-field component algebra",E+"Mandarin/Mandarin.h BopomofoSyllable"),m("text conversions",E+"Mandarin/Mandarin.cpp FromComposedString, composedString, FromHanyuPinyin")])
p("C10","The reading buffer reflects exactly the keys typed, for every keyboard layout",
 "For every keyboard layout and every sequence of keys, erasures, clearings and changes of the layout, a key is accepted only if the current layout assigns it a meaning, a refused key changes nothing, an accepted key leaves something, the buffer always holds a syllable with at most one component of each kind, a tone mark alone or with a sound is reported as such, and clearing, or erasing long enough, leaves it empty. In the layouts whose keys stand for one component each (Standard, ETen, IBM) typing a key replaces exactly the component of its kind and erasing removes exactly the last component and keeps the rest; in Pinyin erasing removes exactly the last letter; in Hsu and ETen26, whose keys stand for several components, every component of the syllable comes from a typed key (GI and GUE read as JI and JUE) and erasing always shortens the syllable. After the layout is changed the next keys are read by the new layout.",
 ["inputs","histories"],"every layout, every key value including unmapped and non-ASCII ones, every sequence of keys and erasures",
 "Tests type a few dozen keys per layout; reachable buffer states depend on arbitrary key histories.",
 [E+"Mandarin/Mandarin.cpp",E+"Mandarin/Mandarin.h"],
 [m("key-to-component mapping and disambiguation",E+"Mandarin/Mandarin.cpp BopomofoKeyboardLayout"),m("buffer operations",E+"Mandarin/Mandarin.h BopomofoReadingBuffer isValidKey, clear, isEmpty, setKeyboardLayout, hasToneMarkerOnly; Mandarin.cpp combineKey, backspace")])
p("C11","Number conversion denotes exactly the number that was typed",
 "For every digit string accepted by the number input, the Chinese numeral produced, in both the lower-case and the formal style, reads back as exactly the number typed, with place names in the right places, interior zeros written once and no leading zero; the decimal part is written digit by digit. Suzhou numerals show the same digits without leading zeros, alternating forms as required, with the place name of the leading digit.",
 ["inputs"],"every integer part and decimal part made of digits, up to the supported length, including leading and trailing zeros and the empty string",
 "There are 10^20 accepted inputs with many zero patterns; tests sample about thirty.",
 ["src/ChineseNumbers/ChineseNumbers.cpp","src/ChineseNumbers/SuzhouNumbers.cpp","src/ChineseNumbers/StringUtils.cpp"],
 [m("four-digit sections with zero suppression",E.replace("Engine/","")+"ChineseNumbers/ChineseNumbers.cpp"),m("Suzhou digits and place names","src/ChineseNumbers/SuzhouNumbers.cpp"),m("trimming and padding","src/ChineseNumbers/StringUtils.cpp")])
p("C12","The learned-selection memory is bounded, consistent and forgets the oldest first",
 "After any sequence of observations and queries, the memory holds at most its configured number of contexts and its recency order contains exactly the remembered contexts, each once; when it is full, exactly the least recently observed context is dropped. A suggestion is always something previously observed in that same context, is the highest-scoring one under the time decay, and is absent once every observation in the context has decayed away. The context of a selection (and of a query) is the word at the cursor with its best entry, taken before the selection or, when the selection breaks up a longer word, after it, together with the up to two words before it back to a punctuation mark; what is learned is the entry now chosen there.",
 ["histories","inputs"],"every sequence of observations and queries with any contexts, candidates and timestamps, any capacity of at least one",
 "Eviction and recency depend on whole histories; tests record a handful of observations with capacity for all or three.",
 [E+"UserOverrideModel.cpp",E+"UserOverrideModel.h"],
 [m("LRU list and index kept in step",E+"UserOverrideModel.cpp observe"),m("decayed scoring and selection",E+"UserOverrideModel.cpp suggest, Score"),m("context from a conversion result",E+"UserOverrideModel.cpp FormObservationKey, IsPunctuation, CombineReadingValue; "+E+"gramambular2/reading_grid.cpp WalkResult::findNodeAt")],
 [{"name":"LRU list and key index","meaning":"same key set, list ordered by recency","where":E+"UserOverrideModel.h"}])
p("C13","Merged language model: exclusions win, user phrases first, no duplicates",
 "For every reading and every combination of base, user, excluded-phrase, replacement and macro settings, no merged candidate comes from an excluded dictionary or user phrase (exclusion is applied to the phrase before replacement, macro expansion and conversion), no final text appears twice, and user phrases come first, for single-syllable readings scored at or just above the best system phrase, with every remaining system phrase kept in order with its score; only macros that nothing expands are left out. The model says a reading is known exactly when it would return at least one candidate for it.",
 ["inputs","configurations"],"every reading, every content of the constituent dictionaries, every setting of replacement, macro and converter options",
 "Tests cover a few merges with one or two entries; the set interplay of exclusion, replacement and deduplication ranges over all contents.",
 [E+"McBopomofoLM.cpp",E+"McBopomofoLM.h"],
 [m("filter and transform pipeline",E+"McBopomofoLM.cpp filterAndTransformUnigrams, getUnigrams, hasUnigrams")])
p("C14","Associated phrases: right prefix, ordered by score, no duplicates",
 "For every prefix value and prefix reading, the associated phrases returned are exactly the table rows whose leading characters are that prefix with those readings, sorted by non-increasing score, with each resulting text at most once (the best-scored one). Splitting a reading string at separators and combining the parts again gives the original string, and combining parts free of separators and splitting gives the parts back (a single empty part counts as no parts).",
 ["inputs"],"every table content, prefix value, list of readings and reading string, including empty parts and malformed rows",
 "Tests look up four or five prefixes in fixed data; prefix confusion and malformed rows range over all contents.",
 [E+"AssociatedPhrasesV2.cpp",E+"AssociatedPhrasesV2.h"],
 [m("prefix search, stable sort and de-duplication",E+"AssociatedPhrasesV2.cpp findPhrases"),m("row parsing and reading split/combine",E+"AssociatedPhrasesV2.cpp SplitReadings, CombineReadings")])
p("C15","The composing buffer shown is complete and cut at character boundaries",
 "For every key history and option setting, whenever something is being composed the text shown is exactly the converted sentence in order, with the reading being typed put in at the cursor; every cut (at the cursor, and at the two ends of a mark) falls on a character boundary and at the right reading, and the marked range lies between the position where marking began and the cursor. Enter commits exactly the composing buffer shown, and in the normal mode so does any other key that commits a composed sentence (Ctrl+Enter, which outputs readings, excepted). One key leaves the converted readings alone, adds one at the cursor, removes exactly the one next to the cursor (the delete keys), or clears them all; the cursor never leaves the buffer; a key the input method refuses changes nothing that is shown.",
 ["histories","inputs"],"every sequence of key events in every input mode and option setting",
 "Cursor positions inside multi-character nodes depend on conversion history; tests try about twenty short sequences.",
 ["src/KeyHandler.cpp","src/KeyHandler.h","src/InputState.h"],
 [m("head/tail split at the cursor","src/KeyHandler.cpp getComposedString"),m("marking state construction","src/KeyHandler.cpp buildMarkingState"),m("cursor arithmetic for candidate selection","src/KeyHandler.cpp computeActualCandidateCursorIndex, handleCursorKeys, handleDeleteKeys")])
p("C16","Dictionary URLs carry the phrase, fully escaped, at the configured place",
 "For every phrase and every URL template, the URL opened is the template with its placeholder replaced by the phrase percent-encoded, and with every other character of the template, before and after the placeholder, kept. Percent-encoding leaves only unreserved ASCII characters and %XX escapes and decodes back to the phrase byte for byte. The service asked is the one whose entry of the menu was chosen, and an index outside the menu asks none.",
 ["inputs","configurations"],"every byte string as phrase, every template with or without the placeholder at any position",
 "There are no tests of the service at all; the claim is over all byte values and placeholder positions.",
 ["src/DictionaryService.cpp","src/DictionaryService.h"],
 [m("percent-encoding","src/DictionaryService.cpp urlEncode"),m("placeholder substitution","src/DictionaryService.cpp HttpBasedDictionaryService")])
p("C17","A changed user file is always noticed, an unchanged one never reloaded",
 "For every sequence of file changes and checks, a check reports a change exactly when the file's existence or modification time differs from what was last recorded, and after recording, a repeated check with no change in between reports nothing. Errors while querying the file count as the file being absent and never throw (a file whose time is exactly the file clock's epoch, in 2174, is indistinguishable from an absent one). Reloading loads the user dictionaries exactly when one of their files exists and reports a change.",
 ["histories","fault_sequences"],"every interleaving of file creation, modification, removal, path change and checks, and every file-system error",
 "Tests exercise five short scenarios on a healthy file system.",
 ["src/TimestampedPath.cpp","src/TimestampedPath.h"],
 [m("recorded existence and timestamp compared with the current ones","src/TimestampedPath.cpp")])
p("C18","Table rows decode to the exact phrase, score and reading they state",
 "For every sorted phrase table, the candidates of a reading are exactly its rows of the form reading-space-phrase-space-score in table order, each decoded to that phrase and score (a missing score counts as zero), never mixing in rows of a longer reading that merely starts the same way; a reading is reported known exactly when it has candidates. Asking for the readings of a phrase yields exactly the (reading, score) pairs of the rows of that form whose phrase is exactly that one.",
 ["inputs"],"every table content and every reading or phrase, including rows with missing fields and rows at the very end of the table",
 "Tests look up a few fixed rows; field boundaries and prefix confusion range over all contents.",
 [E+"ParselessLM.cpp",E+"ParselessLM.h",E+"ParselessPhraseDB.cpp"],
 [m("row splitting at spaces",E+"ParselessLM.cpp getUnigrams, getReadings, hasUnigrams"),m("key-with-separator lookup",E+"ParselessLM.cpp getUnigrams")])
p("C19","Year macros follow the sexagenary and zodiac cycles",
 "For every year from 4 CE on, the sexagenary (Ganzhi) name of the year advances by one stem and one branch per year with period 60, agrees with the known anchor (1984 is Jia-Zi, year of the Rat), and the zodiac animal advances with period 12. Text that is not a supported macro passes through macro expansion unchanged.",
 ["inputs"],"every year and every macro name",
 "Tests for macros do not exist; the claim covers all years and all strings.",
 ["src/InputMacro.cpp"],
 [m("year base and stem/branch tables","src/InputMacro.cpp getYearBase, ganzhi, chineseZodiac"),m("macro table lookup","src/InputMacro.cpp InputMacroController::handle")])
p("C20","A phrase the user adds is found again after reload, and nothing else is lost",
 "Adding a user phrase appends exactly one entry to the user's phrase file, such that the next reload knows that phrase under that reading and still knows every phrase known before. This holds for every previous content that reads to its end without an error, including one whose last line (an entry, a comment or blanks) has no newline, and every phrase and reading the file format can represent (non-blank characters, the phrase not starting with #). On a fresh account the directory and files needed for that are created.",
 ["histories","crash_points"],"every well-formed previous file content, phrase, reading and sequence of additions and reloads",
 "Tests never write the user phrase file; the claim ranges over all previous contents.",
 ["src/LanguageModelLoader.cpp",E+"UserPhrasesLM.cpp",E+"KeyValueBlobReader.cpp"],
 [m("append to the user phrase file","src/LanguageModelLoader.cpp addUserPhrase"),m("reload when changed","src/LanguageModelLoader.cpp reloadUserModelsIfNeeded")])
p("C21","User phrase and replacement tables serve exactly their latest file content",
 "For every sequence of loads with arbitrary file contents, the user phrases of a reading are exactly the entries the last loaded text gives for it, in file order, and the replacement of a phrase is the one its last line states. A successful load replaces everything served before and a failed one changes nothing; the merged model, which closes a table before each load, serves nothing of an earlier load after a failed one. After a close nothing is served, and nothing served ever refers to released memory.",
 ["histories","inputs"],"every sequence of load and close calls, every text",
 "Tests load one or two fixed texts once; stale views into released buffers only show up after reloads.",
 [E+"UserPhrasesLM.cpp",E+"PhraseReplacementMap.cpp"],
 [m("entry loop over the text reader",E+"UserPhrasesLM.cpp load, PhraseReplacementMap.cpp load"),m("lookup tables cleared with the mapping",E+"UserPhrasesLM.cpp close")])
p("C22","Candidate and preedit windows show what the engine state says",
 "For every engine state, the text and candidates shown by the input panel are exactly those of the state, with the highlighted candidate and page corresponding to the selection keys offered.",
 ["histories"],"every sequence of states and paging actions",
 "No test exercises the input panel.",
 ["src/McBopomofo.cpp"],[m("panel update per state","src/McBopomofo.cpp")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert x['statement'].count('. ')<=3,x['id']
print(len(P))
