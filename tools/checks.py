E = "src/Engine/"
CHECKS = {
    "C02": dict(units=["blob"], replay="c02.cpp", src=[E + "KeyValueBlobReader.cpp"],
                note="Every obligation of the reader's functions is discharged for all buffers, against the documented grammar "
                     "stated as a recursive specification. Trusted: Verus/Z3, the extraction in tools/c2v.py, pointers modelled as buffer+offset."),
}
NA = {
    "C22": "Candidate and preedit windows are fcitx5 UI objects: what they show is decided by library code without contracts and outside /repo.",
}
PDB = "Trusted: Verus/Z3, the extraction in tools/c2v.py, pointers modelled as buffer+offset, memcmp as unsigned lexicographic comparison."
CHECKS["C03"] = dict(units=["pdb"], replay="c03.cpp", src=[E + "ParselessPhraseDB.cpp"],
                     fns=["ParselessPhraseDB_findFirstMatchingLine", "ParselessPhraseDB_findRows", "ParselessPhraseDB_ctor", "ParselessPhraseDB_ValidatePragma"],
                     note="Proved for every table and key: memory safety and termination unconditionally, exactness for sorted tables and keys "
                          "without control characters. " + PDB)
CHECKS["C04"] = dict(units=["pdb"], replay="c04.cpp", src=[E + "ParselessPhraseDB.cpp"],
                     fns=["ParselessPhraseDB_reverseFindRows", "ParselessPhraseDB_ctor"],
                     note="Proved for every table and every text without line breaks; memory safety and termination for every text. " + PDB)
CHECKS["C18"] = dict(units=["pdb"], replay="c18.cpp", src=[E + "ParselessPhraseDB.cpp", E + "ParselessLM.cpp", E + "MemoryMappedFile.cpp"],
                     note="getUnigrams, hasUnigrams and getReadings are proved to decode exactly the rows the (proved) table lookups return, and lemmas "
                          "prove that those are the rows of that reading / that phrase and that decoding inverts the documented row form. "
                          "std::stod is an uninterpreted function of the score text (rows whose score is not a number make it throw). " + PDB,
                     assume=["std::stod is a function of its text and does not throw: score fields hold numbers"])
CHECKS["C01"] = dict(units=["utf8"], replay="c01.cpp", src=[E + "UTF8Helper.cpp"],
                     note="All functions of UTF8Helper.cpp are proved against Table 3-7 of the Unicode Standard for every byte string; the bit "
                          "manipulation is proved by bit-vector lemmas. Trusted: Verus/Z3, the extraction in tools/c2v.py.")
CHECKS["C05"] = dict(units=["mmf"], replay="c05.cpp", src=[E + "MemoryMappedFile.cpp"], libs=["-Wl,--wrap=open,--wrap=close,--wrap=fstat,--wrap=mmap,--wrap=munmap"],
                     note="Every member function is proved against a ghost model of the process's descriptors and mappings, in which each system call may "
                          "fail; two lemmas extend the single-object contracts to any number of objects. Trusted: the contracts of open, close, fstat, "
                          "mmap and munmap (specs/mmf.vspec), Verus/Z3, the extraction in tools/c2v.py.",
                     assume=["the object assigned from is another object (self-move is only covered by the bounded run)",
                             "open/close/fstat/mmap/munmap behave as POSIX says; close and munmap of what is owned succeed"])

LMSRC = [E + x + ".cpp" for x in ("ParselessPhraseDB", "ParselessLM", "MemoryMappedFile", "KeyValueBlobReader", "UserPhrasesLM", "PhraseReplacementMap",
         "AssociatedPhrasesV2", "McBopomofoLM", "UTF8Helper", "gramambular2/reading_grid", "UserOverrideModel", "Mandarin/Mandarin")]
LOADSRC = LMSRC + ["src/LanguageModelLoader.cpp", "src/TimestampedPath.cpp", "src/InputMacro.cpp", "src/Log.cpp"]
LOADLIBS = ["-lFcitx5Utils", "-licui18n", "-licuuc", "-ldl"]
CHECKS["C17"] = dict(units=["tsp", "loader"], replay="c17.cpp", src=LOADSRC, libs=LOADLIBS, secs=6,
                     note="The recorded-time comparison is proved against a ghost file system in which the time query may fail; the reload function is proved to notice, record and load exactly on a change, with lemmas for record-then-check. Trusted: the contracts of exists, is_directory and last_write_time (specs/tsp.vspec), Verus/Z3, the extraction in tools/c2v.py.",
                     assume=["paths contain no NUL byte", "exists() answers whether the path exists; an error of exists() counts as absence"])
CHECKS["C21"] = dict(units=["userlm", "lmload"], replay="c21.cpp", src=LMSRC,
                     note="Loading, opening, closing and querying both tables and the merged model's (re)loading are proved against the pairs the (proved) "
                          "text reader finds, with lemmas that the tables hold exactly the rows of each reading in order and the last line of each phrase. "
                          "Views into the text are modelled by their value, so use of released memory is covered by the contracts only as far as close() "
                          "empties the table and releases the mapping; the compiled run checks it under AddressSanitizer.",
                     assume=["a mapped file is not modified in place while it is mapped"])
CHECKS["C20"] = dict(units=["loader"], replay="c20.cpp", src=LOADSRC, libs=LOADLIBS,
                     note="addUserPhrase is proved to append exactly one line of its own and to reload; lemmas over the documented grammar prove that every earlier "
                          "entry of a file that reads to its end is kept and that the new one is read back. The constructor is proved to create the directories and "
                          "files and to leave existing ones alone. File streams, create_directory and the fcitx5 path lookup are assumed contracts (specs/loader.vspec).",
                     assume=["std::ofstream appends what is written before it is closed; ifstream seekg/get read the last byte (specs/loader.vspec)",
                             "writing changes the file's modification time; otherwise the reload does not notice (C17)"])
CHECKS["C16"] = dict(units=["dict"], replay="c16.cpp", src=["src/DictionaryService.cpp", "src/InputState.cpp", "src/Log.cpp", E + "UTF8Helper.cpp"],
                     cxxflags=["-isystem/usr/include/Fcitx5/" + x for x in ("Core", "Config", "Utils")] + ["-isystem/usr/include/json-c"],
                     libs=["-lFcitx5Utils", "-ljson-c", "-lfmt", "-licui18n", "-licuuc", "-ldl"],
                     note="urlEncode and the web service's lookup are proved for every phrase and template; lemmas prove that the encoding has only unreserved "
                          "characters and %XX escapes and decodes to the phrase. DictionaryServices::lookup is proved to ask exactly the service at the index, with the phrase, and "
                          "menuForPhrase to list the services in the same order; a web service is proved to enter the empty state exactly once. The string stream's formatting is an "
                          "assumed model (specs/common.rs). Reading the services from the JSON file is covered by the compiled run only (bounded).",
                     assume=["std::ostringstream formats characters and unsigned integers as specs/common.rs says", "fcitx::startProcess starts the program it is given"])
CHECKS["C19"] = dict(units=["macro"], replay="c19.cpp", src=["src/InputMacro.cpp"], libs=["-licui18n", "-licuuc", "-ldl"],
                     note="getYearBase, GetGanzhi, GetChineseZodiac and InputMacroController::handle are proved for every year from 4 CE on and every text; lemmas prove "
                          "the cycles and the anchor from the contracts. The macro classes that feed the current year (virtual functions over ICU) and the table they are "
                          "registered in are covered by the compiled run with a replaced clock (bounded).",
                     assume=["every macro registered in the table is an object (not a null pointer)", "ICU's calendar gives the current year"])

CHECKS["C11"] = dict(units=["numbers"], replay="c11.cpp", src=["src/ChineseNumbers/ChineseNumbers.cpp", "src/ChineseNumbers/SuzhouNumbers.cpp", "src/ChineseNumbers/StringUtils.cpp"],
                     note="The three trimming and padding functions, convert4Digits and both Generate functions are proved against a token grammar, for digit strings of any "
                          "zero pattern; lemmas over the contracts prove that the tokens read back as the number, that a zero is written only inside and before a digit, and that "
                          "words are pairwise different (the text determines the tokens). Integer parts have at most 48 (Suzhou: 32) significant digits, the range of the place tables.",
                     assume=["ceil(n / 4.0) on doubles is exact for n < 2^52", "a stringstream without format state concatenates what is put into it"])
CHECKS["C13"] = dict(units=["mlm"], replay="c13.cpp", src=[f for f in LMSRC if "Mandarin" not in f and "Override" not in f],
                     note="filterAndTransformUnigrams, getUnigrams, hasUnigrams, getReading, convertMacro and the option setters are proved against the documented merge "
                          "(exclude, replace, expand macros, convert, drop duplicates; user phrases first and, for one syllable, at the top), for all dictionaries, options and "
                          "converters; lemmas prove no duplicate text, no excluded source phrase, every other row kept in order with its score. The built-in table must be sorted as documented.",
                     assume=["converters are functions of their input (no state)", "scores are numbers (the order on doubles is total where lemmas use it)",
                             "the built-in table is sorted and its scores are numbers"])
CHECKS["C12"] = dict(units=["uom", "learn"], replay="c12.cpp", src=[E + "UserOverrideModel.cpp", E + "gramambular2/reading_grid.cpp"],
                     note="Contracts on observe, suggest, Observation::update, Score and the constructor, over a model of std::list with element identities: after every observation the list and "
                          "the index hold the same contexts, each once, at most the capacity, and the list is exactly the old one with the observed context moved (or added) to the front and the "
                          "last dropped if there are too many; a suggestion is an observed choice of that context with the highest decayed weight, or none. Lemmas derive the uniqueness of "
                          "contexts and that nothing is suggested once everything has decayed. Proved for every history by induction over the calls. findNodeAt, FormObservationKey and the "
                          "observe and suggest that take conversion results are proved to learn and look up exactly the context defined in the specification, for every pair of results.",
                     assume=["conversion results are as C07 guarantees (live nodes of at least one reading, totalReadings their sum); suggest is given a cursor within the result", "exp and log are functions of their argument; scores are numbers (the order on doubles is total where the suggestion lemmas use it)"])
CHECKS["C09"] = dict(units=["mandarin"], replay="c09.cpp", src=[E + "Mandarin/Mandarin.cpp"],
                     note="The component algebra (+, +=), the letter table built by the constructor (its 41 entries equal a closed form over the Unicode order, in both directions), composedString "
                          "and FromComposedString are proved for every syllable and every text; a lemma over their contracts proves that text and back is the identity. FromHanyuPinyin is proved to "
                          "yield at most one existing component of each kind for every text.",
                     assume=["tolower is a function of its argument", "the letter table is not modified after its first use"])
CHECKS["C10"] = dict(units=["layouts", "mandarin"], replay="c10.cpp", src=[E + "Mandarin/Mandarin.cpp"],
                     note="The constructor of a layout is proved to build the inverse of its key table; the six layouts are proved to have the keys of the published tables; keys to syllable, syllable to "
                          "keys and the buffer operations are proved against those contracts for every state and key: exact component algebra for the layouts whose keys stand for one component each, "
                          "and for Hsu and ETen26 that every component comes from a typed key, an accepted key leaves something and erasing always shortens.",
                     assume=["tolower maps ASCII as the C standard says", "the layouts are not modified after their first use"])
G = "src/Engine/gramambular2/"
CHECKS["C06"] = dict(units=["grid"], replay="c06.cpp", src=[G + "reading_grid.cpp"],
                     note="One grid invariant (one span per reading, cursor in range, every node placed at its stretch with the ranked entries of the model and in no other place, "
                          "every known stretch of up to six readings covered) is proved to be established by the constructor and preserved by every public edit, whose results are "
                          "stated exactly: the readings after the edit, and that a refused edit changes nothing.",
                     assume=["the language model answers the same reading the same way while there are readings in the grid, and says it has entries exactly when it returns some (C13)",
                             "the reading separator is only set on an empty grid"])
CHECKS["C08"] = dict(units=["grid"], replay="c08.cpp", src=[G + "reading_grid.cpp"],
                     note="overlappingNodesAt is proved to list every node over a position exactly once, candidatesAt to give their entries, longest nodes first, and overrideCandidate to "
                          "succeed exactly when a node over the position offers the candidate, to make one such node use it, to reset exactly the other nodes that meet its stretch, to "
                          "leave every other node alone, and to change nothing otherwise; on every grid with the C06 invariant, which every edit and selection keeps.",
                     assume=["the language model and separator assumptions of C06"])
CHECKS["C07"] = dict(units=["walk", "grid"], replay="c07.cpp", src=[G + "reading_grid.cpp"],
                     note="The lattice built by walk is proved to be layered and to have an edge exactly where one node ends and another starts, TopologicalSort (an explicit-stack depth-first "
                          "search) to put every vertex after all it leads to, Relax to keep the better of two distances, and walk as a whole to return nodes that tile the readings from the "
                          "first to the last and whose left-to-right sum no tiling of the grid exceeds; it terminates and changes nothing in the grid. On every grid with the C06 "
                          "invariant, which every edit and selection keeps, every score and every override.",
                     assume=["scores, and their sums along a path, are finite doubles; addition is monotone and x + 0 == x (IEEE 754; the axioms are `arith`)",
                             "the language model and separator assumptions of C06", "the clock reads a microsecond count below 2^62"])
CHECKS["C14"] = dict(units=["assoc"], replay="c14.cpp", src=[E + x + ".cpp" for x in ("AssociatedPhrasesV2", "ParselessPhraseDB", "MemoryMappedFile", "UTF8Helper")],
                     note="Both lookups, the row and score readers, SplitReadings and CombineReadings are proved for every table, prefix and text against the (proved) contracts of "
                          "the table lookup and of the UTF-8 splitter; lemmas prove that rows of the documented form match exactly when their leading characters and readings are "
                          "those asked for and more follow, that the result has no text twice, is ordered by score and keeps the best-scored row of each text, and that split and "
                          "combine are inverse. Exactness of lookups needs the table sorted and prefixes without control characters.",
                     assume=["std::stod is a function of its text and does not throw: score fields hold numbers", "scores are numbers (the order on doubles is total where lemmas use it)"])
KEYSRC = ["src/KeyHandler.cpp", "src/InputState.cpp", "src/InputMacro.cpp", "src/DictionaryService.cpp", "src/Log.cpp", "src/ChineseNumbers/ChineseNumbers.cpp",
          "src/ChineseNumbers/StringUtils.cpp", "src/ChineseNumbers/SuzhouNumbers.cpp"] + [E + x + ".cpp" for x in (
              "AssociatedPhrasesV2", "KeyValueBlobReader", "Mandarin/Mandarin", "McBopomofoLM", "MemoryMappedFile", "ParselessLM", "ParselessPhraseDB", "PhraseReplacementMap",
              "UTF8Helper", "UserOverrideModel", "UserPhrasesLM", "gramambular2/reading_grid")]
CHECKS["C15"] = dict(units=["key"], replay="c15.cpp", src=KEYSRC, secs=20,
                     cxxflags=["-fno-access-control"] + ["-isystem/usr/include/Fcitx5/" + x for x in ("Core", "Config", "Utils")] + ["-isystem/usr/include/json-c"],
                     libs=["-lFcitx5Utils", "-ljson-c", "-lfmt", "-licui18n", "-licuuc", "-ldl"],
                     note="KeyHandler::handle and every function it reaches in KeyHandler.cpp are under contract, for every state and key: the invariant (the grid and the last conversion agree, "
                          "one node after another over all readings, the cursor among them) is established by the constructor and preserved, the option setters and menu builders keep it, every state handed to the front end shows exactly the sentence cut at the cursor (or at the "
                          "two ends of the mark) on character boundaries, a refused key enters no state, and a key leaves the readings alone, inserts one at the cursor, removes exactly the adjacent one, or "
                          "clears. Every history follows by induction over the calls. The contracts of grid, conversion, override, buffer, text and phrase functions that it builds on are proved by C06, C07, "
                          "C12, C10, C01, C14 and C11.",
                     assume=["the other callbacks given to the handler do not call the handler", "the language model keeps its answers while something is composed, gives at least one finite-scored entry for each reading it has, "
                             "has the entry for the space key, and associated phrases no shorter than the prefix (C13, C14)", "localised strings and layout names are functions of their arguments",
                             "the callback of handleCandidateKeyForTraditionalBopomofoIfRequired, which selects the current candidate, keeps the invariant (as candidateSelected is proved to)",
                             "a dictionary service calls its callback at most once, with the empty state (proved of a web service by C16) or with one that shows the same buffer",
                             "the closures of the feature menu and the previousState fields of the dictionary menu are dropped from the states"])
