@source src/LanguageModelLoader.cpp McBopomofo
@import tsp
@import lmload
@option broadcast lemma_cpath, lemma_grown
@opaque std::ofstream
@opaque std::ifstream
@opaque McBopomofo::InputMacroController
@opaque McBopomofo::LanguageModelLoader::LocalizedStrings
@extern world ofstream::ofstream(std::string) -> std::ofstream
@extern world ofstream::ofstream(std::string, int) -> std::ofstream
@extern world ofstream::operator<<(&std::ofstream, std::string) -> void
@extern world ofstream::close(&std::ofstream) -> void
@extern world ofstream::~ofstream(&std::ofstream) -> void
@extern ofstream::operator bool(std::ofstream) -> bool = ofs_ok($0)
@extern world ifstream::ifstream(std::string) -> std::ifstream
@extern world ifstream::seekg(&std::ifstream, long, int) -> void
@extern world ifstream::get(&std::ifstream, &&char) -> void
@extern ifstream::close(std::ifstream) -> void = ()
@extern world create_directory(std::string, &std::error_code) -> bool
@extern InputMacroController::handle(McBopomofo::InputMacroController, std::string) -> std::string = macro_value($0, $1)
@extern InputMacroController::InputMacroController() -> McBopomofo::InputMacroController = macro_table()
@extenum fcitx::StandardPath::Type
@libconst PkgData int 3
@opaque fcitx::StandardPath
@extern global() -> fcitx::StandardPath = std_path()
@extern fcitx_StandardPath::locate(fcitx::StandardPath, int, std::string) -> std::string = located($0, $1, $2)
@extern fcitx_StandardPath::userDirectory(fcitx::StandardPath, int) -> std::string = user_dir($0, $1)
@libconst end int 2
@libconst app int 1
@extern world LocalizedStrings::userPhraseFileHeader(McBopomofo::LanguageModelLoader::LocalizedStrings) -> std::string
@extern world LocalizedStrings::excludedPhraseFileHeader(McBopomofo::LanguageModelLoader::LocalizedStrings) -> std::string
@prelude
// ---- file streams (assumed contracts of the C++ library) --------------------------------
pub uninterp spec fn ofs_ok(s: ofstream) -> bool;
pub uninterp spec fn ofs_path(s: ofstream) -> Seq<u8>;
pub uninterp spec fn ofs_wait(s: ofstream) -> Seq<u8>;
pub uninterp spec fn ifs_ok(s: ifstream) -> bool;
pub uninterp spec fn ifs_path(s: ifstream) -> Seq<u8>;
pub uninterp spec fn ifs_pos(s: ifstream) -> int;
// an ordinary file that can be opened and read or written
pub open spec fn usable(w: World, p: Seq<u8>) -> bool { w.healthy && w.fs.dom().contains(p) && !w.fs[p].dir }
// a new file can be made at p: its directory is there and nothing fails
pub open spec fn in_dir(p: Seq<u8>, d: Seq<u8>) -> bool { exists|n: Seq<u8>| p == #[trigger] (d + seq![47u8] + n) && n.len() > 0 && !n.contains(47) }
pub open spec fn creatable(w: World, p: Seq<u8>) -> bool { w.healthy && exists|d: Seq<u8>| #[trigger] in_dir(p, d) && w.fs.dom().contains(d) && w.fs[d].dir }
// w2 is w except for the content and the time of the file at p
pub open spec fn only_file(p: Seq<u8>, c: Seq<u8>, w: World, w2: World) -> bool {
    w2.fds == w.fds && w2.maps == w.maps && w2.healthy == w.healthy && w2.fs.dom() =~= w.fs.dom().insert(p)
    && (forall|q: Seq<u8>| #![trigger w2.fs[q]] q != p && w.fs.dom().contains(q) ==> w2.fs[q] == w.fs[q])
    && w2.fs[p].content == c && !w2.fs[p].dir
}
#[verifier::external_body]
pub fn ext_ofstream_ofstream_1(w: Ghost<World>, p: Ghost<Seq<u8>>) -> (r: Ghost<(ofstream, World)>)
    ensures ofs_path(r@.0) == p@, ofs_wait(r@.0).len() == 0, usable(w@, p@) || creatable(w@, p@) && !w@.fs.dom().contains(p@) ==> ofs_ok(r@.0),
        !ofs_ok(r@.0) ==> r@.1 == w@, ofs_ok(r@.0) ==> only_file(p@, Seq::empty(), w@, r@.1)
{ unimplemented!() }
// mode app: what is there is kept
#[verifier::external_body]
pub fn ext_ofstream_ofstream_2(w: Ghost<World>, p: Ghost<Seq<u8>>, mode: Ghost<int>) -> (r: Ghost<(ofstream, World)>)
    requires mode@ == 1
    ensures ofs_path(r@.0) == p@, ofs_wait(r@.0).len() == 0, usable(w@, p@) ==> ofs_ok(r@.0),
        !ofs_ok(r@.0) ==> r@.1 == w@,
        ofs_ok(r@.0) ==> (w@.fs.dom().contains(p@) ==> r@.1 == w@)
            && (!w@.fs.dom().contains(p@) ==> only_file(p@, Seq::empty(), w@, r@.1))
{ unimplemented!() }
// every file is still there, only the one at p has grown
pub open spec fn grown(p: Seq<u8>, w: World, w2: World) -> bool {
    w2.fds == w.fds && w2.maps == w.maps && w2.healthy == w.healthy && w2.fs.dom() =~= w.fs.dom()
    && (forall|q: Seq<u8>| #![trigger w2.fs[q]] q != p && w.fs.dom().contains(q) ==> w2.fs[q] == w.fs[q])
    && w2.fs[p].dir == w.fs[p].dir && extends(w2.fs[p].content, w.fs[p].content)
}
pub open spec fn extends(b: Seq<u8>, a: Seq<u8>) -> bool { b.len() >= a.len() && b.subrange(0, a.len() as int) =~= a }
pub broadcast proof fn lemma_grown(p: Seq<u8>, w0: World, w: World, w2: World)
    requires #[trigger] grown(p, w0, w), #[trigger] grown(p, w, w2), w0.fs.dom().contains(p)
    ensures grown(p, w0, w2)
{
    let (a, b, c) = (w0.fs[p].content, w.fs[p].content, w2.fs[p].content);
    assert(c.subrange(0, a.len() as int) =~= c.subrange(0, b.len() as int).subrange(0, a.len() as int));
}
// what the file holds together with what waits to be written
pub open spec fn total(s: ofstream, w: World) -> Seq<u8> { w.fs[ofs_path(s)].content + ofs_wait(s) }
// writing goes through a buffer: a part of it may reach the file, the rest waits; when something goes wrong, the stream is not ok any more
#[verifier::external_body]
pub fn ext_ofstream_put(w: Ghost<World>, s: Ghost<ofstream>, t: Ghost<Seq<u8>>) -> (r: Ghost<(ofstream, World)>)
    ensures ofs_path(r@.0) == ofs_path(s@), !ofs_ok(s@) ==> !ofs_ok(r@.0) && r@.1 == w@ && ofs_wait(r@.0) == ofs_wait(s@),
        !w@.fs.dom().contains(ofs_path(s@)) ==> r@.1 == w@,
        ofs_ok(s@) && w@.fs.dom().contains(ofs_path(s@)) ==> grown(ofs_path(s@), w@, r@.1) && total(r@.0, r@.1) == total(s@, w@) + t@,
        ofs_ok(s@) && usable(w@, ofs_path(s@)) ==> ofs_ok(r@.0)
{ unimplemented!() }
pub open spec fn flushed(s: ofstream, w: World, s2: ofstream, w2: World) -> bool {
    let p = ofs_path(s);
    ofs_path(s2) == p && (ofs_wait(s).len() == 0 || !w.fs.dom().contains(p) ==> w2 == w)
    && (w.fs.dom().contains(p) ==> grown(p, w, w2))
    && (ofs_ok(s) && usable(w, p) ==> ofs_wait(s2).len() == 0 && total(s2, w2) == total(s, w))
}
#[verifier::external_body]
pub fn ext_ofstream_close(w: Ghost<World>, s: Ghost<ofstream>) -> (r: Ghost<(ofstream, World)>)
    ensures flushed(s@, w@, r@.0, r@.1), ofs_wait(r@.0).len() == 0
{ unimplemented!() }
#[verifier::external_body]
pub fn ext_ofstream_drop_ofstream(w: Ghost<World>, s: Ghost<ofstream>) -> (r: Ghost<(ofstream, World)>)
    ensures flushed(s@, w@, r@.0, r@.1)
{ unimplemented!() }
#[verifier::external_body]
pub fn ext_ifstream_ifstream(w: Ghost<World>, p: Ghost<Seq<u8>>) -> (r: Ghost<(ifstream, World)>)
    ensures r@.1 == w@, ifs_path(r@.0) == p@, ifs_pos(r@.0) == 0, usable(w@, p@) ==> ifs_ok(r@.0)
{ unimplemented!() }
// seeking from the end
#[verifier::external_body]
pub fn ext_ifstream_seekg(w: Ghost<World>, s: Ghost<ifstream>, off: Ghost<int>, dir: Ghost<int>) -> (r: Ghost<(ifstream, World)>)
    requires dir@ == 2
    ensures r@.1 == w@, ifs_path(r@.0) == ifs_path(s@), !ifs_ok(s@) ==> !ifs_ok(r@.0),
        usable(w@, ifs_path(s@)) && ifs_ok(s@) ==> ({ let p = w@.fs[ifs_path(s@)].content.len() + off@;
            ifs_ok(r@.0) == (p >= 0) && (p >= 0 ==> ifs_pos(r@.0) == p) })
{ unimplemented!() }
// reads a character, or leaves the variable alone
#[verifier::external_body]
pub fn ext_ifstream_get(w: Ghost<World>, s: Ghost<ifstream>, c: Ghost<int>) -> (r: Ghost<(ifstream, int, World)>)
    ensures r@.2 == w@, ifs_path(r@.0) == ifs_path(s@), !ifs_ok(s@) ==> !ifs_ok(r@.0) && r@.1 == c@,
        ifs_ok(s@) && usable(w@, ifs_path(s@)) ==> ({ let t = w@.fs[ifs_path(s@)].content; let p = ifs_pos(s@);
            if 0 <= p < t.len() { r@.1 == t[p] as int && ifs_ok(r@.0) && ifs_pos(r@.0) == p + 1 } else { r@.1 == c@ && !ifs_ok(r@.0) } }),
        0 <= r@.1 < 256
{ unimplemented!() }
pub uninterp spec fn macro_value(c: InputMacroController, s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn macro_table() -> InputMacroController;
pub uninterp spec fn std_path() -> fcitx_StandardPath;
pub uninterp spec fn located(p: fcitx_StandardPath, t: int, f: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn user_dir(p: fcitx_StandardPath, t: int) -> Seq<u8>;
// makes one directory, when its parent is there and nothing fails
#[verifier::external_body]
pub fn ext_create_directory(w: Ghost<World>, p: Ghost<Seq<u8>>) -> (r: Ghost<(bool, int, World)>)
    ensures creatable(w@, p@) && !w@.fs.dom().contains(p@) ==> r@.0,
        w@.fs.dom().contains(p@) || !r@.0 ==> !r@.0 && r@.2 == w@,
        r@.0 ==> r@.2.fds == w@.fds && r@.2.maps == w@.maps && r@.2.healthy == w@.healthy && r@.2.fs.dom() =~= w@.fs.dom().insert(p@)
            && (forall|q: Seq<u8>| #![trigger r@.2.fs[q]] w@.fs.dom().contains(q) ==> r@.2.fs[q] == w@.fs[q]) && r@.2.fs[p@].dir
{ unimplemented!() }
// the user data directory, and what is kept in it
pub open spec fn the_dir() -> Seq<u8> { user_dir(std_path(), 3) }
pub open spec fn sub() -> Seq<u8> { seq![47u8, 109u8, 99u8, 98u8, 111u8, 112u8, 111u8, 109u8, 111u8, 102u8, 111u8] }
pub open spec fn user_file() -> Seq<u8> { seq![47u8, 100u8, 97u8, 116u8, 97u8, 46u8, 116u8, 120u8, 116u8] }
pub open spec fn excluded_file() -> Seq<u8> { seq![47u8, 101u8, 120u8, 99u8, 108u8, 117u8, 100u8, 101u8, 45u8, 112u8, 104u8, 114u8, 97u8, 115u8, 101u8, 115u8, 46u8, 116u8, 120u8, 116u8] }
pub proof fn lemma_in_dir(d: Seq<u8>, s: Seq<u8>)
    requires s.len() > 1, s[0] == 47, forall|i: int| 1 <= i < s.len() ==> #[trigger] s[i] != 47
    ensures in_dir(d + s, d)
{
    let n = s.subrange(1, s.len() as int);
    assert(d + s =~= d + seq![47u8] + n);
    assert forall|i: int| 0 <= i < n.len() implies n[i] != 47 by { assert(n[i] == s[i + 1]); }
    assert(!n.contains(47)) by { if n.contains(47) { let i = choose|i: int| 0 <= i < n.len() && n[i] == 47; } }
}
// a data directory is configured, it is there or can be made, and likewise the one in it
pub open spec fn setup_ok(w: World, d: Seq<u8>) -> bool {
    w.healthy && d.len() > 0 && (if w.fs.dom().contains(d) { w.fs[d].dir } else { creatable(w, d) && !w.fs.dom().contains(d + sub()) })
    && (w.fs.dom().contains(d + sub()) ==> w.fs[d + sub()].dir)
}
#[verifier::external_body]
pub fn ext_LocalizedStrings_userPhraseFileHeader(w: Ghost<World>, s: Ghost<LanguageModelLoader_LocalizedStrings>) -> (r: Ghost<(Seq<u8>, World)>)
    ensures r@.1 == w@
{ unimplemented!() }
#[verifier::external_body]
pub fn ext_LocalizedStrings_excludedPhraseFileHeader(w: Ghost<World>, s: Ghost<LanguageModelLoader_LocalizedStrings>) -> (r: Ghost<(Seq<u8>, World)>)
    ensures r@.1 == w@
{ unimplemented!() }
pub broadcast proof fn lemma_cpath(s: Seq<u8>)
    ensures #[trigger] cpath(It { buf: s + seq![0u8], off: 0, nil: false }) == s
{ assert((s + seq![0u8]).subrange(0, s.len() as int) =~= s); }
// the content after adding an entry: a line of its own
pub open spec fn added(c: Seq<u8>, reading: Seq<u8>, phrase: Seq<u8>) -> Seq<u8> {
    c + (if c.len() > 0 && c.last() != 10 { seq![10u8] } else { Seq::<u8>::empty() }) + phrase + seq![32u8] + reading + seq![10u8]
}
// ---- reloading ------------------------------------------------------------------------------
// the file is there and its time is not the recorded one
pub open spec fn changed(t: TimestampedPath, w: World) -> bool { present(t.path_, w) && t.timestamp_ != stamp(t.path_, w) }
pub open spec fn zpath(s: Seq<u8>) -> It<u8> { It { buf: s + seq![0u8], off: 0, nil: false } }
// every file change is noticed and recorded, exactly then the tables are loaded from the current files
pub open spec fn reloaded(a: LanguageModelLoader, b: LanguageModelLoader, w: World) -> bool {
    let (l, m) = (a.lm_->0, b.lm_->0);
    b.lm_ is Some
    && b.userPhrasesPath_.path_ == a.userPhrasesPath_.path_ && b.excludedPhrasesPath_.path_ == a.excludedPhrasesPath_.path_
    && b.phrasesReplacementPath_.path_ == a.phrasesReplacementPath_.path_
    && b.userPhrasesPath_.timestamp_ == (if present(a.userPhrasesPath_.path_, w) { stamp(a.userPhrasesPath_.path_, w) } else { a.userPhrasesPath_.timestamp_ })
    && b.excludedPhrasesPath_.timestamp_ == (if present(a.excludedPhrasesPath_.path_, w) { stamp(a.excludedPhrasesPath_.path_, w) } else { a.excludedPhrasesPath_.timestamp_ })
    && (changed(a.userPhrasesPath_, w) || changed(a.excludedPhrasesPath_, w) ==>
        served(m.userPhrases_.keyRowMap, zpath(a.userPhrasesPath_.path_), w) && served(m.excludedPhrases_.keyRowMap, zpath(a.excludedPhrasesPath_.path_), w))
    && (!changed(a.userPhrasesPath_, w) && !changed(a.excludedPhrasesPath_, w) ==> m.userPhrases_ == l.userPhrases_ && m.excludedPhrases_ == l.excludedPhrases_)
    && (changed(a.phrasesReplacementPath_, w) ==> m.phraseReplacementEnabled_ && rserved(m.phraseReplacement_.keyValueMap_, zpath(a.phrasesReplacementPath_.path_), w)
        && b.phrasesReplacementPath_.timestamp_ == stamp(a.phrasesReplacementPath_.path_, w))
    && (!changed(a.phrasesReplacementPath_, w) ==> m.phraseReplacement_ == l.phraseReplacement_
        && (present(a.phrasesReplacementPath_.path_, w) || a.phrasesReplacementPath_.path_.len() == 0 || !l.phraseReplacementEnabled_ ==>
            m.phraseReplacementEnabled_ == l.phraseReplacementEnabled_ && b.phrasesReplacementPath_ == a.phrasesReplacementPath_)
        && (a.phrasesReplacementPath_.path_.len() > 0 && !present(a.phrasesReplacementPath_.path_, w) ==> !m.phraseReplacementEnabled_
            && (l.phraseReplacementEnabled_ ==> b.phrasesReplacementPath_.timestamp_ == 0)))
}

@fn LanguageModelLoader_reloadUserModelsIfNeeded
@opt world
@requires
- this.lm_ is Some && files_ok(this.lm_->0, w)
@ensures
- w_post.fs == w.fs && w_post.healthy == w.healthy
- this_post.lm_ is Some && files_ok(this_post.lm_->0, w_post)
- reloaded(this, this_post, w)

@fn LanguageModelLoader_addUserPhrase
@opt world
@requires
- this.lm_ is Some && files_ok(this.lm_->0, w)
@ensures
- !present(this.userPhrasesPath_.path_, w) ==> this_post == this && w_post == w
- present(this.userPhrasesPath_.path_, w) ==> w_post.fs.dom() =~= w.fs.dom() && w_post.fs[this.userPhrasesPath_.path_].content.len() >= w.fs[this.userPhrasesPath_.path_].content.len()
    && w_post.fs[this.userPhrasesPath_.path_].content.subrange(0, w.fs[this.userPhrasesPath_.path_].content.len() as int) =~= w.fs[this.userPhrasesPath_.path_].content
    && forall|q: Seq<u8>| #![trigger w_post.fs[q]] q != this.userPhrasesPath_.path_ && w.fs.dom().contains(q) ==> w_post.fs[q] == w.fs[q]
- present(this.userPhrasesPath_.path_, w) && usable(w, this.userPhrasesPath_.path_) ==>
    w_post.fs[this.userPhrasesPath_.path_].content =~= added(w.fs[this.userPhrasesPath_.path_].content, reading, phrase)
- present(this.userPhrasesPath_.path_, w) ==> reloaded(this, this_post, w_post)
- this_post.lm_ is Some && files_ok(this_post.lm_->0, w_post)

@fn LanguageModelLoader_populateUserDataFilesIfNeeded
@opt world
@requires
- this.localizedStrings_ is Some
@ensures
- this_post.lm_ == this.lm_ && this_post.userPhrasesPath_ == this.userPhrasesPath_ && this_post.excludedPhrasesPath_ == this.excludedPhrasesPath_ && this_post.phrasesReplacementPath_ == this.phrasesReplacementPath_
- w_post.fds == w.fds && w_post.maps == w.maps && w_post.healthy == w.healthy
- forall|q: Seq<u8>| #![trigger w_post.fs[q]] #![trigger w_post.fs.dom().contains(q)] w.fs.dom().contains(q) ==> w_post.fs.dom().contains(q) && w_post.fs[q] == w.fs[q]
- this.userPhrasesPath_.path_.len() > 0 && creatable(w, this.userPhrasesPath_.path_) ==> w_post.fs.dom().contains(this.userPhrasesPath_.path_)
- this.excludedPhrasesPath_.path_.len() > 0 && creatable(w, this.excludedPhrasesPath_.path_) ==> w_post.fs.dom().contains(this.excludedPhrasesPath_.path_)
@fn LanguageModelLoader_ctor
@opt world
@requires
- localizedStrings is Some
@ensures
- forall|q: Seq<u8>| #![trigger w_post.fs[q]] #![trigger w_post.fs.dom().contains(q)] w.fs.dom().contains(q) ==> w_post.fs.dom().contains(q) && w_post.fs[q] == w.fs[q]
- ret.lm_ is Some && files_ok(ret.lm_->0, w_post)
- setup_ok(w, the_dir()) ==> ret.userPhrasesPath_.path_ =~= the_dir() + sub() + user_file() && w_post.fs.dom().contains(ret.userPhrasesPath_.path_)
- setup_ok(w, the_dir()) ==> ret.excludedPhrasesPath_.path_ =~= the_dir() + sub() + excluded_file() && w_post.fs.dom().contains(ret.excludedPhrasesPath_.path_)
- setup_ok(w, the_dir()) ==> served(ret.lm_->0.userPhrases_.keyRowMap, zpath(ret.userPhrasesPath_.path_), w_post)
    || stamp(ret.userPhrasesPath_.path_, w_post) == 0 && stamp(ret.excludedPhrasesPath_.path_, w_post) == 0
@at entry
lemma_in_dir(the_dir(), sub());
lemma_in_dir(the_dir() + sub(), user_file());
lemma_in_dir(the_dir() + sub(), excluded_file());
assert(the_dir() + sub() + seq![47u8] + seq![100u8, 97u8, 116u8, 97u8, 46u8, 116u8, 120u8, 116u8] =~= the_dir() + sub() + user_file());
assert(the_dir() + sub() + seq![47u8] + seq![101u8, 120u8, 99u8, 108u8, 117u8, 100u8, 101u8, 45u8, 112u8, 104u8, 114u8, 97u8, 115u8, 101u8, 115u8, 46u8, 116u8, 120u8, 116u8] =~= the_dir() + sub() + excluded_file());

@post
// ---- the entry written is the one read back, and nothing else changes ---------------------------
pub open spec fn clean(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] != 0 }
pub open spec fn word(s: Seq<u8>) -> bool { s.len() > 0 && clean(s) && forall|i: int| 0 <= i < s.len() ==> is_content(#[trigger] s[i] as int) }
pub open spec fn reads_to_end(b: Seq<u8>, p: int) -> bool
    decreases b.len() - p
{
    match entry(b, p) {
        Entry::Error => false, Entry::End => true,
        Entry::Pair { k0, k1, v0, v1, next } => p < next <= b.len() && reads_to_end(b, next),
    }
}
pub open spec fn sep(c: Seq<u8>) -> Seq<u8> { if c.len() > 0 && c.last() != 10 { seq![10u8] } else { Seq::<u8>::empty() } }
pub proof fn lemma_scan_app(b: Seq<u8>, t: Seq<u8>, p: int, stop: spec_fn(int) -> bool)
    requires 0 <= p <= b.len(), clean(b)
    ensures scan(b, p, stop) < b.len() ==> scan(b + t, p, stop) == scan(b, p, stop),
        scan(b, p, stop) >= b.len() ==> scan(b, p, stop) == b.len() && scan(b + t, p, stop) == scan(b + t, b.len() as int, stop),
    decreases b.len() - p
{
    if p < b.len() {
        assert((b + t)[p] == b[p]);
        if stop(b[p] as int) { } else { lemma_scan_app(b, t, p + 1, stop); }
    }
}
pub proof fn lemma_scan_stop(b: Seq<u8>, p: int, stop: spec_fn(int) -> bool)
    requires 0 <= p <= b.len(), at_end(b, p) || stop(b[p] as int)
    ensures scan(b, p, stop) == p
{ }
// a stop byte at the end of the text is always found
pub proof fn lemma_scan_last(b: Seq<u8>, p: int, stop: spec_fn(int) -> bool)
    requires 0 <= p < b.len(), clean(b), stop(b.last() as int)
    ensures scan(b, p, stop) < b.len()
    decreases b.len() - p
{ if stop(b[p] as int) { } else { lemma_scan_last(b, p + 1, stop); } }
// what follows after a line break (or from a line start) does not change the entries before it
pub proof fn lemma_entry_app(b: Seq<u8>, t: Seq<u8>, p: int)
    requires 0 <= p <= b.len(), clean(b), t.len() > 0, b.len() == 0 || b.last() == 10 || t[0] == 10
    ensures
        entry(b, p) is Pair ==> entry(b + t, p) == entry(b, p),
        entry(b, p) is End ==> entry(b + t, p) == entry(b + t, b.len() as int),
    decreases b.len() - p
{
    broadcast use lemma_scan_ext;
    let b2 = b + t;
    let n = b.len() as int;
    assert(b2[n] == t[0]);
    let fc = |c: int| is_content(c);
    let fn_ = |c: int| is_nl(c);
    let fx = |c: int| !is_content(c);
    let fb = |c: int| !is_bl(c);
    lemma_scan(b, p, fc); lemma_scan_app(b, t, p, fc); lemma_scan(b2, n, fc);
    let q = scan(b, p, fc);
    if q == n { return; }
    assert(b2[q] == b[q]);
    if b[q] == 35 {
        lemma_scan(b, q, fn_); lemma_scan_app(b, t, q, fn_); lemma_entry_step(b, p); lemma_entry_step(b2, p);
        let r = scan(b, q, fn_);
        if r == n {
            if b.last() == 10 { lemma_scan_last(b, q, fn_); }
            lemma_scan_stop(b2, n, fn_);
            assert(scan(b2, q, fn_) == n);
        } else {
            lemma_entry_app(b, t, r);
        }
        return;
    }
    lemma_scan(b, q, fx); lemma_scan_app(b, t, q, fx);
    let k1 = scan(b, q, fx);
    if k1 == n || !is_bl(b[k1] as int) { return; }
    assert(b2[k1] == b[k1]);
    lemma_scan(b, k1, fb); lemma_scan_app(b, t, k1, fb);
    let v0 = scan(b, k1, fb);
    if v0 == n || !is_content(b[v0] as int) { return; }
    assert(b2[v0] == b[v0]);
    lemma_scan(b, v0, fx); lemma_scan_app(b, t, v0, fx);
    let v1 = scan(b, v0, fx);
    lemma_scan(b, v1, fn_); lemma_scan_app(b, t, v1, fn_);
    if b.last() == 10 { lemma_scan_last(b, v0, fx); lemma_scan_last(b, v1, fn_); }
    else { lemma_scan_stop(b2, n, fx); lemma_scan_stop(b2, n, fn_); }
}
pub proof fn lemma_new_entry(c: Seq<u8>, r: Seq<u8>, ph: Seq<u8>)
    requires clean(c), word(r), word(ph), ph[0] != 35
    ensures ({ let b2 = added(c, r, ph); let k0 = (c.len() + sep(c).len()) as int; let k1 = k0 + ph.len(); let v0 = k1 + 1; let v1 = v0 + r.len();
        entry(b2, c.len() as int) == (Entry::Pair { k0: k0, k1: k1, v0: v0, v1: v1, next: v1 }) && entry(b2, v1) is End && v1 < b2.len()
        && b2.subrange(k0, k1) =~= ph && b2.subrange(v0, v1) =~= r })
{
    broadcast use lemma_scan_ext;
    let b2 = added(c, r, ph);
    let n = c.len() as int;
    let k0 = n + sep(c).len(); let k1 = k0 + ph.len(); let v0 = k1 + 1; let v1 = v0 + r.len();
    assert(forall|i: int| k0 <= i < k1 ==> b2[i] == #[trigger] ph[i - k0]);
    assert(forall|i: int| v0 <= i < v1 ==> b2[i] == #[trigger] r[i - v0]);
    assert(forall|i: int| k0 <= i < k1 ==> #[trigger] b2[i] != 0 && is_content(b2[i] as int)) by { assert forall|i: int| k0 <= i < k1 implies #[trigger] b2[i] != 0 && is_content(b2[i] as int) by { assert(b2[i] == ph[i - k0]); } }
    assert(forall|i: int| v0 <= i < v1 ==> #[trigger] b2[i] != 0 && is_content(b2[i] as int)) by { assert forall|i: int| v0 <= i < v1 implies #[trigger] b2[i] != 0 && is_content(b2[i] as int) by { assert(b2[i] == r[i - v0]); } }
    assert(b2[k1] == 32 && b2[v1] == 10 && b2.len() == v1 + 1);
    if k0 > n { assert(b2[n] == 10); }
    assert(b2[k0] == ph[0]);
    assert(b2[v0] == r[0]);
    lemma_scan_is(b2, n, k0, |x: int| is_content(x));
    lemma_scan_is(b2, k0, k1, |x: int| !is_content(x));
    lemma_scan_is(b2, k1, v0, |x: int| !is_bl(x));
    lemma_scan_is(b2, v0, v1, |x: int| !is_content(x));
    lemma_scan_is(b2, v1, v1, |x: int| is_nl(x));
    lemma_scan_is(b2, v1, v1 + 1, |x: int| is_content(x));
    assert(b2.subrange(k0, k1) =~= ph);
    assert(b2.subrange(v0, v1) =~= r);
}
pub proof fn lemma_added_rows(c: Seq<u8>, r: Seq<u8>, ph: Seq<u8>, p: int, x: Seq<u8>)
    requires 0 <= p <= c.len(), clean(c), word(r), word(ph), ph[0] != 35, reads_to_end(c, p)
    ensures rows(added(c, r, ph), p, x) =~= rows(c, p, x) + (if x == r { seq![ph] } else { Seq::<Seq<u8>>::empty() }),
        reads_to_end(added(c, r, ph), p),
    decreases c.len() - p
{
    let b2 = added(c, r, ph);
    let t = sep(c) + ph + seq![32u8] + r + seq![10u8];
    assert(c + t =~= b2);
    assert(sep(c).len() == 0 ==> t[0] == ph[0]);
    lemma_entry_app(c, t, p);
    match entry(c, p) {
        Entry::Pair { k0, k1, v0, v1, next } => {
            lemma_entry(c, p);
            assert(b2.subrange(k0, k1) =~= c.subrange(k0, k1));
            assert(b2.subrange(v0, v1) =~= c.subrange(v0, v1));
            lemma_added_rows(c, r, ph, next, x);
        },
        _ => {
            lemma_new_entry(c, r, ph);
            let v1 = (c.len() + sep(c).len() + ph.len() + 1 + r.len()) as int;
            assert(rows(b2, v1, x) =~= Seq::<Seq<u8>>::empty());
            assert(reads_to_end(b2, v1));
        },
    }
}
// the table of the new content: every reading keeps its phrases in order, the one added to has the phrase at the end
pub proof fn lemma_added_table(c: Seq<u8>, r: Seq<u8>, ph: Seq<u8>, x: Seq<u8>)
    requires clean(c), word(r), word(ph), ph[0] != 35, reads_to_end(c, 0)
    ensures get_rows(user_table(added(c, r, ph)), x) =~= get_rows(user_table(c), x) + (if x == r { seq![ph] } else { Seq::<Seq<u8>>::empty() }),
        reads_to_end(added(c, r, ph), 0), clean(added(c, r, ph)),
{
    lemma_added_rows(c, r, ph, 0, x);
    lemma_user_table_exact(c, x);
    lemma_user_table_exact(added(c, r, ph), x);
}
