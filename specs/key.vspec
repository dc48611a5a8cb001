@use grid
@use walk
@use learn
@use utf8
@use layouts
@use assoc
@use numbers
@source src/KeyHandler.cpp McBopomofo
@poly McBopomofo::InputState
@opaque McBopomofo::InputStates::SelectingFeature
@opaque McBopomofo::InputStates::SelectingDateMacro
@opaque McBopomofo::KeyHandler::LocalizedStrings
@opaque McBopomofo::UserPhraseAdder
@opaque McBopomofo::DictionaryServices
@opaque McBopomofo::McBopomofoLM
@extern LocalizedStrings::cursorIsBetweenSyllables(McBopomofo::KeyHandler::LocalizedStrings, std::string, std::string) -> std::string = ls_between($0, $1, $2)
@extern LocalizedStrings::syllablesRequired(McBopomofo::KeyHandler::LocalizedStrings, size_t) -> std::string = ls_required($0, $1)
@extern LocalizedStrings::syllablesMaximum(McBopomofo::KeyHandler::LocalizedStrings, size_t) -> std::string = ls_maximum($0, $1)
@extern LocalizedStrings::phraseAlreadyExists(McBopomofo::KeyHandler::LocalizedStrings) -> std::string = ls_exists($0)
@extern LocalizedStrings::pressEnterToAddThePhrase(McBopomofo::KeyHandler::LocalizedStrings) -> std::string = ls_press($0)
@extern LocalizedStrings::markedWithSyllablesAndStatus(McBopomofo::KeyHandler::LocalizedStrings, std::string, std::string, std::string) -> std::string = ls_marked($0, $1, $2, $3)
@extern dynamic_cast_McBopomofoLM(Formosa::Gramambular2::LanguageModel *) -> McBopomofo::McBopomofoLM * = lm_as_mc($0)
@extern McBopomofoLM::findAssociatedPhrasesV2(McBopomofo::McBopomofoLM, std::string, std::vector<std::string>) -> std::vector<McBopomofo::AssociatedPhrasesV2::Phrase> = lm_phrases($0, $1, $2)
@extern InputStates_SelectingFeature::InputStates_SelectingFeature(_) -> McBopomofo::InputStates::SelectingFeature = feature_menu()
@extern GetKeyboardLayoutName(Formosa::Mandarin::BopomofoKeyboardLayout *) -> std::string = layout_name($0)
@extern GetEpochNowInSeconds() -> double
@extern world UserPhraseAdder::addUserPhrase(McBopomofo::UserPhraseAdder, std::string, std::string) -> void
@extern world call_str(std::string) -> void
@extern world reenter_SelectCurrentCandidateCallback() -> void
@extern DictionaryServices::DictionaryServices() -> McBopomofo::DictionaryServices = no_services()
@extern world DictionaryServices::lookup(McBopomofo::DictionaryServices, std::string, size_t, McBopomofo::InputState *, =>std::unique_ptr<McBopomofo::InputState>) -> void
@extern DictionaryServices::load(&McBopomofo::DictionaryServices) -> void
@extern DictionaryServices::hasServices(McBopomofo::DictionaryServices) -> bool = any_services($0)
@extern DictionaryServices::menuForPhrase(McBopomofo::DictionaryServices, std::string) -> std::vector<std::string> = menu_for($0, $1)
@extern world call_InputState(std::unique_ptr<McBopomofo::InputState>) -> void
@extern world call_() -> void
@prelude
// the states entered so far, oldest first, and how often an error was signalled
pub struct World { pub entered: Seq<Option<InputState>>, pub errors: int, pub added: Seq<(Seq<u8>, Seq<u8>)>, pub said: Seq<Seq<u8>> }
// said: the texts committed so far
pub open spec fn says(s: Option<InputState>, said: Seq<Seq<u8>>) -> Seq<Seq<u8>> { match s { Some(InputState::Committing(c)) => said.push(c.text), _ => said } }
#[verifier::external_body]
pub fn ext_call_InputState(w: Ghost<World>, s: Ghost<Option<InputState>>) -> (r: Ghost<World>) ensures r@ == (World { entered: w@.entered.push(s@), said: says(s@, w@.said), ..w@ }) { unimplemented!() }
#[verifier::external_body]
pub fn ext_call_(w: Ghost<World>) -> (r: Ghost<World>) ensures r@ == (World { errors: w@.errors + 1, ..w@ }) { unimplemented!() }
#[verifier::external_body]
pub fn ext_GetEpochNowInSeconds() -> (r: Ghost<Dbl>) { unimplemented!() }
#[verifier::external_body]
pub fn ext_UserPhraseAdder_addUserPhrase(w: Ghost<World>, a: Ghost<UserPhraseAdder>, r: Ghost<Seq<u8>>, p: Ghost<Seq<u8>>) -> (r2: Ghost<World>) ensures r2@ == (World { added: w@.added.push((r@, p@)), ..w@ }) { unimplemented!() }
#[verifier::external_body]
pub fn ext_call_str(w: Ghost<World>, p: Ghost<Seq<u8>>) -> (r: Ghost<World>) ensures r@ == w@ { unimplemented!() }
// a service leaves for the empty state, or shows information while the buffer stays as it is, or does nothing
pub open spec fn leads_to(s: Option<InputState>, n: Option<InputState>) -> bool {
    n == Some(InputState::Empty(InputStates_Empty { })) ||
    (n.is_some() && n->0 is ShowingCharInfo && s.is_some() && is_InputStates_NotEmpty(s->0) && InputStates_NotEmpty_composingBuffer(n->0) == InputStates_NotEmpty_composingBuffer(s->0)
     && InputStates_NotEmpty_cursorIndex(n->0) == InputStates_NotEmpty_cursorIndex(s->0))
}
#[verifier::external_body]
pub fn ext_DictionaryServices_lookup(w: Ghost<World>, d: Ghost<DictionaryServices>, p: Ghost<Seq<u8>>, i: Ghost<int>, s: Ghost<Option<InputState>>) -> (r: Ghost<(World, Option<Option<InputState>>)>)
    ensures r@.0 == w@, r@.1.is_some() ==> leads_to(s@, r@.1->0) { unimplemented!() }
// the front end selects the current candidate: it calls candidateSelected or candidateAssociatedPhraseSelected, which are proved to keep the invariant
#[verifier::external_body]
pub fn ext_reenter_SelectCurrentCandidateCallback(h: Ghost<Heap>, w: Ghost<World>, k: Ghost<KeyHandler>) -> (r: Ghost<(Heap, World, KeyHandler)>)
    requires kh(h@, k@)
    ensures kh(r@.0, r@.2), longer_log(w@, r@.1), r@.2.inputMode_ == k@.inputMode_ { unimplemented!() }
pub uninterp spec fn menu_for(d: DictionaryServices, p: Seq<u8>) -> Seq<Seq<u8>>;
pub uninterp spec fn layout_name(l: Option<BopomofoKeyboardLayout>) -> Seq<u8>;
pub uninterp spec fn feature_menu() -> InputStates_SelectingFeature;
pub uninterp spec fn lm_as_mc(m: Option<LanguageModel>) -> Option<McBopomofoLM>;
pub uninterp spec fn lm_phrases(m: McBopomofoLM, v: Seq<u8>, rs: Seq<Seq<u8>>) -> Seq<AssociatedPhrasesV2_Phrase>;
pub uninterp spec fn ls_between(l: KeyHandler_LocalizedStrings, a: Seq<u8>, b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn ls_required(l: KeyHandler_LocalizedStrings, n: int) -> Seq<u8>;
pub uninterp spec fn ls_maximum(l: KeyHandler_LocalizedStrings, n: int) -> Seq<u8>;
pub uninterp spec fn ls_exists(l: KeyHandler_LocalizedStrings) -> Seq<u8>;
pub uninterp spec fn ls_press(l: KeyHandler_LocalizedStrings) -> Seq<u8>;
pub uninterp spec fn ls_marked(l: KeyHandler_LocalizedStrings, m: Seq<u8>, r: Seq<u8>, s: Seq<u8>) -> Seq<u8>;
// ---- the converted sentence and where a cursor cuts it --------------------------------------------
pub open spec fn val(h: Heap, ns: Seq<int>, i: int) -> Seq<u8> { now(h[ns[i]]).value_ }
pub open spec fn sentence(h: Heap, ns: Seq<int>, m: int) -> Seq<u8>
    decreases m
{ if m <= 0 { Seq::empty() } else { sentence(h, ns, m - 1) + val(h, ns, m - 1) } }
// the part of node i that lies before the cursor: all, nothing, or as many whole characters as readings
pub open spec fn part(h: Heap, ns: Seq<int>, c: int, i: int) -> int {
    let v = val(h, ns, i); let a = upto(h, ns, i);
    if upto(h, ns, i + 1) <= c { v.len() as int } else if a >= c { 0 } else { start(v, 0, c - a) }
}
pub open spec fn cut(h: Heap, ns: Seq<int>, c: int, m: int) -> int
    decreases m
{ if m <= 0 { 0 } else { cut(h, ns, c, m - 1) + part(h, ns, c, m - 1) } }
pub open spec fn nodes_ok(h: Heap, ns: Seq<int>) -> bool { forall|i: int| 0 <= i < ns.len() ==> sound(h, #[trigger] ns[i]) }
pub proof fn lemma_start_range(s: Seq<u8>, i: int, k: int)
    requires 0 <= i <= s.len()
    ensures i <= start(s, i, k) <= s.len()
    decreases k
{ lemma_u8len(s, i); if k > 0 && u8len(s, i) > 0 { lemma_start_range(s, i + u8len(s, i), k - 1); } }
pub proof fn lemma_start_mono(s: Seq<u8>, i: int, k: int, l: int)
    requires 0 <= i <= s.len(), k <= l
    ensures start(s, i, k) <= start(s, i, l)
    decreases l
{ lemma_u8len(s, i); lemma_start_range(s, i, l); if k > 0 && u8len(s, i) > 0 { lemma_start_mono(s, i + u8len(s, i), k - 1, l - 1); } }
pub proof fn lemma_start_all(s: Seq<u8>, i: int, k: int)
    requires 0 <= i <= s.len(), k >= pieces(s, i).len()
    ensures start(s, i, k) == start(s, i, pieces(s, i).len() as int)
    decreases s.len() - i
{ lemma_u8len(s, i); if u8len(s, i) > 0 { assert(pieces(s, i).len() == 1 + pieces(s, i + u8len(s, i)).len()); lemma_start_all(s, i + u8len(s, i), k - 1); } }
pub proof fn lemma_part(h: Heap, ns: Seq<int>, c: int, i: int)
    ensures 0 <= part(h, ns, c, i) <= val(h, ns, i).len()
{ lemma_start_range(val(h, ns, i), 0, c - upto(h, ns, i)); }
pub proof fn lemma_cut(h: Heap, ns: Seq<int>, c: int, m: int)
    requires 0 <= m <= ns.len()
    ensures 0 <= cut(h, ns, c, m) <= sentence(h, ns, m).len()
    decreases m
{ if m > 0 { lemma_cut(h, ns, c, m - 1); lemma_part(h, ns, c, m - 1); } }
pub proof fn lemma_cut_mono(h: Heap, ns: Seq<int>, c: int, d: int, m: int)
    requires c <= d, nodes_ok(h, ns), 0 <= m <= ns.len()
    ensures cut(h, ns, c, m) <= cut(h, ns, d, m)
    decreases m
{ if m > 0 { lemma_cut_mono(h, ns, c, d, m - 1); lemma_part(h, ns, c, m - 1); lemma_part(h, ns, d, m - 1); lemma_start_mono(val(h, ns, m - 1), 0, c - upto(h, ns, m - 1), d - upto(h, ns, m - 1)); } }
pub open spec fn whole(h: Heap, k: KeyHandler) -> Seq<u8> { sentence(h, k.latestWalk_.nodes, k.latestWalk_.nodes.len() as int) }
pub open spec fn cutat(h: Heap, k: KeyHandler, c: int) -> int { cut(h, k.latestWalk_.nodes, c, k.latestWalk_.nodes.len() as int) }
pub open spec fn head(h: Heap, k: KeyHandler, c: int) -> Seq<u8> { whole(h, k).subrange(0, cutat(h, k, c)) }
pub open spec fn tail(h: Heap, k: KeyHandler, c: int) -> Seq<u8> { whole(h, k).subrange(cutat(h, k, c), whole(h, k).len() as int) }
// with no reading being typed the buffer is the converted sentence
pub proof fn lemma_quiet(h: Heap, k: KeyHandler)
    requires kh(h, k), k.reading_.syllable_.syllable_ == 0
    ensures buffer(h, k) =~= whole(h, k)
{ lemma_cut(h, k.latestWalk_.nodes, k.grid_.cursor_, k.latestWalk_.nodes.len() as int); reveal(con); reveal(med); reveal(vow); reveal(ton); assert(text(0).len() == 0); assert(rd(k.reading_).len() == 0); }
// the position in bytes after n characters; a cut of well-formed texts lies on such a position
pub open spec fn wf(s: Seq<u8>) -> bool { start(s, 0, pieces(s, 0).len() as int) == s.len() }
pub open spec fn boundary(s: Seq<u8>, c: int) -> bool { exists|n: int| 0 <= n && #[trigger] start(s, 0, n) == c }
pub proof fn lemma_cat_at(a: Seq<u8>, b: Seq<u8>, i: int, n: int)
    requires 0 <= i <= a.len(), 0 <= n <= pieces(a, i).len()
    ensures start(a + b, i, n) == start(a, i, n)
    decreases n
{
    if n > 0 { lemma_u8len(a, i); assert(u8len(a, i) > 0); assert forall|q: int| i <= q < a.len() implies at(a + b, q) == at(a, q) by { }
        assert(u8len(a + b, i) == u8len(a, i)); lemma_cat_at(a, b, i + u8len(a, i), n - 1); }
}
pub proof fn lemma_shift(a: Seq<u8>, b: Seq<u8>, i: int, n: int)
    requires 0 <= i <= b.len(), 0 <= n
    ensures start(a + b, a.len() + i, n) == a.len() + start(b, i, n)
    decreases n
{
    lemma_u8len(b, i);
    assert forall|q: int| i <= q implies at(a + b, a.len() + q) == at(b, q) by { if q < b.len() { assert((a + b)[a.len() + q] == b[q]); } }
    assert(u8len(a + b, a.len() + i) == u8len(b, i)) by { assert(at(a + b, a.len() + i) == at(b, i)); assert(at(a + b, a.len() + (i + 1)) == at(b, i + 1)); assert(at(a + b, a.len() + (i + 2)) == at(b, i + 2)); assert(at(a + b, a.len() + (i + 3)) == at(b, i + 3)); }
    if n > 0 && u8len(b, i) > 0 { lemma_shift(a, b, i + u8len(b, i), n - 1); }
}
pub proof fn lemma_start_add(s: Seq<u8>, i: int, n: int, m: int)
    requires 0 <= i, 0 <= n, 0 <= m
    ensures start(s, i, n + m) == start(s, start(s, i, n), m)
    decreases m
{ if m > 0 { lemma_start_add(s, i, n, m - 1); lemma_start_step(s, i, n + m - 1); lemma_start_range2(s, i, n); lemma_start_step(s, start(s, i, n), m - 1); } }
pub proof fn lemma_start_range2(s: Seq<u8>, i: int, k: int)
    requires 0 <= i
    ensures i <= start(s, i, k)
    decreases k
{ lemma_u8len(s, i); if k > 0 && u8len(s, i) > 0 { lemma_start_range2(s, i + u8len(s, i), k - 1); } }
// a boundary of the second text, after a well-formed first one
pub proof fn lemma_cat(a: Seq<u8>, b: Seq<u8>, n: int)
    requires wf(a), 0 <= n
    ensures start(a + b, 0, pieces(a, 0).len() + n) == a.len() + start(b, 0, n)
{ lemma_cat_at(a, b, 0, pieces(a, 0).len() as int); lemma_start_add(a + b, 0, pieces(a, 0).len() as int, n); lemma_shift(a, b, 0, n); }
pub proof fn lemma_wf_count(s: Seq<u8>, n: int)
    requires 0 <= n, start(s, 0, n) == s.len()
    ensures wf(s)
{ lemma_join(s, 0); let p = pieces(s, 0).len() as int; if n >= p { lemma_start_all(s, 0, n); } else { lemma_start_mono(s, 0, n, p); lemma_start_range(s, 0, p); } }
// C15: every cut of the sentence falls on a character boundary
pub proof fn lemma_cut_boundary(h: Heap, ns: Seq<int>, c: int, m: int)
    requires nodes_ok(h, ns), 0 <= m <= ns.len(), forall|i: int| 0 <= i < ns.len() ==> wf(#[trigger] val(h, ns, i))
    ensures boundary(sentence(h, ns, m), cut(h, ns, c, m)), wf(sentence(h, ns, m))
    decreases m
{
    if m <= 0 { assert(start(sentence(h, ns, 0), 0, 0) == 0); lemma_wf_count(sentence(h, ns, 0), 0); } else {
        let s = sentence(h, ns, m - 1); let v = val(h, ns, m - 1);
        lemma_cut_boundary(h, ns, c, m - 1);
        lemma_cat(s, v, pieces(v, 0).len() as int);
        assert((s + v).len() == s.len() + v.len());
        lemma_wf_count(s + v, pieces(s, 0).len() as int + pieces(v, 0).len() as int);
        let n = choose|n: int| 0 <= n && #[trigger] start(s, 0, n) == cut(h, ns, c, m - 1);
        if upto(h, ns, m) <= c {
            lemma_cut_full(h, ns, c, m);
            assert(start(s + v, 0, pieces(s, 0).len() as int + pieces(v, 0).len() as int) == cut(h, ns, c, m));
        } else if upto(h, ns, m - 1) >= c {
            let n2 = if n <= pieces(s, 0).len() { n } else { pieces(s, 0).len() as int };
            if n > pieces(s, 0).len() { lemma_start_all(s, 0, n); }
            lemma_cat_at(s, v, 0, n2);
            assert(start(s + v, 0, n2) == cut(h, ns, c, m));
        } else {
            lemma_cut_full(h, ns, c, m - 1);
            lemma_cat(s, v, c - upto(h, ns, m - 1));
            assert(start(s + v, 0, pieces(s, 0).len() + (c - upto(h, ns, m - 1))) == cut(h, ns, c, m));
        }
    }
}
pub proof fn lemma_cut_full(h: Heap, ns: Seq<int>, c: int, m: int)
    requires nodes_ok(h, ns), 0 <= m <= ns.len(), upto(h, ns, m) <= c
    ensures cut(h, ns, c, m) == sentence(h, ns, m).len()
    decreases m
{ if m > 0 { lemma_upto(h, ns, m - 1, m); lemma_cut_full(h, ns, c, m - 1); } }
// ---- the language model, as far as the handler relies on it (C13 proves it of the real one) -----------
pub open spec fn finite_scores(us: Seq<LanguageModel_Unigram>) -> bool { forall|i: int| 0 <= i < us.len() ==> fin((#[trigger] us[i]).score_) }
pub uninterp spec fn no_services() -> DictionaryServices;
pub uninterp spec fn any_services(d: DictionaryServices) -> bool;
#[verifier::external_body]
pub fn ext_DictionaryServices_load(d: Ghost<DictionaryServices>) -> (r: Ghost<DictionaryServices>) { unimplemented!() }
pub open spec fn lm_good(m: LanguageModel) -> bool { (forall|r: Seq<u8>| #[trigger] lm_has(m, r) ==> lm_get(m, r).len() > 0) && (forall|r: Seq<u8>| finite_scores(#[trigger] lm_get(m, r))) && lm_has(m, seq![32u8]) && phrases_good(m) }
// C14: a phrase found for a prefix starts with it
pub open spec fn phrases_good(m: LanguageModel) -> bool { forall|v: Seq<u8>, rs: Seq<Seq<u8>>, i: int| lm_as_mc(Some(m)).is_some() && 0 <= i < lm_phrases(lm_as_mc(Some(m))->0, v, rs).len() ==> (#[trigger] lm_phrases(lm_as_mc(Some(m))->0, v, rs)[i]).value.len() >= v.len() }
// ---- what always holds -----------------------------------------------------------------------------
pub open spec fn walked(h: Heap, k: KeyHandler) -> bool { laid(h, k.latestWalk_) && k.latestWalk_.totalReadings == k.grid_.readings_.len() && 0 <= k.grid_.cursor_ <= k.grid_.readings_.len() && k.localizedStrings_.is_some() }
pub open spec fn set_up(k: KeyHandler) -> bool {
    buf_ok(k.reading_) && k.reading_.layout_.is_some() && uom_ok(k.userOverrideModel_) && k.localizedStrings_.is_some() && k.userPhraseAdder_.is_some() && k.dictionaryServices_.is_some() && k.onAddNewPhrase_.is_some()
    && k.lm_.is_some() && k.grid_.lm_.lm_ == k.lm_ && k.grid_.separator_ =~= seq![45u8] && arith() && fin(dlit(42)) && lm_good(k.lm_->0)
}
// the grid is consistent; before the walk is redone the last result may be about other readings
pub open spec fn ready(h: Heap, k: KeyHandler) -> bool { set_up(k) && grid_ok(h, k.grid_) && heard(k.grid_) && voiced(k.grid_) }
pub open spec fn voiced(g: ReadingGrid) -> bool { forall|i: int| 0 <= i < g.readings_.len() ==> (#[trigger] g.readings_[i]).len() > 0 }
// the grid, and a conversion that covers exactly its readings
pub open spec fn core(h: Heap, g: ReadingGrid, r: ReadingGrid_WalkResult) -> bool { grid_ok(h, g) && heard(g) && voiced(g) && laid(h, r) && r.totalReadings == g.readings_.len() && 0 <= g.cursor_ <= g.readings_.len() && tiles(h, g, r.nodes, 0) }
pub open spec fn kh(h: Heap, k: KeyHandler) -> bool { set_up(k) && core(h, k.grid_, k.latestWalk_) }
pub open spec fn live(k: KeyHandler) -> bool { k.grid_.readings_.len() > 0 || k.reading_.syllable_.syllable_ != 0 }
pub proof fn lemma_tiled(h: Heap, g: ReadingGrid, ns: Seq<int>, from: int)
    requires grid_ok(h, g), tiles(h, g, ns, from)
    ensures nodes_ok(h, ns), upto(h, ns, ns.len() as int) + from == g.readings_.len()
    decreases ns.len()
{
    if ns.len() > 0 {
        let l = h[ns[0]].spanningLength_; let r = ns.drop_first();
        assert(placed(h, g, from, l)) by { assert(node_at(g.spans_, from, l) == ns[0]); }
        lemma_tiled(h, g, r, from + l);
        assert forall|i: int| 0 <= i < ns.len() implies sound(h, #[trigger] ns[i]) by { if i > 0 { assert(sound(h, r[i - 1])); } }
        lemma_upto_shift(h, ns, r.len() as int);
    }
}
pub proof fn lemma_upto_shift(h: Heap, ns: Seq<int>, i: int)
    requires 0 <= i < ns.len()
    ensures upto(h, ns, i + 1) == h[ns[0]].spanningLength_ + upto(h, ns.drop_first(), i)
    decreases i
{ if i > 0 { lemma_upto_shift(h, ns, i - 1); assert(ns.drop_first()[i - 1] == ns[i]); } else { assert(upto(h, ns, 1) == upto(h, ns, 0) + h[ns[0]].spanningLength_); } }
pub proof fn lemma_scores(h: Heap, k: KeyHandler)
    requires ready(h, k)
    ensures scores_ok(h, k.grid_)
{
    assert forall|i: int, j: int| cell(k.grid_.spans_, i, j) && #[trigger] node_at(k.grid_.spans_, i, j) != 0 implies fin(score_of(h[node_at(k.grid_.spans_, i, j)])) by {
        let p = node_at(k.grid_.spans_, i, j);
        assert(placed(h, k.grid_, i, j));
        let s = lm_get(k.lm_->0, h[p].reading_);
        let us = h[p].unigrams_;
        lemma_ssort(s, |a: LanguageModel_Unigram, b: LanguageModel_Unigram| dlt(b.score_, a.score_));
        assert forall|q: int| 0 <= q < us.len() implies fin((#[trigger] us[q]).score_) by {
            broadcast use vstd::seq_lib::group_to_multiset_ensures;
            assert(us.to_multiset().count(us[q]) > 0);
            assert(s.contains(us[q]));
            let z = choose|z: int| 0 <= z < s.len() && s[z] == us[q];
            assert(finite_scores(s));
        }
    }
}
// a fresh result, over what the walk left
pub proof fn lemma_walked(h: Heap, k: Heap, a: KeyHandler, b: KeyHandler)
    requires ready(h, a), grown(h, k), b == (KeyHandler { latestWalk_: b.latestWalk_, ..a }), tiles(h, b.grid_, b.latestWalk_.nodes, 0), b.latestWalk_.totalReadings == b.grid_.readings_.len(), 0 <= b.grid_.cursor_ <= b.grid_.readings_.len()
    ensures kh(k, b)
{
    let ns = b.latestWalk_.nodes;
    lemma_tiled(h, a.grid_, ns, 0);
    assert(laid(h, b.latestWalk_));
    lemma_laid_grown(h, k, b.latestWalk_);
    assert(grid_ok(k, b.grid_)) by { assert(grid_sound(h, a.grid_)); }
    assert forall|i: int| 0 <= i < ns.len() implies k[#[trigger] ns[i]].spanningLength_ == h[ns[i]].spanningLength_ by { assert(sound(h, ns[i])); }
    lemma_tiles_same(h, k, b.grid_, ns, 0);
}
pub proof fn lemma_ranked(k: KeyHandler, r: Seq<u8>)
    requires set_up(k), lm_has(k.lm_->0, r)
    ensures ranked(k.grid_.lm_, r).len() > 0
{ lemma_ssort(lm_get(k.lm_->0, r), |a: LanguageModel_Unigram, b: LanguageModel_Unigram| dlt(b.score_, a.score_)); }
// nothing that was there changes: neither does a result
pub proof fn lemma_laid_grown(h: Heap, k: Heap, r: ReadingGrid_WalkResult)
    requires laid(h, r), grown(h, k)
    ensures laid(k, r)
{ assert forall|i: int| 0 <= i < r.nodes.len() implies sound(k, #[trigger] r.nodes[i]) by { assert(sound(h, r.nodes[i])); assert(k[r.nodes[i]] == h[r.nodes[i]]); } lemma_upto_same(h, k, r.nodes, r.nodes.len() as int); }
pub open spec fn same_spans(h: Heap, k: Heap, ns: Seq<int>) -> bool { forall|i: int| 0 <= i < ns.len() ==> k[#[trigger] ns[i]].spanningLength_ == h[ns[i]].spanningLength_ }
pub proof fn lemma_upto_same(h: Heap, k: Heap, ns: Seq<int>, i: int)
    requires 0 <= i <= ns.len(), same_spans(h, k, ns)
    ensures upto(k, ns, i) == upto(h, ns, i)
    decreases i
{ if i > 0 { lemma_upto_same(h, k, ns, i - 1); assert(k[ns[i - 1]].spanningLength_ == h[ns[i - 1]].spanningLength_); } }
pub proof fn lemma_tiles_same(h: Heap, k: Heap, g: ReadingGrid, ns: Seq<int>, from: int)
    requires tiles(h, g, ns, from), same_spans(h, k, ns)
    ensures tiles(k, g, ns, from)
    decreases ns.len()
{ if ns.len() > 0 { let r = ns.drop_first(); assert(k[ns[0]].spanningLength_ == h[ns[0]].spanningLength_); assert forall|i: int| 0 <= i < r.len() implies k[#[trigger] r[i]].spanningLength_ == h[r[i]].spanningLength_ by { assert(r[i] == ns[i + 1]); } lemma_tiles_same(h, k, g, r, from + h[ns[0]].spanningLength_); } }
// a selection only changes which entry a node uses
pub proof fn lemma_selects(h: Heap, k: Heap, g: ReadingGrid, at: int, rd: Option<Seq<u8>>, v: Seq<u8>, t: int, r: ReadingGrid_WalkResult)
    requires grid_ok(h, g), selects(h, k, g.spans_, at, rd, v, t), laid(h, r)
    ensures laid(k, r), same_spans(h, k, r.nodes)
{
    let (i, j) = choose|i: int, j: int| #[trigger] selected(h, k, g.spans_, at, i, j, rd, v, t);
    let p = node_at(g.spans_, i, j);
    assert(placed(h, g, i, j));
    lemma_find_value(h[p].unigrams_, v, 0);
    assert forall|x: int| 0 <= x < r.nodes.len() implies sound(k, #[trigger] r.nodes[x]) && k[r.nodes[x]].spanningLength_ == h[r.nodes[x]].spanningLength_ by {
        let q = r.nodes[x];
        assert(sound(h, q)); assert(h.dom().contains(q));
        assert(k[q] == then(h[q], q == p, v, t, hit(g.spans_, i, i + j, q) || among(no_ns(), 0, q)));
    }
    lemma_upto_same(h, k, r.nodes, r.nodes.len() as int);
}
pub proof fn lemma_kh_selects(h: Heap, m: Heap, k: KeyHandler, at: int, rd: Option<Seq<u8>>, v: Seq<u8>, t: int)
    requires kh(h, k), selects(h, m, k.grid_.spans_, at, rd, v, t), grid_ok(m, k.grid_)
    ensures kh(m, k)
{ lemma_selects(h, m, k.grid_, at, rd, v, t, k.latestWalk_); lemma_tiles_same(h, m, k.grid_, k.latestWalk_.nodes, 0); }
// moving the cursor changes nothing else
pub open spec fn at_cursor(k: KeyHandler, c: int) -> KeyHandler { KeyHandler { grid_: ReadingGrid { cursor_: c, ..k.grid_ }, ..k } }
pub proof fn lemma_tiles_cursor(h: Heap, g: ReadingGrid, c: int, ns: Seq<int>, from: int)
    requires tiles(h, g, ns, from)
    ensures tiles(h, ReadingGrid { cursor_: c, ..g }, ns, from)
    decreases ns.len()
{ if ns.len() > 0 { lemma_tiles_cursor(h, g, c, ns.drop_first(), from + h[ns[0]].spanningLength_); assert(starts(h, g, from, ns[0])); assert(starts(h, ReadingGrid { cursor_: c, ..g }, from, ns[0])); } }
pub proof fn lemma_kh_cursor(h: Heap, k: KeyHandler, c: int)
    requires kh(h, k), 0 <= c <= k.grid_.readings_.len()
    ensures kh(h, at_cursor(k, c))
{
    let g = k.grid_; let g2 = at_cursor(k, c).grid_;
    lemma_tiles_cursor(h, g, c, k.latestWalk_.nodes, 0);
    assert forall|i: int, j: int| cell(g2.spans_, i, j) implies #[trigger] covered(g2, i, j) by { assert(covered(g, i, j)); }
    assert(grid_ok(h, g2));
}
pub open spec fn same_core(k: KeyHandler, b: KeyHandler) -> bool { b.latestWalk_ == k.latestWalk_ && b.grid_ == at_cursor(k, b.grid_.cursor_).grid_ && 0 <= b.grid_.cursor_ <= k.grid_.readings_.len() && set_up(b) }
pub proof fn lemma_core(h: Heap, k: KeyHandler)
    requires kh(h, k)
    ensures forall|b: KeyHandler| same_core(k, b) ==> #[trigger] kh(h, b)
{ assert forall|b: KeyHandler| same_core(k, b) implies #[trigger] kh(h, b) by { lemma_kh_cursor(h, k, b.grid_.cursor_); } }
pub proof fn lemma_all_ranked(k: KeyHandler)
    requires set_up(k)
    ensures forall|r: Seq<u8>| #[trigger] lm_has(k.lm_->0, r) ==> ranked(k.grid_.lm_, r).len() > 0
{ assert forall|r: Seq<u8>| #[trigger] lm_has(k.lm_->0, r) implies ranked(k.grid_.lm_, r).len() > 0 by { lemma_ranked(k, r); } }
// the node of a result that starts at the i-th boundary stands there in the grid
pub proof fn lemma_tile(h: Heap, g: ReadingGrid, ns: Seq<int>, from: int, i: int)
    requires grid_ok(h, g), tiles(h, g, ns, from), 0 <= i < ns.len()
    ensures starts(h, g, from + upto(h, ns, i), ns[i])
    decreases ns.len()
{
    if i > 0 { lemma_tile(h, g, ns.drop_first(), from + h[ns[0]].spanningLength_, i - 1); lemma_upto_shift(h, ns, i - 1); }
}
// readings taken apart again: at least one piece for each
pub open spec fn dashes(s: Seq<u8>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { dashes(s.drop_last()) + (if s.last() == 45 { 1int } else { 0 }) } }
pub proof fn lemma_dashes_cat(a: Seq<u8>, b: Seq<u8>)
    ensures dashes(a + b) == dashes(a) + dashes(b), 0 <= dashes(b)
    decreases b.len()
{ if b.len() > 0 { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_dashes_cat(a, b.drop_last()); } else { assert(a + b =~= a); } }
pub proof fn lemma_no_dash(s: Seq<u8>)
    requires forall|q: int| 0 <= q < s.len() ==> s[q] != 45
    ensures dashes(s) == 0
    decreases s.len()
{ if s.len() > 0 { lemma_no_dash(s.drop_last()); } }
pub proof fn lemma_nextdash_none(s: Seq<u8>, i: int, q: int)
    requires 0 <= i <= q < nextdash(s, i)
    ensures q < s.len() ==> s[q] != 45
    decreases s.len() - i
{ if i < s.len() && s[i] != 45 && q > i { lemma_nextdash_none(s, i + 1, q); } }
pub proof fn lemma_pieces_count(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures ap_cut(s, i).len() == 1 + dashes(s.subrange(i, s.len() as int))
    decreases s.len() - i
{
    lemma_nextdash(s, i);
    let j = nextdash(s, i); let n = s.len() as int;
    let a = s.subrange(i, j);
    assert forall|q: int| 0 <= q < a.len() implies a[q] != 45 by { lemma_nextdash_none(s, i, i + q); }
    lemma_no_dash(a);
    if j < n {
        lemma_pieces_count(s, j + 1);
        assert(s.subrange(i, n) =~= a + (seq![45u8] + s.subrange(j + 1, n)));
        lemma_dashes_cat(a, seq![45u8] + s.subrange(j + 1, n)); lemma_dashes_cat(seq![45u8], s.subrange(j + 1, n));
        assert(seq![45u8].drop_last() =~= Seq::<u8>::empty()); assert(dashes(Seq::<u8>::empty()) == 0); assert(dashes(seq![45u8]) == 1);
    } else { assert(s.subrange(i, n) =~= a); }
}
pub proof fn lemma_dashes_joined(rs: Seq<Seq<u8>>)
    ensures dashes(joined(rs, seq![45u8])) >= rs.len() - 1
    decreases rs.len()
{
    if rs.len() <= 1 { lemma_dashes_cat(Seq::empty(), joined(rs, seq![45u8])); } else {
        let a = joined(rs.drop_last(), seq![45u8]);
        lemma_dashes_joined(rs.drop_last());
        lemma_dashes_cat(a + seq![45u8], rs.last()); lemma_dashes_cat(a, seq![45u8]);
        assert(seq![45u8].drop_last() =~= Seq::<u8>::empty()); assert(dashes(Seq::<u8>::empty()) == 0); assert(dashes(seq![45u8]) == 1);
    }
}
pub proof fn lemma_joined_some(rs: Seq<Seq<u8>>)
    requires rs.len() > 0, rs.last().len() > 0
    ensures joined(rs, seq![45u8]).len() > 0
{ }
// the reading of a node in a result splits into at least as many readings as the node covers
pub proof fn lemma_split_node(h: Heap, k: KeyHandler, i: int)
    requires kh(h, k), 0 <= i < k.latestWalk_.nodes.len()
    ensures ({ let p = k.latestWalk_.nodes[i]; split_readings(h[p].reading_).len() >= h[p].spanningLength_ && h[p].spanningLength_ >= 1 && h.dom().contains(p) })
{
    let ns = k.latestWalk_.nodes; let g = k.grid_; let a = upto(h, ns, i);
    lemma_tile(h, g, ns, 0, i);
    let p = ns[i]; let l = h[p].spanningLength_;
    assert(starts(h, g, a, p));
    assert(sound(h, p));
    assert(placed(h, g, a, l)) by { assert(node_at(g.spans_, a, l) == p); }
    let rs = g.readings_.subrange(a, a + l);
    assert(rs.last() == g.readings_[a + l - 1]);
    lemma_joined_some(rs);
    lemma_dashes_joined(rs);
    let s = joined(rs, seq![45u8]);
    assert(s =~= h[p].reading_);
    assert(s.subrange(0, s.len() as int) =~= s);
    lemma_pieces_count(s, 0);
}
// what every selection and every walk keeps, whatever comes of them
pub proof fn lemma_selections(h: Heap, k: KeyHandler)
    requires kh(h, k)
    ensures forall|m: Heap, at: int, r: Option<Seq<u8>>, v: Seq<u8>, t: int| #[trigger] selects(h, m, k.grid_.spans_, at, r, v, t) && grid_ok(m, k.grid_) ==> kh(m, k)
{ assert forall|m: Heap, at: int, r: Option<Seq<u8>>, v: Seq<u8>, t: int| #[trigger] selects(h, m, k.grid_.spans_, at, r, v, t) && grid_ok(m, k.grid_) implies kh(m, k) by { lemma_kh_selects(h, m, k, at, r, v, t); } }
pub proof fn lemma_results()
    ensures
        forall|h: Heap, m: Heap, r: ReadingGrid_WalkResult| #[trigger] laid(h, r) && #[trigger] grown(h, m) ==> laid(m, r),
        forall|h: Heap, k: KeyHandler, i: int| #[trigger] kh(h, k) && 0 <= i <= k.latestWalk_.nodes.len() ==> #[trigger] upto(h, k.latestWalk_.nodes, i) <= k.grid_.readings_.len(),
{
    assert forall|h: Heap, m: Heap, r: ReadingGrid_WalkResult| #[trigger] laid(h, r) && #[trigger] grown(h, m) implies laid(m, r) by { lemma_laid_grown(h, m, r); }
    assert forall|h: Heap, k: KeyHandler, i: int| #[trigger] kh(h, k) && 0 <= i <= k.latestWalk_.nodes.len() implies #[trigger] upto(h, k.latestWalk_.nodes, i) <= k.grid_.readings_.len() by { lemma_upto(h, k.latestWalk_.nodes, i, k.latestWalk_.nodes.len() as int); }
}
pub proof fn lemma_cursors()
    ensures forall|h: Heap, g: ReadingGrid, r: ReadingGrid_WalkResult, c: int| #[trigger] core(h, g, r) && 0 <= c <= g.readings_.len() ==> core(h, #[trigger] with_cursor(g, c), r)
{
    assert forall|h: Heap, g: ReadingGrid, r: ReadingGrid_WalkResult, c: int| #[trigger] core(h, g, r) && 0 <= c <= g.readings_.len() implies core(h, #[trigger] with_cursor(g, c), r) by {
        let g2 = with_cursor(g, c);
        lemma_tiles_cursor(h, g, c, r.nodes, 0);
        assert forall|i: int, j: int| cell(g2.spans_, i, j) implies #[trigger] covered(g2, i, j) by { assert(covered(g, i, j)); }
        assert(grid_ok(h, g2));
    }
}
pub proof fn lemma_cores()
    ensures forall|h: Heap, k: KeyHandler, b: KeyHandler| #[trigger] kh(h, k) && same_core(k, b) ==> #[trigger] kh(h, b)
{ assert forall|h: Heap, k: KeyHandler, b: KeyHandler| #[trigger] kh(h, k) && same_core(k, b) implies #[trigger] kh(h, b) by { lemma_core(h, k); } }
// nothing about the handler but its conversion, its cursor and what it has learned
pub open spec fn same_typed(k: KeyHandler, b: KeyHandler) -> bool { b == (KeyHandler { grid_: b.grid_, latestWalk_: b.latestWalk_, userOverrideModel_: b.userOverrideModel_, ..k }) }
pub proof fn lemma_syllable_text(x: int)
    requires syl(x), x != 0
    ensures text(x).len() >= 2
{ lemma_syl_parts(x); }
// an inserted reading leaves a grid without empty readings; a walk over some readings has some nodes
pub proof fn lemma_grown_grids()
    ensures
        forall|g: ReadingGrid, b: ReadingGrid, r: Seq<u8>| #[trigger] same_but(g, b) && voiced(g) && 0 <= g.cursor_ <= g.readings_.len() && b.readings_ == #[trigger] g.readings_.insert(g.cursor_, r) && r.len() > 0 ==> voiced(b),
        forall|h: Heap, g: ReadingGrid, r: ReadingGrid_WalkResult| #[trigger] core(h, g, r) && g.readings_.len() > 0 ==> r.nodes.len() > 0,
        forall|h: Heap, k: KeyHandler, m: InputStates_Marking| #[trigger] marks(h, k, m) ==> 0 <= m.markStartGridCursorIndex <= k.grid_.readings_.len() && m.composingBuffer =~= whole(h, k),
        forall|k: KeyHandler| #[trigger] set_up(k) ==> lm_has(k.lm_->0, seq![32u8]),
        seq![32u8] != seq![45u8],
{
    assert(seq![32u8][0] != seq![45u8][0]);
    assert forall|g: ReadingGrid, b: ReadingGrid, r: Seq<u8>| #[trigger] same_but(g, b) && voiced(g) && 0 <= g.cursor_ <= g.readings_.len() && b.readings_ == #[trigger] g.readings_.insert(g.cursor_, r) && r.len() > 0 implies voiced(b) by {
        assert forall|i: int| 0 <= i < b.readings_.len() implies (#[trigger] b.readings_[i]).len() > 0 by { if i < g.cursor_ { assert(b.readings_[i] == g.readings_[i]); } else if i > g.cursor_ { assert(b.readings_[i] == g.readings_[i - 1]); } }
    }
}
pub proof fn lemma_syllables()
    ensures forall|x: int| syl(x) && x != 0 ==> #[trigger] text(x).len() >= 2, ton(0) == 0
{ reveal(ton); assert forall|x: int| syl(x) && x != 0 implies #[trigger] text(x).len() >= 2 by { lemma_syllable_text(x); } }
pub proof fn lemma_syl_parts(x: int)
    requires syl(x), x != 0
    ensures con(x) != 0 || med(x) != 0 || vow(x) != 0 || ton(x) != 0, 0 <= con(x), 0 <= med(x), 0 <= vow(x), 0 <= ton(x)
{ lemma_decomp(x); }
pub open spec fn at_most_one(w: World, v: World) -> bool { v.entered == w.entered || v.entered.len() == w.entered.len() + 1 }
// ---- what a state shows ------------------------------------------------------------------------------
pub open spec fn rd(b: BopomofoReadingBuffer) -> Seq<u8> { if b.pinyin_mode_ { b.pinyin_sequence_ } else { text(b.syllable_.syllable_) } }
pub open spec fn buffer(h: Heap, k: KeyHandler) -> Seq<u8> { head(h, k, k.grid_.cursor_) + rd(k.reading_) + tail(h, k, k.grid_.cursor_) }
pub open spec fn caret(h: Heap, k: KeyHandler) -> int { head(h, k, k.grid_.cursor_).len() as int + rd(k.reading_).len() as int }
pub open spec fn lo(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn hi(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn known(m: LanguageModel, r: Seq<u8>, v: Seq<u8>) -> bool { lm_has(m, r) && exists|i: int| 0 <= i < lm_get(m, r).len() && (#[trigger] lm_get(m, r)[i]).value_ == v }
// the marked range: from where marking started to the cursor, whichever comes first
pub open spec fn marks(h: Heap, k: KeyHandler, m: InputStates_Marking) -> bool {
    let a = lo(m.markStartGridCursorIndex, k.grid_.cursor_); let b = hi(m.markStartGridCursorIndex, k.grid_.cursor_);
    0 <= m.markStartGridCursorIndex <= k.grid_.readings_.len() && m.composingBuffer =~= whole(h, k) && m.cursorIndex == cutat(h, k, k.grid_.cursor_)
    && m.head =~= head(h, k, a) && m.tail =~= tail(h, k, b) && m.head + m.markedText + m.tail =~= m.composingBuffer
    && m.reading =~= joined(k.grid_.readings_.subrange(a, b), seq![45u8])
    && (m.acceptable <==> 2 <= b - a <= 6 && !known(k.lm_->0, m.reading, m.markedText))
}
pub open spec fn number_ok(s: Seq<u8>) -> bool { s.len() <= 21 && forall|i: int| 0 <= i < s.len() ==> 48 <= #[trigger] s[i] <= 57 || s[i] == 46 }
pub open spec fn shows(h: Heap, k: KeyHandler, s: InputState) -> bool {
    match s {
        InputState::Inputting(b) => b.composingBuffer =~= buffer(h, k) && b.cursorIndex == caret(h, k),
        InputState::ChoosingCandidate(b) => b.composingBuffer =~= buffer(h, k) && b.cursorIndex == caret(h, k) && b.originalCursor <= k.grid_.readings_.len(),
        InputState::AssociatedPhrases(b) => b.composingBuffer =~= buffer(h, k) && b.cursorIndex == caret(h, k) && b.prefixCursorIndex <= k.grid_.readings_.len(),
        InputState::SelectingDictionary(b) => b.composingBuffer =~= buffer(h, k),
        InputState::ShowingCharInfo(b) => b.composingBuffer =~= buffer(h, k),
        InputState::Marking(m) => marks(h, k, m) && k.reading_.syllable_.syllable_ == 0,
        InputState::ChineseNumber(c) => number_ok(c.number),
        _ => true,
    }
}
// the state on display fits the handler: it shows its buffer; it shows one exactly if something is being composed
pub open spec fn fits_state(h: Heap, k: KeyHandler, s: Option<InputState>) -> bool { s.is_some() && shows(h, k, s->0) && (is_InputStates_NotEmpty(s->0) <==> live(k)) }
// the state on display after w1, if s was on display at w0
pub open spec fn display(w0: World, w1: World, s: Option<InputState>) -> Option<InputState> { if w1.entered.len() > w0.entered.len() { w1.entered.last() } else { s } }
pub open spec fn longer_log(w0: World, w1: World) -> bool { w1.entered.len() >= w0.entered.len() }
// what a key may do to the readings: nothing, add one at the cursor, take one away there, or clear them all
pub open spec fn inserted(a: Seq<Seq<u8>>, c: int, b: Seq<Seq<u8>>) -> bool { exists|r: Seq<u8>| b == #[trigger] a.insert(c, r) }
pub open spec fn removed(g: ReadingGrid, k: int, b: ReadingGrid) -> bool {
    if k == 8 && g.cursor_ > 0 { b.readings_ == g.readings_.remove(g.cursor_ - 1) && b.cursor_ == g.cursor_ - 1 }
    else if k == 127 && g.cursor_ < g.readings_.len() { b.readings_ == g.readings_.remove(g.cursor_) && b.cursor_ == g.cursor_ }
    else { b == g }
}
pub open spec fn one_step(k: KeyHandler, key: int, b: KeyHandler) -> bool {
    b.grid_.readings_ == k.grid_.readings_ || b.grid_.readings_.len() == 0 || inserted(k.grid_.readings_, k.grid_.cursor_, b.grid_.readings_)
    || (key == 8 || key == 127) && k.reading_.syllable_.syllable_ == 0 && removed(k.grid_, key, b.grid_)
}
// where a mark began: where the last one did, or at the cursor
pub open spec fn mark_start(s: Option<InputState>, k: KeyHandler) -> int { match s { Some(InputState::Marking(m)) => m.markStartGridCursorIndex, _ => k.grid_.cursor_ } }
pub open spec fn moved_to(g: ReadingGrid, name: int) -> int {
    if name == Key_KeyName_LEFT() { if g.cursor_ > 0 { g.cursor_ - 1 } else { 0 } } else if name == Key_KeyName_RIGHT() { if g.cursor_ < g.readings_.len() { g.cursor_ + 1 } else { g.cursor_ } }
    else if name == Key_KeyName_HOME() { 0 } else if name == Key_KeyName_END() { g.readings_.len() as int } else { g.cursor_ }
}
@fn KeyHandler_getComposedString
@opt heaps ReadingGrid_Node
@requires
- walked(heap_ReadingGrid_Node, this) && builderCursor <= this.grid_.readings_.len()
@ensures
- this_post == this
- ret.head =~= head(heap_ReadingGrid_Node, this, builderCursor) && ret.tail =~= tail(heap_ReadingGrid_Node, this, builderCursor)
- ret.head + ret.tail =~= whole(heap_ReadingGrid_Node, this)
@loop 0
@inv
- this == old_this
- composed =~= sentence(heap_ReadingGrid_Node, rng0, idx0)
- composedCursor == cut(heap_ReadingGrid_Node, rng0, builderCursor, idx0)
- runningCursor == (if builderCursor <= upto(heap_ReadingGrid_Node, rng0, idx0) { builderCursor } else { upto(heap_ReadingGrid_Node, rng0, idx0) })
@at loop0.begin
let h = heap_ReadingGrid_Node; let n = rng0.len() as int;
assert(sound(h, rng0[idx0]));
lemma_upto(h, rng0, idx0, idx0 + 1); lemma_upto(h, rng0, idx0 + 1, n);
assert(upto(h, rng0, idx0 + 1) == upto(h, rng0, idx0) + h[rng0[idx0]].spanningLength_);
assert(sentence(h, rng0, idx0 + 1) == sentence(h, rng0, idx0) + val(h, rng0, idx0));
lemma_part(h, rng0, builderCursor, idx0); lemma_cut(h, rng0, builderCursor, idx0); phys(composed + val(h, rng0, idx0));
assert(cut(h, rng0, builderCursor, idx0 + 1) == cut(h, rng0, builderCursor, idx0) + part(h, rng0, builderCursor, idx0));
lemma_pieces_len(val(h, rng0, idx0), 0);
if builderCursor - upto(h, rng0, idx0) >= pieces(val(h, rng0, idx0), 0).len() { lemma_start_all(val(h, rng0, idx0), 0, builderCursor - upto(h, rng0, idx0)); }
@at loop0.post
lemma_cut(heap_ReadingGrid_Node, rng0, builderCursor, rng0.len() as int);
@fn KeyHandler_buildInputtingState
@opt heaps ReadingGrid_Node
@requires
- kh(heap_ReadingGrid_Node, this)
@ensures
- this_post == this
- ret.is_some() && ret->0.composingBuffer =~= buffer(heap_ReadingGrid_Node, this) && ret->0.cursorIndex == caret(heap_ReadingGrid_Node, this)
@fn KeyHandler_buildMarkingState
@opt heaps ReadingGrid_Node
@requires
- kh(heap_ReadingGrid_Node, this)
- beginCursorIndex <= this.grid_.readings_.len()
@ensures
- this_post == this
- ret.is_some() && marks(heap_ReadingGrid_Node, this, ret->0) && ret->0.markStartGridCursorIndex == beginCursorIndex
@at entry
let c = this.grid_.cursor_; let n = this.latestWalk_.nodes.len() as int;
lemma_cut_mono(heap_ReadingGrid_Node, this.latestWalk_.nodes, lo(beginCursorIndex, c), hi(beginCursorIndex, c), n);
lemma_cut(heap_ReadingGrid_Node, this.latestWalk_.nodes, hi(beginCursorIndex, c), n);
lemma_cut(heap_ReadingGrid_Node, this.latestWalk_.nodes, lo(beginCursorIndex, c), n);
phys(this.grid_.readings_);
@loop 0
@inv
- this == old_this
- it_pos(it, readings) && !it.nil
- readingValue =~= joined(readings.subrange(0, it.off), seq![45u8]) + (if 0 < it.off < readings.len() { seq![45u8] } else { Seq::empty() })
@at loop0.begin
if it.off < readings.len() { assert(readings.subrange(0, it.off + 1).drop_last() =~= readings.subrange(0, it.off)); }
@at loop0.post
assert(readings.subrange(0, it.off) =~= readings);
@fn KeyHandler_buildChoosingCandidateState
@opt heaps ReadingGrid_Node
@requires
- kh(heap_ReadingGrid_Node, this)
- nonEmptyState.is_some() && is_InputStates_NotEmpty(nonEmptyState->0)
@ensures
- this_post == this
- ret.is_some() && ret->0.composingBuffer == InputStates_NotEmpty_composingBuffer(nonEmptyState->0) && ret->0.cursorIndex == InputStates_NotEmpty_cursorIndex(nonEmptyState->0) && ret->0.originalCursor == originalCursor
@loop 0
@inv
- this == old_this
@fn MarkedPhraseExists
@requires
- lm.is_some()
@ensures
- ret == known(lm->0, reading, value)
@fn KeyHandler_actualCandidateCursorIndex
@requires
@ensures
- this_post == this
- this.grid_.cursor_ <= this.grid_.readings_.len() ==> ret <= this.grid_.readings_.len() && (this.grid_.readings_.len() > 0 ==> ret < this.grid_.readings_.len())
@fn KeyHandler_computeActualCandidateCursorIndex
@requires
@ensures
- this_post == this
- this.grid_.readings_.len() > 0 ==> ret < this.grid_.readings_.len()
- this.grid_.readings_.len() == 0 ==> ret == 0
@fn KeyHandler_candidateCursorIndex
@ensures
- this_post == this && ret == this.grid_.cursor_
@fn KeyHandler_setCandidateCursorIndex
@requires
@ensures
- this_post == (KeyHandler { grid_: ReadingGrid { cursor_: if newCursor > this.grid_.readings_.len() { this.grid_.readings_.len() as int } else { newCursor }, ..this.grid_ }, ..this })
- forall|h: Heap| #[trigger] kh(h, this) ==> kh(h, this_post)
@at return
assert forall|h: Heap| #[trigger] kh(h, old_this) implies kh(h, this) by { lemma_kh_cursor(h, old_this, this.grid_.cursor_); }
@fn KeyHandler_walk
@opt heaps ReadingGrid_Node!
@requires
- ready(heap_ReadingGrid_Node, this)
@ensures
- this_post == (KeyHandler { latestWalk_: this_post.latestWalk_, ..this })
- grown(heap_ReadingGrid_Node, heap_ReadingGrid_Node_post)
- kh(heap_ReadingGrid_Node_post, this_post)
@at entry
lemma_scores(heap_ReadingGrid_Node, this);
@at return
lemma_walked(old_heap_ReadingGrid_Node, heap_ReadingGrid_Node, old_this, this);
@fn KeyHandler_reset
@requires
- set_up(this)
@ensures
- this_post.grid_.readings_.len() == 0 && this_post.reading_.syllable_.syllable_ == 0
- forall|h: Heap| #[trigger] kh(h, this_post)
- set_up(this_post) && this_post == (KeyHandler { reading_: this_post.reading_, grid_: this_post.grid_, latestWalk_: this_post.latestWalk_, ..this })
@fn KeyHandler_candidatePanelCancelled
@opt heaps ReadingGrid_Node
@opt world
@requires
- kh(heap_ReadingGrid_Node, this)
- originalCursor <= this.grid_.readings_.len()
- this.grid_.readings_.len() > 0
@ensures
- w_post.said == w.said
- kh(heap_ReadingGrid_Node, this_post)
- longer_log(w, w_post) && w_post.entered.len() == w.entered.len() + 1 && fits_state(heap_ReadingGrid_Node, this_post, w_post.entered.last())
- this.inputMode_ != InputMode_PlainBopomofo() ==> this_post == (KeyHandler { grid_: ReadingGrid { cursor_: originalCursor, ..this.grid_ }, ..this })
@at entry
lemma_core(heap_ReadingGrid_Node, this);
@fn KeyHandler_handleCursorKeys
@opt heaps ReadingGrid_Node
@opt world
@requires
- kh(heap_ReadingGrid_Node, this)
- fits_state(heap_ReadingGrid_Node, this, state)
@ensures
- w_post.said == w.said
- ret && this.reading_.syllable_.syllable_ == 0 ==> (display(w, w_post, state)->0 is Marking <==> key.shiftPressed && this_post.grid_.cursor_ != mark_start(state, this))
- ret && this.reading_.syllable_.syllable_ == 0 ==> (display(w, w_post, state)->0 matches InputState::Marking(m) ==> m.markStartGridCursorIndex == mark_start(state, this))
- kh(heap_ReadingGrid_Node, this_post)
- longer_log(w, w_post)
- fits_state(heap_ReadingGrid_Node, this_post, display(w, w_post, state))
- this_post == (KeyHandler { grid_: ReadingGrid { cursor_: this_post.grid_.cursor_, ..this.grid_ }, ..this })
- ret && this.reading_.syllable_.syllable_ == 0 ==> this_post.grid_.cursor_ == moved_to(this.grid_, key.name)
- !ret || this.reading_.syllable_.syllable_ != 0 ==> this_post.grid_.cursor_ == this.grid_.cursor_
- !ret ==> w_post.entered == w.entered
@at entry
lemma_core(heap_ReadingGrid_Node, this);
@fn KeyHandler_handleDeleteKeys
@opt heaps ReadingGrid_Node!
@opt world
@requires
- kh(heap_ReadingGrid_Node, this)
- fits_state(heap_ReadingGrid_Node, this, state)
@ensures
- w_post.said == w.said
- ret && this.reading_.syllable_.syllable_ == 0 ==> removed(this.grid_, key.ascii, this_post.grid_)
- !ret || this.reading_.syllable_.syllable_ != 0 ==> this_post.grid_ == this.grid_
- kh(heap_ReadingGrid_Node_post, this_post)
- longer_log(w, w_post)
- fits_state(heap_ReadingGrid_Node_post, this_post, display(w, w_post, state))
- !ret ==> w_post.entered == w.entered && this_post == this
@at entry
lemma_syllables();
@fn KeyHandler_buildAssociatedPhrasesState
@requires
- previousState.is_some() && is_InputStates_NotEmpty(previousState->0)
@ensures
- this_post == this
- ret.is_some() ==> ret->0.composingBuffer == InputStates_NotEmpty_composingBuffer(previousState->0) && ret->0.cursorIndex == InputStates_NotEmpty_cursorIndex(previousState->0) && ret->0.prefixCursorIndex == prefixCursorIndex
@loop 0
@inv
- this == old_this
@fn KeyHandler_handleAssociatedPhrases
@opt heaps ReadingGrid_Node
@opt world
@requires
- kh(heap_ReadingGrid_Node, this)
@ensures
- w_post.said == w.said
- this_post == this
- ret
- at_most_one(w, w_post)
- w_post.entered != w.entered ==> fits_state(heap_ReadingGrid_Node, this, w_post.entered.last())
@loop 0
@inv
- this == old_this
- w.entered == old_w.entered && w.said == old_w.said
- 0 <= prefixLength <= maxPrefixLength <= codepoints.len() && codepoints.len() == readings.len()
@at loop0.pre
lemma_split_node(heap_ReadingGrid_Node, this, nodePtrIt.off);
@loop 1
@inv
- this == old_this
- w.entered == old_w.entered && w.said == old_w.said
@fn KeyHandler_buildAssociatedPhrasesPlainState
@requires
- set_up(this)
@ensures
- this_post == this
@loop 0
@inv
- this == old_this
@loop 1
@inv
- it_pos(pri, phrase.readings) && !pri.nil && it_pos(sri, splitReadings) && !sri.nil
@fn KeyHandler_handlePunctuation
@opt heaps ReadingGrid_Node!
@opt world
@requires
- kh(heap_ReadingGrid_Node, this)
- punctuationUnigramKey.len() >= 2
@ensures
- w_post.said.len() >= w.said.len()
- this.inputMode_ != InputMode_PlainBopomofo() ==> w_post.said == w.said
- this_post.grid_.readings_ == this.grid_.readings_ || this_post.grid_.readings_.len() == 0 || inserted(this.grid_.readings_, this.grid_.cursor_, this_post.grid_.readings_)
- kh(heap_ReadingGrid_Node_post, this_post)
- longer_log(w, w_post)
- ret == lm_has(this.lm_->0, punctuationUnigramKey)
- !ret ==> w_post.entered == w.entered && this_post == this && heap_ReadingGrid_Node_post == heap_ReadingGrid_Node
- ret ==> w_post.entered.len() > w.entered.len() && fits_state(heap_ReadingGrid_Node_post, this_post, w_post.entered.last())
@at entry
lemma_all_ranked(this);
@fn KeyHandler_pinNode
@opt heaps ReadingGrid_Node!
@opt world
@requires
- kh(heap_ReadingGrid_Node, this)
- originalCursor <= this.grid_.readings_.len()
@ensures
- w_post.said == w.said
- kh(heap_ReadingGrid_Node_post, this_post)
- w_post.entered == w.entered
- this_post == (KeyHandler { grid_: at_cursor(this, this_post.grid_.cursor_).grid_, latestWalk_: this_post.latestWalk_, userOverrideModel_: this_post.userOverrideModel_, ..this })
@at entry
lemma_selections(heap_ReadingGrid_Node, this); lemma_results(); lemma_cores();
@fn KeyHandler_handleTabKey
@opt heaps ReadingGrid_Node!
@opt world
@requires
- kh(heap_ReadingGrid_Node, this)
- fits_state(heap_ReadingGrid_Node, this, state)
@ensures
- w_post.said == w.said
- this_post.grid_.readings_ == this.grid_.readings_
- kh(heap_ReadingGrid_Node_post, this_post)
- longer_log(w, w_post)
- fits_state(heap_ReadingGrid_Node_post, this_post, display(w, w_post, state))
- !ret ==> w_post.entered == w.entered && this_post == this
@loop 0
@inv
- this == old_this && w.entered == old_w.entered && w.said == old_w.said
- currentIndex == idx0
@fn KeyHandler_pinNodeWithAssociatedPhrase
@opt heaps ReadingGrid_Node!
@requires
- kh(heap_ReadingGrid_Node, this)
- prefixCursorIndex <= this.grid_.readings_.len()
@ensures
- kh(heap_ReadingGrid_Node_post, this_post)
- same_typed(this, this_post) && this_post.userOverrideModel_ == this.userOverrideModel_
- this_post.grid_.readings_.len() >= this.grid_.readings_.len()
@at entry
lemma_selections(heap_ReadingGrid_Node, this); lemma_results(); lemma_cores(); lemma_all_ranked(this);
@loop 0
@inv
- this == old_this
- kh(heap_ReadingGrid_Node, this)
@at loop0.begin
lemma_selections(heap_ReadingGrid_Node, this);
@at loop0.post
lemma_selections(heap_ReadingGrid_Node, this);
@loop 1
@inv
- ready(heap_ReadingGrid_Node, this)
- same_typed(old_this, this) && this.userOverrideModel_ == old_this.userOverrideModel_
- this.grid_.cursor_ == accumulatedCursor && accumulatedCursor <= this.grid_.readings_.len() && this.grid_.readings_.len() >= old_this.grid_.readings_.len()
- this.grid_.lm_ == old_this.grid_.lm_
@fn KeyHandler_candidateSelected
@opt heaps ReadingGrid_Node!
@opt world
@requires
- kh(heap_ReadingGrid_Node, this)
- originalCursor <= this.grid_.readings_.len()
- this.grid_.readings_.len() > 0
@ensures
- this.inputMode_ != InputMode_PlainBopomofo() ==> w_post.said == w.said && this_post.grid_.readings_ == this.grid_.readings_
- kh(heap_ReadingGrid_Node_post, this_post)
- longer_log(w, w_post) && w_post.entered.len() > w.entered.len()
- fits_state(heap_ReadingGrid_Node_post, this_post, w_post.entered.last())
@fn KeyHandler_candidateAssociatedPhraseSelected
@opt heaps ReadingGrid_Node!
@opt world
@requires
- kh(heap_ReadingGrid_Node, this)
- cursorIndex <= this.grid_.readings_.len()
- live(this)
@ensures
- w_post.said == w.said
- kh(heap_ReadingGrid_Node_post, this_post)
- longer_log(w, w_post) && w_post.entered.len() == w.entered.len() + 1
- fits_state(heap_ReadingGrid_Node_post, this_post, w_post.entered.last())
@fn KeyHandler_handleChineseNumber
@opt world
@requires
- state.is_some() && number_ok(state->0.number)
@ensures
- w_post.said.len() >= w.said.len()
- this_post == this
- at_most_one(w, w_post)
- ret
- w_post.entered != w.entered ==> w_post.entered.last().is_some() && !is_InputStates_NotEmpty(w_post.entered.last()->0) && (w_post.entered.last()->0 matches InputState::ChineseNumber(c) ==> number_ok(c.number))
@loop 0
@inv
- this == old_this && w.entered == old_w.entered && w.said == old_w.said
- digits(intStream.s) && digits(decStream.s) && intStream.width == 0 && decStream.width == 0
- intStream.s.len() + decStream.s.len() <= idx0
@at loop0.post
lemma_trim0(intStream.s);
@fn KeyHandler_handleEnclosingNumber
@opt heaps ReadingGrid_Node!
@opt world
@requires
- kh(heap_ReadingGrid_Node, this)
- !live(this)
- state.is_some()
@ensures
- w_post.said.len() >= w.said.len()
- this_post.grid_.readings_ == this.grid_.readings_ || this_post.grid_.readings_.len() == 0 || inserted(this.grid_.readings_, this.grid_.cursor_, this_post.grid_.readings_)
- kh(heap_ReadingGrid_Node_post, this_post)
- longer_log(w, w_post)
- ret
- fits_state(heap_ReadingGrid_Node_post, this_post, display(w, w_post, Some(InputState::EnclosingNumber(state->0))))
@at entry
lemma_all_ranked(this); lemma_cores();
@fn KeyHandler_getHTMLRubyText
@opt heaps ReadingGrid_Node
@requires
- kh(heap_ReadingGrid_Node, this)
@ensures
- this_post == this
@loop 0
@inv
- this == old_this
@fn KeyHandler_handle
@opt heaps ReadingGrid_Node!
@opt world
@opt split
@opt rlimit 60
@opt hide grid_ok heard voiced laid tiles lm_good marks syl layout_ok complete text head tail whole cutat accepts uom_ok number_ok
@requires
- kh(heap_ReadingGrid_Node, this)
- fits_state(heap_ReadingGrid_Node, this, state)
@ensures
- kh(heap_ReadingGrid_Node_post, this_post)
- longer_log(w, w_post)
- fits_state(heap_ReadingGrid_Node_post, this_post, display(w, w_post, state))
- !ret ==> w_post.entered == w.entered
- key.ascii == 13 && key.name == Key_KeyName_ASCII() && !key.shiftPressed && !key.ctrlPressed && !accepts(this.reading_, 13) && !accepts(this.reading_, 0) && is_InputStates_NotEmpty(state->0) && !(state->0 is Marking) && this.reading_.syllable_.syllable_ == 0 ==> ret && w_post.entered == w.entered.push(Some(InputState::Committing(InputStates_Committing { text: InputStates_NotEmpty_composingBuffer(state->0) })))
- w_post.said.len() >= w.said.len()
- this.inputMode_ != InputMode_PlainBopomofo() && !(key.ascii == 13 && key.ctrlPressed) && is_InputStates_NotEmpty(state->0) && this.grid_.readings_.len() > 0 && w_post.said.len() > w.said.len() ==> w_post.said[w.said.len() as int] == InputStates_NotEmpty_composingBuffer(state->0)
- one_step(this, key.ascii, this_post)
@at entry
lemma_all_ranked(this); if this.reading_.syllable_.syllable_ == 0 { lemma_quiet(heap_ReadingGrid_Node, this); } lemma_cursors(); lemma_syllables(); lemma_grown_grids();

@loop 0
@inv
- it_pos(it, readings) && !it.nil
- w == old_w && kh(heap_ReadingGrid_Node, this)
- readings == this.grid_.readings_
- readingValue =~= joined(readings.subrange(0, it.off), seq![45u8]) + (if 0 < it.off < readings.len() { seq![45u8] } else { Seq::empty() })
@at loop0.begin
if it.off < readings.len() { assert(readings.subrange(0, it.off + 1).drop_last() =~= readings.subrange(0, it.off)); }
@fn KeyHandler_ctor
@requires
- languageModel.is_some() && lm_good(languageModel->0) && userPhraseAdder.is_some() && localizedStrings.is_some() && arith() && fin(dlit(42))
@ensures
- ret.grid_.readings_.len() == 0 && ret.reading_.syllable_.syllable_ == 0
- set_up(KeyHandler { onAddNewPhrase_: Some(arbitrary()), ..ret })
- forall|h: Heap| core(h, ret.grid_, ret.latestWalk_)
- forall|h: Heap, f: spec_fn(Seq<u8>) -> ()| kh(h, KeyHandler { onAddNewPhrase_: Some(f), ..ret })
@fn KeyHandler_setOnAddNewPhrase
@ensures
- this_post == (KeyHandler { onAddNewPhrase_: this_post.onAddNewPhrase_, ..this }) && this_post.onAddNewPhrase_ == Some(onAddNewPhrase)
@fn KeyHandler_setInputMode
@ensures
- this_post == (KeyHandler { inputMode_: mode, ..this })
@fn KeyHandler_inputMode
@ensures
- ret == this.inputMode_ && this_post == this
@fn KeyHandler_setKeyboardLayout
@opt heaps ReadingGrid_Node
@requires
- kh(heap_ReadingGrid_Node, this)
- layout.is_some() && layout_ok(layout->0) && (layout->0 == hanyu() || complete(layout->0))
@ensures
- kh(heap_ReadingGrid_Node, this_post) && this_post.reading_.syllable_ == this.reading_.syllable_ && this_post.grid_ == this.grid_ && this_post.latestWalk_ == this.latestWalk_
@fn KeyHandler_setSelectPhraseAfterCursorAsCandidate
@ensures
- this_post == (KeyHandler { selectPhraseAfterCursorAsCandidate_: flag, ..this })
@fn KeyHandler_setMoveCursorAfterSelection
@ensures
- this_post == (KeyHandler { moveCursorAfterSelection_: flag, ..this })
@fn KeyHandler_setPutLowercaseLettersToComposingBuffer
@ensures
- this_post == (KeyHandler { putLowercaseLettersToComposingBuffer_: flag, ..this })
@fn KeyHandler_setEscKeyClearsEntireComposingBuffer
@ensures
- this_post == (KeyHandler { escKeyClearsEntireComposingBuffer_: flag, ..this })
@fn KeyHandler_setCtrlEnterKeyBehavior
@ensures
- this_post == (KeyHandler { ctrlEnterKey_: behavior, ..this })
@fn KeyHandler_setAssociatedPhrasesEnabled
@ensures
- this_post == (KeyHandler { associatedPhrasesEnabled_: enabled, ..this })
@fn KeyHandler_setHalfWidthPunctuationEnabled
@ensures
- this_post == (KeyHandler { halfWidthPunctuationEnabled_: enabled, ..this })
@fn KeyHandler_hasDictionaryServices
@requires
- this.dictionaryServices_.is_some()
@ensures
- ret == any_services(this.dictionaryServices_->0) && this_post == this
@fn KeyHandler_buildSelectingDictionaryState
@requires
- this.dictionaryServices_.is_some() && nonEmptyState.is_some() && is_InputStates_NotEmpty(nonEmptyState->0)
@ensures
- this_post == this && ret.is_some()
- ret->0.composingBuffer == InputStates_NotEmpty_composingBuffer(nonEmptyState->0) && ret->0.selectedPhrase == selectedPhrase && ret->0.selectedCandidateIndex == selectedIndex
@fn KeyHandler_buildAssociatedPhrasesStateFromCandidateChoosingState
@opt heaps ReadingGrid_Node
@requires
- kh(heap_ReadingGrid_Node, this)
- previousState.is_some() && is_InputStates_NotEmpty(previousState->0)
@ensures
- this_post == this
- ret.is_some() ==> ret->0.composingBuffer == InputStates_NotEmpty_composingBuffer(previousState->0) && ret->0.cursorIndex == InputStates_NotEmpty_cursorIndex(previousState->0) && ret->0.prefixCursorIndex <= this.grid_.readings_.len()
@fn KeyHandler_handleCandidateKeyForTraditionalBopomofoIfRequired
@opt heaps ReadingGrid_Node!
@opt world
@requires
- kh(heap_ReadingGrid_Node, this)
@ensures
- kh(heap_ReadingGrid_Node_post, this_post) && longer_log(w, w_post)
- this.inputMode_ != InputMode_PlainBopomofo() ==> !ret
- !ret ==> this_post == this && heap_ReadingGrid_Node_post == heap_ReadingGrid_Node && w_post == w
- this.inputMode_ == InputMode_PlainBopomofo() && accepts(this.reading_, key.ascii) ==> ret
@fn KeyHandler_dictionaryServiceSelected
@opt heaps ReadingGrid_Node
@opt world
@requires
- kh(heap_ReadingGrid_Node, this) && this.dictionaryServices_.is_some()
- fits_state(heap_ReadingGrid_Node, this, currentState) && currentState->0 is SelectingDictionary
@ensures
- kh(heap_ReadingGrid_Node, this_post) && longer_log(w, w_post)
- fits_state(heap_ReadingGrid_Node, this_post, display(w, w_post, currentState))
- this_post.grid_.readings_ == this.grid_.readings_ || this_post.grid_.readings_.len() == 0
