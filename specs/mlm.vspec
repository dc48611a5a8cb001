@source src/Engine/McBopomofoLM.cpp McBopomofo
@source src/Engine/McBopomofoLM.cpp Formosa
@option broadcast lemma_lex0, lemma_values
@import userlm
@import pdb
@prelude
pub broadcast proof fn lemma_lex0(a: Seq<u8>, b: Seq<u8>)
    ensures (#[trigger] lexcmp(a, b) == 0) == (a == b)
{ lemma_lexcmp_eq(a, b); if lexcmp(a, b) == 0 { assert(a =~= b); } }
pub broadcast proof fn lemma_values(us: Seq<LanguageModel_Unigram>, f: spec_fn(LanguageModel_Unigram) -> Seq<u8>, rows: Seq<Seq<u8>>)
    requires us.len() == rows.len(), forall|i: int| 0 <= i < us.len() ==> us[i].value_ == rows[i], forall|u: LanguageModel_Unigram| f(u) == u.value_
    ensures #![trigger us.map_values(f), rows.to_set()] us.map_values(f) == rows
{ assert(us.map_values(f) =~= rows); }
// ---- documented merge: exclude, replace, convert, drop duplicates --------------------------
pub open spec fn excluded(m: McBopomofoLM, key: Seq<u8>) -> Set<Seq<u8>> { get_rows(m.excludedPhrases_.keyRowMap, key).to_set() }
pub open spec fn user_rows(m: McBopomofoLM, key: Seq<u8>) -> Seq<LanguageModel_Unigram> {
    user_unigrams(get_rows(m.userPhrases_.keyRowMap, key))
}
pub open spec fn base_rows(m: McBopomofoLM, key: Seq<u8>) -> Seq<LanguageModel_Unigram> {
    if m.languageModel_.db_.is_some() { row_unigrams(all_rows(m.languageModel_.db_->0, key + sp())) } else { Seq::empty() }
}
pub open spec fn replaced(m: McBopomofoLM, v: Seq<u8>) -> Seq<u8> {
    let r = get_value(m.phraseReplacement_.keyValueMap_, v);
    if m.phraseReplacementEnabled_ && r.len() > 0 { r } else { v }
}
pub open spec fn expanded(m: McBopomofoLM, v: Seq<u8>) -> Seq<u8> {
    if m.macroConverter_.is_some() { (m.macroConverter_->0)(replaced(m, v)) } else { replaced(m, v) }
}
pub open spec fn final_text(m: McBopomofoLM, v: Seq<u8>) -> Seq<u8> {
    if m.externalConverterEnabled_ && m.externalConverter_.is_some() { (m.externalConverter_->0)(expanded(m, v)) } else { expanded(m, v) }
}
pub open spec fn macro_prefix() -> Seq<u8> { seq![77u8, 65u8, 67u8, 82u8, 79u8, 64u8] }
// a macro of the table that nothing expands
pub open spec fn unsupported(m: McBopomofoLM, u: LanguageModel_Unigram) -> bool {
    let t = expanded(m, u.value_);
    deq(u.score_, dneg(dlit(8))) && t.len() > 6 && t.subrange(0, 6) == macro_prefix()
}
pub open spec fn offered(m: McBopomofoLM, ex: Set<Seq<u8>>, u: LanguageModel_Unigram) -> bool { !ex.contains(u.value_) && !unsupported(m, u) }
pub struct Acc { pub r: Seq<LanguageModel_Unigram>, pub ins: Set<Seq<u8>> }
pub open spec fn take(m: McBopomofoLM, ex: Set<Seq<u8>>, a: Acc, u: LanguageModel_Unigram) -> Acc {
    let t = final_text(m, u.value_);
    if !offered(m, ex, u) || a.ins.contains(t) { a } else { Acc { r: a.r.push(LanguageModel_Unigram { value_: t, score_: u.score_ }), ins: a.ins.insert(t) } }
}
pub open spec fn filt(m: McBopomofoLM, us: Seq<LanguageModel_Unigram>, n: int, ex: Set<Seq<u8>>, ins: Set<Seq<u8>>) -> Acc
    decreases n
{ if n <= 0 { Acc { r: Seq::empty(), ins: ins } } else { take(m, ex, filt(m, us, n - 1, ex, ins), us[n - 1]) } }
pub open spec fn filt_all(m: McBopomofoLM, us: Seq<LanguageModel_Unigram>, ex: Set<Seq<u8>>, ins: Set<Seq<u8>>) -> Acc { filt(m, us, us.len() as int, ex, ins) }
pub open spec fn mine(m: McBopomofoLM, key: Seq<u8>) -> Acc { filt_all(m, user_rows(m, key), excluded(m, key), Set::empty()) }
pub open spec fn theirs(m: McBopomofoLM, key: Seq<u8>) -> Acc { filt_all(m, base_rows(m, key), excluded(m, key), mine(m, key).ins) }
pub open spec fn top(g: Seq<LanguageModel_Unigram>, n: int) -> Dbl
    decreases n
{ if n <= 0 { dlowest() } else if dlt(top(g, n - 1), g[n - 1].score_) { g[n - 1].score_ } else { top(g, n - 1) } }
// 1e-9 above the best of the system
pub open spec fn boost(g: Seq<LanguageModel_Unigram>) -> Dbl { dadd(top(g, g.len() as int), dlit(3864808594)) }
pub open spec fn with_score(u: Seq<LanguageModel_Unigram>, s: Dbl) -> Seq<LanguageModel_Unigram> {
    u.map_values(|x: LanguageModel_Unigram| LanguageModel_Unigram { value_: x.value_, score_: s })
}
pub open spec fn multi(key: Seq<u8>) -> bool { exists|i: int| 0 <= i < key.len() && key[i] == 45 }
pub open spec fn merged(m: McBopomofoLM, key: Seq<u8>) -> Seq<LanguageModel_Unigram> {
    let u = mine(m, key).r;
    let g = theirs(m, key).r;
    if multi(key) || g.len() == 0 { u + g } else { with_score(u, boost(g)) + g }
}
pub open spec fn space() -> Seq<u8> { seq![32u8] }
// the table is sorted as documented, or there is none
pub open spec fn table_ok(m: McBopomofoLM, key: Seq<u8>) -> bool {
    lm_ok(m.languageModel_) && (m.languageModel_.db_.is_some() ==> good(m.languageModel_.db_->0, key + sp()))
}
#[verifier::opaque]
pub open spec fn dash_at(key: Seq<u8>, i: int) -> bool { is_at(key, seq![45u8], i) }
pub proof fn lemma_dash(key: Seq<u8>, i: int)
    ensures dash_at(key, i) == (0 <= i < key.len() && key[i] == 45)
{
    reveal(dash_at);
    if 0 <= i < key.len() { assert(key.subrange(i, i + 1).len() == 1); assert(key.subrange(i, i + 1)[0] == key[i]); if key[i] == 45 { assert(key.subrange(i, i + 1) =~= seq![45u8]); } }
}
pub proof fn lemma_find_dash(key: Seq<u8>)
    ensures ({ let f = str_find(key, seq![45u8], 0); f == 0xFFFFFFFFFFFFFFFF && (forall|i: int| i >= 0 ==> !#[trigger] dash_at(key, i)) || f >= 0 && dash_at(key, f) })
{
    reveal(dash_at);
    if exists|i: int| i >= 0 && is_at(key, seq![45u8], i) { let i = choose|i: int| i >= 0 && is_at(key, seq![45u8], i); lemma_first_at(key, seq![45u8], i); }
}
pub proof fn lemma_multi(key: Seq<u8>)
    requires key.len() < 0x1000000000000
    ensures multi(key) == (str_find(key, seq![45u8], 0) != 0xFFFFFFFFFFFFFFFF)
{
    hide(str_find);
    let f = str_find(key, seq![45u8], 0);
    lemma_find_dash(key);
    lemma_dash(key, f);
    if multi(key) { let i = choose|i: int| 0 <= i < key.len() && key[i] == 45; lemma_dash(key, i); }
}
pub proof fn lemma_first_at(key: Seq<u8>, pat: Seq<u8>, i: int)
    requires i >= 0, is_at(key, pat, i)
    ensures exists|f: int| f >= 0 && is_at(key, pat, f) && forall|j: int| 0 <= j < f ==> !is_at(key, pat, j)
    decreases i
{
    if exists|j: int| 0 <= j < i && is_at(key, pat, j) { let j = choose|j: int| 0 <= j < i && is_at(key, pat, j); lemma_first_at(key, pat, j); }
}
// ---- C13 over the contracts ---------------------------------------------------------------
pub open spec fn texts_apart(r: Seq<LanguageModel_Unigram>) -> bool { forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).value_ != (#[trigger] r[j]).value_ }
pub open spec fn from_row(m: McBopomofoLM, us: Seq<LanguageModel_Unigram>, ex: Set<Seq<u8>>, x: LanguageModel_Unigram) -> bool {
    exists|k: int| 0 <= k < us.len() && offered(m, ex, #[trigger] us[k]) && final_text(m, us[k].value_) == x.value_ && us[k].score_ == x.score_
}
pub open spec fn has_text(r: Seq<LanguageModel_Unigram>, t: Seq<u8>) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).value_ == t }
pub proof fn lemma_filt(m: McBopomofoLM, us: Seq<LanguageModel_Unigram>, n: int, ex: Set<Seq<u8>>, ins: Set<Seq<u8>>)
    requires 0 <= n <= us.len()
    ensures ({ let a = filt(m, us, n, ex, ins);
        texts_apart(a.r)
        && (forall|i: int| 0 <= i < a.r.len() ==> !ins.contains((#[trigger] a.r[i]).value_) && from_row(m, us, ex, a.r[i]))
        && (forall|t: Seq<u8>| #[trigger] a.ins.contains(t) <==> ins.contains(t) || has_text(a.r, t))
        && (forall|k: int| 0 <= k < n && offered(m, ex, us[k]) ==> a.ins.contains(final_text(m, (#[trigger] us[k]).value_)))
    })
    decreases n
{
    if n > 0 {
        lemma_filt(m, us, n - 1, ex, ins);
        let p = filt(m, us, n - 1, ex, ins);
        let a = filt(m, us, n, ex, ins);
        let u = us[n - 1];
        let t = final_text(m, u.value_);
        if offered(m, ex, u) && !p.ins.contains(t) {
            let x = LanguageModel_Unigram { value_: t, score_: u.score_ };
            assert(a.r == p.r.push(x));
            assert(from_row(m, us, ex, x));
            assert(!has_text(p.r, t));
            assert forall|i: int| 0 <= i < a.r.len() implies !ins.contains((#[trigger] a.r[i]).value_) && from_row(m, us, ex, a.r[i]) by { if i < p.r.len() { assert(a.r[i] == p.r[i]); } }
            assert forall|i: int, j: int| 0 <= i < j < a.r.len() implies (#[trigger] a.r[i]).value_ != (#[trigger] a.r[j]).value_ by {
                assert(a.r[i] == p.r[i]);
                if j < p.r.len() { assert(a.r[j] == p.r[j]); }
            }
            assert forall|s: Seq<u8>| #[trigger] a.ins.contains(s) <==> ins.contains(s) || has_text(a.r, s) by {
                if has_text(p.r, s) { let i = choose|i: int| 0 <= i < p.r.len() && (#[trigger] p.r[i]).value_ == s; assert(a.r[i].value_ == s); }
                if s == t { assert(a.r[p.r.len() as int].value_ == s); }
                if has_text(a.r, s) && s != t { let i = choose|i: int| 0 <= i < a.r.len() && (#[trigger] a.r[i]).value_ == s; assert(p.r[i].value_ == s); }
            }
        }
    }
}
// no two candidates have the same text; none comes from an excluded phrase or an unexpanded macro; every other phrase is
// there under its text; the user's come first, the system's keep their order and scores
pub proof fn lemma_merged(m: McBopomofoLM, key: Seq<u8>)
    ensures ({
        let r = merged(m, key); let u = mine(m, key).r; let g = theirs(m, key).r; let ex = excluded(m, key);
        texts_apart(r) && r.len() == u.len() + g.len()
        && (forall|i: int| 0 <= i < u.len() ==> (#[trigger] r[i]).value_ == u[i].value_ && from_row(m, user_rows(m, key), ex, u[i]))
        && (forall|i: int| 0 <= i < g.len() ==> r[u.len() + i] == #[trigger] g[i] && from_row(m, base_rows(m, key), ex, g[i]))
        && (forall|k: int| 0 <= k < user_rows(m, key).len() && offered(m, ex, #[trigger] user_rows(m, key)[k]) ==> has_text(r, final_text(m, user_rows(m, key)[k].value_)))
        && (forall|k: int| 0 <= k < base_rows(m, key).len() && offered(m, ex, #[trigger] base_rows(m, key)[k]) ==> has_text(r, final_text(m, base_rows(m, key)[k].value_)))
    })
{
    let r = merged(m, key); let u = mine(m, key).r; let g = theirs(m, key).r; let ex = excluded(m, key);
    let us = user_rows(m, key); let bs = base_rows(m, key);
    lemma_filt(m, us, us.len() as int, ex, Set::empty());
    lemma_filt(m, bs, bs.len() as int, ex, mine(m, key).ins);
    assert forall|i: int| 0 <= i < u.len() implies (#[trigger] r[i]).value_ == u[i].value_ && from_row(m, us, ex, u[i]) by { }
    assert forall|i: int| 0 <= i < g.len() implies r[u.len() + i] == #[trigger] g[i] && from_row(m, bs, ex, g[i]) by { }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).value_ != (#[trigger] r[j]).value_ by {
        if j >= u.len() { assert(r[j] == g[j - u.len()]); assert(!mine(m, key).ins.contains(g[j - u.len()].value_)); if i < u.len() { assert(u[i].value_ == r[i].value_); assert(has_text(u, u[i].value_)); } else { assert(r[i] == g[i - u.len()]); } }
        else { assert(u[i].value_ == r[i].value_ && u[j].value_ == r[j].value_); }
    }
    assert forall|t: Seq<u8>| has_text(u, t) implies #[trigger] has_text(r, t) by { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).value_ == t; assert(r[i].value_ == t); }
    assert forall|t: Seq<u8>| has_text(g, t) implies #[trigger] has_text(r, t) by { let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).value_ == t; assert(r[u.len() + i].value_ == t); }
    assert forall|k: int| 0 <= k < us.len() && offered(m, ex, #[trigger] us[k]) implies has_text(r, final_text(m, us[k].value_)) by { assert(mine(m, key).ins.contains(final_text(m, us[k].value_))); assert(has_text(u, final_text(m, us[k].value_))); }
    assert forall|k: int| 0 <= k < bs.len() && offered(m, ex, #[trigger] bs[k]) implies has_text(r, final_text(m, bs[k].value_)) by {
        let t = final_text(m, bs[k].value_);
        assert(theirs(m, key).ins.contains(t));
        if mine(m, key).ins.contains(t) { assert(has_text(u, t)); } else { assert(has_text(g, t)); }
    }
}
// a user phrase of one syllable is at least as good as every phrase of the system
pub proof fn lemma_top(g: Seq<LanguageModel_Unigram>, n: int)
    requires ordered(), 0 <= n <= g.len()
    ensures forall|i: int| 0 <= i < n ==> dle((#[trigger] g[i]).score_, top(g, n))
    decreases n
{
    if n > 0 {
        lemma_top(g, n - 1);
        assert(dle(top(g, n - 1), top(g, n)));
        assert forall|i: int| 0 <= i < n implies dle((#[trigger] g[i]).score_, top(g, n)) by { if i < n - 1 { assert(dle(g[i].score_, top(g, n - 1))); } }
    }
}
pub proof fn lemma_none(m: McBopomofoLM, key: Seq<u8>)
    ensures user_rows(m, key).len() == 0 && base_rows(m, key).len() == 0 ==> merged(m, key).len() == 0
{ }
// ---- the best reading of a phrase
pub open spec fn phrase_readings(lm: ParselessLM, value: Seq<u8>) -> Seq<ParselessLM_FoundReading> {
    if lm.db_.is_none() { Seq::empty() } else { rev_rows((lm.db_->0).begin_.buf, (lm.db_->0).end_.off, (lm.db_->0).begin_.off, value + sp()).map_values(|l: Seq<u8>| row_reading(l)) }
}
pub open spec fn best(f: Seq<ParselessLM_FoundReading>, n: int) -> (Seq<u8>, Dbl)
    decreases n
{ if n <= 0 { (Seq::empty(), dlowest()) } else if dlt(best(f, n - 1).1, f[n - 1].score) { (f[n - 1].reading, f[n - 1].score) } else { best(f, n - 1) } }
pub open spec fn best_reading(f: Seq<ParselessLM_FoundReading>) -> Seq<u8> { best(f, f.len() as int).0 }
pub proof fn lemma_best(f: Seq<ParselessLM_FoundReading>, n: int)
    requires ordered(), 0 <= n <= f.len()
    ensures forall|i: int| 0 <= i < n ==> dle((#[trigger] f[i]).score, best(f, n).1),
        best(f, n) == (Seq::<u8>::empty(), dlowest()) || exists|i: int| 0 <= i < n && best(f, n) == ((#[trigger] f[i]).reading, f[i].score)
    decreases n
{
    if n > 0 {
        lemma_best(f, n - 1);
        assert(dle(best(f, n - 1).1, best(f, n).1));
        assert forall|i: int| 0 <= i < n implies dle((#[trigger] f[i]).score, best(f, n).1) by { if i < n - 1 { assert(dle(f[i].score, best(f, n - 1).1)); } }
    }
}
@fn McBopomofoLM_filterAndTransformUnigrams
@ensures
- this_post == this
- ret == filt_all(this, unigrams, excludedValues, insertedValues).r
- insertedValues_post == filt_all(this, unigrams, excludedValues, insertedValues).ins
@at loop0.begin
assert(c_kMacroPrefix() =~= macro_prefix());
@loop 0
@inv
- rng0 == old_unigrams && this == old_this && excludedValues == old_excludedValues
- results == filt(this, rng0, idx0, excludedValues, old_insertedValues).r && insertedValues == filt(this, rng0, idx0, excludedValues, old_insertedValues).ins
@fn McBopomofoLM_getUnigrams
@requires
- table_ok(this, key)
@ensures
- this_post == this
- key == space() ==> ret =~= seq![LanguageModel_Unigram { value_: space(), score_: dlit(0) }]
- key != space() ==> ret =~= merged(this, key)
@at entry
phys(key); lemma_multi(key);
@at loop0.pre
assert(excludedValues =~= excluded(this, key));
@at return.end
assert(excludedValues =~= excluded(this, key));
@loop 0
@inv
- rng0 == theirs(this, key).r && allUnigrams == rng0 && topScore == top(rng0, idx0) && this == old_this && userUnigrams == mine(this, key).r
@loop 1
@inv
- rewrittenUserUnigrams =~= with_score(rng1.subrange(0, idx1), boostedScore)
- rng1 == mine(this, key).r
@fn McBopomofoLM_hasUnigrams
@requires
- table_ok(this, key)
@ensures
- this_post == this
- ret <==> key == space() || merged(this, key).len() > 0
@at return.end
lemma_none(this, key);
@fn McBopomofoLM_getReading
@requires
- lm_ok(this.languageModel_)
@ensures
- one_line(value + sp()) ==> ret =~= best_reading(phrase_readings(this.languageModel_, value))
@at loop0.exit
if one_line(value + sp()) { assert(foundReadings =~= phrase_readings(this.languageModel_, value)); }
@loop 0
@inv
- rng0 == foundReadings
- (topValue, topScore) == best(rng0, idx0)
@fn McBopomofoLM_setPhraseReplacementEnabled
@ensures
- this_post == (McBopomofoLM { phraseReplacementEnabled_: enabled, ..this })
@fn McBopomofoLM_phraseReplacementEnabled
@ensures
- ret == this.phraseReplacementEnabled_
@fn McBopomofoLM_setExternalConverterEnabled
@ensures
- this_post == (McBopomofoLM { externalConverterEnabled_: enabled, ..this })
@fn McBopomofoLM_externalConverterEnabled
@ensures
- ret == this.externalConverterEnabled_
@fn McBopomofoLM_setExternalConverter
@opt nullfun
@ensures
- this_post == (McBopomofoLM { externalConverter_: externalConverter, ..this })
@fn McBopomofoLM_setMacroConverter
@opt nullfun
@ensures
- this_post == (McBopomofoLM { macroConverter_: macroConverter, ..this })
@fn McBopomofoLM_convertMacro
@ensures
- this_post == this
- ret == (if this.macroConverter_.is_some() { (this.macroConverter_->0)(input) } else { input })
