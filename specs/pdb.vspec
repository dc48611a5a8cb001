@source src/Engine/ParselessPhraseDB.cpp McBopomofo
@source src/Engine/ParselessLM.cpp McBopomofo
@source src/Engine/ParselessLM.cpp Formosa
@extern stod(std::string) -> double = stod($0)
@prelude
// ---- lines of the table b[lo..hi) --------------------------------------------------
pub open spec fn is_ls(b: Seq<u8>, lo: int, p: int) -> bool { p == lo || (p > lo && b[p - 1] == 10) }
pub open spec fn eol(b: Seq<u8>, p: int, hi: int) -> int
    decreases hi - p
{
    if p >= hi || b[p] == 10 { p } else { eol(b, p + 1, hi) }
}
pub proof fn lemma_eol(b: Seq<u8>, p: int, hi: int)
    requires p <= hi
    ensures p <= eol(b, p, hi) <= hi, forall|k: int| p <= k < eol(b, p, hi) ==> b[k] != 10,
        eol(b, p, hi) < hi ==> b[eol(b, p, hi)] == 10
    decreases hi - p
{
    if p >= hi || b[p] == 10 { } else { lemma_eol(b, p + 1, hi); }
}
pub proof fn lemma_eol_is(b: Seq<u8>, p: int, hi: int, e: int)
    requires p <= e <= hi, forall|k: int| p <= k < e ==> b[k] != 10, e < hi ==> b[e] == 10
    ensures eol(b, p, hi) == e
    decreases e - p
{
    if p < e { lemma_eol_is(b, p + 1, hi, e); }
}
pub open spec fn line(b: Seq<u8>, p: int, hi: int) -> Seq<u8> { b.subrange(p, eol(b, p, hi)) }
pub open spec fn sorted(b: Seq<u8>, lo: int, hi: int) -> bool {
    forall|p: int, q: int| lo <= p < q < hi && is_ls(b, lo, p) && is_ls(b, lo, q)
        ==> #[trigger] lexcmp(line(b, p, hi), line(b, q, hi)) <= 0
}
pub open spec fn row_plain(key: Seq<u8>) -> bool { key.len() > 0 && forall|i: int| 0 <= i < key.len() ==> key[i] > 10 }
pub open spec fn prefixed(l: Seq<u8>, key: Seq<u8>) -> bool { key.len() <= l.len() && l.subrange(0, key.len() as int) =~= key }
pub open spec fn row_matches(b: Seq<u8>, hi: int, p: int, key: Seq<u8>) -> bool { prefixed(line(b, p, hi), key) }
// all rows from line start p on, in table order, that start with key
pub open spec fn rows_from(b: Seq<u8>, hi: int, p: int, key: Seq<u8>) -> Seq<Seq<u8>>
    decreases hi - p
{
    if p >= hi { Seq::empty() } else {
        let e = eol(b, p, hi);
        let rest = if e >= hi || e < p { Seq::empty() } else { rows_from(b, hi, e + 1, key) };
        if row_matches(b, hi, p, key) { seq![line(b, p, hi)] + rest } else { rest }
    }
}
// how the line at p compares with the key, looking at the key's length only
pub open spec fn cl(l: Seq<u8>, key: Seq<u8>) -> int {
    lexcmp(if l.len() < key.len() { l } else { l.subrange(0, key.len() as int) }, key)
}
pub open spec fn cls(b: Seq<u8>, hi: int, p: int, key: Seq<u8>) -> int { cl(line(b, p, hi), key) }
pub proof fn lemma_lexcmp_eq(a: Seq<u8>, b: Seq<u8>)
    ensures lexcmp(a, b) == 0 <==> a =~= b, -1 <= lexcmp(a, b) <= 1
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        lemma_lexcmp_eq(a.drop_first(), b.drop_first());
        if a[0] == b[0] && a.drop_first() =~= b.drop_first() {
            assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(a.drop_first()[i - 1] == b.drop_first()[i - 1]); } }
        }
        if a =~= b { assert(a.drop_first() =~= b.drop_first()); }
    }
}
pub proof fn lemma_cl(l: Seq<u8>, key: Seq<u8>)
    ensures cl(l, key) == 0 <==> prefixed(l, key), -1 <= cl(l, key) <= 1
{
    lemma_lexcmp_eq(if l.len() < key.len() { l } else { l.subrange(0, key.len() as int) }, key);
}
// comparing raw bytes across the end of a line gives the line's own comparison
pub proof fn lemma_raw(b: Seq<u8>, hi: int, p: int, key: Seq<u8>)
    requires forall|i: int| 0 <= i < key.len() ==> key[i] > 10, 0 <= p, p + key.len() <= hi <= b.len()
    ensures lexcmp(b.subrange(p, p + key.len()), key) == cls(b, hi, p, key)
    decreases key.len()
{
    let n = key.len() as int;
    lemma_eol(b, p, hi);
    let l = line(b, p, hi);
    let a = b.subrange(p, p + n);
    if n > 0 {
        if eol(b, p, hi) == p {
            assert(a[0] == 10);
            assert(l.len() == 0);
        } else {
            let k2 = key.drop_first();
            lemma_raw(b, hi, p + 1, k2);
            assert(eol(b, p, hi) == eol(b, p + 1, hi));
            let l2 = line(b, p + 1, hi);
            assert(a.drop_first() =~= b.subrange(p + 1, p + n));
            assert(b.subrange(p + 1, p + 1 + k2.len()) =~= a.drop_first());
            assert(l.drop_first() =~= l2);
            if l.len() < n {
                assert(l2.len() < k2.len());
            } else {
                let x = l.subrange(0, n);
                assert(x.drop_first() =~= l2.subrange(0, n - 1));
                assert(x[0] == a[0]);
            }
        }
    } else {
        if l.len() >= 0 { assert(l.subrange(0, 0) =~= Seq::<u8>::empty()); assert(a =~= Seq::<u8>::empty()); }
    }
}
// the comparison is monotone in the line
pub proof fn lemma_mono(l1: Seq<u8>, l2: Seq<u8>, key: Seq<u8>)
    requires lexcmp(l1, l2) <= 0
    ensures cl(l1, key) <= cl(l2, key)
    decreases key.len()
{
    lemma_cl(l1, key);
    lemma_cl(l2, key);
    if key.len() == 0 {
        assert(l1.subrange(0, 0) =~= l2.subrange(0, 0));
    } else if l1.len() == 0 {
        assert(cl(l1, key) == -1);
    } else {
        assert(l2.len() > 0);
        let k2 = key.drop_first();
        let t1 = if l1.len() < key.len() { l1 } else { l1.subrange(0, key.len() as int) };
        let t2 = if l2.len() < key.len() { l2 } else { l2.subrange(0, key.len() as int) };
        assert(t1.drop_first() =~= (if l1.drop_first().len() < k2.len() { l1.drop_first() } else { l1.drop_first().subrange(0, k2.len() as int) }));
        assert(t2.drop_first() =~= (if l2.drop_first().len() < k2.len() { l2.drop_first() } else { l2.drop_first().subrange(0, k2.len() as int) }));
        if l1[0] == l2[0] {
            lemma_mono(l1.drop_first(), l2.drop_first(), k2);
        }
    }
}
pub proof fn lemma_sorted_cls(b: Seq<u8>, lo: int, hi: int, p: int, q: int, key: Seq<u8>)
    requires sorted(b, lo, hi), lo <= p <= q < hi, is_ls(b, lo, p), is_ls(b, lo, q)
    ensures cls(b, hi, p, key) <= cls(b, hi, q, key)
{
    if p < q {
        assert(lexcmp(line(b, p, hi), line(b, q, hi)) <= 0);
        lemma_mono(line(b, p, hi), line(b, q, hi), key);
    }
}
// line starts do not lie strictly inside a line
pub proof fn lemma_ls_sep(b: Seq<u8>, lo: int, hi: int, p: int, q: int)
    requires lo <= p < q < hi, is_ls(b, lo, q)
    ensures eol(b, p, hi) < q
{
    lemma_eol(b, p, hi);
}
pub open spec fn db_ok(d: ParselessPhraseDB) -> bool {
    d.begin_.buf =~= d.end_.buf && !d.begin_.nil && !d.end_.nil && 0 <= d.begin_.off <= d.end_.off <= d.begin_.buf.len()
    && (d.end_.off == d.begin_.buf.len() || d.end_.off == d.begin_.off)
}
pub open spec fn good(d: ParselessPhraseDB, key: Seq<u8>) -> bool {
    sorted(d.begin_.buf, d.begin_.off, d.end_.off) && row_plain(key)
}
pub open spec fn is_first(d: ParselessPhraseDB, key: Seq<u8>, p: int) -> bool {
    d.begin_.off <= p < d.end_.off && is_ls(d.begin_.buf, d.begin_.off, p)
    && row_matches(d.begin_.buf, d.end_.off, p, key)
    && forall|q: int| d.begin_.off <= q < p && is_ls(d.begin_.buf, d.begin_.off, q) ==> !#[trigger] row_matches(d.begin_.buf, d.end_.off, q, key)
}
pub open spec fn has_match(d: ParselessPhraseDB, key: Seq<u8>, m: int) -> bool {
    d.begin_.off <= m < d.end_.off && is_ls(d.begin_.buf, d.begin_.off, m) && row_matches(d.begin_.buf, d.end_.off, m, key)
}
pub proof fn lemma_first(d: ParselessPhraseDB, key: Seq<u8>, m: int)
    requires has_match(d, key, m)
    ensures exists|f: int| is_first(d, key, f)
    decreases m - d.begin_.off
{
    if !is_first(d, key, m) {
        let q = choose|q: int| d.begin_.off <= q < m && is_ls(d.begin_.buf, d.begin_.off, q) && row_matches(d.begin_.buf, d.end_.off, q, key);
        lemma_first(d, key, q);
    }
}
// where the first match can be, given how the line at p compares
pub proof fn lemma_where(d: ParselessPhraseDB, key: Seq<u8>, p: int, m: int)
    requires db_ok(d), good(d, key), has_match(d, key, m), d.begin_.off <= p < d.end_.off, is_ls(d.begin_.buf, d.begin_.off, p)
    ensures ({ let c = cls(d.begin_.buf, d.end_.off, p, key);
        &&& c > 0 ==> m < p
        &&& c < 0 ==> m > eol(d.begin_.buf, p, d.end_.off)
        &&& m < p ==> m + key.len() < p
        &&& m + key.len() <= d.end_.off
        &&& (c == 0 <==> row_matches(d.begin_.buf, d.end_.off, p, key)) })
{
    let b = d.begin_.buf; let lo = d.begin_.off; let hi = d.end_.off;
    lemma_cl(line(b, m, hi), key);
    lemma_cl(line(b, p, hi), key);
    lemma_eol(b, m, hi);
    lemma_eol(b, p, hi);
    if cls(b, hi, p, key) > 0 && m >= p { lemma_sorted_cls(b, lo, hi, p, m, key); }
    if cls(b, hi, p, key) < 0 && m <= p { lemma_sorted_cls(b, lo, hi, m, p, key); }
    if p < m { lemma_ls_sep(b, lo, hi, p, m); }
    if m < p { lemma_ls_sep(b, lo, hi, m, p); }
}
pub proof fn lemma_rows_skip(b: Seq<u8>, lo: int, hi: int, p: int, f: int, key: Seq<u8>)
    requires lo <= p <= f < hi, is_ls(b, lo, p), is_ls(b, lo, f),
        forall|q: int| p <= q < f && is_ls(b, lo, q) ==> !#[trigger] row_matches(b, hi, q, key)
    ensures rows_from(b, hi, p, key) == rows_from(b, hi, f, key)
    decreases f - p
{
    if p < f {
        lemma_ls_sep(b, lo, hi, p, f);
        lemma_eol(b, p, hi);
        lemma_rows_skip(b, lo, hi, eol(b, p, hi) + 1, f, key);
    }
}
pub proof fn lemma_rows_none(b: Seq<u8>, lo: int, hi: int, p: int, key: Seq<u8>)
    requires lo <= p, p < hi ==> is_ls(b, lo, p),
        forall|q: int| p <= q < hi && is_ls(b, lo, q) ==> !#[trigger] row_matches(b, hi, q, key)
    ensures rows_from(b, hi, p, key) =~= Seq::<Seq<u8>>::empty()
    decreases hi - p
{
    if p < hi {
        lemma_eol(b, p, hi);
        if eol(b, p, hi) < hi { lemma_rows_none(b, lo, hi, eol(b, p, hi) + 1, key); }
    }
}
pub proof fn lemma_short(b: Seq<u8>, lo: int, hi: int, q: int, key: Seq<u8>)
    requires 0 <= lo <= q < hi <= b.len(), row_matches(b, hi, q, key)
    ensures q + key.len() <= hi
{
    lemma_eol(b, q, hi);
}
pub open spec fn all_rows(d: ParselessPhraseDB, key: Seq<u8>) -> Seq<Seq<u8>> { rows_from(d.begin_.buf, d.end_.off, d.begin_.off, key) }
// the loop of findRows leaves because nothing further matches
pub proof fn lemma_rows_stop(d: ParselessPhraseDB, p: int, key: Seq<u8>, c: int)
    requires db_ok(d), good(d, key), d.begin_.off <= p <= d.end_.off, p < d.end_.off ==> is_ls(d.begin_.buf, d.begin_.off, p),
        p + key.len() > d.end_.off || (c != 0 && sgn(c) == lexcmp(d.begin_.buf.subrange(p, p + key.len()), key)),
        // every earlier match is followed only by matches or larger lines
        p < d.end_.off ==> cls(d.begin_.buf, d.end_.off, p, key) >= 0
    ensures rows_from(d.begin_.buf, d.end_.off, p, key) =~= Seq::<Seq<u8>>::empty()
{
    let b = d.begin_.buf; let lo = d.begin_.off; let hi = d.end_.off;
    assert forall|q: int| p <= q < hi && is_ls(b, lo, q) implies !#[trigger] row_matches(b, hi, q, key) by {
        if row_matches(b, hi, q, key) {
            lemma_short(b, lo, hi, q, key);
            lemma_cl(line(b, q, hi), key);
            if p + key.len() <= hi { lemma_raw(b, hi, p, key); lemma_sorted_cls(b, lo, hi, p, q, key); }
        }
    }
    lemma_rows_none(b, lo, hi, p, key);
}
// ---- reverse lookup: line by line ----------------------------------------------------
pub open spec fn skipn(l: Seq<u8>, i: int) -> int
    decreases l.len() - i
{ if i >= l.len() || l[i] == 32 { i } else { skipn(l, i + 1) } }
pub open spec fn skips(l: Seq<u8>, i: int) -> int
    decreases l.len() - i
{ if i >= l.len() || l[i] != 32 { i } else { skips(l, i + 1) } }
pub proof fn lemma_skipn_is(l: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= l.len(), forall|k: int| i <= k < j ==> l[k] != 32, j < l.len() ==> l[j] == 32
    ensures skipn(l, i) == j
    decreases j - i
{ if i < j { lemma_skipn_is(l, i + 1, j); } }
pub proof fn lemma_skips_is(l: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= l.len(), forall|k: int| i <= k < j ==> l[k] == 32, j < l.len() ==> l[j] != 32
    ensures skips(l, i) == j
    decreases j - i
{ if i < j { lemma_skips_is(l, i + 1, j); } }
pub proof fn lemma_skip_range(l: Seq<u8>, i: int)
    requires 0 <= i <= l.len()
    ensures i <= skipn(l, i) <= l.len(), i <= skips(l, i) <= l.len()
    decreases l.len() - i
{ if i < l.len() { lemma_skip_range(l, i + 1); } }
// the part of a row after its first run of spaces
pub open spec fn row_part(l: Seq<u8>) -> Seq<u8> { l.subrange(skips(l, skipn(l, 0)), l.len() as int) }
pub open spec fn rev_rows(b: Seq<u8>, hi: int, p: int, val: Seq<u8>) -> Seq<Seq<u8>>
    decreases hi - p
{
    if p >= hi { Seq::empty() } else {
        let e = eol(b, p, hi);
        let rest = if e >= hi || e < p { Seq::empty() } else { rev_rows(b, hi, e + 1, val) };
        if prefixed(row_part(line(b, p, hi)), val) { seq![line(b, p, hi)] + rest } else { rest }
    }
}
pub open spec fn one_line(v: Seq<u8>) -> bool { v.len() > 0 && forall|i: int| 0 <= i < v.len() ==> v[i] != 10 }
pub proof fn lemma_rev_blank(b: Seq<u8>, hi: int, p: int, val: Seq<u8>)
    requires one_line(val), 0 <= p < hi <= b.len(), b[p] == 10
    ensures rev_rows(b, hi, p, val) == rev_rows(b, hi, p + 1, val)
{
    lemma_skip_range(line(b, p, hi), 0);
    lemma_skip_range(line(b, p, hi), skipn(line(b, p, hi), 0));
    assert(eol(b, p, hi) == p);
    assert(row_part(line(b, p, hi)).len() == 0);
}
// comparing raw bytes at the start of the value decides whether the row's value starts with the text
pub proof fn lemma_rev_raw(b: Seq<u8>, hi: int, p: int, v: int, val: Seq<u8>)
    requires one_line(val), 0 <= p <= v <= eol(b, p, hi), p < hi <= b.len(),
        v - p == skips(line(b, p, hi), skipn(line(b, p, hi), 0))
    ensures prefixed(row_part(line(b, p, hi)), val) <==> (v + val.len() <= hi && b.subrange(v, v + val.len()) =~= val)
{
    lemma_eol(b, p, hi);
    let l = line(b, p, hi);
    let e = eol(b, p, hi);
    assert(row_part(l) =~= b.subrange(v, e));
    if v + val.len() <= hi && b.subrange(v, v + val.len()) =~= val {
        if v + val.len() > e {
            assert(b[e] == 10);
            assert(b.subrange(v, v + val.len())[e - v] == 10);
            assert(false);
        }
        assert(row_part(l).subrange(0, val.len() as int) =~= val);
    }
    if prefixed(row_part(l), val) {
        assert(row_part(l).subrange(0, val.len() as int) =~= b.subrange(v, v + val.len()));
    }
}

// ---- rows decoded ---------------------------------------------------------------------
// the number a score field states
pub uninterp spec fn stod(s: Seq<u8>) -> Dbl;
pub open spec fn after(l: Seq<u8>, i: int) -> int { if i < l.len() { i + 1 } else { i } }
pub open spec fn row_value(l: Seq<u8>) -> Seq<u8> { let v = after(l, skipn(l, 0)); l.subrange(v, skipn(l, v)) }
pub open spec fn row_key(l: Seq<u8>) -> Seq<u8> { l.subrange(0, skipn(l, 0)) }
pub open spec fn row_score(l: Seq<u8>) -> Dbl {
    let s = after(l, skipn(l, after(l, skipn(l, 0))));
    if s < l.len() { stod(l.subrange(s, l.len() as int)) } else { dlit(0) }
}
pub open spec fn row_unigram(l: Seq<u8>) -> LanguageModel_Unigram { LanguageModel_Unigram { value_: row_value(l), score_: row_score(l) } }
pub open spec fn row_unigrams(r: Seq<Seq<u8>>) -> Seq<LanguageModel_Unigram> { r.map_values(|l: Seq<u8>| row_unigram(l)) }
pub open spec fn row_reading(l: Seq<u8>) -> ParselessLM_FoundReading { ParselessLM_FoundReading { reading: row_key(l), score: row_score(l) } }
pub proof fn lemma_skipn(l: Seq<u8>, i: int)
    requires 0 <= i <= l.len()
    ensures i <= skipn(l, i) <= l.len(), forall|k: int| i <= k < skipn(l, i) ==> l[k] != 32, skipn(l, i) < l.len() ==> l[skipn(l, i)] == 32
    decreases l.len() - i
{ if i < l.len() && l[i] != 32 { lemma_skipn(l, i + 1); } }
pub open spec fn nosp(s: Seq<u8>) -> bool { forall|k: int| 0 <= k < s.len() ==> s[k] != 32 }
pub open spec fn sp() -> Seq<u8> { seq![32u8] }
// a row of the documented form decodes to exactly its reading, phrase and score
pub proof fn lemma_row_decode(r: Seq<u8>, v: Seq<u8>, sc: Seq<u8>, hassc: bool)
    requires nosp(r), nosp(v)
    ensures ({ let l = r + sp() + v + (if hassc { sp() + sc } else { Seq::empty() });
        row_key(l) =~= r && row_value(l) =~= v && row_score(l) == (if hassc && sc.len() > 0 { stod(sc) } else { dlit(0) }) })
{
    let l = r + sp() + v + (if hassc { sp() + sc } else { Seq::empty() });
    lemma_skipn_is(l, 0, r.len() as int);
    let vb = r.len() + 1;
    assert(forall|k: int| vb <= k < vb + v.len() ==> l[k] == v[k - vb]);
    lemma_skipn_is(l, vb as int, (vb + v.len()) as int);
    assert(l.subrange(0, r.len() as int) =~= r);
    assert(l.subrange(vb as int, (vb + v.len()) as int) =~= v);
    if hassc && sc.len() > 0 { assert(l.subrange((vb + v.len() + 1) as int, l.len() as int) =~= sc); }
}
// a row found under reading-plus-space is a row of exactly that reading
pub proof fn lemma_same_reading(l: Seq<u8>, key: Seq<u8>)
    requires prefixed(l, key + sp()), nosp(key)
    ensures row_key(l) =~= key
{
    assert(l.subrange(0, key.len() as int + 1) =~= key + sp());
    assert(forall|k: int| 0 <= k < key.len() ==> l[k] == (key + sp())[k]);
    assert(l[key.len() as int] == (key + sp())[key.len() as int]);
    lemma_skipn_is(l, 0, key.len() as int);
}
// a row of the documented form is found under phrase-plus-space exactly when that is its phrase
pub proof fn lemma_same_value(r: Seq<u8>, v: Seq<u8>, sc: Seq<u8>, val: Seq<u8>)
    requires nosp(r), nosp(v), nosp(val), v.len() > 0
    ensures ({ let l = r + sp() + v + sp() + sc; prefixed(row_part(l), val + sp()) <==> val =~= v })
{
    let l = r + sp() + v + sp() + sc;
    lemma_skipn_is(l, 0, r.len() as int);
    assert(l[r.len() as int + 1] == v[0]);
    lemma_skips_is(l, r.len() as int, r.len() as int + 1);
    let p = row_part(l);
    assert(p =~= v + sp() + sc);
    if val =~= v { assert(p.subrange(0, val.len() as int + 1) =~= val + sp()); }
    if prefixed(p, val + sp()) {
        let q = p.subrange(0, val.len() as int + 1);
        assert(q =~= val + sp());
        assert(forall|k: int| 0 <= k < val.len() ==> p[k] == q[k] && q[k] == val[k]);
        assert(p[val.len() as int] == q[val.len() as int]);
        if val.len() < v.len() { assert(p[val.len() as int] == v[val.len() as int]); }
        if val.len() > v.len() { assert(p[v.len() as int] == 32); assert(val[v.len() as int] == 32); }
    }
}
pub proof fn lemma_rows_nonempty(d: ParselessPhraseDB, p: int, key: Seq<u8>)
    requires db_ok(d), d.begin_.off <= p, p < d.end_.off ==> is_ls(d.begin_.buf, d.begin_.off, p)
    ensures rows_from(d.begin_.buf, d.end_.off, p, key).len() > 0 <==> exists|m: int| m >= p && has_match(d, key, m)
    decreases d.end_.off - p
{
    let b = d.begin_.buf; let lo = d.begin_.off; let hi = d.end_.off;
    if p < hi {
        lemma_eol(b, p, hi);
        let e = eol(b, p, hi);
        if row_matches(b, hi, p, key) { assert(has_match(d, key, p)); }
        if e < hi {
            lemma_rows_nonempty(d, e + 1, key);
            if exists|m: int| m >= p && has_match(d, key, m) {
                let m = choose|m: int| m >= p && has_match(d, key, m);
                if m > p { lemma_ls_sep(b, lo, hi, p, m); assert(m >= e + 1); }
            }
        } else {
            if exists|m: int| m >= p && has_match(d, key, m) {
                let m = choose|m: int| m >= p && has_match(d, key, m);
                if m > p { lemma_ls_sep(b, lo, hi, p, m); }
            }
        }
    }
}
pub open spec fn lm_ok(l: ParselessLM) -> bool { l.db_.is_some() ==> db_ok(l.db_->0) }

@fn ParselessPhraseDB_ValidatePragma
@requires
- !buf.nil && length >= 0 && buf.off >= 0 && buf.off + length <= buf.buf.len()
@ensures
- ret <==> prefixed(buf.buf.subrange(buf.off, buf.off + length), c_SORTED_PRAGMA_HEADER())
@at return
if length >= c_SORTED_PRAGMA_HEADER().len() {
  assert(buf.buf.subrange(buf.off, buf.off + length).subrange(0, c_SORTED_PRAGMA_HEADER().len() as int) =~= buf.buf.subrange(buf.off, buf.off + c_SORTED_PRAGMA_HEADER().len()));
}

@fn ParselessPhraseDB_ctor
@requires
- !buf.nil && 0 <= buf.off && length > 0 && buf.off + length == buf.buf.len()
@ensures
- db_ok(ret) && ret.begin_.buf =~= buf.buf
- !validate_pragma ==> ret.begin_.off == buf.off && ret.end_.off == buf.off + length
- validate_pragma && prefixed(buf.buf.subrange(buf.off, buf.off + length), c_SORTED_PRAGMA_HEADER()) ==>
    ret.begin_.off == buf.off + c_SORTED_PRAGMA_HEADER().len() && ret.end_.off == buf.off + length
- validate_pragma && !prefixed(buf.buf.subrange(buf.off, buf.off + length), c_SORTED_PRAGMA_HEADER()) ==> ret.begin_.off == ret.end_.off

@fn ParselessPhraseDB_reverseFindRows
@requires
- db_ok(this)
@ensures
- one_line(value) ==> ret =~= rev_rows(this.begin_.buf, this.end_.off, this.begin_.off, value)
@ghost
f0: int = 0
@loop 0
@inv
- it_same(recordBegin, this.begin_) && this.begin_.off <= recordBegin.off <= this.end_.off
- one_line(value) ==> rows + rev_rows(this.begin_.buf, this.end_.off, recordBegin.off, value) =~= rev_rows(this.begin_.buf, this.end_.off, this.begin_.off, value)
@dec
this.end_.off - recordBegin.off
@loop 1
@inv
- it_same(ptr, this.begin_) && recordBegin.off <= ptr.off <= this.end_.off
- forall|k: int| recordBegin.off <= k < ptr.off ==> ptr.buf[k] != 10 && ptr.buf[k] != 32
@dec
this.end_.off - ptr.off
@loop 2
@inv
- it_same(ptr, this.begin_) && recordBegin.off <= f0 <= ptr.off <= this.end_.off
- forall|k: int| f0 <= k < ptr.off ==> ptr.buf[k] == 32
@dec
this.end_.off - ptr.off
@at loop2.pre
f0 = ptr.off;
@loop 3
@inv
- it_same(recordEnd, this.begin_) && ptr.off <= recordEnd.off <= this.end_.off
- forall|k: int| ptr.off <= k < recordEnd.off ==> ptr.buf[k] != 10
@dec
this.end_.off - recordEnd.off
@at loop3.post
let b = this.begin_.buf; let hi = this.end_.off; let p = recordBegin.off;
lemma_eol_is(b, p, hi, recordEnd.off);
let l = line(b, p, hi);
lemma_skipn_is(l, 0, f0 - p);
lemma_skips_is(l, f0 - p, ptr.off - p);
if one_line(value) { lemma_rev_raw(b, hi, p, ptr.off, value); }
lemma_lexcmp_eq(b.subrange(ptr.off, ptr.off + value.len()), value);
assert(it_take(it_begin(value), value.len() as int) =~= value);
if ptr.off + value.len() <= hi { assert(it_take(ptr, value.len() as int) =~= b.subrange(ptr.off, ptr.off + value.len())); }
@loop 4
@inv
- it_same(recordBegin, this.begin_) && recordEnd.off <= recordBegin.off <= this.end_.off
- one_line(value) && recordBegin.off == recordEnd.off ==> rows + (if recordEnd.off >= this.end_.off { Seq::empty() } else { rev_rows(this.begin_.buf, this.end_.off, recordEnd.off + 1, value) }) =~= rev_rows(this.begin_.buf, this.end_.off, this.begin_.off, value)
- recordEnd.off < this.end_.off ==> recordEnd.buf[recordEnd.off] == 10
- one_line(value) && recordBegin.off > recordEnd.off ==> rows + rev_rows(this.begin_.buf, this.end_.off, recordBegin.off, value) =~= rev_rows(this.begin_.buf, this.end_.off, this.begin_.off, value)
@dec
this.end_.off - recordBegin.off
@at loop4.begin
if one_line(value) { lemma_rev_blank(this.begin_.buf, this.end_.off, recordBegin.off, value); }

@fn ParselessPhraseDB_findFirstMatchingLine
@requires
- db_ok(this)
@ensures
- !ret.nil ==> ret.buf =~= this.begin_.buf && this.begin_.off <= ret.off <= this.end_.off
- good(this, key) && !ret.nil ==> is_first(this, key, ret.off)
- good(this, key) && ret.nil ==> forall|m: int| !has_match(this, key, m)
@loop 0
@inv
- it_same(top, this.begin_) && it_same(bottom, this.begin_)
- this.begin_.off <= top.off && bottom.off <= this.end_.off && bottom.off >= this.begin_.off - 1
- good(this, key) ==> forall|m: int| #[trigger] is_first(this, key, m) ==> top.off <= m && m + key.len() <= bottom.off
@ens
- good(this, key) ==> forall|m: int| !is_first(this, key, m)
@dec
bottom.off - top.off + 1
@loop 1
@inv
- it_same(ptr, this.begin_) && this.begin_.off <= ptr.off <= mid.off
- mid.off > this.begin_.off ==> ptr.off < mid.off
- forall|k: int| ptr.off < k < mid.off ==> ptr.buf[k] != 10
@dec
ptr.off - this.begin_.off
@loop 2
@inv
- it_same(prev, this.begin_) && this.begin_.off <= prev.off <= ptr.off - 2
- forall|k: int| prev.off < k < ptr.off - 1 ==> prev.buf[k] != 10
@dec
prev.off - this.begin_.off
@at before if (ptr + key.length() > end_)
assert(is_ls(this.begin_.buf, this.begin_.off, ptr.off));
assert(forall|k: int| ptr.off <= k < mid.off ==> ptr.buf[k] != 10);
lemma_eol(this.begin_.buf, ptr.off, this.end_.off);
assert(ptr.off < mid.off ==> eol(this.begin_.buf, ptr.off, this.end_.off) >= mid.off);
@at loop0.pre
if good(this, key) { assert forall|m: int| #[trigger] is_first(this, key, m) implies m + key.len() <= this.end_.off by { lemma_short(this.begin_.buf, this.begin_.off, this.end_.off, m, key); } }
@at loop0.break
if good(this, key) {
  assert forall|m: int| !is_first(this, key, m) by {
    if is_first(this, key, m) {
      if ptr.off < this.end_.off { lemma_where(this, key, ptr.off, m); }
      lemma_eol(this.begin_.buf, m, this.end_.off);
      if m < ptr.off { assert(m + key.len() < ptr.off); }
    }
  }
}
@at before if (current_cmp > 0)
if good(this, key) {
  lemma_raw(this.begin_.buf, this.end_.off, ptr.off, key);
  assert(it_take(it_begin(key), key.len() as int) =~= key);
  assert(it_take(ptr, key.len() as int) =~= this.begin_.buf.subrange(ptr.off, ptr.off + key.len()));
  lemma_cl(line(this.begin_.buf, ptr.off, this.end_.off), key);
  assert forall|m: int| #[trigger] is_first(this, key, m) implies
      (current_cmp > 0 ==> m + key.len() < ptr.off) && (current_cmp < 0 ==> m > mid.off) && m + key.len() <= this.end_.off
      && (m < ptr.off ==> m + key.len() < ptr.off) by {
    lemma_where(this, key, ptr.off, m);
  }
}
@at before if (prev_cmp < 0 && current_cmp == 0)
if good(this, key) {
  let b = this.begin_.buf; let lo = this.begin_.off; let hi = this.end_.off;
  assert(is_ls(b, lo, prev.off) && prev.off < ptr.off);
  lemma_raw(b, hi, prev.off, key);
  assert(it_take(it_begin(key), key.len() as int) =~= key);
  assert(it_take(prev, key.len() as int) =~= b.subrange(prev.off, prev.off + key.len()));
  lemma_sorted_cls(b, lo, hi, prev.off, ptr.off, key);
  lemma_cl(line(b, prev.off, hi), key);
  assert forall|q: int| lo <= q < ptr.off && is_ls(b, lo, q) && prev_cmp < 0 implies !#[trigger] row_matches(b, hi, q, key) by {
    assert(q <= prev.off);
    lemma_sorted_cls(b, lo, hi, q, prev.off, key);
    lemma_cl(line(b, q, hi), key);
  }
  if prev_cmp >= 0 {
    assert(row_matches(b, hi, prev.off, key));
    assert forall|m: int| #[trigger] is_first(this, key, m) implies m + key.len() <= mid.off - 1 by {
      assert(m <= prev.off);
      lemma_where(this, key, ptr.off, m);
    }
  }
}
@at return
if good(this, key) && ret.nil {
  assert forall|m: int| !has_match(this, key, m) by {
    if has_match(this, key, m) { lemma_first(this, key, m); }
  }
}

@fn ParselessPhraseDB_findRows
@requires
- db_ok(this)
@ensures
- good(this, key) ==> ret =~= all_rows(this, key)
@ghost
p0: int = 0
@loop 0
@inv
- it_same(ptr, this.begin_) && this.begin_.off <= ptr.off <= this.end_.off
- good(this, key) && ptr.off < this.end_.off ==> is_ls(this.begin_.buf, this.begin_.off, ptr.off) && cls(this.begin_.buf, this.end_.off, ptr.off, key) >= 0
@exc
- good(this, key) ==> rows + rows_from(this.begin_.buf, this.end_.off, ptr.off, key) =~= all_rows(this, key)
@ens
- good(this, key) ==> rows =~= all_rows(this, key)
@dec
this.end_.off - ptr.off
@loop 1
@inv
- it_same(eol, this.begin_) && ptr.off <= eol.off <= this.end_.off
- forall|k: int| ptr.off <= k < eol.off ==> eol.buf[k] != 10
@dec
this.end_.off - eol.off
@at before return rows #0
if good(this, key) {
  assert forall|q: int| this.begin_.off <= q < this.end_.off && is_ls(this.begin_.buf, this.begin_.off, q) implies !#[trigger] row_matches(this.begin_.buf, this.end_.off, q, key) by {
    assert(has_match(this, key, q) == row_matches(this.begin_.buf, this.end_.off, q, key));
  }
  lemma_rows_none(this.begin_.buf, this.begin_.off, this.end_.off, this.begin_.off, key);
}
@at loop0.pre
if good(this, key) {
  lemma_rows_skip(this.begin_.buf, this.begin_.off, this.end_.off, this.begin_.off, ptr.off, key);
  lemma_cl(line(this.begin_.buf, ptr.off, this.end_.off), key);
  assert(rows + rows_from(this.begin_.buf, this.end_.off, ptr.off, key) =~= all_rows(this, key));
}
@at loop0.exit
if good(this, key) {
  if ptr.off + key.len() <= this.end_.off {
    lemma_raw(this.begin_.buf, this.end_.off, ptr.off, key);
    assert(it_take(it_begin(key), key.len() as int) =~= key);
  assert(it_take(ptr, key.len() as int) =~= this.begin_.buf.subrange(ptr.off, ptr.off + key.len()));
    assert(it_take(it_begin(key), key.len() as int) =~= key);
    lemma_lexcmp_eq(this.begin_.buf.subrange(ptr.off, ptr.off + key.len()), key);
    lemma_rows_stop(this, ptr.off, key, lexcmp(this.begin_.buf.subrange(ptr.off, ptr.off + key.len()), key));
  } else {
    lemma_rows_stop(this, ptr.off, key, 1);
  }
}
@at loop0.begin
p0 = ptr.off;
if good(this, key) {
    lemma_raw(this.begin_.buf, this.end_.off, ptr.off, key);
    assert(it_take(it_begin(key), key.len() as int) =~= key);
  assert(it_take(ptr, key.len() as int) =~= this.begin_.buf.subrange(ptr.off, ptr.off + key.len()));
    assert(it_take(it_begin(key), key.len() as int) =~= key);
    lemma_cl(line(this.begin_.buf, ptr.off, this.end_.off), key);
}
@at loop1.post
lemma_eol_is(this.begin_.buf, ptr.off, this.end_.off, eol.off);
@at loop0.end
if good(this, key) && ptr.off < this.end_.off {
  lemma_sorted_cls(this.begin_.buf, this.begin_.off, this.end_.off, p0, ptr.off, key);
}

@fn ParselessLM_isLoaded
@ensures
- ret <==> this.db_.is_some()

@fn ParselessLM_getUnigrams
@requires
- lm_ok(this)
@ensures
- this_post == this
- this.db_.is_none() ==> ret.len() == 0
- this.db_.is_some() && good(this.db_->0, key + sp()) ==> ret =~= row_unigrams(all_rows(this.db_->0, key + sp()))
@loop 0
@inv
- 0 <= idx0 <= rng0.len() && results.len() == idx0
- forall|i: int| 0 <= i < idx0 ==> results[i] == row_unigram(rng0[i])
@loop 1
@inv
- it.buf =~= row && !it.nil && 0 <= it.off <= row.len()
- forall|k: int| 0 <= k < it.off ==> row[k] != 32
@loop 2
@inv
- it.buf =~= row && !it.nil && value_begin.off <= it.off <= row.len()
- forall|k: int| value_begin.off <= k < it.off ==> row[k] != 32
@at loop1.post
lemma_skipn_is(row, 0, it.off);
@at loop2.post
lemma_skipn_is(row, value_begin.off, it.off);

@fn ParselessLM_hasUnigrams
@requires
- lm_ok(this)
@ensures
- this_post == this
- this.db_.is_none() ==> !ret
- this.db_.is_some() && good(this.db_->0, key + sp()) ==> (ret <==> all_rows(this.db_->0, key + sp()).len() > 0)
@at return
if this.db_.is_some() { lemma_rows_nonempty(this.db_->0, (this.db_->0).begin_.off, key + sp());
 assert forall|p: int| #[trigger] is_first(this.db_->0, key + sp(), p) implies has_match(this.db_->0, key + sp(), p) by { }
 if good(this.db_->0, key + sp()) && ret { assert(exists|m: int| has_match(this.db_->0, key + sp(), m)); } }

@fn ParselessLM_getReadings
@requires
- lm_ok(this)
@ensures
- this.db_.is_none() ==> ret.len() == 0
- this.db_.is_some() && one_line(value + sp()) ==> ret =~= rev_rows((this.db_->0).begin_.buf, (this.db_->0).end_.off, (this.db_->0).begin_.off, value + sp()).map_values(|l: Seq<u8>| row_reading(l))
@ghost
v0: int = 0
@loop 0
@inv
- 0 <= idx0 <= rng0.len() && results.len() == idx0
- forall|i: int| 0 <= i < idx0 ==> results[i] == row_reading(rng0[i])
@loop 1
@inv
- it.buf =~= row && !it.nil && 0 <= it.off <= row.len()
- forall|k: int| 0 <= k < it.off ==> row[k] != 32
@loop 2
@inv
- it.buf =~= row && !it.nil && v0 <= it.off <= row.len()
- forall|k: int| v0 <= k < it.off ==> row[k] != 32
@at loop1.post
lemma_skipn_is(row, 0, it.off);
@at loop2.pre
v0 = it.off;
@at loop2.post
lemma_skipn_is(row, v0, it.off);

@at loop0.end
assert(key =~= row_key(row));
assert(score == row_score(row));
