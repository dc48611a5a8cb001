@source src/Engine/AssociatedPhrasesV2.cpp McBopomofo
@import pdb
@import utf8
@option broadcast lemma_ssort_ext
@prelude
pub open spec fn dash() -> Seq<u8> { seq![45u8] }
pub open spec fn issep(c: u8) -> bool { c == 32 || c == 45 }
pub open spec fn nosep(s: Seq<u8>) -> bool { forall|k: int| 0 <= k < s.len() ==> !issep(#[trigger] s[k]) }
// ---- one row: value-reading-value-reading... score ------------------------------------------
pub open spec fn seg(l: Seq<u8>, i: int) -> int
    decreases l.len() - i
{ if i >= l.len() || issep(l[i]) { i } else { seg(l, i + 1) } }
pub proof fn lemma_seg_is(l: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= l.len(), forall|k: int| i <= k < j ==> !issep(#[trigger] l[k]), j < l.len() ==> issep(l[j])
    ensures seg(l, i) == j
    decreases j - i
{ if i < j { lemma_seg_is(l, i + 1, j); } }
pub proof fn lemma_seg(l: Seq<u8>, i: int)
    requires 0 <= i <= l.len()
    ensures i <= seg(l, i) <= l.len(), forall|k: int| i <= k < seg(l, i) ==> !issep(#[trigger] l[k]), seg(l, i) < l.len() ==> issep(l[seg(l, i)])
    decreases l.len() - i
{ if i < l.len() && !issep(l[i]) { lemma_seg(l, i + 1); } }
// the fields up to the first space, values and readings in turn; a field nothing follows does not count
pub open spec fn vtext(l: Seq<u8>, i: int, inval: bool) -> Seq<u8>
    decreases l.len() - i via seg_ends
{
    let j = seg(l, i);
    if i < 0 || j >= l.len() { Seq::empty() } else {
        let here = if inval { l.subrange(i, j) } else { Seq::empty() };
        if l[j] == 32 { here } else { here + vtext(l, j + 1, !inval) }
    }
}
pub open spec fn vreads(l: Seq<u8>, i: int, inval: bool) -> Seq<Seq<u8>>
    decreases l.len() - i via seg_ends2
{
    let j = seg(l, i);
    if i < 0 || j >= l.len() { Seq::empty() } else {
        let here = if inval { Seq::empty() } else { seq![l.subrange(i, j)] };
        if l[j] == 32 { here } else { here + vreads(l, j + 1, !inval) }
    }
}
#[via_fn]
proof fn seg_ends(l: Seq<u8>, i: int, inval: bool) { if 0 <= i <= l.len() { lemma_seg(l, i); } else if i > l.len() { assert(seg(l, i) == i); } }
#[via_fn]
proof fn seg_ends2(l: Seq<u8>, i: int, inval: bool) { if 0 <= i <= l.len() { lemma_seg(l, i); } else if i > l.len() { assert(seg(l, i) == i); } }
pub open spec fn phrase_of(l: Seq<u8>) -> AssociatedPhrasesV2_Phrase { AssociatedPhrasesV2_Phrase { value: vtext(l, 0, true), readings: vreads(l, 0, true) } }
pub open spec fn line_score(l: Seq<u8>) -> Dbl {
    let s = after(l, skipn(l, 0));
    if s >= l.len() { dlowest() } else { stod(l.subrange(s, l.len() as int)) }
}
// ---- a lookup: rank the rows by score, keep the first of each text ---------------------------
pub open spec fn better(a: (Seq<u8>, Dbl), b: (Seq<u8>, Dbl)) -> bool { dlt(b.1, a.1) }
pub open spec fn ap_scored(rows: Seq<Seq<u8>>) -> Seq<(Seq<u8>, Dbl)> { Seq::new(rows.len(), |i: int| (rows[i], line_score(rows[i]))) }
pub open spec fn ap_ranked(rows: Seq<Seq<u8>>) -> Seq<(Seq<u8>, Dbl)> { ssort(ap_scored(rows), |a: (Seq<u8>, Dbl), b: (Seq<u8>, Dbl)| better(a, b)) }
pub open spec fn ap_taken(r: Seq<(Seq<u8>, Dbl)>, ks: Seq<int>, v: Seq<u8>) -> bool { exists|i: int| 0 <= i < ks.len() && phrase_of(r[#[trigger] ks[i]].0).value == v }
pub open spec fn kept(r: Seq<(Seq<u8>, Dbl)>, n: int) -> Seq<int>
    decreases n
{
    if n <= 0 { Seq::empty() } else {
        let p = kept(r, n - 1);
        if ap_taken(r, p, phrase_of(r[n - 1].0).value) { p } else { p.push(n - 1) }
    }
}
pub proof fn lemma_taken(r: Seq<(Seq<u8>, Dbl)>, p: Seq<int>, n: int)
    ensures forall|t: Seq<u8>| #[trigger] ap_taken(r, p.push(n), t) <==> ap_taken(r, p, t) || t == phrase_of(r[n].0).value
{
    let q = p.push(n);
    assert forall|t: Seq<u8>| #[trigger] ap_taken(r, q, t) <==> ap_taken(r, p, t) || t == phrase_of(r[n].0).value by {
        if ap_taken(r, q, t) { let i = choose|i: int| 0 <= i < q.len() && phrase_of(r[#[trigger] q[i]].0).value == t; if i < p.len() { assert(q[i] == p[i]); } }
        if ap_taken(r, p, t) { let i = choose|i: int| 0 <= i < p.len() && phrase_of(r[#[trigger] p[i]].0).value == t; assert(q[i] == p[i]); }
        if t == phrase_of(r[n].0).value { assert(q[p.len() as int] == n); }
    }
}
pub open spec fn phrases_at(r: Seq<(Seq<u8>, Dbl)>, ks: Seq<int>) -> Seq<AssociatedPhrasesV2_Phrase> { Seq::new(ks.len(), |i: int| phrase_of(r[ks[i]].0)) }
pub open spec fn found_phrases(rows: Seq<Seq<u8>>) -> Seq<AssociatedPhrasesV2_Phrase> { phrases_at(ap_ranked(rows), kept(ap_ranked(rows), rows.len() as int)) }
pub open spec fn lookup_phrases(a: AssociatedPhrasesV2, prefix: Seq<u8>) -> Seq<AssociatedPhrasesV2_Phrase> {
    if a.db_.is_none() { Seq::empty() } else { found_phrases(all_rows(a.db_->0, prefix)) }
}
pub open spec fn assoc_ok(a: AssociatedPhrasesV2) -> bool { a.db_.is_some() ==> db_ok(a.db_->0) }
pub open spec fn assoc_good(a: AssociatedPhrasesV2, prefix: Seq<u8>) -> bool { a.db_.is_some() ==> good(a.db_->0, prefix) }
// ---- C14: what a lookup gives, over the contracts ---------------------------------------------
pub open spec fn ap_covered(r: Seq<(Seq<u8>, Dbl)>, ks: Seq<int>, k: int) -> bool { exists|i: int| 0 <= i < ks.len() && ks[i] <= k && phrase_of(r[#[trigger] ks[i]].0).value == phrase_of(r[k].0).value }
pub open spec fn ap_apart(r: Seq<(Seq<u8>, Dbl)>, a: int, b: int) -> bool { a < b && phrase_of(r[a].0).value != phrase_of(r[b].0).value }
pub proof fn lemma_kept(r: Seq<(Seq<u8>, Dbl)>, n: int)
    requires 0 <= n <= r.len()
    ensures ({ let ks = kept(r, n);
        (forall|i: int| 0 <= i < ks.len() ==> 0 <= #[trigger] ks[i] < n)
        && (forall|i: int, j: int| 0 <= i < j < ks.len() ==> ap_apart(r, #[trigger] ks[i], #[trigger] ks[j]))
        && (forall|k: int| 0 <= k < n ==> #[trigger] ap_covered(r, ks, k)) })
    decreases n
{
    if n > 0 {
        lemma_kept(r, n - 1);
        let p = kept(r, n - 1);
        let ks = kept(r, n);
        let v = phrase_of(r[n - 1].0).value;
        assert forall|k: int| 0 <= k < n implies #[trigger] ap_covered(r, ks, k) by {
            if k < n - 1 {
                assert(ap_covered(r, p, k));
                let i = choose|i: int| 0 <= i < p.len() && p[i] <= k && phrase_of(r[#[trigger] p[i]].0).value == phrase_of(r[k].0).value;
                assert(ks[i] == p[i]);
            } else if ap_taken(r, p, v) {
                let i = choose|i: int| 0 <= i < p.len() && phrase_of(r[#[trigger] p[i]].0).value == v;
                assert(ks[i] == p[i]);
            } else {
                assert(ks[p.len() as int] == n - 1);
            }
        }
        assert forall|i: int, j: int| 0 <= i < j < ks.len() implies ap_apart(r, #[trigger] ks[i], #[trigger] ks[j]) by {
            assert(ks[i] == p[i]);
            if j < p.len() { assert(ks[j] == p[j]); }
        }
    }
}
pub open spec fn row_of(rows: Seq<Seq<u8>>, x: (Seq<u8>, Dbl)) -> bool { rows.contains(x.0) && x.1 == line_score(x.0) }
pub open spec fn ranked_in(rows: Seq<Seq<u8>>, k: int) -> bool { ap_ranked(rows).contains((rows[k], line_score(rows[k]))) }
pub proof fn ap_lemma_ranked(rows: Seq<Seq<u8>>)
    requires ordered()
    ensures ({ let r = ap_ranked(rows);
        r.len() == rows.len()
        && (forall|k: int| 0 <= k < r.len() ==> row_of(rows, #[trigger] r[k]))
        && (forall|k: int| 0 <= k < rows.len() ==> #[trigger] ranked_in(rows, k))
        && (forall|i: int, j: int| 0 <= i < j < r.len() ==> !dlt((#[trigger] r[i]).1, (#[trigger] r[j]).1)) })
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let less = |a: (Seq<u8>, Dbl), b: (Seq<u8>, Dbl)| better(a, b);
    let s = ap_scored(rows);
    let r = ap_ranked(rows);
    lemma_ssort(s, less);
    assert forall|a: (Seq<u8>, Dbl), b: (Seq<u8>, Dbl)| #[trigger] less(a, b) implies !less(b, a) by { assert(dlt(b.1, a.1)); }
    assert forall|a: (Seq<u8>, Dbl), b: (Seq<u8>, Dbl), c: (Seq<u8>, Dbl)| !(#[trigger] less(a, b)) && !(#[trigger] less(b, c)) implies !less(a, c) by { assert(!dlt(b.1, a.1) && !dlt(c.1, b.1)); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies !dlt((#[trigger] r[i]).1, (#[trigger] r[j]).1) by { assert(!less(r[j], r[i])); }
    assert forall|k: int| 0 <= k < r.len() implies row_of(rows, #[trigger] r[k]) by {
        assert(r.contains(r[k]));
        assert(r.to_multiset().contains(r[k]));
        assert(s.to_multiset().contains(r[k]));
        assert(s.contains(r[k]));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == r[k];
        assert(rows[i] == r[k].0);
    }
    assert forall|k: int| 0 <= k < rows.len() implies #[trigger] ranked_in(rows, k) by {
        assert(s[k] == (rows[k], line_score(rows[k])));
        assert(s.contains(s[k]));
        assert(s.to_multiset().contains(s[k]));
        assert(r.to_multiset().contains(s[k]));
    }
}
// phrase i of the result stands for the row l: same text, and the row it comes from is at least as good
pub open spec fn ap_stands_for(rows: Seq<Seq<u8>>, i: int, l: Seq<u8>) -> bool {
    let r = ap_ranked(rows); let ks = kept(r, rows.len() as int);
    0 <= i < ks.len() && phrase_of(r[ks[i]].0).value == phrase_of(l).value && !dlt(r[ks[i]].1, line_score(l))
}
pub open spec fn represented(rows: Seq<Seq<u8>>, k: int) -> bool { exists|i: int| ap_stands_for(rows, i, rows[k]) }
// every phrase is that of a matching row, no text twice, scores do not rise, and each matching row's text is there with a
// score at least as good as the row's own
pub proof fn lemma_found(rows: Seq<Seq<u8>>)
    requires ordered()
    ensures ({ let r = ap_ranked(rows); let ks = kept(r, rows.len() as int); let f = found_phrases(rows);
        f.len() == ks.len()
        && (forall|i: int| 0 <= i < ks.len() ==> row_of(rows, r[#[trigger] ks[i]]) && f[i] == phrase_of(r[ks[i]].0))
        && (forall|i: int, j: int| 0 <= i < j < f.len() ==> (#[trigger] f[i]).value != (#[trigger] f[j]).value)
        && (forall|i: int, j: int| 0 <= i < j < ks.len() ==> !dlt(r[#[trigger] ks[i]].1, r[#[trigger] ks[j]].1))
        && (forall|k: int| 0 <= k < rows.len() ==> #[trigger] represented(rows, k)) })
{
    let r = ap_ranked(rows);
    ap_lemma_ranked(rows);
    let ks = kept(r, rows.len() as int);
    let f = found_phrases(rows);
    lemma_kept(r, rows.len() as int);
    assert forall|i: int| 0 <= i < ks.len() implies row_of(rows, r[#[trigger] ks[i]]) && f[i] == phrase_of(r[ks[i]].0) by { let a = ks[i]; assert(0 <= a < r.len()); assert(row_of(rows, r[a])); }
    assert forall|i: int, j: int| 0 <= i < j < f.len() implies (#[trigger] f[i]).value != (#[trigger] f[j]).value by { assert(ap_apart(r, ks[i], ks[j])); }
    assert forall|i: int, j: int| 0 <= i < j < ks.len() implies !dlt(r[#[trigger] ks[i]].1, r[#[trigger] ks[j]].1) by { assert(ap_apart(r, ks[i], ks[j])); }
    assert forall|k: int| 0 <= k < rows.len() implies #[trigger] represented(rows, k) by {
        let x = (rows[k], line_score(rows[k]));
        assert(ranked_in(rows, k));
        let q = choose|q: int| 0 <= q < r.len() && r[q] == x;
        assert(ap_covered(r, ks, q));
        let i = choose|i: int| 0 <= i < ks.len() && ks[i] <= q && phrase_of(r[#[trigger] ks[i]].0).value == phrase_of(r[q].0).value;
        let a = ks[i];
        if a < q { assert(!dlt(r[a].1, r[q].1)); }
        assert(ap_stands_for(rows, i, rows[k]));
    }
}
// ---- the prefix asked for, and rows of the documented form -------------------------------------
pub open spec fn pairs(v: Seq<Seq<u8>>, r: Seq<Seq<u8>>, i: int) -> Seq<u8>
    decreases v.len() - i
{ if i < 0 || i >= v.len() { Seq::empty() } else { v[i] + dash() + r[i] + dash() + pairs(v, r, i + 1) } }
pub open spec fn doc_row(v: Seq<Seq<u8>>, r: Seq<Seq<u8>>, i: int, sc: Seq<u8>) -> Seq<u8>
    decreases v.len() - i
{
    if i < 0 || i >= v.len() { Seq::empty() }
    else if i == v.len() - 1 { v[i] + dash() + r[i] + sp() + sc }
    else { v[i] + dash() + r[i] + dash() + doc_row(v, r, i + 1, sc) }
}
pub open spec fn fields_ok(v: Seq<Seq<u8>>, r: Seq<Seq<u8>>) -> bool {
    v.len() == r.len() && (forall|i: int| 0 <= i < v.len() ==> nosep(#[trigger] v[i])) && (forall|i: int| 0 <= i < r.len() ==> nosep(#[trigger] r[i]))
}
pub open spec fn ap_joined(v: Seq<Seq<u8>>, i: int) -> Seq<u8>
    decreases v.len() - i
{ if i < 0 || i >= v.len() { Seq::empty() } else { v[i] + ap_joined(v, i + 1) } }
// a field a and a separator c at the start of a text
pub proof fn lemma_field(l: Seq<u8>, p: int, a: Seq<u8>, c: u8, x: Seq<u8>)
    requires 0 <= p <= l.len(), l.subrange(p, l.len() as int) == a + seq![c] + x, nosep(a), issep(c)
    ensures seg(l, p) == p + a.len(), l.subrange(p, seg(l, p)) == a, seg(l, p) < l.len(), l[seg(l, p)] == c, l.subrange(seg(l, p) + 1, l.len() as int) == x
{
    let t = l.subrange(p, l.len() as int);
    let j = p + a.len();
    assert(t.len() == a.len() + 1 + x.len());
    assert forall|k: int| p <= k < j implies !issep(#[trigger] l[k]) by { assert(l[k] == t[k - p]); assert(t[k - p] == a[k - p]); }
    assert(l[j] == t[a.len() as int]);
    lemma_seg_is(l, p, j);
    assert(l.subrange(p, j) =~= a) by { assert forall|k: int| 0 <= k < a.len() implies l.subrange(p, j)[k] == a[k] by { assert(l[p + k] == t[k]); } }
    assert(l.subrange(j + 1, l.len() as int) =~= x) by { assert forall|k: int| 0 <= k < x.len() implies l.subrange(j + 1, l.len() as int)[k] == x[k] by { assert(l[j + 1 + k] == t[a.len() + 1 + k]); } }
}
pub proof fn lemma_doc_row(l: Seq<u8>, p: int, v: Seq<Seq<u8>>, r: Seq<Seq<u8>>, i: int, sc: Seq<u8>)
    requires fields_ok(v, r), 0 <= i < v.len(), 0 <= p <= l.len(), l.subrange(p, l.len() as int) == doc_row(v, r, i, sc)
    ensures vtext(l, p, true) =~= ap_joined(v, i), vreads(l, p, true) =~= r.subrange(i, r.len() as int),
        skipn(l, p) + 1 + sc.len() == l.len(), skipn(l, p) >= p, l.subrange(skipn(l, p) + 1, l.len() as int) =~= sc
    decreases v.len() - i
{
    let last = i == v.len() - 1;
    let rest = if last { sc } else { doc_row(v, r, i + 1, sc) };
    let c2 = if last { 32u8 } else { 45u8 };
    let x = r[i] + seq![c2] + rest;
    assert(doc_row(v, r, i, sc) =~= v[i] + seq![45u8] + x);
    assert(nosep(v[i]) && nosep(r[i]));
    lemma_field(l, p, v[i], 45u8, x);
    let q = seg(l, p) + 1;
    lemma_field(l, q, r[i], c2, rest);
    let e = seg(l, q);
    lemma_seg(l, p);
    lemma_seg(l, q);
    assert(vreads(l, p, true) =~= vreads(l, q, false));
    assert(vtext(l, p, true) =~= v[i] + vtext(l, q, false));
    if last {
        assert(ap_joined(v, i + 1) =~= Seq::<u8>::empty());
        assert(r.subrange(i, r.len() as int) =~= seq![r[i]]);
        assert forall|k: int| p <= k < e implies l[k] != 32 by { if k < q - 1 { assert(!issep(l[k])); } else if k >= q { assert(!issep(l[k])); } }
        lemma_skipn_is(l, p, e);
    } else {
        lemma_doc_row(l, e + 1, v, r, i + 1, sc);
        assert(vtext(l, q, false) =~= vtext(l, e + 1, true));
        assert(vreads(l, q, false) =~= seq![r[i]] + vreads(l, e + 1, true));
        assert(r.subrange(i, r.len() as int) =~= seq![r[i]] + r.subrange(i + 1, r.len() as int));
        let j = skipn(l, e + 1);
        lemma_skipn(l, e + 1);
        assert forall|k: int| p <= k < j implies l[k] != 32 by { if k < q - 1 { assert(!issep(l[k])); } else if q <= k < e { assert(!issep(l[k])); } }
        lemma_skipn_is(l, p, j);
    }
}
// what a row of the documented form decodes to
pub proof fn lemma_decode_phrase(v: Seq<Seq<u8>>, r: Seq<Seq<u8>>, sc: Seq<u8>)
    requires fields_ok(v, r), v.len() > 0
    ensures phrase_of(doc_row(v, r, 0, sc)) == (AssociatedPhrasesV2_Phrase { value: ap_joined(v, 0), readings: r }),
        sc.len() > 0 ==> line_score(doc_row(v, r, 0, sc)) == stod(sc)
{
    let l = doc_row(v, r, 0, sc);
    assert(l.subrange(0, l.len() as int) =~= l);
    lemma_doc_row(l, 0, v, r, 0, sc);
    assert(r.subrange(0, r.len() as int) =~= r);
}
// text p starts at l[k..]
pub open spec fn ap_starts(l: Seq<u8>, k: int, p: Seq<u8>) -> bool { k + p.len() <= l.len() && l.subrange(k, k + p.len()) =~= p }
pub proof fn lemma_starts_field(l: Seq<u8>, k: int, a: Seq<u8>, c: u8, x: Seq<u8>, b: Seq<u8>, y: Seq<u8>)
    requires 0 <= k <= l.len(), l.subrange(k, l.len() as int) == a + seq![c] + x, nosep(a), nosep(b), issep(c)
    ensures ap_starts(l, k, b + dash() + y) <==> a =~= b && c == 45 && ap_starts(l, k + a.len() + 1, y)
{
    lemma_field(l, k, a, c, x);
    let p = b + dash() + y;
    let t = l.subrange(k, l.len() as int);
    if ap_starts(l, k, p) {
        let h = l.subrange(k, k + p.len());
        assert forall|i: int| k <= i < k + b.len() implies !issep(#[trigger] l[i]) by { assert(h[i - k] == p[i - k]); assert(p[i - k] == b[i - k]); }
        assert(h[b.len() as int] == p[b.len() as int]);
        lemma_seg_is(l, k, k + b.len());
        assert(a =~= b) by { assert forall|i: int| 0 <= i < b.len() implies a[i] == b[i] by { assert(h[i] == p[i]); assert(t[i] == a[i]); } }
        assert(l.subrange(k + a.len() + 1, k + a.len() + 1 + y.len()) =~= y) by {
            assert forall|i: int| 0 <= i < y.len() implies l[k + a.len() + 1 + i] == y[i] by { assert(h[b.len() + 1 + i] == p[b.len() + 1 + i]); }
        }
    }
    if a =~= b && c == 45 && ap_starts(l, k + a.len() + 1, y) {
        let g = l.subrange(k + a.len() + 1, k + a.len() + 1 + y.len());
        assert(l.subrange(k, k + p.len()) =~= p) by {
            assert forall|i: int| 0 <= i < p.len() implies l[k + i] == p[i] by {
                if i < a.len() { assert(t[i] == a[i]); } else if i > a.len() { assert(g[i - a.len() - 1] == y[i - a.len() - 1]); }
            }
        }
    }
}
pub open spec fn ap_leads(q: Seq<Seq<u8>>, t: Seq<Seq<u8>>, v: Seq<Seq<u8>>, r: Seq<Seq<u8>>, i: int) -> bool {
    q.len() < v.len() && forall|k: int| i <= k < q.len() ==> (#[trigger] q[k]) == v[k] && t[k] == r[k]
}
pub proof fn lemma_leads_step(q: Seq<Seq<u8>>, t: Seq<Seq<u8>>, v: Seq<Seq<u8>>, r: Seq<Seq<u8>>, i: int)
    requires 0 <= i < q.len()
    ensures ap_leads(q, t, v, r, i) <==> q[i] == v[i] && t[i] == r[i] && q.len() < v.len() && ap_leads(q, t, v, r, i + 1)
{
    if q[i] == v[i] && t[i] == r[i] && ap_leads(q, t, v, r, i + 1) {
        assert forall|k: int| i <= k < q.len() implies (#[trigger] q[k]) == v[k] && t[k] == r[k] by { if k == i { } else { assert(i + 1 <= k); } }
    }
    if ap_leads(q, t, v, r, i) { assert(q[i] == v[i]); }
}
pub proof fn lemma_leads(l: Seq<u8>, p: int, v: Seq<Seq<u8>>, r: Seq<Seq<u8>>, q: Seq<Seq<u8>>, t: Seq<Seq<u8>>, i: int, sc: Seq<u8>)
    requires fields_ok(v, r), fields_ok(q, t), 0 <= i < v.len(), i < q.len(), 0 <= p <= l.len(), l.subrange(p, l.len() as int) == doc_row(v, r, i, sc)
    ensures ap_starts(l, p, pairs(q, t, i)) <==> ap_leads(q, t, v, r, i)
    decreases v.len() - i
{
    let last = i == v.len() - 1;
    let rest = if last { sc } else { doc_row(v, r, i + 1, sc) };
    let c2 = if last { 32u8 } else { 45u8 };
    let x = r[i] + seq![c2] + rest;
    assert(doc_row(v, r, i, sc) =~= v[i] + seq![45u8] + x);
    assert(nosep(v[i]) && nosep(r[i]));
    assert(q.len() == t.len());
    assert(nosep(q[i]));
    assert(nosep(t[i]));
    lemma_field(l, p, v[i], 45u8, x);
    let y2 = pairs(q, t, i + 1);
    let y1 = t[i] + dash() + y2;
    assert(pairs(q, t, i) =~= q[i] + dash() + y1);
    lemma_starts_field(l, p, v[i], 45u8, x, q[i], y1);
    let m = p + v[i].len() + 1;
    lemma_field(l, m, r[i], c2, rest);
    lemma_starts_field(l, m, r[i], c2, rest, t[i], y2);
    if !last {
        let e = m + r[i].len() + 1;
        if i + 1 < q.len() { lemma_leads(l, e, v, r, q, t, i + 1, sc); }
        else { assert(ap_starts(l, e, y2)) by { assert(l.subrange(e, e + y2.len()) =~= y2); } }
        lemma_leads_step(q, t, v, r, i);
    } else {
        if ap_leads(q, t, v, r, i) { assert(false); }
    }
}
// the rows a lookup ranks are those whose leading characters are the prefix, with the readings asked for, and that go on
pub proof fn lemma_prefix(v: Seq<Seq<u8>>, r: Seq<Seq<u8>>, q: Seq<Seq<u8>>, t: Seq<Seq<u8>>, sc: Seq<u8>)
    requires fields_ok(v, r), fields_ok(q, t), v.len() > 0, q.len() > 0
    ensures prefixed(doc_row(v, r, 0, sc), pairs(q, t, 0)) <==> ap_leads(q, t, v, r, 0)
{
    let l = doc_row(v, r, 0, sc);
    assert(l.subrange(0, l.len() as int) =~= l);
    lemma_leads(l, 0, v, r, q, t, 0, sc);
}
// ---- readings split and combined ------------------------------------------------------------
pub open spec fn nextdash(s: Seq<u8>, i: int) -> int
    decreases s.len() - i
{ if i >= s.len() || s[i] == 45 { i } else { nextdash(s, i + 1) } }
pub proof fn lemma_nextdash(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= nextdash(s, i) <= s.len(), nextdash(s, i) < s.len() ==> s[nextdash(s, i)] == 45
    decreases s.len() - i
{ if i < s.len() && s[i] != 45 { lemma_nextdash(s, i + 1); } }
pub proof fn lemma_nextdash_is(s: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= s.len(), forall|k: int| i <= k < j ==> s[k] != 45, j < s.len() ==> s[j] == 45
    ensures nextdash(s, i) == j
    decreases j - i
{ if i < j { lemma_nextdash_is(s, i + 1, j); } }
pub open spec fn ap_cut(s: Seq<u8>, i: int) -> Seq<Seq<u8>>
    decreases s.len() - i via cut_ends
{
    let j = nextdash(s, i);
    if i < 0 || j >= s.len() { seq![s.subrange(i, s.len() as int)] } else { seq![s.subrange(i, j)] + ap_cut(s, j + 1) }
}
#[via_fn]
proof fn cut_ends(s: Seq<u8>, i: int) { if 0 <= i <= s.len() { lemma_nextdash(s, i); } else if i > s.len() { assert(nextdash(s, i) == i); } }
pub open spec fn split_readings(s: Seq<u8>) -> Seq<Seq<u8>> { if s.len() == 0 { Seq::empty() } else { ap_cut(s, 0) } }
pub open spec fn glue(p: Seq<Seq<u8>>, i: int) -> Seq<u8>
    decreases p.len() - i
{ if i < 0 || i >= p.len() { Seq::empty() } else if i == p.len() - 1 { p[i] } else { p[i] + dash() + glue(p, i + 1) } }
pub proof fn lemma_glue_shift(x: Seq<u8>, p: Seq<Seq<u8>>, i: int)
    requires 0 <= i
    ensures glue(seq![x] + p, i + 1) == glue(p, i)
    decreases p.len() - i
{ if i < p.len() { lemma_glue_shift(x, p, i + 1); } }
pub proof fn lemma_cut_glue(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures ap_cut(s, i).len() > 0, glue(ap_cut(s, i), 0) =~= s.subrange(i, s.len() as int)
    decreases s.len() - i
{
    let j = nextdash(s, i);
    lemma_nextdash(s, i);
    if j < s.len() {
        lemma_cut_glue(s, j + 1);
        let r = ap_cut(s, j + 1);
        let x = s.subrange(i, j);
        lemma_glue_shift(x, r, 0);
        assert((seq![x] + r)[0] == x);
        assert(s.subrange(i, s.len() as int) =~= x + dash() + s.subrange(j + 1, s.len() as int));
    }
}
pub proof fn lemma_split_combine(s: Seq<u8>)
    ensures glue(split_readings(s), 0) == s
{ if s.len() > 0 { lemma_cut_glue(s, 0); assert(s.subrange(0, s.len() as int) =~= s); } }
pub open spec fn nodash(s: Seq<u8>) -> bool { forall|k: int| 0 <= k < s.len() ==> s[k] != 45 }
pub proof fn lemma_glue_cut(s: Seq<u8>, at: int, p: Seq<Seq<u8>>, i: int)
    requires 0 <= at <= s.len(), 0 <= i < p.len(), s.subrange(at, s.len() as int) == glue(p, i), forall|k: int| 0 <= k < p.len() ==> nodash(#[trigger] p[k])
    ensures ap_cut(s, at) =~= p.subrange(i, p.len() as int)
    decreases p.len() - i
{
    let t = s.subrange(at, s.len() as int);
    let j = at + p[i].len();
    assert(nodash(p[i]));
    if i < p.len() - 1 { assert(t == p[i] + dash() + glue(p, i + 1)); } else { assert(t == p[i]); }
    assert(t.len() == s.len() - at);
    assert forall|k: int| 0 <= k < t.len() implies t[k] == #[trigger] s[at + k] by { }
    assert forall|k: int| at <= k < j implies s[k] != 45 by { assert(t[k - at] == s[at + (k - at)]); assert(t[k - at] == p[i][k - at]); }
    if i == p.len() - 1 {
        lemma_nextdash_is(s, at, j);
        assert(p.subrange(i, p.len() as int) =~= seq![p[i]]);
    } else {
        assert(t[p[i].len() as int] == 45);
        assert(s[at + p[i].len()] == 45);
        lemma_nextdash_is(s, at, j);
        assert(s.subrange(j + 1, s.len() as int) =~= glue(p, i + 1)) by {
            let g = glue(p, i + 1);
            assert forall|k: int| 0 <= k < g.len() implies s[j + 1 + k] == g[k] by { assert(t[p[i].len() + 1 + k] == g[k]); assert(s[at + (p[i].len() + 1 + k)] == g[k]); }
        }
        lemma_glue_cut(s, j + 1, p, i + 1);
        assert(s.subrange(at, j) =~= p[i]) by { assert forall|k: int| 0 <= k < p[i].len() implies s[at + k] == p[i][k] by { assert(t[k] == p[i][k]); } }
        assert(p.subrange(i, p.len() as int) =~= seq![p[i]] + p.subrange(i + 1, p.len() as int));
    }
}
pub proof fn lemma_combine_split(p: Seq<Seq<u8>>)
    requires forall|k: int| 0 <= k < p.len() ==> nodash(#[trigger] p[k]), !(p.len() == 1 && p[0].len() == 0)
    ensures split_readings(glue(p, 0)) == p
{
    let s = glue(p, 0);
    if p.len() > 0 {
        assert(s.subrange(0, s.len() as int) =~= s);
        lemma_glue_cut(s, 0, p, 0);
        assert(p.subrange(0, p.len() as int) =~= p);
    }
}
@fn GetScoreInRow
@ensures
- ret == line_score(v)
@loop 0
@inv
- it.buf == v && end == it_end(v) && !it.nil && 0 <= it.off <= v.len()
@exc
- skipn(v, it.off) == skipn(v, 0)
@ens
- it.off == after(v, skipn(v, 0))
@fn PhraseFromRow
@ensures
- ret == phrase_of(v)
@at loop0.begin
lemma_seg(v, prev.off); lemma_seg(v, it.off);
@at loop0.pre
lemma_seg(v, prev.off);
@loop 0
@inv
- it.buf == v && prev.buf == v && end == it_end(v) && !it.nil && !prev.nil && 0 <= prev.off <= it.off <= v.len()
- state == RowParseState_kParsingValue() || state == RowParseState_kParsingReading()
- sst.width == 0
@exc
- seg(v, prev.off) == seg(v, it.off)
- sst.s + vtext(v, prev.off, state == RowParseState_kParsingValue()) =~= vtext(v, 0, true)
- readings + vreads(v, prev.off, state == RowParseState_kParsingValue()) =~= vreads(v, 0, true)
@ens
- sst.s =~= vtext(v, 0, true)
- readings =~= vreads(v, 0, true)
@fn AssociatedPhrasesV2_findPhrases/2
@requires
- assoc_ok(this)
@ensures
- prefixValue.len() == 0 ==> ret.len() == 0
- prefixValue.len() > 0 && prefixReadings.len() == 0 && assoc_good(this, prefixValue + dash()) ==> ret =~= lookup_phrases(this, prefixValue + dash())
- prefixValue.len() > 0 && prefixReadings.len() > 0 && pieces(prefixValue, 0).len() != prefixReadings.len() ==> ret.len() == 0
- prefixValue.len() > 0 && prefixReadings.len() > 0 && pieces(prefixValue, 0).len() == prefixReadings.len() && assoc_good(this, pairs(pieces(prefixValue, 0), prefixReadings, 0)) ==> ret =~= lookup_phrases(this, pairs(pieces(prefixValue, 0), prefixReadings, 0))
@loop 0
@inv
- values == pieces(prefixValue, 0) && values.len() == prefixReadings.len() && s == values.len() && i <= s
- sst.width == 0
- sst.s + pairs(values, prefixReadings, i) =~= pairs(values, prefixReadings, 0)
@fn AssociatedPhrasesV2_findPhrases/1
@requires
- assoc_ok(this)
@ensures
- assoc_good(this, internalPrefix) ==> ret =~= lookup_phrases(this, internalPrefix)
@ghost
ks: Seq<int> = Seq::empty()
k0: Seq<int> = Seq::empty()
@loop 0
@inv
- rng0 == matchingRows && scoredRows =~= ap_scored(rng0.subrange(0, idx0))
@loop 1
@inv
- rng1 == ap_ranked(matchingRows) && rng1.len() == matchingRows.len() && ks == kept(rng1, idx1)
- phrases =~= phrases_at(rng1, ks)
- forall|t: Seq<u8>| #[trigger] dedupSet.contains(t) <==> ap_taken(rng1, ks, t)
@at loop1.pre
lemma_ssort(ap_scored(matchingRows), |a: (Seq<u8>, Dbl), b: (Seq<u8>, Dbl)| better(a, b));
@at loop1.begin
k0 = ks;
ks = kept(rng1, idx1 + 1);
lemma_taken(rng1, k0, idx1);
@at loop0.exit
assert(matchingRows.subrange(0, matchingRows.len() as int) =~= matchingRows);
@fn AssociatedPhrasesV2_SplitReadings
@ensures
- ret =~= split_readings(combinedReading)
@at loop0.begin
lemma_nextdash(combinedReading, prev.off); lemma_nextdash(combinedReading, it.off);
@loop 0
@inv
- it.buf == combinedReading && prev.buf == combinedReading && end == it_end(combinedReading) && !it.nil && !prev.nil && 0 <= prev.off <= it.off <= combinedReading.len()
- nextdash(combinedReading, prev.off) == nextdash(combinedReading, it.off)
- readings + ap_cut(combinedReading, prev.off) =~= ap_cut(combinedReading, 0)
@fn AssociatedPhrasesV2_CombineReadings
@ensures
- ret =~= glue(readings, 0)
@loop 0
@inv
- s == readings.len() && i <= s && sst.width == 0
- sst.s + glue(readings, i) =~= glue(readings, 0)
@fn AssociatedPhrasesV2_Phrase_combinedReading
@ensures
- ret =~= glue(this.readings, 0)
@fn AssociatedPhrasesV2_isLoaded
@ensures
- ret == this.db_.is_some()
