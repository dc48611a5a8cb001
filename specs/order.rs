verus! {
// ---- the order of std::string keys -------------------------------------------------------------
pub proof fn lemma_lex_total(a: Seq<u8>, b: Seq<u8>)
    ensures lexcmp(a, b) == -lexcmp(b, a), lexcmp(a, b) == 0 <==> a == b, -1 <= lexcmp(a, b) <= 1
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        lemma_lex_total(a.drop_first(), b.drop_first());
        if a[0] == b[0] && a.drop_first() == b.drop_first() {
            assert(a =~= b) by { assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(a.drop_first()[i - 1] == b.drop_first()[i - 1]); } } }
        }
        if a == b { assert(a.drop_first() == b.drop_first()); }
    } else {
        if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
    }
}
pub proof fn lemma_lex_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires lexcmp(a, b) <= 0, lexcmp(b, c) <= 0
    ensures lexcmp(a, c) <= 0
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lemma_lex_trans(a.drop_first(), b.drop_first(), c.drop_first()); }
}
pub proof fn lemma_least<V>(m: Map<Seq<u8>, V>)
    requires m.dom().finite(), m.dom().len() > 0
    ensures exists|k: Seq<u8>| map_least(m, k)
    decreases m.dom().len()
{
    let x = m.dom().choose();
    assert(m.dom().contains(x));
    let r = m.remove(x);
    assert(r.dom() =~= m.dom().remove(x));
    if r.dom().len() == 0 {
        assert(r.dom() =~= Set::empty());
        assert forall|j: Seq<u8>| #[trigger] m.dom().contains(j) implies lexcmp(x, j) <= 0 by { lemma_lex_total(x, j); if j != x { assert(r.dom().contains(j)); } }
        assert(map_least(m, x));
    } else {
        lemma_least(r);
        let y = choose|k: Seq<u8>| map_least(r, k);
        lemma_lex_total(x, y);
        let z = if lexcmp(x, y) <= 0 { x } else { y };
        assert forall|j: Seq<u8>| #[trigger] m.dom().contains(j) implies lexcmp(z, j) <= 0 by {
            lemma_lex_total(x, j); lemma_lex_total(y, x);
            if j != x { assert(r.dom().contains(j)); if lexcmp(x, y) <= 0 { lemma_lex_trans(x, y, j); } }
        }
        assert(map_least(m, z));
    }
}
pub proof fn lemma_map_begin<V>(m: Map<Seq<u8>, V>)
    requires m.dom().finite()
    ensures map_begin(m).is_some() ==> m.dom().contains(map_begin(m)->0), map_rest(m, map_begin(m)) =~= m.dom()
{
    if !(m.dom() =~= Set::empty()) {
        lemma_least(m);
        let k = map_begin(m)->0;
        assert(map_least(m, k));
    }
}
pub proof fn lemma_map_next<V>(m: Map<Seq<u8>, V>, i: Option<Seq<u8>>)
    requires m.dom().finite(), i.is_some(), m.dom().contains(i->0)
    ensures map_next(m, i).is_some() ==> m.dom().contains(map_next(m, i)->0),
        map_rest(m, map_next(m, i)) =~= map_rest(m, i).remove(i->0), map_left(m, map_next(m, i)) == map_left(m, i) - 1, map_left(m, i) >= 1
{
    let k = i->0;
    let a = map_above(m, k);
    assert(a.dom() =~= m.dom().filter(|j: Seq<u8>| lexcmp(k, j) < 0));
    lemma_map_begin(a);
    let n = map_next(m, i);
    lemma_lex_total(k, k);
    assert(map_rest(m, i).contains(k));
    assert forall|j: Seq<u8>| map_rest(m, n).contains(j) <==> #[trigger] map_rest(m, i).remove(k).contains(j) by {
        lemma_lex_total(k, j);
        if n.is_some() {
            lemma_lex_total(n->0, j);
            if map_rest(m, n).contains(j) { lemma_lex_total(k, n->0); lemma_lex_trans(k, n->0, j); if j == k { lemma_lex_total(k, n->0); assert(lexcmp(n->0, k) <= 0); } }
            if map_rest(m, i).remove(k).contains(j) { assert(a.dom().contains(j)); assert(map_rest(a, n).contains(j)); }
        } else {
            if map_rest(m, i).remove(k).contains(j) { assert(a.dom().contains(j)); assert(map_rest(a, n).contains(j)); }
        }
    }
    assert(map_rest(m, i).finite());
}

// ---- the order of number keys ----------------------------------------------------------------
pub proof fn lemma_ileast<V>(m: Map<int, V>)
    requires m.dom().finite(), m.dom().len() > 0
    ensures exists|k: int| imap_least(m, k)
    decreases m.dom().len()
{
    let x = m.dom().choose();
    assert(m.dom().contains(x));
    let r = m.remove(x);
    assert(r.dom() =~= m.dom().remove(x));
    if r.dom().len() == 0 {
        assert(r.dom() =~= Set::empty());
        assert forall|j: int| #[trigger] m.dom().contains(j) implies x <= j by { if j != x { assert(r.dom().contains(j)); } }
        assert(imap_least(m, x));
    } else {
        lemma_ileast(r);
        let y = choose|k: int| imap_least(r, k);
        let z = if x <= y { x } else { y };
        assert forall|j: int| #[trigger] m.dom().contains(j) implies z <= j by { if j != x { assert(r.dom().contains(j)); } }
        assert(imap_least(m, z));
    }
}
pub proof fn lemma_imap_begin<V>(m: Map<int, V>)
    requires m.dom().finite()
    ensures imap_begin(m).is_some() ==> m.dom().contains(imap_begin(m)->0), imap_rest(m, imap_begin(m)) =~= m.dom()
{
    if !(m.dom() =~= Set::empty()) { lemma_ileast(m); let k = imap_begin(m)->0; assert(imap_least(m, k)); }
}
pub proof fn lemma_imap_next<V>(m: Map<int, V>, i: Option<int>)
    requires m.dom().finite(), i.is_some(), m.dom().contains(i->0)
    ensures imap_next(m, i).is_some() ==> m.dom().contains(imap_next(m, i)->0),
        imap_rest(m, imap_next(m, i)) =~= imap_rest(m, i).remove(i->0), imap_left(m, imap_next(m, i)) == imap_left(m, i) - 1, imap_left(m, i) >= 1
{
    let k = i->0;
    let a = m.restrict(m.dom().filter(|j: int| k < j));
    assert(a.dom() =~= m.dom().filter(|j: int| k < j));
    lemma_imap_begin(a);
    let n = imap_next(m, i);
    assert(imap_rest(m, i).contains(k));
    assert forall|j: int| imap_rest(m, n).contains(j) <==> #[trigger] imap_rest(m, i).remove(k).contains(j) by {
        if imap_rest(m, i).remove(k).contains(j) { assert(a.dom().contains(j)); assert(imap_rest(a, n).contains(j)); }
        if n.is_some() { assert(a.dom().contains(n->0)); }
    }
    assert(imap_rest(m, n) =~= imap_rest(m, i).remove(k));
    assert(imap_rest(m, i).finite());
}
}
