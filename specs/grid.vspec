@source src/Engine/gramambular2/reading_grid.cpp Formosa
@heap ReadingGrid_Node
@opaque Formosa::Gramambular2::LanguageModel
@extern LanguageModel::getUnigrams(Formosa::Gramambular2::LanguageModel, std::string) -> std::vector<Formosa::Gramambular2::LanguageModel::Unigram> = lm_get($0, $1)
@extern LanguageModel::hasUnigrams(Formosa::Gramambular2::LanguageModel, std::string) -> bool = lm_has($0, $1)
@option broadcast lemma_ssort_ext
@prelude
pub type Heap = Map<int, ReadingGrid_NodeS>;
// the language model: a function of the reading
pub uninterp spec fn lm_get(m: LanguageModel, r: Seq<u8>) -> Seq<LanguageModel_Unigram>;
pub uninterp spec fn lm_has(m: LanguageModel, r: Seq<u8>) -> bool;
pub open spec fn ranked(m: ReadingGrid_ScoreRankedLanguageModel, r: Seq<u8>) -> Seq<LanguageModel_Unigram> {
    ssort(lm_get(m.lm_->0, r), |a: LanguageModel_Unigram, b: LanguageModel_Unigram| dlt(b.score_, a.score_))
}
pub open spec fn joined(rs: Seq<Seq<u8>>, sep: Seq<u8>) -> Seq<u8>
    decreases rs.len()
{ if rs.len() == 0 { Seq::empty() } else if rs.len() == 1 { rs[0] } else { joined(rs.drop_last(), sep) + sep + rs.last() } }
// ---- the grid: the node of each stretch (from, how long), 0 if there is none ---------------------
pub open spec fn node_at(sp: Seq<ReadingGrid_Span>, i: int, j: int) -> int { sp[i].nodes_[j - 1] }
pub open spec fn cell(sp: Seq<ReadingGrid_Span>, i: int, j: int) -> bool { 0 <= i < sp.len() && 1 <= j <= 6 }
pub open spec fn span_ok(s: ReadingGrid_Span) -> bool {
    s.nodes_.len() == 6 && 0 <= s.maxLength_ <= 6 && (forall|k: int| 0 <= k < 6 && #[trigger] s.nodes_[k] != 0 ==> k < s.maxLength_) && (s.maxLength_ > 0 ==> s.nodes_[s.maxLength_ - 1] != 0)
}
pub open spec fn spans_ok(sp: Seq<ReadingGrid_Span>) -> bool { forall|i: int| 0 <= i < sp.len() ==> span_ok(#[trigger] sp[i]) }
pub open spec fn stretch(g: ReadingGrid, i: int, j: int) -> Seq<u8> { joined(g.readings_.subrange(i, i + j), g.separator_) }
pub open spec fn node_ok(n: ReadingGrid_NodeS) -> bool {
    n.unigrams_.len() > 0 && n.unigramIter_ == (It { buf: n.unigrams_, off: n.unigramIter_.off, nil: false }) && 0 <= n.unigramIter_.off < n.unigrams_.len()
}
// the node covers exactly the readings at its place and holds what the model has for them
pub open spec fn placed(h: Heap, g: ReadingGrid, i: int, j: int) -> bool {
    let p = node_at(g.spans_, i, j);
    p != 0 ==> i + j <= g.readings_.len() && h.dom().contains(p) && h[p].spanningLength_ == j && h[p].reading_ == stretch(g, i, j)
        && h[p].unigrams_ == ranked(g.lm_, h[p].reading_) && node_ok(h[p])
}
pub open spec fn covered(g: ReadingGrid, i: int, j: int) -> bool {
    i + j <= g.readings_.len() && ranked(g.lm_, stretch(g, i, j)).len() > 0 ==> node_at(g.spans_, i, j) != 0
}
pub open spec fn all_placed(h: Heap, g: ReadingGrid) -> bool { forall|i: int, j: int| #![trigger node_at(g.spans_, i, j)] cell(g.spans_, i, j) ==> placed(h, g, i, j) }
pub open spec fn all_covered(g: ReadingGrid) -> bool { forall|i: int, j: int| #[trigger] cell(g.spans_, i, j) ==> covered(g, i, j) }
pub open spec fn apart(sp: Seq<ReadingGrid_Span>) -> bool {
    forall|i: int, j: int, a: int, b: int| cell(sp, i, j) && cell(sp, a, b) && #[trigger] node_at(sp, i, j) == #[trigger] node_at(sp, a, b) && node_at(sp, i, j) != 0 ==> i == a && j == b
}
pub open spec fn grid_sound(h: Heap, g: ReadingGrid) -> bool {
    g.spans_.len() == g.readings_.len() && 0 <= g.cursor_ <= g.readings_.len() && g.lm_.lm_.is_some() && spans_ok(g.spans_) && all_placed(h, g) && apart(g.spans_)
}
// every reading has entries of its own
pub open spec fn heard(g: ReadingGrid) -> bool { forall|i: int| 0 <= i < g.readings_.len() ==> ranked(g.lm_, #[trigger] g.readings_[i]).len() > 0 }
pub open spec fn grid_ok(h: Heap, g: ReadingGrid) -> bool { grid_sound(h, g) && all_covered(g) }
// nothing that was there before changes
pub open spec fn grown(h: Heap, k: Heap) -> bool { forall|p: int| #[trigger] h.dom().contains(p) ==> k.dom().contains(p) && k[p] == h[p] }
pub open spec fn with_cursor(g: ReadingGrid, c: int) -> ReadingGrid { ReadingGrid { cursor_: c, ..g } }
pub open spec fn same_but(g: ReadingGrid, k: ReadingGrid) -> bool { g.separator_ == k.separator_ && g.lm_ == k.lm_ }
// ---- an edit: what stays in place stays right, what it breaks lies around the cursor ---------------
pub open spec fn far(g: ReadingGrid, i: int, j: int) -> bool { i < g.cursor_ - 6 || i + j > g.cursor_ + 6 }
pub open spec fn far_covered(g: ReadingGrid) -> bool { forall|i: int, j: int| #[trigger] cell(g.spans_, i, j) && far(g, i, j) ==> covered(g, i, j) }
pub proof fn lemma_expanded(h: Heap, g: ReadingGrid, k: ReadingGrid, r: Seq<u8>)
    requires grid_ok(h, g), same_but(g, k), k.readings_ == g.readings_.insert(g.cursor_, r), k.cursor_ == g.cursor_, spans_ok(k.spans_), k.spans_.len() == g.spans_.len() + 1,
        forall|i: int, j: int| cell(k.spans_, i, j) ==> #[trigger] node_at(k.spans_, i, j) == (if i < g.cursor_ && i + j <= g.cursor_ { node_at(g.spans_, i, j) } else if i > g.cursor_ { node_at(g.spans_, i - 1, j) } else { 0 })
    ensures grid_sound(h, k), far_covered(k)
{
    let c = g.cursor_;
    assert forall|i: int, j: int| #[trigger] cell(k.spans_, i, j) && i > c implies cell(g.spans_, i - 1, j) && stretch_same(k, i, g, i - 1, j) by { lemma_stretch(k, i, g, i - 1, j); }
    assert forall|i: int, j: int| #[trigger] cell(k.spans_, i, j) && i + j <= c implies cell(g.spans_, i, j) && stretch_same(k, i, g, i, j) by { lemma_stretch(k, i, g, i, j); }
    assert forall|i: int, j: int| #![trigger node_at(k.spans_, i, j)] cell(k.spans_, i, j) implies placed(h, k, i, j) by {
        assert(cell(k.spans_, i, j));
        if i > c { assert(placed(h, g, i - 1, j)) by { assert(node_at(g.spans_, i - 1, j) == node_at(g.spans_, i - 1, j)); } }
        else if i + j <= c { assert(placed(h, g, i, j)) by { assert(node_at(g.spans_, i, j) == node_at(g.spans_, i, j)); } }
    }
    assert forall|i: int, j: int, a: int, b: int| cell(k.spans_, i, j) && cell(k.spans_, a, b) && #[trigger] node_at(k.spans_, i, j) == #[trigger] node_at(k.spans_, a, b) && node_at(k.spans_, i, j) != 0 implies i == a && j == b by {
        let i2 = if i > c { i - 1 } else { i }; let a2 = if a > c { a - 1 } else { a };
        assert(cell(g.spans_, i2, j) && cell(g.spans_, a2, b));
        assert(node_at(g.spans_, i2, j) == node_at(g.spans_, a2, b));
    }
    assert forall|i: int, j: int| #[trigger] cell(k.spans_, i, j) && far(k, i, j) implies covered(k, i, j) by {
        assert(node_at(k.spans_, i, j) == node_at(k.spans_, i, j));
        if i > c { assert(covered(g, i - 1, j)) by { assert(cell(g.spans_, i - 1, j)); } } else { assert(covered(g, i, j)) by { assert(cell(g.spans_, i, j)); } }
    }
}
pub proof fn lemma_shrunk(h: Heap, g: ReadingGrid, k: ReadingGrid, c: int)
    requires grid_ok(h, g), 0 <= c < g.readings_.len(), same_but(g, k), k.readings_ == g.readings_.remove(c), k.cursor_ == c, spans_ok(k.spans_), k.spans_.len() == g.spans_.len() - 1,
        forall|i: int, j: int| cell(k.spans_, i, j) ==> #[trigger] node_at(k.spans_, i, j) == (if i < c && i + j <= c { node_at(g.spans_, i, j) } else if i >= c { node_at(g.spans_, i + 1, j) } else { 0 }) || (i == 0 && c == 0 && node_at(k.spans_, i, j) == 0)
    ensures grid_sound(h, k), far_covered(k)
{
    assert forall|i: int, j: int| #[trigger] cell(k.spans_, i, j) && i >= c implies cell(g.spans_, i + 1, j) && stretch_same(k, i, g, i + 1, j) by { lemma_stretch(k, i, g, i + 1, j); }
    assert forall|i: int, j: int| #[trigger] cell(k.spans_, i, j) && i + j <= c implies cell(g.spans_, i, j) && stretch_same(k, i, g, i, j) by { lemma_stretch(k, i, g, i, j); }
    assert forall|i: int, j: int| #![trigger node_at(k.spans_, i, j)] cell(k.spans_, i, j) implies placed(h, k, i, j) by {
        assert(cell(k.spans_, i, j));
        if i >= c { assert(placed(h, g, i + 1, j)) by { assert(node_at(g.spans_, i + 1, j) == node_at(g.spans_, i + 1, j)); } }
        else if i + j <= c { assert(placed(h, g, i, j)) by { assert(node_at(g.spans_, i, j) == node_at(g.spans_, i, j)); } }
    }
    assert forall|i: int, j: int, a: int, b: int| cell(k.spans_, i, j) && cell(k.spans_, a, b) && #[trigger] node_at(k.spans_, i, j) == #[trigger] node_at(k.spans_, a, b) && node_at(k.spans_, i, j) != 0 implies i == a && j == b by {
        let i2 = if i >= c { i + 1 } else { i }; let a2 = if a >= c { a + 1 } else { a };
        assert(cell(g.spans_, i2, j) && cell(g.spans_, a2, b));
        assert(node_at(g.spans_, i2, j) == node_at(g.spans_, a2, b));
    }
    assert forall|i: int, j: int| #[trigger] cell(k.spans_, i, j) && far(k, i, j) implies covered(k, i, j) by {
        assert(node_at(k.spans_, i, j) == node_at(k.spans_, i, j));
        if i >= c { assert(covered(g, i + 1, j)) by { assert(cell(g.spans_, i + 1, j)); } } else { assert(covered(g, i, j)) by { assert(cell(g.spans_, i, j)); } }
    }
}
pub open spec fn stretch_same(k: ReadingGrid, i: int, g: ReadingGrid, a: int, j: int) -> bool { (i + j <= k.readings_.len() <==> a + j <= g.readings_.len()) && (i + j <= k.readings_.len() ==> stretch(k, i, j) == stretch(g, a, j)) }
pub proof fn lemma_stretch(k: ReadingGrid, i: int, g: ReadingGrid, a: int, j: int)
    requires same_but(g, k), 0 <= i, 0 <= a, j >= 0, i + j <= k.readings_.len() <==> a + j <= g.readings_.len(), i + j <= k.readings_.len() ==> k.readings_.subrange(i, i + j) =~= g.readings_.subrange(a, a + j)
    ensures stretch_same(k, i, g, a, j)
{
    if i + j <= k.readings_.len() { assert(k.readings_.subrange(i, i + j) =~= g.readings_.subrange(a, a + j)); }
}
pub proof fn lemma_filled(k: ReadingGrid, q: ReadingGrid)
    requires far_covered(k), q == (ReadingGrid { spans_: q.spans_, ..k }), q.spans_.len() == k.spans_.len(),
        forall|i: int, j: int| cell(k.spans_, i, j) && node_at(k.spans_, i, j) != 0 ==> #[trigger] node_at(q.spans_, i, j) == node_at(k.spans_, i, j),
        forall|i: int, j: int| #[trigger] cell(q.spans_, i, j) && k.cursor_ - 6 <= i && i + j <= k.cursor_ + 6 ==> covered(q, i, j)
    ensures all_covered(q)
{
    assert forall|i: int, j: int| #[trigger] cell(q.spans_, i, j) implies covered(q, i, j) by {
        assert(cell(k.spans_, i, j));
        assert(node_at(q.spans_, i, j) == node_at(q.spans_, i, j));
        if far(k, i, j) { assert(covered(k, i, j)); assert(stretch(k, i, j) == stretch(q, i, j)); }
    }
}
// ---- nodes: the entry in use, its score, selecting and resetting -----------------------------------
pub open spec fn now(n: ReadingGrid_NodeS) -> LanguageModel_Unigram { n.unigrams_[n.unigramIter_.off] }
pub open spec fn score_of(n: ReadingGrid_NodeS) -> Dbl {
    if n.unigrams_.len() == 0 { dlit(0) } else if n.overrideType_ == ReadingGrid_Node_OverrideType_kOverrideValueWithHighScore() { dlit(42) }
    else if n.overrideType_ == ReadingGrid_Node_OverrideType_kOverrideValueWithScoreFromTopUnigram() { n.unigrams_[0].score_ } else { now(n).score_ }
}
pub open spec fn find_value(us: Seq<LanguageModel_Unigram>, v: Seq<u8>, from: int) -> int
    decreases us.len() - from
{ if from >= us.len() || us[from].value_ == v { from } else { find_value(us, v, from + 1) } }
pub open spec fn offers(us: Seq<LanguageModel_Unigram>, v: Seq<u8>) -> bool { exists|k: int| 0 <= k < us.len() && (#[trigger] us[k]).value_ == v }
pub proof fn lemma_find_value(us: Seq<LanguageModel_Unigram>, v: Seq<u8>, from: int)
    requires 0 <= from <= us.len()
    ensures from <= find_value(us, v, from) <= us.len(), forall|k: int| from <= k < find_value(us, v, from) ==> (#[trigger] us[k]).value_ != v, find_value(us, v, from) < us.len() ==> us[find_value(us, v, from)].value_ == v
    decreases us.len() - from
{ if from < us.len() && us[from].value_ != v { lemma_find_value(us, v, from + 1); } }
pub open spec fn cleared(n: ReadingGrid_NodeS) -> ReadingGrid_NodeS { ReadingGrid_NodeS { unigramIter_: it_begin(n.unigrams_), overrideType_: ReadingGrid_Node_OverrideType_kNone(), ..n } }
// the first entry with the chosen text is used
pub open spec fn chosen(n: ReadingGrid_NodeS, v: Seq<u8>, t: int) -> ReadingGrid_NodeS {
    ReadingGrid_NodeS { unigramIter_: It { buf: n.unigrams_, off: find_value(n.unigrams_, v, 0), nil: false }, overrideType_: t, ..n }
}
// ---- the nodes over a position --------------------------------------------------------------------
pub open spec fn overlaps(sp: Seq<ReadingGrid_Span>, loc: int, i: int, j: int) -> bool { cell(sp, i, j) && i <= loc < i + j && node_at(sp, i, j) != 0 }
pub open spec fn in_span(sp: Seq<ReadingGrid_Span>, i: int, j: int) -> ReadingGrid_NodeInSpan { ReadingGrid_NodeInSpan { node: node_at(sp, i, j), spanIndex: i } }
// the part looked at so far: at loc up to length a; before it the spans up to b, there up to length c
pub open spec fn seen(loc: int, a: int, b: int, c: int, i: int, j: int) -> bool { if i == loc { j < a } else { i < b || (i == b && j < c) } }
pub open spec fn from_grid(sp: Seq<ReadingGrid_Span>, loc: int, a: int, b: int, c: int, n: ReadingGrid_NodeInSpan, j: int) -> bool {
    overlaps(sp, loc, n.spanIndex, j) && seen(loc, a, b, c, n.spanIndex, j) && n == in_span(sp, n.spanIndex, j)
}
pub open spec fn taken(sp: Seq<ReadingGrid_Span>, loc: int, a: int, b: int, c: int, n: ReadingGrid_NodeInSpan) -> bool { exists|j: int| #[trigger] from_grid(sp, loc, a, b, c, n, j) }
pub open spec fn lists(sp: Seq<ReadingGrid_Span>, ns: Seq<ReadingGrid_NodeInSpan>, loc: int, a: int, b: int, c: int) -> bool {
    (forall|k: int| 0 <= k < ns.len() ==> taken(sp, loc, a, b, c, #[trigger] ns[k]))
    && (forall|i: int, j: int| #[trigger] overlaps(sp, loc, i, j) && seen(loc, a, b, c, i, j) ==> ns.contains(in_span(sp, i, j)))
    && ns.no_duplicates()
}
// ns are the nodes over loc, each once
pub open spec fn listing(sp: Seq<ReadingGrid_Span>, loc: int, ns: Seq<ReadingGrid_NodeInSpan>) -> bool { lists(sp, ns, loc, 7, loc, 0) }
pub open spec fn adds(sp: Seq<ReadingGrid_Span>, loc: int, a: int, b: int, c: int, a2: int, b2: int, c2: int, i: int, j: int) -> bool {
    forall|x: int, y: int| #[trigger] overlaps(sp, loc, x, y) ==> (seen(loc, a2, b2, c2, x, y) <==> seen(loc, a, b, c, x, y) || (x == i && y == j))
}
pub open spec fn same_seen(sp: Seq<ReadingGrid_Span>, loc: int, a: int, b: int, c: int, a2: int, b2: int, c2: int) -> bool {
    forall|x: int, y: int| #[trigger] overlaps(sp, loc, x, y) ==> (seen(loc, a2, b2, c2, x, y) <==> seen(loc, a, b, c, x, y))
}
pub proof fn lemma_step(sp: Seq<ReadingGrid_Span>, ns: Seq<ReadingGrid_NodeInSpan>, loc: int, a: int, b: int, c: int, a2: int, b2: int, c2: int, i: int, j: int)
    requires apart(sp), lists(sp, ns, loc, a, b, c), cell(sp, i, j), i <= loc < i + j, !seen(loc, a, b, c, i, j), seen(loc, a2, b2, c2, i, j),
        adds(sp, loc, a, b, c, a2, b2, c2, i, j)
    ensures node_at(sp, i, j) != 0 ==> lists(sp, ns.push(in_span(sp, i, j)), loc, a2, b2, c2), node_at(sp, i, j) == 0 ==> lists(sp, ns, loc, a2, b2, c2)
{
    let p = node_at(sp, i, j);
    let q = if p != 0 { ns.push(in_span(sp, i, j)) } else { ns };
    assert forall|k: int| 0 <= k < q.len() implies taken(sp, loc, a2, b2, c2, #[trigger] q[k]) by {
        if k < ns.len() {
            assert(taken(sp, loc, a, b, c, ns[k]));
            let y = choose|y: int| from_grid(sp, loc, a, b, c, ns[k], y);
            assert(overlaps(sp, loc, ns[k].spanIndex, y));
            assert(from_grid(sp, loc, a2, b2, c2, q[k], y));
        } else { assert(overlaps(sp, loc, i, j)); assert(from_grid(sp, loc, a2, b2, c2, q[k], j)); }
    }
    assert forall|x: int, y: int| #[trigger] overlaps(sp, loc, x, y) && seen(loc, a2, b2, c2, x, y) implies q.contains(in_span(sp, x, y)) by {
        if x == i && y == j { assert(q[ns.len() as int] == in_span(sp, i, j)); }
        else { assert(ns.contains(in_span(sp, x, y))); let k = choose|k: int| 0 <= k < ns.len() && ns[k] == in_span(sp, x, y); assert(q[k] == ns[k]); }
    }
    assert forall|k: int, m: int| 0 <= k < q.len() && 0 <= m < q.len() && k != m implies q[k] != q[m] by {
        let t = if k < m { k } else { m };
        let u = if k < m { m } else { k };
        if p != 0 && u == ns.len() && q[t] == q[u] {
            assert(taken(sp, loc, a, b, c, ns[t]));
            let y = choose|y: int| from_grid(sp, loc, a, b, c, ns[t], y);
            assert(node_at(sp, i, y) == node_at(sp, i, j));
        } else { assert(ns[t] == q[t]); if u < ns.len() { assert(ns[u] == q[u]); } }
    }
    assert(q.no_duplicates());
}
// further lengths and spans that have no nodes
pub proof fn lemma_skip(sp: Seq<ReadingGrid_Span>, ns: Seq<ReadingGrid_NodeInSpan>, loc: int, a: int, b: int, c: int, a2: int, b2: int, c2: int)
    requires lists(sp, ns, loc, a, b, c), same_seen(sp, loc, a, b, c, a2, b2, c2)
    ensures lists(sp, ns, loc, a2, b2, c2)
{
    assert forall|k: int| 0 <= k < ns.len() implies taken(sp, loc, a2, b2, c2, #[trigger] ns[k]) by {
        assert(taken(sp, loc, a, b, c, ns[k]));
        let y = choose|y: int| from_grid(sp, loc, a, b, c, ns[k], y);
        assert(overlaps(sp, loc, ns[k].spanIndex, y));
        assert(from_grid(sp, loc, a2, b2, c2, ns[k], y));
    }
}
// the same nodes in another order
pub proof fn lemma_reorder(sp: Seq<ReadingGrid_Span>, ns: Seq<ReadingGrid_NodeInSpan>, q: Seq<ReadingGrid_NodeInSpan>, loc: int, a: int, b: int, c: int)
    requires lists(sp, ns, loc, a, b, c), q.to_multiset() =~= ns.to_multiset()
    ensures lists(sp, q, loc, a, b, c), forall|x: ReadingGrid_NodeInSpan| q.contains(x) <==> ns.contains(x)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    ns.lemma_multiset_has_no_duplicates();
    assert forall|x: ReadingGrid_NodeInSpan| q.contains(x) <==> ns.contains(x) by {
        assert(q.to_multiset().contains(x) == ns.to_multiset().contains(x));
    }
    assert(forall|x: ReadingGrid_NodeInSpan| q.to_multiset().contains(x) ==> q.to_multiset().count(x) == 1);
    q.lemma_multiset_has_no_duplicates_conv();
    assert forall|k: int| 0 <= k < q.len() implies taken(sp, loc, a, b, c, #[trigger] q[k]) by {
        assert(q.contains(q[k])); assert(ns.contains(q[k]));
        let m = choose|m: int| 0 <= m < ns.len() && ns[m] == q[k];
        assert(taken(sp, loc, a, b, c, ns[m]));
    }
}
// ---- what a position offers ----------------------------------------------------------------------------
pub open spec fn entries(n: ReadingGrid_NodeS) -> Seq<ReadingGrid_Candidate> { Seq::new(n.unigrams_.len(), |m: int| ReadingGrid_Candidate { reading: n.reading_, value: n.unigrams_[m].value_ }) }
pub open spec fn offered(h: Heap, ns: Seq<ReadingGrid_NodeInSpan>, k: int) -> Seq<ReadingGrid_Candidate>
    decreases k
{ if k <= 0 { Seq::empty() } else { offered(h, ns, k - 1) + entries(h[ns[k - 1].node]) } }
pub open spec fn longest_first(h: Heap, ns: Seq<ReadingGrid_NodeInSpan>) -> bool {
    forall|k: int, m: int| 0 <= k < m < ns.len() ==> h[(#[trigger] ns[k]).node].spanningLength_ >= h[(#[trigger] ns[m]).node].spanningLength_
}
pub open spec fn longer(h: Heap) -> spec_fn(ReadingGrid_NodeInSpan, ReadingGrid_NodeInSpan) -> bool { |a: ReadingGrid_NodeInSpan, b: ReadingGrid_NodeInSpan| h[a.node].spanningLength_ > h[b.node].spanningLength_ }
pub open spec fn by_length(h: Heap, sp: Seq<ReadingGrid_Span>, at: int, ns: Seq<ReadingGrid_NodeInSpan>) -> bool { listing(sp, at, ns) && longest_first(h, ns) }
pub open spec fn candidates_at(h: Heap, sp: Seq<ReadingGrid_Span>, at: int, r: Seq<ReadingGrid_Candidate>) -> bool {
    exists|ns: Seq<ReadingGrid_NodeInSpan>| #[trigger] by_length(h, sp, at, ns) && r == offered(h, ns, ns.len() as int)
}
pub open spec fn at_of(g: ReadingGrid, loc: int) -> int { if loc == g.readings_.len() { loc - 1 } else { loc } }
// ---- selecting ----------------------------------------------------------------------------------------------
pub open spec fn fits(n: ReadingGrid_NodeS, rd: Option<Seq<u8>>, v: Seq<u8>) -> bool { (rd.is_some() ==> n.reading_ == rd.unwrap()) && offers(n.unigrams_, v) }
pub open spec fn matches(h: Heap, sp: Seq<ReadingGrid_Span>, at: int, i: int, j: int, rd: Option<Seq<u8>>, v: Seq<u8>) -> bool { overlaps(sp, at, i, j) && fits(h[node_at(sp, i, j)], rd, v) }
pub open spec fn offered_at(h: Heap, sp: Seq<ReadingGrid_Span>, at: int, rd: Option<Seq<u8>>, v: Seq<u8>) -> bool { exists|i: int, j: int| #[trigger] matches(h, sp, at, i, j, rd, v) }
// the nodes over one of the positions from lo to hi
pub open spec fn over(sp: Seq<ReadingGrid_Span>, l: int, x: int) -> bool { exists|a: int, b: int| #[trigger] overlaps(sp, l, a, b) && node_at(sp, a, b) == x }
pub open spec fn hit(sp: Seq<ReadingGrid_Span>, lo: int, hi: int, x: int) -> bool { exists|l: int| lo <= l < hi && #[trigger] over(sp, l, x) }
pub open spec fn among(ns: Seq<ReadingGrid_NodeInSpan>, k: int, x: int) -> bool { exists|m: int| 0 <= m < k && (#[trigger] ns[m]).node == x }
// node p uses the text v; the nodes over a position from lo to hi, and the first m of ns, lose their selection; nothing else changes
pub open spec fn then(n: ReadingGrid_NodeS, p: bool, v: Seq<u8>, t: int, c: bool) -> ReadingGrid_NodeS { if p { chosen(n, v, t) } else if c { cleared(n) } else { n } }
pub open spec fn is_after(h: Heap, k: Heap, p: int, v: Seq<u8>, t: int, sp: Seq<ReadingGrid_Span>, lo: int, hi: int, ns: Seq<ReadingGrid_NodeInSpan>, m: int) -> bool {
    k.dom() == h.dom() && forall|x: int| #[trigger] h.dom().contains(x) ==> k[x] == then(h[x], x == p, v, t, hit(sp, lo, hi, x) || among(ns, m, x))
}
pub open spec fn no_ns() -> Seq<ReadingGrid_NodeInSpan> { Seq::empty() }
pub open spec fn selected(h: Heap, k: Heap, sp: Seq<ReadingGrid_Span>, at: int, i: int, j: int, rd: Option<Seq<u8>>, v: Seq<u8>, t: int) -> bool {
    matches(h, sp, at, i, j, rd, v) && is_after(h, k, node_at(sp, i, j), v, t, sp, i, i + j, no_ns(), 0)
}
pub open spec fn selects(h: Heap, k: Heap, sp: Seq<ReadingGrid_Span>, at: int, rd: Option<Seq<u8>>, v: Seq<u8>, t: int) -> bool { exists|i: int, j: int| #[trigger] selected(h, k, sp, at, i, j, rd, v, t) }
pub proof fn lemma_after_ok(h: Heap, k: Heap, g: ReadingGrid, p: int, v: Seq<u8>, t: int, lo: int, hi: int, ns: Seq<ReadingGrid_NodeInSpan>, m: int)
    requires grid_ok(h, g), h.dom().contains(p), offers(h[p].unigrams_, v), is_after(h, k, p, v, t, g.spans_, lo, hi, ns, m)
    ensures grid_ok(k, g)
{
    lemma_find_value(h[p].unigrams_, v, 0);
    assert forall|i: int, j: int| #![trigger node_at(g.spans_, i, j)] cell(g.spans_, i, j) implies placed(k, g, i, j) by {
        assert(placed(h, g, i, j));
        let x = node_at(g.spans_, i, j);
        if x != 0 { assert(h.dom().contains(x)); }
    }
}
// one position more
pub proof fn lemma_after_next(h: Heap, k: Heap, p: int, v: Seq<u8>, t: int, sp: Seq<ReadingGrid_Span>, lo: int, l: int, ns: Seq<ReadingGrid_NodeInSpan>)
    requires is_after(h, k, p, v, t, sp, lo, l, ns, ns.len() as int), listing(sp, l, ns), lo <= l
    ensures is_after(h, k, p, v, t, sp, lo, l + 1, no_ns(), 0)
{
    assert forall|x: int| #[trigger] h.dom().contains(x) implies k[x] == then(h[x], x == p, v, t, hit(sp, lo, l + 1, x) || among(no_ns(), 0, x)) by {
        if hit(sp, lo, l, x) { let y = choose|y: int| lo <= y < l && #[trigger] over(sp, y, x); assert(lo <= y < l + 1 && over(sp, y, x)); }
        if among(ns, ns.len() as int, x) {
            let m = choose|m: int| 0 <= m < ns.len() && (#[trigger] ns[m]).node == x;
            assert(taken(sp, l, 7, l, 0, ns[m]));
            let j = choose|j: int| from_grid(sp, l, 7, l, 0, ns[m], j);
            assert(overlaps(sp, l, ns[m].spanIndex, j));
            assert(over(sp, l, x));
        }
        if hit(sp, lo, l + 1, x) && !hit(sp, lo, l, x) {
            let y = choose|y: int| lo <= y < l + 1 && #[trigger] over(sp, y, x);
            assert(y == l);
            let (a, b) = choose|a: int, b: int| #[trigger] overlaps(sp, l, a, b) && node_at(sp, a, b) == x;
            assert(seen(l, 7, l, 0, a, b));
            assert(ns.contains(in_span(sp, a, b)));
            let m = choose|m: int| 0 <= m < ns.len() && ns[m] == in_span(sp, a, b);
            assert(ns[m].node == x);
        }
    }
}
pub proof fn lemma_after_node(h: Heap, k: Heap, k2: Heap, p: int, v: Seq<u8>, t: int, sp: Seq<ReadingGrid_Span>, lo: int, l: int, ns: Seq<ReadingGrid_NodeInSpan>, m: int)
    requires is_after(h, k, p, v, t, sp, lo, l, ns, m), 0 <= m < ns.len(), h.dom().contains(ns[m].node),
        k2 == (if ns[m].node == p { k } else { k.insert(ns[m].node, cleared(k[ns[m].node])) })
    ensures is_after(h, k2, p, v, t, sp, lo, l, ns, m + 1)
{
    assert(k2.dom() =~= h.dom());
    assert forall|x: int| #[trigger] h.dom().contains(x) implies k2[x] == then(h[x], x == p, v, t, hit(sp, lo, l, x) || among(ns, m + 1, x)) by {
        assert(k[x] == then(h[x], x == p, v, t, hit(sp, lo, l, x) || among(ns, m, x)));
        if among(ns, m, x) { let y = choose|y: int| 0 <= y < m && (#[trigger] ns[y]).node == x; assert(ns[y].node == x && 0 <= y < m + 1); }
        if x == ns[m].node { assert(among(ns, m + 1, x)); }
        else if among(ns, m + 1, x) { let y = choose|y: int| 0 <= y < m + 1 && (#[trigger] ns[y]).node == x; assert(y < m); assert(among(ns, m, x)); }
    }
}
pub proof fn lemma_none(h: Heap, sp: Seq<ReadingGrid_Span>, at: int, ns: Seq<ReadingGrid_NodeInSpan>, rd: Option<Seq<u8>>, v: Seq<u8>)
    requires listing(sp, at, ns), forall|k: int| 0 <= k < ns.len() ==> !fits(h[(#[trigger] ns[k]).node], rd, v)
    ensures !offered_at(h, sp, at, rd, v)
{
    if offered_at(h, sp, at, rd, v) {
        let (i, j) = choose|i: int, j: int| #[trigger] matches(h, sp, at, i, j, rd, v);
        assert(overlaps(sp, at, i, j) && seen(at, 7, at, 0, i, j));
        let m = choose|m: int| 0 <= m < ns.len() && ns[m] == in_span(sp, i, j);
        assert(fits(h[ns[m].node], rd, v));
    }
}
@fn ReadingGrid_Span_clear
@requires
- this.nodes_.len() == 6
@ensures
- span_ok(this_post)
- forall|k: int| 0 <= k < 6 ==> this_post.nodes_[k] == 0
@fn ReadingGrid_Span_add
@opt heaps ReadingGrid_Node
@requires
- span_ok(this)
- node != 0
- heap_ReadingGrid_Node.dom().contains(node)
- 1 <= heap_ReadingGrid_Node[node].spanningLength_ <= 6
@ensures
- span_ok(this_post)
- this_post.nodes_ =~= this.nodes_.update(heap_ReadingGrid_Node[node].spanningLength_ - 1, node)
@fn ReadingGrid_Span_removeNodesOfOrLongerThan
@requires
- span_ok(this)
- 1 <= length <= 6
@ensures
- span_ok(this_post)
- this_post.nodes_ =~= Seq::new(6, |k: int| if k < length - 1 { this.nodes_[k] } else { 0 })
@loop 0
@inv
- length - 1 <= i <= 6
- this.nodes_ =~= Seq::new(6, |k: int| if length - 1 <= k < i { 0 } else { old_this.nodes_[k] })
@dec
6 - i
@loop 1
@inv
- 0 <= i_2 <= length - 2
- this.maxLength_ == 0
- this.nodes_ =~= Seq::new(6, |k: int| if length - 1 <= k { 0 } else { old_this.nodes_[k] })
- forall|k: int| i_2 < k <= length - 2 ==> this.nodes_[k] == 0
@dec
i_2
@fn ReadingGrid_Span_nodeOf
@requires
- this.nodes_.len() == 6
- 1 <= length <= 6
@ensures
- ret == this.nodes_[length - 1]
@fn ReadingGrid_ScoreRankedLanguageModel_ctor
@requires
- lm.is_some()
@ensures
- ret.lm_ == lm
@fn ReadingGrid_ScoreRankedLanguageModel_getUnigrams
@requires
- this.lm_.is_some()
@ensures
- this_post == this
- ret == ranked(this, reading)
@fn ReadingGrid_ScoreRankedLanguageModel_hasUnigrams
@requires
- this.lm_.is_some()
@ensures
- this_post == this
- ret == lm_has(this.lm_->0, reading)
@fn ReadingGrid_ctor
@requires
- lm.is_some()
@ensures
- forall|h: Heap| grid_ok(h, ret)
- ret.lm_.lm_ == lm
- ret.readings_.len() == 0 && ret.cursor_ == 0 && ret.separator_ =~= seq![45u8]
@fn ReadingGrid_clear
@requires
- this.lm_.lm_.is_some()
@ensures
- forall|h: Heap| grid_ok(h, this_post)
- same_but(this, this_post)
- this_post.readings_.len() == 0
- this_post.cursor_ == 0
@fn ReadingGrid_setCursor
@requires
- cursor <= this.readings_.len()
@ensures
- this_post == with_cursor(this, cursor)
- forall|h: Heap| grid_ok(h, this) ==> grid_ok(h, this_post)
@fn ReadingGrid_setReadingSeparator
@requires
- this.readings_.len() == 0 && this.spans_.len() == 0 && this.lm_.lm_.is_some() && this.cursor_ == 0
@ensures
- forall|h: Heap| grid_ok(h, this_post)
- this_post == (ReadingGrid { separator_: separator, ..this })
@fn ReadingGrid_insertReading
@ghost
was: ReadingGrid = this
@opt heaps ReadingGrid_Node!
@requires
- grid_ok(heap_ReadingGrid_Node, this)
@ensures
- ret == (reading.len() > 0 && reading != this.separator_ && lm_has(this.lm_.lm_->0, reading))
- !ret ==> this_post == this && heap_ReadingGrid_Node_post == heap_ReadingGrid_Node
- grid_ok(heap_ReadingGrid_Node_post, this_post)
- same_but(this, this_post)
- grown(heap_ReadingGrid_Node, heap_ReadingGrid_Node_post)
- ret ==> this_post.readings_ =~= this.readings_.insert(this.cursor_, reading) && this_post.cursor_ == this.cursor_ + 1
- heard(this) && (lm_has(this.lm_.lm_->0, reading) ==> ranked(this.lm_, reading).len() > 0) ==> heard(this_post)
@at entry
  phys(this.readings_);
@at before update
  assert(this.readings_ =~= old_this.readings_.insert(old_this.cursor_, reading));
  lemma_expanded(heap_ReadingGrid_Node, old_this, this, reading);
  was = this;
@at after update
  lemma_filled(was, this);
@fn ReadingGrid_deleteReadingBeforeCursor
@ghost
was: ReadingGrid = this
@opt heaps ReadingGrid_Node!
@requires
- grid_ok(heap_ReadingGrid_Node, this)
@ensures
- ret == (this.cursor_ > 0)
- !ret ==> this_post == this && heap_ReadingGrid_Node_post == heap_ReadingGrid_Node
- heard(this) ==> heard(this_post)
- grid_ok(heap_ReadingGrid_Node_post, this_post)
- same_but(this, this_post)
- grown(heap_ReadingGrid_Node, heap_ReadingGrid_Node_post)
- ret ==> this_post.readings_ =~= this.readings_.remove(this.cursor_ - 1) && this_post.cursor_ == this.cursor_ - 1
@at entry
  phys(this.readings_);
@at before update
  assert(this.readings_ =~= old_this.readings_.remove(old_this.cursor_ - 1));
  lemma_shrunk(heap_ReadingGrid_Node, old_this, this, old_this.cursor_ - 1);
  was = this;
@at after update
  lemma_filled(was, this);
@fn ReadingGrid_deleteReadingAfterCursor
@ghost
was: ReadingGrid = this
@opt heaps ReadingGrid_Node!
@requires
- grid_ok(heap_ReadingGrid_Node, this)
@ensures
- ret == (this.cursor_ < this.readings_.len())
- !ret ==> this_post == this && heap_ReadingGrid_Node_post == heap_ReadingGrid_Node
- heard(this) ==> heard(this_post)
- grid_ok(heap_ReadingGrid_Node_post, this_post)
- same_but(this, this_post)
- grown(heap_ReadingGrid_Node, heap_ReadingGrid_Node_post)
- ret ==> this_post.readings_ =~= this.readings_.remove(this.cursor_) && this_post.cursor_ == this.cursor_
@at entry
  phys(this.readings_);
@at before update
  assert(this.readings_ =~= old_this.readings_.remove(old_this.cursor_));
  lemma_shrunk(heap_ReadingGrid_Node, old_this, this, old_this.cursor_);
  was = this;
@at after update
  lemma_filled(was, this);
@fn ReadingGrid_expandGridAt
@requires
- spans_ok(this.spans_)
- 0 <= loc <= this.spans_.len()
- forall|i: int, j: int| cell(this.spans_, i, j) && #[trigger] node_at(this.spans_, i, j) != 0 ==> i + j <= this.spans_.len()
@ensures
- this_post == (ReadingGrid { spans_: this_post.spans_, ..this })
- spans_ok(this_post.spans_)
- this_post.spans_.len() == this.spans_.len() + 1
- forall|i: int, j: int| cell(this_post.spans_, i, j) ==> #[trigger] node_at(this_post.spans_, i, j) == (if i < loc && i + j <= loc { node_at(this.spans_, i, j) } else if i > loc { node_at(this.spans_, i - 1, j) } else { 0 })
@at return
  assert forall|i: int, j: int| cell(this.spans_, i, j) implies #[trigger] node_at(this.spans_, i, j) == (if i < loc && i + j <= loc { node_at(old_this.spans_, i, j) } else if i > loc { node_at(old_this.spans_, i - 1, j) } else { 0 }) by {
      if loc == 0 { if i > 0 { assert(cell(old_this.spans_, i - 1, j)); } }
      else if loc == old_this.spans_.len() { if i < loc { assert(cell(old_this.spans_, i, j)); assert(old_this.spans_[i].nodes_.len() == 6); if node_at(old_this.spans_, i, j) != 0 { } } }
      else if i < loc { assert(cell(old_this.spans_, i, j)); assert(node_at(old_this.spans_, i, j) == node_at(old_this.spans_, i, j)); assert(old_this.spans_[i].nodes_.len() == 6); }
      else if i > loc { assert(cell(old_this.spans_, i - 1, j)); }
  }
@fn ReadingGrid_shrinkGridAt
@requires
- spans_ok(this.spans_)
- 0 <= loc < this.spans_.len()
@ensures
- this_post == (ReadingGrid { spans_: this_post.spans_, ..this })
- spans_ok(this_post.spans_)
- this_post.spans_.len() == this.spans_.len() - 1
- forall|i: int, j: int| cell(this_post.spans_, i, j) ==> #[trigger] node_at(this_post.spans_, i, j) == (if i < loc && i + j <= loc { node_at(this.spans_, i, j) } else if i >= loc { node_at(this.spans_, i + 1, j) } else { 0 }) || (i == 0 && loc == 0 && node_at(this_post.spans_, i, j) == 0)
@fn ReadingGrid_removeAffectedNodes
@ghost
was: Seq<ReadingGrid_Span> = this.spans_
@requires
- spans_ok(this.spans_)
- 0 <= loc <= this.spans_.len()
@ensures
- this_post == (ReadingGrid { spans_: this_post.spans_, ..this })
- spans_ok(this_post.spans_)
- this_post.spans_.len() == this.spans_.len()
- forall|i: int, j: int| cell(this_post.spans_, i, j) ==> #[trigger] node_at(this_post.spans_, i, j) == (if i < loc && i + j > loc { 0 } else { node_at(this.spans_, i, j) }) || (i == 0 && loc == 0 && node_at(this_post.spans_, i, j) == 0)
@loop 0
@inv
- begin <= i <= end + 1
- this == (ReadingGrid { spans_: this.spans_, ..old_this })
- spans_ok(this.spans_)
- this.spans_.len() == old_this.spans_.len()
- forall|a: int, j: int| cell(this.spans_, a, j) ==> #[trigger] node_at(this.spans_, a, j) == (if begin <= a < i && a + j > loc { 0 } else { node_at(old_this.spans_, a, j) })
@dec
end + 1 - i
@at loop0.begin
  was = this.spans_;
@at loop0.end
  assert forall|a: int, j: int| cell(this.spans_, a, j) implies #[trigger] node_at(this.spans_, a, j) == (if begin <= a < i && a + j > loc { 0 } else { node_at(old_this.spans_, a, j) }) by {
      assert(node_at(was, a, j) == (if begin <= a < i - 1 && a + j > loc { 0 } else { node_at(old_this.spans_, a, j) }));
  }
@fn ReadingGrid_insert
@opt heaps ReadingGrid_Node
@requires
- spans_ok(this.spans_)
- 0 <= loc < this.spans_.len()
- node != 0
- heap_ReadingGrid_Node.dom().contains(node)
- 1 <= heap_ReadingGrid_Node[node].spanningLength_ <= 6
@ensures
- this_post == (ReadingGrid { spans_: this_post.spans_, ..this })
- spans_ok(this_post.spans_)
- this_post.spans_.len() == this.spans_.len()
- forall|i: int, j: int| cell(this_post.spans_, i, j) ==> #[trigger] node_at(this_post.spans_, i, j) == (if i == loc && j == heap_ReadingGrid_Node[node].spanningLength_ { node } else { node_at(this.spans_, i, j) })
@fn ReadingGrid_combineReading
@requires
- it_span(begin, end)
- !begin.nil
- !end.nil
@ensures
- this_post == this
- ret == joined(begin.buf.subrange(begin.off, end.off), this.separator_)
@loop 0
@inv
- this == old_this
- iter.buf == begin.buf
- begin.off <= iter.off <= end.off
- !iter.nil
- result == (if iter.off == begin.off { Seq::<u8>::empty() } else { joined(begin.buf.subrange(begin.off, iter.off), this.separator_) + (if iter.off < end.off { this.separator_ } else { Seq::<u8>::empty() }) })
@dec
end.off - iter.off
@at loop0.end
  assert(begin.buf.subrange(begin.off, iter.off).drop_last() =~= begin.buf.subrange(begin.off, iter.off - 1));
@fn ReadingGrid_hasNodeAt
@opt heaps ReadingGrid_Node
@requires
- spans_ok(this.spans_)
- 0 <= loc < this.spans_.len()
- 1 <= readingLen <= 6
- node_at(this.spans_, loc, readingLen) != 0 ==> heap_ReadingGrid_Node.dom().contains(node_at(this.spans_, loc, readingLen))
@ensures
- this_post == this
- ret == (node_at(this.spans_, loc, readingLen) != 0 && heap_ReadingGrid_Node[node_at(this.spans_, loc, readingLen)].reading_ == reading)
@fn ReadingGrid_update
@ghost
was: ReadingGrid = this
@opt heaps ReadingGrid_Node!
@requires
- grid_sound(heap_ReadingGrid_Node, this)
@ensures
- grid_sound(heap_ReadingGrid_Node_post, this_post)
- this_post == (ReadingGrid { spans_: this_post.spans_, ..this })
- grown(heap_ReadingGrid_Node, heap_ReadingGrid_Node_post)
- forall|i: int, j: int| cell(this.spans_, i, j) && node_at(this.spans_, i, j) != 0 ==> #[trigger] node_at(this_post.spans_, i, j) == node_at(this.spans_, i, j)
- forall|i: int, j: int| #[trigger] cell(this_post.spans_, i, j) && this.cursor_ - 6 <= i && i + j <= this.cursor_ + 6 ==> covered(this_post, i, j)
@loop 0
@inv
- 0 <= begin <= pos
- end <= this.readings_.len()
- this == (ReadingGrid { spans_: this.spans_, ..old_this })
- grid_sound(heap_ReadingGrid_Node, this)
- grown(old_heap_ReadingGrid_Node, heap_ReadingGrid_Node)
- begin <= 0 || begin == this.cursor_ - 6
- end == this.readings_.len() || end == this.cursor_ + 6
- forall|i: int, j: int| cell(old_this.spans_, i, j) && node_at(old_this.spans_, i, j) != 0 ==> #[trigger] node_at(this.spans_, i, j) == node_at(old_this.spans_, i, j)
- forall|i: int, j: int| #[trigger] cell(this.spans_, i, j) && begin <= i < pos && i + j <= end ==> covered(this, i, j)
@dec
end - pos
@loop 1
@inv
- 1 <= len <= 7
- begin <= pos < end
- this == (ReadingGrid { spans_: this.spans_, ..old_this })
- grid_sound(heap_ReadingGrid_Node, this)
- grown(old_heap_ReadingGrid_Node, heap_ReadingGrid_Node)
- forall|i: int, j: int| cell(old_this.spans_, i, j) && node_at(old_this.spans_, i, j) != 0 ==> #[trigger] node_at(this.spans_, i, j) == node_at(old_this.spans_, i, j)
- forall|i: int, j: int| #[trigger] cell(this.spans_, i, j) && begin <= i && (i < pos || (i == pos && j < len)) && i + j <= end ==> covered(this, i, j)
@dec
7 - len
@at loop1.begin
  was = this;
@at loop1.end
  assert forall|i: int, j: int| #[trigger] cell(this.spans_, i, j) && begin <= i && (i < pos || (i == pos && j < len)) && i + j <= end implies covered(this, i, j) by {
      assert(cell(was.spans_, i, j));
      assert(node_at(this.spans_, i, j) == node_at(this.spans_, i, j));
      assert(stretch(this, i, j) == stretch(was, i, j));
      if i < pos || j < len - 1 { assert(covered(was, i, j)); }
  }
@fn ReadingGrid_Node_currentUnigram
@opt heaps ReadingGrid_Node
@requires
- heap_ReadingGrid_Node.dom().contains(this)
- heap_ReadingGrid_Node[this].unigrams_.len() > 0 ==> node_ok(heap_ReadingGrid_Node[this])
@ensures
- heap_ReadingGrid_Node[this].unigrams_.len() > 0 ==> ret == now(heap_ReadingGrid_Node[this])
@fn ReadingGrid_Node_value
@opt heaps ReadingGrid_Node
@requires
- heap_ReadingGrid_Node.dom().contains(this)
- heap_ReadingGrid_Node[this].unigrams_.len() > 0 ==> node_ok(heap_ReadingGrid_Node[this])
@ensures
- ret == (if heap_ReadingGrid_Node[this].unigrams_.len() > 0 { now(heap_ReadingGrid_Node[this]).value_ } else { Seq::<u8>::empty() })
@fn ReadingGrid_Node_score
@opt heaps ReadingGrid_Node
@requires
- heap_ReadingGrid_Node.dom().contains(this)
- heap_ReadingGrid_Node[this].unigrams_.len() > 0 ==> node_ok(heap_ReadingGrid_Node[this])
@ensures
- ret == score_of(heap_ReadingGrid_Node[this])
@fn ReadingGrid_Node_isOverridden
@opt heaps ReadingGrid_Node
@requires
- heap_ReadingGrid_Node.dom().contains(this)
@ensures
- ret == (heap_ReadingGrid_Node[this].overrideType_ != ReadingGrid_Node_OverrideType_kNone())
@fn ReadingGrid_Node_reset
@opt heaps ReadingGrid_Node!
@requires
- heap_ReadingGrid_Node.dom().contains(this)
@ensures
- heap_ReadingGrid_Node_post == heap_ReadingGrid_Node.insert(this, cleared(heap_ReadingGrid_Node[this]))
@fn ReadingGrid_Node_selectOverrideUnigram
@opt heaps ReadingGrid_Node!
@requires
- heap_ReadingGrid_Node.dom().contains(this)
- type_r != ReadingGrid_Node_OverrideType_kNone()
@ensures
- ret == offers(heap_ReadingGrid_Node[this].unigrams_, value)
- ret ==> heap_ReadingGrid_Node_post == heap_ReadingGrid_Node.insert(this, chosen(heap_ReadingGrid_Node[this], value, type_r))
- !ret ==> heap_ReadingGrid_Node_post == heap_ReadingGrid_Node
@loop 0
@inv
- heap_ReadingGrid_Node == old_heap_ReadingGrid_Node
- it.buf == heap_ReadingGrid_Node[this].unigrams_
- 0 <= it.off <= it.buf.len()
- !it.nil
- find_value(it.buf, value, 0) == find_value(it.buf, value, it.off)
@dec
it.buf.len() - it.off
@at return
  lemma_find_value(heap_ReadingGrid_Node[this].unigrams_, value, 0);
@at loop0.begin
  lemma_find_value(heap_ReadingGrid_Node[this].unigrams_, value, it.off);
@fn ReadingGrid_overlappingNodesAt
@requires
- spans_ok(this.spans_)
- apart(this.spans_)
@ensures
- loc >= this.spans_.len() ==> ret.len() == 0
- loc < this.spans_.len() ==> listing(this.spans_, loc, ret)
@ghost
was: Seq<ReadingGrid_NodeInSpan> = Seq::empty()
@loop 0
@inv
- 1 <= i <= 7
- loc < this.spans_.len()
- i <= len + 1
- len <= 6
- len == this.spans_[loc].maxLength_
- lists(this.spans_, results, loc, i, 0, 0)
@dec
7 - i
@at loop0.begin
  was = results;
@at loop0.end
  lemma_step(this.spans_, was, loc, i - 1, 0, 0, i, 0, 0, loc, i - 1);
@loop 1
@inv
- begin <= i_2 <= loc
- loc < this.spans_.len()
- begin == (if loc < 5 { 0 } else { loc - 5 })
- lists(this.spans_, results, loc, 7, i_2, 0)
@dec
loc - i_2
@at loop1.pre
  lemma_skip(this.spans_, results, loc, this.spans_[loc].maxLength_ + 1, 0, 0, 7, begin, 0);
@at loop2.pre
  lemma_skip(this.spans_, results, loc, 7, i_2, 0, 7, i_2, beginLen);
@at loop2.exit
  lemma_skip(this.spans_, results, loc, 7, i_2, j, 7, i_2 + 1, 0);
@loop 2
@inv
- begin <= i_2 < loc
- beginLen <= j
- j <= endLen + 1 || j == beginLen
- beginLen == loc - i_2 + 1
- endLen <= 6
- endLen == this.spans_[i_2].maxLength_
- lists(this.spans_, results, loc, 7, i_2, j)
@dec
7 - j
@at loop2.begin
  was = results;
@at loop2.end
  lemma_step(this.spans_, was, loc, 7, i_2, j - 1, 7, i_2, j, i_2, j - 1);
@fn ReadingGrid_candidatesAt
@opt heaps ReadingGrid_Node
@requires
- grid_ok(heap_ReadingGrid_Node, this)
@ensures
- this_post == this
- loc > this.readings_.len() || this.readings_.len() == 0 ==> ret.len() == 0
- loc <= this.readings_.len() && this.readings_.len() > 0 ==> candidates_at(heap_ReadingGrid_Node, this.spans_, at_of(this, loc), ret)
@at loop0.pre
  lemma_ssort(srt0, longer(heap_ReadingGrid_Node));
  assert(rng0 == ssort(srt0, longer(heap_ReadingGrid_Node)));
  lemma_reorder(this.spans_, srt0, rng0, at_of(this, loc), 7, at_of(this, loc), 0);
  assert forall|k: int, m: int| 0 <= k < m < rng0.len() implies heap_ReadingGrid_Node[(#[trigger] rng0[k]).node].spanningLength_ >= heap_ReadingGrid_Node[(#[trigger] rng0[m]).node].spanningLength_ by {
      let f = longer(heap_ReadingGrid_Node); let q = ssort(srt0, f); assert(!f(q[m], q[k]));
  }
  assert forall|k: int| 0 <= k < rng0.len() implies heap_ReadingGrid_Node.dom().contains((#[trigger] rng0[k]).node) by { assert(taken(this.spans_, at_of(this, loc), 7, at_of(this, loc), 0, rng0[k])); }
@loop 0
@inv
- result =~= offered(heap_ReadingGrid_Node, rng0, idx0)
- forall|k: int| 0 <= k < rng0.len() ==> heap_ReadingGrid_Node.dom().contains((#[trigger] rng0[k]).node)
- by_length(heap_ReadingGrid_Node, this.spans_, at_of(this, loc), rng0)
@loop 1
@inv
- result =~= offered(heap_ReadingGrid_Node, rng0, idx0) + entries(heap_ReadingGrid_Node[rng0[idx0].node]).subrange(0, idx1)
@fn ReadingGrid_overrideCandidate/4
@opt heaps ReadingGrid_Node!
@requires
- grid_ok(heap_ReadingGrid_Node, this)
- overrideType != ReadingGrid_Node_OverrideType_kNone()
@ensures
- this_post == this
- ret == (loc <= this.readings_.len() && this.readings_.len() > 0 && offered_at(heap_ReadingGrid_Node, this.spans_, at_of(this, loc), reading, value))
- !ret ==> heap_ReadingGrid_Node_post == heap_ReadingGrid_Node
- ret ==> selects(heap_ReadingGrid_Node, heap_ReadingGrid_Node_post, this.spans_, at_of(this, loc), reading, value, overrideType)
- grid_ok(heap_ReadingGrid_Node_post, this)
@ghost
p: int = 0
at: int = at_of(this, loc)
len: int = 0
was: Map<int, ReadingGrid_NodeS> = Map::empty()
ns0: Seq<ReadingGrid_NodeInSpan> = Seq::empty()
@at loop0.pre
  ns0 = rng0;
@loop 0
@inv
- ns0 == rng0
- loc < this.readings_.len() || this.readings_.len() == 0 || at + 1 == loc
- this.readings_.len() > 0 ==> listing(this.spans_, at, rng0)
- this.readings_.len() == 0 ==> rng0.len() == 0
@exc
- heap_ReadingGrid_Node == old_heap_ReadingGrid_Node
- overridden.node == 0
- forall|k: int| 0 <= k < idx0 ==> !fits(heap_ReadingGrid_Node[(#[trigger] rng0[k]).node], reading, value)
@ens
- overridden.node != 0 ==> ns0.contains(overridden) && fits(old_heap_ReadingGrid_Node[overridden.node], reading, value) && heap_ReadingGrid_Node == old_heap_ReadingGrid_Node.insert(overridden.node, chosen(old_heap_ReadingGrid_Node[overridden.node], value, overrideType))
- overridden.node == 0 ==> heap_ReadingGrid_Node == old_heap_ReadingGrid_Node && forall|k: int| 0 <= k < rng0.len() ==> !fits(heap_ReadingGrid_Node[(#[trigger] rng0[k]).node], reading, value)
@at loop0.begin
  assert(taken(this.spans_, at, 7, at, 0, rng0[idx0]));
@at loop0.post
  if overridden.node == 0 { if this.readings_.len() > 0 { lemma_none(old_heap_ReadingGrid_Node, this.spans_, at, ns0, reading, value); } }
@at loop1.pre
  {
    let k = choose|k: int| 0 <= k < ns0.len() && ns0[k] == overridden;
    assert(taken(this.spans_, at, 7, at, 0, ns0[k]));
    len = choose|j: int| from_grid(this.spans_, at, 7, at, 0, ns0[k], j);
    p = overridden.node;
    assert(matches(old_heap_ReadingGrid_Node, this.spans_, at, overridden.spanIndex, len, reading, value));
    assert(heap_ReadingGrid_Node.dom() =~= old_heap_ReadingGrid_Node.dom());
    assert forall|x: int| !hit(this.spans_, overridden.spanIndex, i, x) && !among(no_ns(), 0, x) by { }
    assert(is_after(old_heap_ReadingGrid_Node, heap_ReadingGrid_Node, p, value, overrideType, this.spans_, overridden.spanIndex, i, no_ns(), 0));
    lemma_after_ok(old_heap_ReadingGrid_Node, heap_ReadingGrid_Node, this, p, value, overrideType, overridden.spanIndex, i, no_ns(), 0);
  }
@at loop1.post
  assert(i == overridden.spanIndex + len);
  assert(selected(old_heap_ReadingGrid_Node, heap_ReadingGrid_Node, this.spans_, at, overridden.spanIndex, len, reading, value, overrideType));
@at loop2.begin
  was = heap_ReadingGrid_Node;
  assert(taken(this.spans_, i, 7, i, 0, rng1[idx1]));
@at loop2.end
  lemma_after_node(old_heap_ReadingGrid_Node, was, heap_ReadingGrid_Node, p, value, overrideType, this.spans_, overridden.spanIndex, i, rng1, idx1 - 1);
  lemma_after_ok(old_heap_ReadingGrid_Node, heap_ReadingGrid_Node, this, p, value, overrideType, overridden.spanIndex, i, rng1, idx1);
@at loop2.post
  lemma_after_next(old_heap_ReadingGrid_Node, heap_ReadingGrid_Node, p, value, overrideType, this.spans_, overridden.spanIndex, i, rng1);
@loop 1
@inv
- is_after(old_heap_ReadingGrid_Node, heap_ReadingGrid_Node, p, value, overrideType, this.spans_, overridden.spanIndex, i, no_ns(), 0)
- grid_ok(heap_ReadingGrid_Node, this)
- overridden.node == p
- cell(this.spans_, overridden.spanIndex, len)
- node_at(this.spans_, overridden.spanIndex, len) == p
- fits(old_heap_ReadingGrid_Node[p], reading, value)
- p != 0
- overridden.spanIndex <= i <= overridden.spanIndex + len
@dec
overridden.spanIndex + len - i
@loop 2
@inv
- is_after(old_heap_ReadingGrid_Node, heap_ReadingGrid_Node, p, value, overrideType, this.spans_, overridden.spanIndex, i, rng1, idx1)
- grid_ok(heap_ReadingGrid_Node, this)
@fn ReadingGrid_overrideCandidate/9Candidate
@opt heaps ReadingGrid_Node!
@requires
- grid_ok(heap_ReadingGrid_Node, this)
- overrideType != ReadingGrid_Node_OverrideType_kNone()
@ensures
- this_post == this
- ret == (loc <= this.readings_.len() && this.readings_.len() > 0 && offered_at(heap_ReadingGrid_Node, this.spans_, at_of(this, loc), Some(candidate.reading), candidate.value))
- !ret ==> heap_ReadingGrid_Node_post == heap_ReadingGrid_Node
- ret ==> selects(heap_ReadingGrid_Node, heap_ReadingGrid_Node_post, this.spans_, at_of(this, loc), Some(candidate.reading), candidate.value, overrideType)
- grid_ok(heap_ReadingGrid_Node_post, this)
@fn ReadingGrid_overrideCandidate/EmRKNSt7
@opt heaps ReadingGrid_Node!
@requires
- grid_ok(heap_ReadingGrid_Node, this)
- overrideType != ReadingGrid_Node_OverrideType_kNone()
@ensures
- this_post == this
- ret == (loc <= this.readings_.len() && this.readings_.len() > 0 && offered_at(heap_ReadingGrid_Node, this.spans_, at_of(this, loc), None, candidate))
- !ret ==> heap_ReadingGrid_Node_post == heap_ReadingGrid_Node
- ret ==> selects(heap_ReadingGrid_Node, heap_ReadingGrid_Node_post, this.spans_, at_of(this, loc), None, candidate, overrideType)
- grid_ok(heap_ReadingGrid_Node_post, this)
