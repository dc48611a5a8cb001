@import grid
@source src/Engine/gramambular2/reading_grid.cpp Formosa
@heap ReadingGrid_Node
@heap Vertex
@opaque Formosa::Gramambular2::LanguageModel
@extern GetEpochNowInMicroseconds() -> int64_t
@prelude
// the clock
#[verifier::external_body]
pub fn ext_GetEpochNowInMicroseconds() -> (r: Ghost<int>) ensures 0 <= r@ < 0x4000000000000000 { unimplemented!() }
pub type VH = Map<int, VertexS>;
// ---- a graph in layers: every vertex leads to all vertices of one later layer ---------------------
pub open spec fn onlay(lay: Seq<Seq<int>>, k: int, v: int) -> bool { 0 <= k < lay.len() && lay[k].contains(v) }
pub open spec fn hop(lay: Seq<Seq<int>>, k: int, e: Seq<int>, m: int) -> bool { k < m < lay.len() && e == lay[m] }
pub open spec fn nxt(lay: Seq<Seq<int>>, k: int, e: Seq<int>) -> int { if k == lay.len() - 1 { lay.len() as int } else { choose|m: int| hop(lay, k, e, m) } }
pub open spec fn lev(lay: Seq<Seq<int>>, v: int) -> int { choose|k: int| onlay(lay, k, v) }
pub open spec fn nx(h: VH, lay: Seq<Seq<int>>, v: int) -> int { nxt(lay, lev(lay, v), h[v].edges) }
pub open spec fn leads(h: VH, lay: Seq<Seq<int>>, k: int, v: int) -> bool {
    if k == lay.len() - 1 { h[v].edges.len() == 0 } else { hop(lay, k, h[v].edges, nxt(lay, k, h[v].edges)) }
}
pub open spec fn layered(h: VH, lay: Seq<Seq<int>>, root: int) -> bool {
    lay.len() >= 2 && lay[0] == seq![root] && (forall|k: int, v: int| #[trigger] onlay(lay, k, v) ==> h.dom().contains(v) && v != 0 && leads(h, lay, k, v))
    && (forall|k: int, m: int, v: int| #[trigger] onlay(lay, k, v) && #[trigger] onlay(lay, m, v) ==> k == m)
    && (forall|k: int| 0 <= k < lay.len() ==> (#[trigger] lay[k]).no_duplicates() && lay[k].len() > 0)
}
pub open spec fn somewhere(lay: Seq<Seq<int>>, v: int) -> bool { onlay(lay, lev(lay, v), v) }
pub proof fn lemma_lev(h: VH, lay: Seq<Seq<int>>, root: int, k: int, v: int)
    requires layered(h, lay, root), onlay(lay, k, v)
    ensures lev(lay, v) == k, somewhere(lay, v), h.dom().contains(v), v != 0
{ assert(onlay(lay, lev(lay, v), v)); }
// the vertices v leads to lie in layer nx(v)
pub proof fn lemma_edge(h: VH, lay: Seq<Seq<int>>, root: int, v: int, j: int)
    requires layered(h, lay, root), somewhere(lay, v), 0 <= j < h[v].edges.len()
    ensures lev(lay, v) < nx(h, lay, v) < lay.len(), h[v].edges == lay[nx(h, lay, v)], onlay(lay, nx(h, lay, v), h[v].edges[j]), lev(lay, h[v].edges[j]) == nx(h, lay, v), somewhere(lay, h[v].edges[j])
{
    let k = lev(lay, v);
    assert(onlay(lay, k, v));
    assert(leads(h, lay, k, v));
    let w = h[v].edges[j];
    assert(lay[nx(h, lay, v)][j] == w);
    assert(onlay(lay, nx(h, lay, v), w));
    lemma_lev(h, lay, root, nx(h, lay, v), w);
}
pub proof fn lemma_nx(h: VH, lay: Seq<Seq<int>>, root: int, v: int)
    requires layered(h, lay, root), somewhere(lay, v)
    ensures lev(lay, v) < nx(h, lay, v) <= lay.len(), nx(h, lay, v) < lay.len() ==> h[v].edges == lay[nx(h, lay, v)], nx(h, lay, v) == lay.len() <==> lev(lay, v) == lay.len() - 1, nx(h, lay, v) == lay.len() ==> h[v].edges.len() == 0
{ assert(onlay(lay, lev(lay, v), v)); assert(leads(h, lay, lev(lay, v), v)); }
// ---- topological sorting, depth first -------------------------------------------------------------
pub open spec fn same_graph(a: VH, b: VH) -> bool {
    a.dom() == b.dom() && forall|p: int| #[trigger] a.dom().contains(p) ==> b[p] == (VertexS { topologicallySorted: b[p].topologicallySorted, ..a[p] })
}
pub open spec fn unsorted(h: VH, lay: Seq<Seq<int>>) -> bool { forall|k: int, v: int| #[trigger] onlay(lay, k, v) ==> !h[v].topologicallySorted }
pub open spec fn before(h: VH, r: Seq<int>, p: int) -> bool { forall|j: int| 0 <= j < h[r[p]].edges.len() ==> r.subrange(0, p).contains(#[trigger] h[r[p]].edges[j]) }
pub open spec fn closed(h: VH, r: Seq<int>) -> bool { forall|p: int| 0 <= p < r.len() ==> #[trigger] before(h, r, p) }
pub open spec fn frame(h: VH, lay: Seq<Seq<int>>, s: Seq<State>, t: int) -> bool {
    let f = s[t]; let it = f.edgeIter;
    somewhere(lay, f.v) && it.buf == h[f.v].edges && !it.nil && 0 <= it.off <= it.buf.len() && !h[f.v].topologicallySorted
    && (t < s.len() - 1 ==> it.off >= 1 && it.buf[it.off - 1] == s[t + 1].v)
}
pub open spec fn full(h: VH, e: Seq<int>) -> bool { forall|j: int| 0 <= j < e.len() ==> h[#[trigger] e[j]].topologicallySorted }
pub open spec fn sorted_upto(h: VH, e: Seq<int>, o: int) -> bool { forall|j: int| 0 <= j < e.len() ==> (h[#[trigger] e[j]].topologicallySorted <==> j < o) }
pub open spec fn progress(h: VH, s: Seq<State>, t: int) -> bool {
    let it = s[t].edgeIter;
    if t < s.len() - 1 { sorted_upto(h, it.buf, it.off - 1) } else { sorted_upto(h, it.buf, it.off) || (it.off == 0 && full(h, it.buf)) }
}
pub open spec fn uniform(h: VH, lay: Seq<Seq<int>>, k: int) -> bool { full(h, lay[k]) || sorted_upto(h, lay[k], 0) }
pub open spec fn is_open(h: VH, lay: Seq<Seq<int>>, s: Seq<State>, k: int) -> bool { exists|t: int| 0 <= t < s.len() && nx(h, lay, #[trigger] s[t].v) == k }
pub open spec fn rising(h: VH, lay: Seq<Seq<int>>, s: Seq<State>) -> bool { forall|t: int, u: int| 0 <= t < u < s.len() ==> nx(h, lay, #[trigger] s[t].v) <= lev(lay, #[trigger] s[u].v) }
pub open spec fn collected(h: VH, lay: Seq<Seq<int>>, r: Seq<int>) -> bool {
    r.no_duplicates() && (forall|k: int, v: int| #[trigger] onlay(lay, k, v) ==> (h[v].topologicallySorted <==> r.contains(v))) && (forall|p: int| 0 <= p < r.len() ==> somewhere(lay, #[trigger] r[p]))
}
pub open spec fn dfs(h: VH, lay: Seq<Seq<int>>, s: Seq<State>, r: Seq<int>, root: int) -> bool {
    layered(h, lay, root) && (forall|t: int| 0 <= t < s.len() ==> #[trigger] frame(h, lay, s, t)) && (forall|t: int| 0 <= t < s.len() ==> #[trigger] progress(h, s, t))
    && (forall|k: int| 0 <= k < lay.len() && !#[trigger] is_open(h, lay, s, k) ==> uniform(h, lay, k)) && rising(h, lay, s) && collected(h, lay, r) && closed(h, r)
    && (if s.len() == 0 { r.contains(root) } else { s[0].v == root }) && (forall|t: int| 0 <= t < s.len() ==> t <= lev(lay, #[trigger] s[t].v))
}
pub proof fn lemma_dfs_start(h: VH, lay: Seq<Seq<int>>, s: Seq<State>, root: int)
    requires layered(h, lay, root), unsorted(h, lay), s.len() == 1, s[0].v == root, s[0].edgeIter == it_begin(h[root].edges)
    ensures dfs(h, lay, s, Seq::empty(), root)
{
    let r = Seq::<int>::empty();
    assert(lay[0][0] == root); assert(onlay(lay, 0, root));
    lemma_lev(h, lay, root, 0, root);
    lemma_nx(h, lay, root, root);
    let e = h[root].edges;
    assert forall|k: int| 0 <= k < lay.len() implies sorted_upto(h, #[trigger] lay[k], 0) by {
        assert forall|j: int| 0 <= j < lay[k].len() implies (h[#[trigger] lay[k][j]].topologicallySorted <==> j < 0) by { assert(onlay(lay, k, lay[k][j])); }
    }
    assert(sorted_upto(h, e, 0)) by { if e.len() > 0 { lemma_edge(h, lay, root, root, 0); assert(sorted_upto(h, lay[nx(h, lay, root)], 0)); } }
    assert(frame(h, lay, s, 0)); assert(progress(h, s, 0));
    assert forall|k: int| 0 <= k < lay.len() && !#[trigger] is_open(h, lay, s, k) implies uniform(h, lay, k) by { assert(sorted_upto(h, lay[k], 0)); }
}
// the next vertex has not been finished: go into it
pub proof fn lemma_push(h: VH, lay: Seq<Seq<int>>, s: Seq<State>, r: Seq<int>, root: int, s2: Seq<State>, nv: int)
    requires dfs(h, lay, s, r, root), s.len() > 0, s.last().edgeIter.off < s.last().edgeIter.buf.len(), nv == s.last().edgeIter.buf[s.last().edgeIter.off], !h[nv].topologicallySorted,
        s2 == s.update(s.len() - 1, State { edgeIter: it_add(s.last().edgeIter, 1), ..s.last() }).push(State { v: nv, edgeIter: it_begin(h[nv].edges) })
    ensures dfs(h, lay, s2, r, root), s2.len() <= lay.len(), h.dom().contains(nv)
{
    let top = s.len() - 1;
    let f = s[top];
    let o = f.edgeIter.off;
    assert(frame(h, lay, s, top)); assert(progress(h, s, top));
    lemma_edge(h, lay, root, f.v, o);
    let m = nx(h, lay, f.v);
    lemma_nx(h, lay, root, nv);
    let m2 = nx(h, lay, nv);
    let e2 = h[nv].edges;
    assert(!full(h, f.edgeIter.buf)) by { assert(f.edgeIter.buf[o] == nv); }
    assert(sorted_upto(h, f.edgeIter.buf, o));
    lemma_lev(h, lay, root, m, nv);
    if e2.len() > 0 {
        assert(m2 < lay.len());
        assert(!is_open(h, lay, s, m2)) by {
            if is_open(h, lay, s, m2) {
                let t = choose|t: int| 0 <= t < s.len() && nx(h, lay, #[trigger] s[t].v) == m2;
                if t < top { assert(nx(h, lay, s[t].v) <= lev(lay, s[top].v)); }
            }
        }
        assert(uniform(h, lay, m2));
        assert(e2 == lay[m2]);
    }
    assert(progress(h, s2, top + 1)) by { assert(s2[top + 1].edgeIter == it_begin(e2)); if e2.len() > 0 { assert(uniform(h, lay, m2)); } }
    assert(frame(h, lay, s2, top + 1));
    assert forall|t: int| 0 <= t < s2.len() implies #[trigger] frame(h, lay, s2, t) by { if t <= top { assert(frame(h, lay, s, t)); if t < top { assert(s2[t] == s[t]); assert(s2[t + 1].v == s[t + 1].v); } } }
    assert forall|t: int| 0 <= t < s2.len() implies #[trigger] progress(h, s2, t) by { if t <= top { assert(progress(h, s, t)); if t < top { assert(s2[t] == s[t]); } } }
    assert forall|k: int| 0 <= k < lay.len() && !#[trigger] is_open(h, lay, s2, k) implies uniform(h, lay, k) by {
        if is_open(h, lay, s, k) { let t = choose|t: int| 0 <= t < s.len() && nx(h, lay, #[trigger] s[t].v) == k; assert(s2[t].v == s[t].v); assert(nx(h, lay, s2[t].v) == k); assert(false); }
    }
    assert forall|t: int, u: int| 0 <= t < u < s2.len() implies nx(h, lay, #[trigger] s2[t].v) <= lev(lay, #[trigger] s2[u].v) by {
        assert(s2[t].v == s[t].v);
        if u <= top { assert(s2[u].v == s[u].v); } else if t < top { assert(nx(h, lay, s[t].v) <= lev(lay, s[top].v)); }
    }
    assert forall|t: int| 0 <= t < s2.len() implies t <= lev(lay, #[trigger] s2[t].v) by { if t <= top { assert(s2[t].v == s[t].v); } else { assert(top <= lev(lay, s[top].v)); } }
}
// everything it leads to is finished: so is the vertex on top
pub proof fn lemma_pop(h: VH, lay: Seq<Seq<int>>, s: Seq<State>, r: Seq<int>, root: int, h2: VH)
    requires dfs(h, lay, s, r, root), s.len() > 0, full(h, h[s.last().v].edges), h2 == h.insert(s.last().v, VertexS { topologicallySorted: true, ..h[s.last().v] })
    ensures dfs(h2, lay, s.drop_last(), r.push(s.last().v), root), same_graph(h, h2), r.len() + 1 <= h.dom().len()
{
    let top = s.len() - 1;
    let v = s[top].v;
    let s2 = s.drop_last();
    let r2 = r.push(v);
    assert(frame(h, lay, s, top));
    let kv = lev(lay, v);
    assert(onlay(lay, kv, v));
    let m = nx(h, lay, v);
    lemma_nx(h, lay, root, v);
    assert(h2.dom() =~= h.dom());
    assert(forall|p: int| #[trigger] h.dom().contains(p) ==> h2[p].edges == h[p].edges);
    assert(layered(h2, lay, root)) by { assert forall|k: int, w: int| #[trigger] onlay(lay, k, w) implies h2.dom().contains(w) && w != 0 && leads(h2, lay, k, w) by { assert(leads(h, lay, k, w)); } }
    assert(forall|w: int| #[trigger] somewhere(lay, w) ==> nx(h2, lay, w) == nx(h, lay, w)) by { assert forall|w: int| #[trigger] somewhere(lay, w) implies nx(h2, lay, w) == nx(h, lay, w) by { assert(onlay(lay, lev(lay, w), w)); } }
    assert(!r.contains(v));
    assert(r2.no_duplicates());
    assert forall|k: int, w: int| #[trigger] onlay(lay, k, w) implies (h2[w].topologicallySorted <==> r2.contains(w)) by {
        if w != v { if r.contains(w) { let p = choose|p: int| 0 <= p < r.len() && r[p] == w; assert(r2[p] == w); } if r2.contains(w) { let p = choose|p: int| 0 <= p < r2.len() && r2[p] == w; assert(r[p] == w); } } else { assert(r2[r.len() as int] == v); }
    }
    assert(collected(h2, lay, r2));
    assert(closed(h2, r2)) by {
        assert forall|p: int| 0 <= p < r2.len() implies #[trigger] before(h2, r2, p) by {
            if p < r.len() { assert(before(h, r, p)); assert(r2[p] == r[p]); assert(somewhere(lay, r[p])); assert(onlay(lay, lev(lay, r[p]), r[p])); assert(r2.subrange(0, p) =~= r.subrange(0, p));
                assert(h2[r2[p]].edges == h[r[p]].edges); }
            else {
                assert(r2.subrange(0, p) =~= r); assert(r2[p] == v);
                assert forall|j: int| 0 <= j < h2[r2[p]].edges.len() implies r2.subrange(0, p).contains(#[trigger] h2[r2[p]].edges[j]) by { let w = h[v].edges[j]; lemma_edge(h, lay, root, v, j); assert(h[w].topologicallySorted); assert(onlay(lay, m, w)); }
            }
        }
    }
    if top > 0 {
        assert(frame(h, lay, s, top - 1)); assert(progress(h, s, top - 1));
        let f = s[top - 1];
        lemma_edge(h, lay, root, f.v, f.edgeIter.off - 1);
        assert(lev(lay, v) == nx(h, lay, f.v));
    }
    // the vertex just finished lies in no other open layer
    assert forall|t: int| 0 <= t < s2.len() implies #[trigger] frame(h2, lay, s2, t) by {
        assert(frame(h, lay, s, t)); assert(s2[t] == s[t]); assert(onlay(lay, lev(lay, s[t].v), s[t].v));
        assert(s[t].v != v) by { assert(nx(h, lay, s[t].v) <= lev(lay, s[top].v)); lemma_nx(h, lay, root, s[t].v); }
        if t < s2.len() - 1 { assert(s2[t + 1] == s[t + 1]); }
    }
    assert forall|t: int| 0 <= t < s2.len() implies #[trigger] progress(h2, s2, t) by {
        assert(frame(h, lay, s, t)); assert(progress(h, s, t)); assert(s2[t] == s[t]);
        let it = s[t].edgeIter;
        assert(sorted_upto(h, it.buf, it.off - 1));
        let mt = nx(h, lay, s[t].v);
        if t < top - 1 {
            assert(mt <= lev(lay, s[top - 1].v)) by { assert(nx(h, lay, s[t].v) <= lev(lay, s[top - 1].v)); }
            lemma_nx(h, lay, root, s[top - 1].v);
            assert(mt < kv);
            assert forall|j: int| 0 <= j < it.buf.len() implies h2[#[trigger] it.buf[j]] == h[it.buf[j]] by { lemma_edge(h, lay, root, s[t].v, j); }
            assert(sorted_upto(h2, it.buf, it.off - 1)) by { assert forall|j: int| 0 <= j < it.buf.len() implies (h2[#[trigger] it.buf[j]].topologicallySorted <==> j < it.off - 1) by { } }
        } else {
            lemma_edge(h, lay, root, s[t].v, it.off - 1);
            assert(lay[mt].no_duplicates());
            assert(sorted_upto(h2, it.buf, it.off)) by {
                assert forall|j: int| 0 <= j < it.buf.len() implies (h2[#[trigger] it.buf[j]].topologicallySorted <==> j < it.off) by { if j != it.off - 1 { assert(it.buf[j] != it.buf[it.off - 1]); } }
            }
        }
    }
    assert forall|k: int| 0 <= k < lay.len() && !#[trigger] is_open(h2, lay, s2, k) implies uniform(h2, lay, k) by {
        if k == m { assert(full(h2, lay[k])) by { assert forall|j: int| 0 <= j < lay[k].len() implies h2[#[trigger] lay[k][j]].topologicallySorted by { assert(h[v].edges[j] == lay[k][j]); assert(h[h[v].edges[j]].topologicallySorted); } } }
        else if k == kv {
            if top > 0 { assert(s2[top - 1].v == s[top - 1].v); assert(frame(h, lay, s, top - 1)); assert(nx(h2, lay, s2[top - 1].v) == k); assert(is_open(h2, lay, s2, k)); assert(false); }
            else { assert(v == root); assert(lay[0][0] == root); assert(onlay(lay, 0, root)); assert(kv == 0); assert(full(h2, lay[0])) by { assert forall|j: int| 0 <= j < lay[0].len() implies h2[#[trigger] lay[0][j]].topologicallySorted by { } } }
        } else {
            assert(!is_open(h, lay, s, k)) by {
                if is_open(h, lay, s, k) { let t = choose|t: int| 0 <= t < s.len() && nx(h, lay, #[trigger] s[t].v) == k; assert(t < top); assert(s2[t].v == s[t].v); assert(frame(h, lay, s, t)); assert(nx(h2, lay, s2[t].v) == k); }
            }
            assert(uniform(h, lay, k));
            assert forall|j: int| 0 <= j < lay[k].len() implies h2[#[trigger] lay[k][j]] == h[lay[k][j]] by { assert(onlay(lay, k, lay[k][j])); }
            if full(h, lay[k]) { assert(full(h2, lay[k])) by { assert forall|j: int| 0 <= j < lay[k].len() implies h2[#[trigger] lay[k][j]].topologicallySorted by { assert(h[lay[k][j]].topologicallySorted); } } } else { assert(sorted_upto(h2, lay[k], 0)) by { assert forall|j: int| 0 <= j < lay[k].len() implies (h2[#[trigger] lay[k][j]].topologicallySorted <==> j < 0) by { assert(h[lay[k][j]].topologicallySorted <==> j < 0); } } }
        }
    }
    assert forall|t: int, u: int| 0 <= t < u < s2.len() implies nx(h2, lay, #[trigger] s2[t].v) <= lev(lay, #[trigger] s2[u].v) by { assert(frame(h, lay, s, t)); assert(s2[t].v == s[t].v && s2[u].v == s[u].v); }
    assert forall|t: int| 0 <= t < s2.len() implies t <= lev(lay, #[trigger] s2[t].v) by { assert(s2[t].v == s[t].v); }
    if top == 0 { assert(r2[r.len() as int] == root); } else { assert(s2[0].v == s[0].v); }
    // not more vertices than there are
    assert(r2.to_set().subset_of(h.dom())) by { assert forall|w: int| #[trigger] r2.to_set().contains(w) implies h.dom().contains(w) by { let p = choose|p: int| 0 <= p < r2.len() && r2[p] == w; if p < r.len() { assert(somewhere(lay, r[p])); assert(onlay(lay, lev(lay, r[p]), r[p])); } } }
    r2.unique_seq_to_set();
    vstd::set_lib::lemma_len_subset(r2.to_set(), h.dom());
}
pub proof fn lemma_ready(h: VH, lay: Seq<Seq<int>>, s: Seq<State>, r: Seq<int>, root: int)
    requires dfs(h, lay, s, r, root), s.len() > 0, s.last().edgeIter.off == s.last().edgeIter.buf.len() || h[s.last().edgeIter.buf[s.last().edgeIter.off]].topologicallySorted
    ensures full(h, h[s.last().v].edges)
{ let t = s.len() - 1; assert(frame(h, lay, s, t)); assert(progress(h, s, t)); let it = s[t].edgeIter; if it.off < it.buf.len() && !full(h, it.buf) { assert(sorted_upto(h, it.buf, it.off)); assert(h[it.buf[it.off]].topologicallySorted <==> it.off < it.off); } }
// only what can be reached
pub open spec fn closure(h: VH, c: spec_fn(int) -> bool, root: int) -> bool { c(root) && forall|v: int, j: int| c(v) && 0 <= j < h[v].edges.len() ==> c(#[trigger] h[v].edges[j]) }
pub open spec fn inside(c: spec_fn(int) -> bool, s: Seq<State>, r: Seq<int>) -> bool { (forall|t: int| 0 <= t < s.len() ==> c(#[trigger] s[t].v)) && (forall|p: int| 0 <= p < r.len() ==> c(#[trigger] r[p])) }
pub open spec fn reachable_only(h: VH, root: int, s: Seq<State>, r: Seq<int>) -> bool { forall|c: spec_fn(int) -> bool| #[trigger] closure(h, c, root) ==> inside(c, s, r) }
pub proof fn lemma_reach_push(h: VH, root: int, s: Seq<State>, r: Seq<int>, s2: Seq<State>, o: int)
    requires reachable_only(h, root, s, r), s.len() > 0, s2.len() == s.len() + 1, forall|t: int| 0 <= t < s.len() ==> (#[trigger] s2[t]).v == s[t].v, 0 <= o < h[s.last().v].edges.len(), s2.last().v == h[s.last().v].edges[o]
    ensures reachable_only(h, root, s2, r)
{
    assert forall|c: spec_fn(int) -> bool| #[trigger] closure(h, c, root) implies inside(c, s2, r) by {
        assert(inside(c, s, r)); assert(c(s[s.len() - 1].v)); assert(c(h[s.last().v].edges[o]));
        assert forall|t: int| 0 <= t < s2.len() implies c(#[trigger] s2[t].v) by { if t < s.len() { assert(s2[t].v == s[t].v); assert(c(s[t].v)); } }
    }
}
pub proof fn lemma_reach_pop(h: VH, root: int, s: Seq<State>, r: Seq<int>)
    requires reachable_only(h, root, s, r), s.len() > 0
    ensures reachable_only(h, root, s.drop_last(), r.push(s.last().v))
{
    assert forall|c: spec_fn(int) -> bool| #[trigger] closure(h, c, root) implies inside(c, s.drop_last(), r.push(s.last().v)) by {
        assert(inside(c, s, r)); assert(c(s[s.len() - 1].v));
        assert forall|t: int| 0 <= t < s.drop_last().len() implies c(#[trigger] s.drop_last()[t].v) by { assert(c(s[t].v)); }
        assert forall|p: int| 0 <= p < r.len() + 1 implies c(#[trigger] r.push(s.last().v)[p]) by { if p < r.len() { assert(c(r[p])); } }
    }
}
pub open spec fn topo(h: VH, r: Seq<int>, root: int) -> bool { r.no_duplicates() && r.contains(root) && closed(h, r) }
// ---- the best way: scores added from left to right ---------------------------------------------------
pub open spec fn run(h: Heap, acc: Dbl, ns: Seq<int>) -> Dbl
    decreases ns.len()
{ if ns.len() == 0 { acc } else { run(h, dadd(acc, score_of(h[ns[0]])), ns.drop_first()) } }
pub open spec fn total(h: Heap, ns: Seq<int>) -> Dbl { run(h, dlit(0), ns) }
pub open spec fn relaxed(h: VH, u: int, v: int, s: Dbl) -> VH {
    if dlt(h[v].distance, dadd(h[u].distance, s)) { h.insert(v, VertexS { distance: dadd(h[u].distance, s), prev: u, ..h[v] }) } else { h }
}
// ---- the lattice of the walk ---------------------------------------------------------------------------
pub open spec fn vat(vs: Seq<Seq<int>>, k: int, t: int) -> bool { 0 <= k < vs.len() && 0 <= t < vs[k].len() }
pub open spec fn plain(x: VertexS) -> bool { x.edges.len() == 0 && !x.topologicallySorted && x.distance == dneg(dinf()) && x.prev == 0 }
// p is the node of a stretch that starts at k
pub open spec fn starts(h: Heap, g: ReadingGrid, k: int, p: int) -> bool { p != 0 && cell(g.spans_, k, h[p].spanningLength_) && node_at(g.spans_, k, h[p].spanningLength_) == p }
pub open spec fn stocked(h: Heap, g: ReadingGrid, x: VH, vs: Seq<Seq<int>>) -> bool {
    forall|k: int, t: int| #[trigger] vat(vs, k, t) ==> x.dom().contains(vs[k][t]) && vs[k][t] > 0 && plain(x[vs[k][t]]) && starts(h, g, k, x[vs[k][t]].node)
}
pub open spec fn here(x: VH, ts: Seq<int>) -> bool { forall|t: int| 0 <= t < ts.len() ==> x.dom().contains(#[trigger] ts[t]) }
pub open spec fn distinct(vs: Seq<Seq<int>>) -> bool { forall|k: int, t: int, m: int, u: int| #[trigger] vat(vs, k, t) && #[trigger] vat(vs, m, u) && vs[k][t] == vs[m][u] ==> k == m && t == u }
pub open spec fn shown(x: VH, ts: Seq<int>, p: int) -> bool { exists|t: int| 0 <= t < ts.len() && x[#[trigger] ts[t]].node == p }
pub open spec fn row(x: VH, ts: Seq<int>, s: ReadingGrid_Span, n: int) -> bool { forall|q: int| 0 <= q < n && #[trigger] s.nodes_[q] != 0 ==> shown(x, ts, s.nodes_[q]) }
pub proof fn lemma_add(h: Heap, g: ReadingGrid, x: VH, vs: Seq<Seq<int>>, i: int, p: int, x2: VH, vs2: Seq<Seq<int>>, nw: int, v: VertexS)
    requires stocked(h, g, x, vs), distinct(vs), 0 <= i < vs.len(), !x.dom().contains(nw), nw > 0, x2 == x.insert(nw, v), plain(v), v.node == p, vs2 == vs.update(i, vs[i].push(nw)), starts(h, g, i, p)
    ensures stocked(h, g, x2, vs2), distinct(vs2), shown(x2, vs2[i], p),
        forall|k: int, q: int| 0 <= k < vs.len() && #[trigger] shown(x, vs[k], q) ==> shown(x2, vs2[k], q)
{
    assert forall|k: int, t: int| #[trigger] vat(vs2, k, t) implies x2.dom().contains(vs2[k][t]) && vs2[k][t] > 0 && plain(x2[vs2[k][t]]) && starts(h, g, k, x2[vs2[k][t]].node) by {
        if k == i && t == vs[i].len() { } else { assert(vat(vs, k, t)); assert(vs2[k][t] == vs[k][t]); }
    }
    assert forall|k: int, t: int, m: int, u: int| #[trigger] vat(vs2, k, t) && #[trigger] vat(vs2, m, u) && vs2[k][t] == vs2[m][u] implies k == m && t == u by {
        let a = k == i && t == vs[i].len(); let b = m == i && u == vs[i].len();
        if !a { assert(vat(vs, k, t)); assert(vs2[k][t] == vs[k][t]); } if !b { assert(vat(vs, m, u)); assert(vs2[m][u] == vs[m][u]); }
    }
    assert(vs2[i][vs[i].len() as int] == nw);
    assert forall|k: int, q: int| 0 <= k < vs.len() && #[trigger] shown(x, vs[k], q) implies shown(x2, vs2[k], q) by {
        let t = choose|t: int| 0 <= t < vs[k].len() && x[#[trigger] vs[k][t]].node == q;
        assert(vat(vs, k, t)); assert(vs2[k][t] == vs[k][t]); assert(x2[vs2[k][t]].node == q);
    }
}
// the vertices at (k, t) before (i, j) have their edges
pub open spec fn target(vs: Seq<Seq<int>>, term: int, m: int) -> Seq<int> { if m == vs.len() { seq![term] } else { vs[m] } }
pub open spec fn edges_of(h: Heap, vs: Seq<Seq<int>>, x: VertexS, term: int, k: int) -> Seq<int> { target(vs, term, k + h[x.node].spanningLength_) }
pub open spec fn wired1(h: Heap, g: ReadingGrid, x: VH, vs: Seq<Seq<int>>, term: int, done: bool, k: int, v: int) -> bool {
    x.dom().contains(v) && v > 0 && v != term && plain(VertexS { edges: Seq::empty(), ..x[v] }) && starts(h, g, k, x[v].node) && x[v].edges == (if done { edges_of(h, vs, x[v], term, k) } else { Seq::empty() })
}
pub open spec fn wired(h: Heap, g: ReadingGrid, x: VH, vs: Seq<Seq<int>>, term: int, i: int, j: int) -> bool {
    distinct(vs) && x.dom().contains(term) && term > 0 && plain(x[term]) && forall|k: int, t: int| #[trigger] vat(vs, k, t) ==> wired1(h, g, x, vs, term, k < i || k == i && t < j, k, vs[k][t])
}
pub proof fn lemma_wire(h: Heap, g: ReadingGrid, x: VH, vs: Seq<Seq<int>>, term: int, i: int, j: int, x2: VH)
    requires wired(h, g, x, vs, term, i, j), vat(vs, i, j), x2 == x.insert(vs[i][j], VertexS { edges: edges_of(h, vs, x[vs[i][j]], term, i), ..x[vs[i][j]] })
    ensures wired(h, g, x2, vs, term, i, j + 1)
{
    assert forall|k: int, t: int| #[trigger] vat(vs, k, t) implies wired1(h, g, x2, vs, term, k < i || k == i && t < j + 1, k, vs[k][t]) by {
        assert(wired1(h, g, x, vs, term, k < i || k == i && t < j, k, vs[k][t]));
        if k == i && t == j { assert(plain(VertexS { edges: Seq::empty(), ..x2[vs[k][t]] })); } else { assert(vs[k][t] != vs[i][j]); }
    }
    assert(wired1(h, g, x, vs, term, false, i, vs[i][j]));
}
pub proof fn lemma_wire_next(h: Heap, g: ReadingGrid, x: VH, vs: Seq<Seq<int>>, term: int, i: int, j: int)
    requires wired(h, g, x, vs, term, i, j), 0 <= i < vs.len(), j == vs[i].len()
    ensures wired(h, g, x, vs, term, i + 1, 0)
{ assert forall|k: int, t: int| #[trigger] vat(vs, k, t) implies wired1(h, g, x, vs, term, k < i + 1 || k == i + 1 && t < 0, k, vs[k][t]) by { assert(wired1(h, g, x, vs, term, k < i || k == i && t < j, k, vs[k][t])); } }
// vertices and nodes: h0 the nodes of the grid, h with the two at the ends
pub open spec fn means1(h0: Heap, g: ReadingGrid, h: Heap, x: VH, lay: Seq<Seq<int>>, k: int, v: int) -> bool {
    h.dom().contains(x[v].node) && (1 <= k <= g.spans_.len() ==> starts(h0, g, k - 1, x[v].node) && h0.dom().contains(x[v].node) && nx(x, lay, v) == k + h0[x[v].node].spanningLength_)
    && (k == g.spans_.len() + 1 ==> h[x[v].node].unigrams_.len() == 0) && (k == 0 ==> h[x[v].node].spanningLength_ == 0)
}
pub open spec fn means(h0: Heap, g: ReadingGrid, h: Heap, x: VH, lay: Seq<Seq<int>>) -> bool {
    lay.len() == g.spans_.len() + 2 && (forall|k: int, v: int| #[trigger] onlay(lay, k, v) ==> means1(h0, g, h, x, lay, k, v))
    && (forall|k: int| 0 <= k < g.spans_.len() ==> row(x, lay[k + 1], #[trigger] g.spans_[k], 6)) && lay.last().len() == 1
}
pub open spec fn untouched(x: VH, lay: Seq<Seq<int>>, root: int) -> bool { forall|k: int, v: int| #[trigger] onlay(lay, k, v) ==> x[v].prev == 0 && x[v].distance == (if v == root { dlit(0) } else { dneg(dinf()) }) }
pub open spec fn layers(vs: Seq<Seq<int>>, root: int, term: int) -> Seq<Seq<int>> { seq![seq![root]] + vs + seq![seq![term]] }
pub proof fn lemma_layers(vs: Seq<Seq<int>>, root: int, term: int)
    ensures layers(vs, root, term).len() == vs.len() + 2, layers(vs, root, term)[0] == seq![root], layers(vs, root, term)[vs.len() as int + 1] == seq![term], layers(vs, root, term).last() == seq![term],
        forall|k: int| 0 <= k < vs.len() ==> #[trigger] layers(vs, root, term)[k + 1] == vs[k], forall|k: int| 1 <= k <= vs.len() ==> #[trigger] layers(vs, root, term)[k] == vs[k - 1]
{ }
pub proof fn lemma_nxt(lay: Seq<Seq<int>>, k: int, e: Seq<int>, m: int)
    requires 0 <= k, hop(lay, k, e, m), forall|a: int, b: int, v: int| #[trigger] onlay(lay, a, v) && #[trigger] onlay(lay, b, v) ==> a == b, e.len() > 0, k < lay.len() - 1
    ensures nxt(lay, k, e) == m
{
    let m2 = nxt(lay, k, e);
    assert(hop(lay, k, e, m2));
    assert(lay[m][0] == e[0]); assert(lay[m2][0] == e[0]); assert(lay[m].contains(e[0])); assert(lay[m2].contains(e[0]));
    assert(onlay(lay, m, e[0]) && onlay(lay, m2, e[0]));
}
pub proof fn lemma_lattice(h0: Heap, g: ReadingGrid, h: Heap, x: VH, vs: Seq<Seq<int>>, root: int, term: int)
    requires grid_ok(h0, g), heard(g), grown(h0, h), vs.len() == g.spans_.len(), vs.len() > 0, wired(h0, g, x, vs, term, vs.len() as int, 0), x.dom().contains(root), root > 0, root != term,
        forall|k: int, t: int| #[trigger] vat(vs, k, t) ==> vs[k][t] != root, forall|k: int| 0 <= k < vs.len() ==> row(x, #[trigger] vs[k], g.spans_[k], 6),
        plain(VertexS { edges: Seq::empty(), distance: dneg(dinf()), ..x[root] }), x[root].edges == vs[0], x[root].distance == dlit(0),
        h.dom().contains(x[root].node), h[x[root].node].spanningLength_ == 0, h.dom().contains(x[term].node), h[x[term].node].unigrams_.len() == 0
    ensures layered(x, layers(vs, root, term), root), unsorted(x, layers(vs, root, term)), means(h0, g, h, x, layers(vs, root, term)), untouched(x, layers(vs, root, term), root), onlay(layers(vs, root, term), vs.len() as int + 1, term)
{
    let lay = layers(vs, root, term);
    let n = vs.len() as int;
    lemma_layers(vs, root, term);
    assert(lay[0][0] == root); assert(lay[n + 1][0] == term); assert(onlay(lay, n + 1, term));
    // where a vertex of a layer comes from
    assert forall|k: int, v: int| #[trigger] onlay(lay, k, v) implies (k == 0 && v == root) || (k == n + 1 && v == term) || (1 <= k <= n && exists|t: int| #[trigger] vat(vs, k - 1, t) && vs[k - 1][t] == v) by {
        if 1 <= k <= n { let t = choose|t: int| 0 <= t < lay[k].len() && lay[k][t] == v; assert(lay[k] == vs[k - 1]); assert(vat(vs, k - 1, t)); }
    }
    assert forall|k: int, m: int, v: int| #[trigger] onlay(lay, k, v) && #[trigger] onlay(lay, m, v) implies k == m by {
        if 1 <= k <= n { let t = choose|t: int| #[trigger] vat(vs, k - 1, t) && vs[k - 1][t] == v; assert(wired1(h0, g, x, vs, term, k - 1 < n || k - 1 == n && t < 0, k - 1, v));
            if 1 <= m <= n { let u = choose|u: int| #[trigger] vat(vs, m - 1, u) && vs[m - 1][u] == v; } }
        else if 1 <= m <= n { let u = choose|u: int| #[trigger] vat(vs, m - 1, u) && vs[m - 1][u] == v; assert(wired1(h0, g, x, vs, term, m - 1 < n || m - 1 == n && u < 0, m - 1, v)); }
    }
    assert forall|k: int| 0 <= k < n implies (#[trigger] vs[k]).len() > 0 by {
        assert(cell(g.spans_, k, 1)); assert(covered(g, k, 1)); assert(g.readings_.subrange(k, k + 1) =~= seq![g.readings_[k]]); assert(stretch(g, k, 1) == g.readings_[k]);
        assert(g.spans_[k].nodes_[0] == node_at(g.spans_, k, 1)); assert(row(x, vs[k], g.spans_[k], 6)); assert(shown(x, vs[k], g.spans_[k].nodes_[0]));
    }
    assert forall|k: int| 0 <= k < lay.len() implies (#[trigger] lay[k]).no_duplicates() && lay[k].len() > 0 by {
        if 1 <= k <= n { assert(lay[k] == vs[k - 1]); assert(vs[k - 1].len() > 0); assert forall|a: int, b: int| 0 <= a < lay[k].len() && 0 <= b < lay[k].len() && a != b implies lay[k][a] != lay[k][b] by { assert(vat(vs, k - 1, a) && vat(vs, k - 1, b)); } }
    }
    assert forall|k: int, v: int| #[trigger] onlay(lay, k, v) implies x.dom().contains(v) && v != 0 && leads(x, lay, k, v) && !x[v].topologicallySorted && x[v].prev == 0 && x[v].distance == (if v == root { dlit(0) } else { dneg(dinf()) })
        && (1 <= k <= n ==> starts(h0, g, k - 1, x[v].node) && h0.dom().contains(x[v].node) && nxt(lay, k, x[v].edges) == k + h0[x[v].node].spanningLength_) by {
        if k == 0 { assert(hop(lay, 0, x[v].edges, 1)); assert(vs[0].len() > 0); lemma_nxt(lay, 0, x[v].edges, 1); }
        else if k == n + 1 { }
        else {
            let t = choose|t: int| #[trigger] vat(vs, k - 1, t) && vs[k - 1][t] == v;
            assert(wired1(h0, g, x, vs, term, k - 1 < n || k - 1 == n && t < 0, k - 1, v));
            let p = x[v].node; let d = h0[p].spanningLength_;
            assert(placed(h0, g, k - 1, d)) by { assert(node_at(g.spans_, k - 1, d) == p); }
            let m = k - 1 + d;
            assert(x[v].edges == target(vs, term, m));
            assert(lay[m + 1] == target(vs, term, m));
            assert(hop(lay, k, x[v].edges, m + 1));
            if m < n { assert(vs[m].len() > 0); }
            lemma_nxt(lay, k, x[v].edges, m + 1);
        }
    }
    assert(layered(x, lay, root));
    assert forall|k: int, v: int| #[trigger] onlay(lay, k, v) implies means1(h0, g, h, x, lay, k, v) by { lemma_lev(x, lay, root, k, v); }
    assert forall|k: int| 0 <= k < g.spans_.len() implies row(x, lay[k + 1], #[trigger] g.spans_[k], 6) by { assert(lay[k + 1] == vs[k]); assert(row(x, vs[k], g.spans_[k], 6)); }
}
pub open spec fn same_shape(a: VH, b: VH) -> bool { a.dom() == b.dom() && forall|p: int| #[trigger] a.dom().contains(p) ==> b[p].node == a[p].node && b[p].edges == a[p].edges }
pub proof fn lemma_rows_same(x: VH, x2: VH, vs: Seq<Seq<int>>, g: ReadingGrid)
    requires forall|k: int| 0 <= k < vs.len() ==> row(x, #[trigger] vs[k], g.spans_[k], 6), forall|k: int, t: int| #[trigger] vat(vs, k, t) ==> x2[vs[k][t]].node == x[vs[k][t]].node
    ensures forall|k: int| 0 <= k < vs.len() ==> row(x2, #[trigger] vs[k], g.spans_[k], 6)
{
    assert forall|k: int| 0 <= k < vs.len() implies row(x2, #[trigger] vs[k], g.spans_[k], 6) by {
        assert(row(x, vs[k], g.spans_[k], 6));
        assert forall|q: int| 0 <= q < 6 && #[trigger] g.spans_[k].nodes_[q] != 0 implies shown(x2, vs[k], g.spans_[k].nodes_[q]) by {
            let p = g.spans_[k].nodes_[q]; let t = choose|t: int| 0 <= t < vs[k].len() && x[#[trigger] vs[k][t]].node == p; assert(vat(vs, k, t)); assert(x2[vs[k][t]].node == p);
        }
    }
}
pub proof fn lemma_shape(h0: Heap, g: ReadingGrid, h: Heap, x: VH, x2: VH, lay: Seq<Seq<int>>, root: int)
    requires same_shape(x, x2), layered(x, lay, root), means(h0, g, h, x, lay)
    ensures layered(x2, lay, root), means(h0, g, h, x2, lay)
{
    assert forall|k: int, v: int| #[trigger] onlay(lay, k, v) implies x2.dom().contains(v) && v != 0 && leads(x2, lay, k, v) by { assert(leads(x, lay, k, v)); }
    assert forall|k: int, v: int| #[trigger] onlay(lay, k, v) implies means1(h0, g, h, x2, lay, k, v) by { assert(means1(h0, g, h, x, lay, k, v)); lemma_lev(x, lay, root, k, v); assert(nx(x2, lay, v) == nx(x, lay, v)); }
    assert forall|k: int| 0 <= k < g.spans_.len() implies row(x2, lay[k + 1], #[trigger] g.spans_[k], 6) by {
        assert(row(x, lay[k + 1], g.spans_[k], 6));
        assert forall|q: int| 0 <= q < 6 && #[trigger] g.spans_[k].nodes_[q] != 0 implies shown(x2, lay[k + 1], g.spans_[k].nodes_[q]) by {
            let p = g.spans_[k].nodes_[q]; assert(shown(x, lay[k + 1], p));
            let t = choose|t: int| 0 <= t < lay[k + 1].len() && x[#[trigger] lay[k + 1][t]].node == p;
            assert(onlay(lay, k + 1, lay[k + 1][t])); assert(x2[lay[k + 1][t]].node == p);
        }
    }
}
// the vertex of the node of length j at position i
pub proof fn lemma_vertex(h0: Heap, g: ReadingGrid, h: Heap, x: VH, lay: Seq<Seq<int>>, root: int, i: int, j: int) -> (v: int)
    requires grid_ok(h0, g), layered(x, lay, root), means(h0, g, h, x, lay), cell(g.spans_, i, j), node_at(g.spans_, i, j) != 0
    ensures onlay(lay, i + 1, v), x[v].node == node_at(g.spans_, i, j), nx(x, lay, v) == i + 1 + j, lev(lay, v) == i + 1, somewhere(lay, v), h0[x[v].node].spanningLength_ == j, i + j <= g.spans_.len()
{
    let p = node_at(g.spans_, i, j);
    assert(placed(h0, g, i, j)) by { assert(node_at(g.spans_, i, j) == p); }
    assert(row(x, lay[i + 1], g.spans_[i], 6));
    assert(g.spans_[i].nodes_[j - 1] == p);
    assert(shown(x, lay[i + 1], p));
    let t = choose|t: int| 0 <= t < lay[i + 1].len() && x[#[trigger] lay[i + 1][t]].node == p;
    let v = lay[i + 1][t];
    assert(onlay(lay, i + 1, v)); assert(means1(h0, g, h, x, lay, i + 1, v)); lemma_lev(x, lay, root, i + 1, v);
    v
}
// from every layer one vertex leads to the next
pub proof fn lemma_stair(h0: Heap, g: ReadingGrid, h: Heap, x: VH, lay: Seq<Seq<int>>, root: int, k: int) -> (v: int)
    requires grid_ok(h0, g), heard(g), layered(x, lay, root), means(h0, g, h, x, lay), 0 <= k < lay.len() - 1, x[root].edges == lay[1]
    ensures onlay(lay, k, v), x[v].edges == lay[k + 1]
{
    if k == 0 { assert(lay[0][0] == root); root } else {
        let i = k - 1;
        assert(cell(g.spans_, i, 1)); assert(covered(g, i, 1)); assert(g.readings_.subrange(i, i + 1) =~= seq![g.readings_[i]]); assert(stretch(g, i, 1) == g.readings_[i]);
        let v = lemma_vertex(h0, g, h, x, lay, root, i, 1);
        lemma_nx(x, lay, root, v);
        v
    }
}
pub open spec fn inorder(ord: Seq<int>, lay: Seq<Seq<int>>) -> bool { ord.no_duplicates() && (forall|k: int, v: int| #[trigger] onlay(lay, k, v) ==> ord.contains(v)) && (forall|p: int| 0 <= p < ord.len() ==> somewhere(lay, #[trigger] ord[p])) }
pub proof fn lemma_all_in(h0: Heap, g: ReadingGrid, h: Heap, x: VH, lay: Seq<Seq<int>>, root: int, ord: Seq<int>, k: int)
    requires grid_ok(h0, g), heard(g), layered(x, lay, root), means(h0, g, h, x, lay), x[root].edges == lay[1], topo(x, ord, root), 0 <= k < lay.len()
    ensures forall|v: int| #[trigger] onlay(lay, k, v) ==> ord.contains(v)
    decreases k
{
    if k == 0 { assert(lay[0][0] == root); } else {
        lemma_all_in(h0, g, h, x, lay, root, ord, k - 1);
        let w = lemma_stair(h0, g, h, x, lay, root, k - 1);
        let p = choose|p: int| 0 <= p < ord.len() && ord[p] == w;
        assert(before(x, ord, p));
        assert forall|v: int| #[trigger] onlay(lay, k, v) implies ord.contains(v) by {
            let j = choose|j: int| 0 <= j < lay[k].len() && lay[k][j] == v;
            assert(x[w].edges[j] == v); assert(ord.subrange(0, p).contains(v));
            let q = choose|q: int| 0 <= q < p && ord.subrange(0, p)[q] == v; assert(ord[q] == v);
        }
    }
}
// ---- relaxing in that order ----------------------------------------------------------------------------------
pub uninterp spec fn fin(d: Dbl) -> bool;
// what adding finite doubles does, as long as no sum overflows
#[verifier::opaque]
pub open spec fn arith() -> bool {
    ordered() && fin(dlit(0)) && (forall|a: Dbl, b: Dbl| fin(a) && fin(b) ==> fin(#[trigger] dadd(a, b))) && (forall|a: Dbl, b: Dbl, c: Dbl| fin(a) && fin(b) && fin(c) && dle(a, b) ==> dle(#[trigger] dadd(a, c), #[trigger] dadd(b, c)))
    && (forall|a: Dbl| #[trigger] fin(a) ==> dlt(dneg(dinf()), a)) && (forall|a: Dbl| fin(a) ==> deq(#[trigger] dadd(a, dlit(0)), a))
}
pub proof fn ar_zero() requires arith() ensures fin(dlit(0)) { reveal(arith); }
pub proof fn ar_add(a: Dbl, b: Dbl) requires arith(), fin(a), fin(b) ensures fin(dadd(a, b)) { reveal(arith); }
pub proof fn ar_mono(a: Dbl, b: Dbl, c: Dbl) requires arith(), fin(a), fin(b), fin(c), dle(a, b) ensures dle(dadd(a, c), dadd(b, c)) { reveal(arith); }
pub proof fn ar_low(a: Dbl) requires arith(), fin(a) ensures dlt(dneg(dinf()), a) { reveal(arith); }
pub proof fn ar_plus0(a: Dbl) requires arith(), fin(a) ensures dle(dadd(a, dlit(0)), a), dle(a, dadd(a, dlit(0))) { reveal(arith); }
pub proof fn ar_trans(a: Dbl, b: Dbl, c: Dbl) requires arith(), dle(a, b), dle(b, c) ensures dle(a, c) { reveal(arith); assert(!dlt(b, a) && !dlt(c, b)); }
pub proof fn ar_le(a: Dbl, b: Dbl) requires arith(), dlt(a, b) ensures dle(a, b) { reveal(arith); }
pub proof fn ar_same(a: Dbl) requires arith() ensures dle(a, a) { reveal(arith); if dlt(a, a) { } }
pub open spec fn scores_ok(h: Heap, g: ReadingGrid) -> bool { forall|i: int, j: int| cell(g.spans_, i, j) && #[trigger] node_at(g.spans_, i, j) != 0 ==> fin(score_of(h[node_at(g.spans_, i, j)])) }
pub open spec fn sc(h: Heap, x: VH, v: int) -> Dbl { score_of(h[x[v].node]) }
pub open spec fn scored(h: Heap, x: VH, lay: Seq<Seq<int>>) -> bool { forall|k: int, v: int| #[trigger] onlay(lay, k, v) && k > 0 ==> fin(sc(h, x, v)) && h.dom().contains(x[v].node) && (h[x[v].node].unigrams_.len() > 0 ==> node_ok(h[x[v].node])) }
pub open spec fn done(ord: Seq<int>, q: int, v: int) -> bool { exists|p: int| q <= p < ord.len() && #[trigger] ord[p] == v }
pub open spec fn served(h: Heap, x: VH, u: int, n: int) -> bool {
    forall|j: int| 0 <= j < n ==> x[#[trigger] x[u].edges[j]].prev != 0 && dle(dadd(x[u].distance, sc(h, x, x[u].edges[j])), x[x[u].edges[j]].distance)
}
pub open spec fn came(h: Heap, x: VH, lay: Seq<Seq<int>>, v: int) -> bool {
    let p = x[v].prev;
    somewhere(lay, p) && x[p].edges.contains(v) && x[v].distance == dadd(x[p].distance, sc(h, x, v)) && fin(x[v].distance)
}
pub open spec fn reached(h: Heap, x: VH, lay: Seq<Seq<int>>, root: int, ord: Seq<int>, q: int, v: int) -> bool {
    if v == root { x[v].prev == 0 && x[v].distance == dlit(0) } else if x[v].prev == 0 { x[v].distance == dneg(dinf()) } else { came(h, x, lay, v) && done(ord, q, x[v].prev) }
}
pub open spec fn relaxing(h: Heap, x: VH, lay: Seq<Seq<int>>, root: int, ord: Seq<int>, q: int, n: int) -> bool {
    0 <= q < ord.len() && (forall|k: int, v: int| #[trigger] onlay(lay, k, v) ==> reached(h, x, lay, root, ord, q, v)) && (forall|p: int| q < p < ord.len() ==> served(h, x, #[trigger] ord[p], x[ord[p]].edges.len() as int)) && served(h, x, ord[q], n)
}
pub open spec fn relaxed_to(h: Heap, x: VH, lay: Seq<Seq<int>>, root: int, ord: Seq<int>, q: int) -> bool {
    0 <= q <= ord.len() && (forall|k: int, v: int| #[trigger] onlay(lay, k, v) ==> reached(h, x, lay, root, ord, q, v)) && (forall|p: int| q <= p < ord.len() ==> served(h, x, #[trigger] ord[p], x[ord[p]].edges.len() as int))
}
pub proof fn lemma_relax_start(h: Heap, x: VH, lay: Seq<Seq<int>>, root: int, ord: Seq<int>, q: int)
    requires relaxed_to(h, x, lay, root, ord, q), q > 0
    ensures relaxing(h, x, lay, root, ord, q - 1, 0)
{ assert forall|k: int, v: int| #[trigger] onlay(lay, k, v) implies reached(h, x, lay, root, ord, q - 1, v) by { assert(reached(h, x, lay, root, ord, q, v)); } }
// the vertex whose turn it is has been reached
pub proof fn lemma_turn(h0: Heap, g: ReadingGrid, h: Heap, x: VH, lay: Seq<Seq<int>>, root: int, ord: Seq<int>, q: int, n: int)
    requires grid_ok(h0, g), heard(g), layered(x, lay, root), means(h0, g, h, x, lay), x[root].edges == lay[1], topo(x, ord, root), inorder(ord, lay), relaxing(h, x, lay, root, ord, q, n), arith()
    ensures fin(x[ord[q]].distance)
{
    let u = ord[q];
    let k = lev(lay, u);
    ar_zero();
    assert(somewhere(lay, u)); assert(onlay(lay, k, u)); assert(reached(h, x, lay, root, ord, q, u));
    if u != root {
        if k == 0 { assert(false); }
        let w = lemma_stair(h0, g, h, x, lay, root, k - 1);
        assert(onlay(lay, k - 1, w)); assert(ord.contains(w));
        let p = choose|p: int| 0 <= p < ord.len() && ord[p] == w;
        assert(before(x, ord, p));
        let j = choose|j: int| 0 <= j < lay[k].len() && lay[k][j] == u;
        assert(x[w].edges[j] == u);
        assert(ord.subrange(0, p).contains(u));
        let q2 = choose|q2: int| 0 <= q2 < p && ord.subrange(0, p)[q2] == u; assert(ord[q2] == u);
        assert(q2 == q);
        assert(served(h, x, ord[p], x[ord[p]].edges.len() as int));
        assert(x[u].prev != 0);
    }
}
pub proof fn lemma_relax(h0: Heap, g: ReadingGrid, h: Heap, x: VH, lay: Seq<Seq<int>>, root: int, ord: Seq<int>, q: int, n: int, x2: VH)
    requires grid_ok(h0, g), heard(g), layered(x, lay, root), means(h0, g, h, x, lay), x[root].edges == lay[1], topo(x, ord, root), inorder(ord, lay), relaxing(h, x, lay, root, ord, q, n), arith(), scored(h, x, lay),
        0 <= n < x[ord[q]].edges.len(), x2 == relaxed(x, ord[q], x[ord[q]].edges[n], sc(h, x, x[ord[q]].edges[n]))
    ensures relaxing(h, x2, lay, root, ord, q, n + 1), same_shape(x, x2)
{
    let u = ord[q];
    let v = x[u].edges[n];
    let s = sc(h, x, v);
    assert(somewhere(lay, u));
    lemma_turn(h0, g, h, x, lay, root, ord, q, n);
    lemma_edge(x, lay, root, u, n);
    let kv = lev(lay, v);
    assert(onlay(lay, kv, v));
    assert(onlay(lay, lev(lay, u), u));
    assert(x.dom().contains(v));
    assert(x2.dom() =~= x.dom());
    assert(v != root) by { assert(lay[0][0] == root); assert(onlay(lay, 0, root)); lemma_lev(x, lay, root, 0, root); }
    assert(before(x, ord, q)); assert(ord.subrange(0, q).contains(v));
    let pv = choose|pv: int| 0 <= pv < q && ord.subrange(0, q)[pv] == v; assert(ord[pv] == v);
    assert(reached(h, x, lay, root, ord, q, v));
    let nd = dadd(x[u].distance, s);
    assert(fin(s));
    ar_add(x[u].distance, s); ar_low(nd); ar_same(nd); ar_same(x[v].distance);
    if dlt(x[v].distance, nd) { ar_le(x[v].distance, nd); }
    assert(x2[v].prev != 0 && dle(nd, x2[v].distance));
    assert(dle(x[v].distance, x2[v].distance));
    assert(same_shape(x, x2));
    assert(forall|w: int| #![trigger x2[w]] x.dom().contains(w) && w != v ==> x2[w] == x[w]);
    assert(forall|w: int| #[trigger] x.dom().contains(w) ==> sc(h, x2, w) == sc(h, x, w));
    assert forall|k: int, w: int| #[trigger] onlay(lay, k, w) implies reached(h, x2, lay, root, ord, q, w) by {
        assert(reached(h, x, lay, root, ord, q, w));
        if w == v {
            if x2 != x { assert(x2[v].prev == u); assert(x[u].edges[n] == v); assert(x2[u].edges.contains(v)); assert(ord[q] == u); assert(done(ord, q, u)); }
            else { }
        }
        if w != root && x2[w].prev != 0 && (w != v || x2 == x) {
            let p = x[w].prev;
            assert(done(ord, q, p));
            let pp = choose|pp: int| q <= pp < ord.len() && #[trigger] ord[pp] == p;
            assert(p != v);
            assert(onlay(lay, lev(lay, p), p));
            assert(x2[p] == x[p]);
        }
    }
    assert forall|p: int| q < p < ord.len() implies served(h, x2, #[trigger] ord[p], x2[ord[p]].edges.len() as int) by {
        let a = ord[p];
        assert(somewhere(lay, a)); assert(onlay(lay, lev(lay, a), a)); assert(a != v);
        assert(served(h, x, a, x[a].edges.len() as int));
        assert forall|j: int| 0 <= j < x2[a].edges.len() implies x2[#[trigger] x2[a].edges[j]].prev != 0 && dle(dadd(x2[a].distance, sc(h, x2, x2[a].edges[j])), x2[x2[a].edges[j]].distance) by {
            let w = x[a].edges[j];
            lemma_edge(x, lay, root, a, j);
            assert(onlay(lay, lev(lay, w), w));
            assert(x[w].prev != 0 && dle(dadd(x[a].distance, sc(h, x, w)), x[w].distance));
            if w == v { ar_trans(dadd(x[a].distance, s), x[v].distance, x2[v].distance); }
        }
    }
    assert forall|j: int| 0 <= j < n + 1 implies x2[#[trigger] x2[u].edges[j]].prev != 0 && dle(dadd(x2[u].distance, sc(h, x2, x2[u].edges[j])), x2[x2[u].edges[j]].distance) by {
        assert(x2[u] == x[u]);
        let w = x[u].edges[j];
        lemma_edge(x, lay, root, u, j);
        assert(onlay(lay, lev(lay, w), w));
        if j < n { assert(x[w].prev != 0 && dle(dadd(x[u].distance, sc(h, x, w)), x[w].distance)); if w == v { ar_trans(dadd(x[u].distance, s), x[v].distance, x2[v].distance); } }
    }
}
pub open spec fn best(h: Heap, x: VH, lay: Seq<Seq<int>>, root: int) -> bool {
    x[root].prev == 0 && x[root].distance == dlit(0) && (forall|k: int, v: int| #[trigger] onlay(lay, k, v) ==> served(h, x, v, x[v].edges.len() as int) && fin(x[v].distance) && (v != root ==> x[v].prev != 0 && came(h, x, lay, v)))
}
pub proof fn lemma_best(h0: Heap, g: ReadingGrid, h: Heap, x: VH, lay: Seq<Seq<int>>, root: int, ord: Seq<int>)
    requires grid_ok(h0, g), heard(g), layered(x, lay, root), means(h0, g, h, x, lay), x[root].edges == lay[1], inorder(ord, lay), relaxed_to(h, x, lay, root, ord, 0), arith()
    ensures best(h, x, lay, root)
{
    ar_zero();
    assert(lay[0][0] == root); assert(onlay(lay, 0, root)); assert(reached(h, x, lay, root, ord, 0, root));
    assert forall|k: int, v: int| #[trigger] onlay(lay, k, v) implies served(h, x, v, x[v].edges.len() as int) && fin(x[v].distance) && (v != root ==> x[v].prev != 0 && came(h, x, lay, v)) by {
        let p = choose|p: int| 0 <= p < ord.len() && ord[p] == v;
        assert(served(h, x, ord[p], x[ord[p]].edges.len() as int));
        assert(reached(h, x, lay, root, ord, 0, v));
        if v != root {
            if k == 0 { assert(false); }
            let w = lemma_stair(h0, g, h, x, lay, root, k - 1);
            let pw = choose|pw: int| 0 <= pw < ord.len() && ord[pw] == w;
            assert(served(h, x, ord[pw], x[ord[pw]].edges.len() as int));
            let j = choose|j: int| 0 <= j < lay[k].len() && lay[k][j] == v;
            assert(x[w].edges[j] == v);
        }
    }
}
// ---- ways through the grid ---------------------------------------------------------------------------------------
// the nodes cover the readings from one on, one after the other
pub open spec fn tiles(h: Heap, g: ReadingGrid, ns: Seq<int>, from: int) -> bool
    decreases ns.len()
{ if ns.len() == 0 { from == g.readings_.len() } else { starts(h, g, from, ns[0]) && tiles(h, g, ns.drop_first(), from + h[ns[0]].spanningLength_) } }
pub proof fn lemma_run_push(h: Heap, acc: Dbl, ns: Seq<int>, p: int)
    ensures run(h, acc, ns.push(p)) == dadd(run(h, acc, ns), score_of(h[p]))
    decreases ns.len()
{
    let a = ns.push(p);
    if ns.len() == 0 { assert(a.drop_first() =~= Seq::empty()); assert(run(h, dadd(acc, score_of(h[p])), a.drop_first()) == dadd(acc, score_of(h[p]))); }
    else { assert(a.drop_first() =~= ns.drop_first().push(p)); lemma_run_push(h, dadd(acc, score_of(h[ns[0]])), ns.drop_first(), p); }
}
pub proof fn lemma_run_tiles(h0: Heap, g: ReadingGrid, h: Heap, acc: Dbl, ns: Seq<int>, from: int)
    requires grid_ok(h0, g), grown(h0, h), tiles(h0, g, ns, from), scores_ok(h0, g), arith(), fin(acc)
    ensures run(h, acc, ns) == run(h0, acc, ns), fin(run(h0, acc, ns))
    decreases ns.len()
{
    if ns.len() > 0 {
        let d = h0[ns[0]].spanningLength_;
        assert(placed(h0, g, from, d)) by { assert(node_at(g.spans_, from, d) == ns[0]); }
        assert(fin(score_of(h0[node_at(g.spans_, from, d)])));
        ar_add(acc, score_of(h0[ns[0]]));
        lemma_run_tiles(h0, g, h, dadd(acc, score_of(h0[ns[0]])), ns.drop_first(), from + d);
    }
}
// no way through has a higher total than the distance of the end
pub proof fn lemma_hop(h: Heap, x: VH, lay: Seq<Seq<int>>, root: int, u: int, v: int, m: int, acc: Dbl)
    requires layered(x, lay, root), best(h, x, lay, root), arith(), scored(h, x, lay), somewhere(lay, u), m == nx(x, lay, u), m < lay.len(), onlay(lay, m, v), fin(acc), dle(acc, x[u].distance)
    ensures fin(dadd(acc, sc(h, x, v))), dle(dadd(acc, sc(h, x, v)), x[v].distance)
{
    assert(onlay(lay, lev(lay, u), u));
    lemma_nx(x, lay, root, u);
    assert(served(h, x, u, x[u].edges.len() as int));
    let j = choose|j: int| 0 <= j < lay[m].len() && lay[m][j] == v;
    assert(x[u].edges[j] == v);
    assert(fin(sc(h, x, v))); assert(fin(x[u].distance));
    ar_add(acc, sc(h, x, v));
    ar_mono(acc, x[u].distance, sc(h, x, v));
    ar_trans(dadd(acc, sc(h, x, v)), dadd(x[u].distance, sc(h, x, v)), x[v].distance);
}
pub proof fn lemma_run_one(h: Heap, acc: Dbl, ms: Seq<int>, p: int)
    requires ms.len() == 0
    ensures run(h, acc, ms.push(p)) == dadd(acc, score_of(h[p]))
{ assert(ms.push(p).drop_first() =~= Seq::empty()); assert(run(h, dadd(acc, score_of(h[p])), ms.push(p).drop_first()) == dadd(acc, score_of(h[p]))); }
pub proof fn lemma_bound(h0: Heap, g: ReadingGrid, h: Heap, x: VH, lay: Seq<Seq<int>>, root: int, term: int, u: int, acc: Dbl, ms: Seq<int>)
    requires grid_ok(h0, g), grown(h0, h), layered(x, lay, root), means(h0, g, h, x, lay), best(h, x, lay, root), arith(), scored(h, x, lay), somewhere(lay, u), nx(x, lay, u) < lay.len(), onlay(lay, lay.len() as int - 1, term),
        tiles(h0, g, ms, nx(x, lay, u) - 1), fin(acc), dle(acc, x[u].distance)
    ensures dle(run(h, acc, ms.push(x[term].node)), x[term].distance)
    decreases ms.len()
{
    hide(means); hide(best); hide(layered); hide(scored); hide(grid_ok);
    let m = nx(x, lay, u);
    assert(lay.len() == g.spans_.len() + 2 && g.spans_.len() == g.readings_.len()) by { reveal(means); reveal(grid_ok); }
    if ms.len() == 0 {
        lemma_hop(h, x, lay, root, u, term, m, acc);
        lemma_run_one(h, acc, ms, x[term].node);
    } else {
        let p = ms[0]; let d = h0[p].spanningLength_;
        assert(node_at(g.spans_, m - 1, d) == p);
        let v = lemma_vertex(h0, g, h, x, lay, root, m - 1, d);
        lemma_hop(h, x, lay, root, u, v, m, acc);
        assert(h0.dom().contains(p)) by { reveal(grid_ok); assert(placed(h0, g, m - 1, d)); }
        assert(h[p] == h0[p]);
        lemma_bound(h0, g, h, x, lay, root, term, v, dadd(acc, score_of(h[p])), ms.drop_first());
        assert(ms.push(x[term].node).drop_first() =~= ms.drop_first().push(x[term].node));
    }
}
// walking back
pub open spec fn behind(walked: Seq<int>) -> Seq<int> { if walked.len() == 0 { Seq::empty() } else { walked.drop_last().reverse() } }
pub open spec fn pos(lay: Seq<Seq<int>>, v: int) -> int { if lev(lay, v) == 0 { 0 } else { lev(lay, v) - 1 } }
pub open spec fn back(h0: Heap, g: ReadingGrid, h: Heap, x: VH, lay: Seq<Seq<int>>, term: int, walked: Seq<int>, it: int, sum: int) -> bool {
    somewhere(lay, it) && sum == g.spans_.len() - pos(lay, it)
    && (if walked.len() == 0 { it == term } else { lev(lay, it) <= g.spans_.len() && walked.last() == x[it].node && tiles(h0, g, behind(walked), nx(x, lay, it) - 1) && run(h, x[it].distance, behind(walked).push(x[term].node)) == x[term].distance })
}
pub proof fn lemma_tiles_step(h: Heap, g: ReadingGrid, ns: Seq<int>, from: int)
    requires ns.len() > 0, starts(h, g, from, ns[0]), tiles(h, g, ns.drop_first(), from + h[ns[0]].spanningLength_)
    ensures tiles(h, g, ns, from)
{ }
pub proof fn lemma_back_path(h0: Heap, g: ReadingGrid, h: Heap, x: VH, term: int, walked: Seq<int>, it: int, from: int)
    requires x[it].distance == dadd(x[x[it].prev].distance, score_of(h[x[it].node])), walked.len() == 0 ==> it == term && from == g.readings_.len(),
        walked.len() > 0 ==> walked.last() == x[it].node && starts(h0, g, from, x[it].node) && tiles(h0, g, behind(walked), from + h0[x[it].node].spanningLength_) && run(h, x[it].distance, behind(walked).push(x[term].node)) == x[term].distance
    ensures tiles(h0, g, behind(walked.push(x[x[it].prev].node)), from), run(h, x[x[it].prev].distance, behind(walked.push(x[x[it].prev].node)).push(x[term].node)) == x[term].distance
{
    hide(starts); hide(score_of);
    let p = x[it].prev;
    let w2 = walked.push(x[p].node);
    let tn = x[term].node;
    assert(w2.drop_last() =~= walked);
    if walked.len() == 0 {
        assert(behind(w2) =~= Seq::empty());
        let one = behind(w2).push(tn);
        assert(one.drop_first() =~= Seq::empty());
        assert(run(h, dadd(x[p].distance, score_of(h[one[0]])), one.drop_first()) == dadd(x[p].distance, score_of(h[tn])));
    } else {
        assert(behind(w2) =~= seq![x[it].node] + behind(walked)) by { assert(walked =~= walked.drop_last().push(x[it].node)); assert forall|i: int| 0 <= i < walked.len() implies walked.reverse()[i] == (seq![x[it].node] + behind(walked))[i] by { } }
        assert(behind(w2).drop_first() =~= behind(walked));
        let all = behind(w2).push(tn);
        assert(all.drop_first() =~= behind(walked).push(tn));
        assert(run(h, x[p].distance, all) == run(h, dadd(x[p].distance, score_of(h[x[it].node])), behind(walked).push(tn)));
        lemma_tiles_step(h0, g, behind(w2), from);
    }
}
pub proof fn lemma_back(h0: Heap, g: ReadingGrid, h: Heap, x: VH, lay: Seq<Seq<int>>, root: int, term: int, walked: Seq<int>, it: int, sum: int)
    requires grid_ok(h0, g), grown(h0, h), layered(x, lay, root), means(h0, g, h, x, lay), best(h, x, lay, root), onlay(lay, lay.len() as int - 1, term), back(h0, g, h, x, lay, term, walked, it, sum), x[it].prev != 0, x[root].edges == lay[1]
    ensures back(h0, g, h, x, lay, term, walked.push(x[x[it].prev].node), x[it].prev, sum + h[x[x[it].prev].node].spanningLength_), 0 <= lev(lay, x[it].prev) < lev(lay, it), x.dom().contains(x[it].prev), h.dom().contains(x[x[it].prev].node),
        0 <= sum + h[x[x[it].prev].node].spanningLength_ <= g.spans_.len()
{
    hide(grid_ok); hide(tiles); hide(run); hide(behind); hide(starts); hide(score_of);
    assert(g.spans_.len() == g.readings_.len()) by { reveal(grid_ok); }
    let p = x[it].prev;
    assert(onlay(lay, lev(lay, it), it));
    assert(it != root);
    assert(came(h, x, lay, it));
    assert(onlay(lay, lev(lay, p), p));
    let j = choose|j: int| 0 <= j < x[p].edges.len() && x[p].edges[j] == it;
    lemma_edge(x, lay, root, p, j);
    assert(means1(h0, g, h, x, lay, lev(lay, p), p));
    assert(means1(h0, g, h, x, lay, lev(lay, it), it));
    lemma_lev(x, lay, root, lay.len() - 1, term);
    assert(lev(lay, it) == nx(x, lay, p));
    lemma_back_path(h0, g, h, x, term, walked, it, lev(lay, it) - 1);
    lemma_nx(x, lay, root, p);
    if lev(lay, p) == 0 { assert(p == root); assert(hop(lay, 0, x[root].edges, 1)); lemma_nxt(lay, 0, x[root].edges, 1); }
    let w2 = walked.push(x[p].node);
    assert(w2.last() == x[p].node);
}
pub open spec fn heaviest(h: Heap, g: ReadingGrid, ns: Seq<int>) -> bool { forall|ms: Seq<int>| #[trigger] tiles(h, g, ms, 0) ==> dle(total(h, ms), total(h, ns)) }
pub proof fn lemma_heaviest(h0: Heap, g: ReadingGrid, h: Heap, x: VH, lay: Seq<Seq<int>>, root: int, term: int, walked: Seq<int>, ns: Seq<int>)
    requires grid_ok(h0, g), grown(h0, h), layered(x, lay, root), means(h0, g, h, x, lay), best(h, x, lay, root), arith(), scored(h, x, lay), scores_ok(h0, g), onlay(lay, lay.len() as int - 1, term), x[root].edges == lay[1],
        walked.len() > 0, ns == behind(walked), tiles(h0, g, ns, 0), run(h, x[root].distance, ns.push(x[term].node)) == x[term].distance
    ensures heaviest(h0, g, ns)
{
    let tn = x[term].node;
    assert(means1(h0, g, h, x, lay, lay.len() - 1, term));
    assert(score_of(h[tn]) == dlit(0));
    assert(lay[0][0] == root); assert(onlay(lay, 0, root)); lemma_lev(x, lay, root, 0, root);
    assert(hop(lay, 0, x[root].edges, 1));
    lemma_nxt(lay, 0, x[root].edges, 1);
    ar_zero();
    lemma_run_tiles(h0, g, h, dlit(0), ns, 0);
    lemma_run_push(h, dlit(0), ns, tn);
    assert forall|ms: Seq<int>| #[trigger] tiles(h0, g, ms, 0) implies dle(total(h0, ms), total(h0, ns)) by {
        lemma_run_tiles(h0, g, h, dlit(0), ms, 0);
        lemma_run_push(h, dlit(0), ms, tn);
        ar_same(dlit(0));
        lemma_bound(h0, g, h, x, lay, root, term, root, dlit(0), ms);
        let a = total(h0, ms); let b = total(h0, ns);
        ar_plus0(a); ar_plus0(b);
        ar_trans(a, dadd(a, dlit(0)), dadd(b, dlit(0))); ar_trans(a, dadd(b, dlit(0)), b);
    }
}
pub open spec fn walking(h0: Heap, g: ReadingGrid, h: Heap, x: VH, lay: Seq<Seq<int>>, root: int, ord: Seq<int>) -> bool {
    layered(x, lay, root) && means(h0, g, h, x, lay) && x[root].edges == lay[1] && topo(x, ord, root) && inorder(ord, lay) && scored(h, x, lay)
}
// the sorted graph, before the first vertex is relaxed
pub proof fn lemma_settle(h0: Heap, g: ReadingGrid, h: Heap, x: VH, x2: VH, lay: Seq<Seq<int>>, root: int, ord: Seq<int>)
    requires grid_ok(h0, g), heard(g), grown(h0, h), layered(x, lay, root), means(h0, g, h, x, lay), untouched(x, lay, root), x[root].edges == lay[1], same_graph(x, x2), topo(x, ord, root), reachable_only(x, root, Seq::empty(), ord), arith(), scores_ok(h0, g)
    ensures walking(h0, g, h, x2, lay, root, ord), relaxed_to(h, x2, lay, root, ord, ord.len() as int)
{
    assert(lay[0][0] == root); assert(onlay(lay, 0, root));
    assert(same_shape(x, x2));
    lemma_shape(h0, g, h, x, x2, lay, root);
    let c = |v: int| somewhere(lay, v);
    lemma_lev(x, lay, root, 0, root);
    assert(closure(x, c, root)) by { assert forall|v: int, j: int| c(v) && 0 <= j < x[v].edges.len() implies c(#[trigger] x[v].edges[j]) by { lemma_edge(x, lay, root, v, j); } }
    assert(inside(c, Seq::empty(), ord));
    assert(inorder(ord, lay)) by {
        assert forall|k: int, v: int| #[trigger] onlay(lay, k, v) implies ord.contains(v) by { lemma_all_in(h0, g, h, x, lay, root, ord, k); }
        assert forall|p: int| 0 <= p < ord.len() implies somewhere(lay, #[trigger] ord[p]) by { assert(c(ord[p])); }
    }
    assert forall|p: int| 0 <= p < ord.len() implies #[trigger] before(x2, ord, p) by { assert(before(x, ord, p)); assert(somewhere(lay, ord[p])); assert(onlay(lay, lev(lay, ord[p]), ord[p])); assert(x2[ord[p]].edges == x[ord[p]].edges); }
    assert forall|k: int, v: int| #[trigger] onlay(lay, k, v) && k > 0 implies fin(sc(h, x2, v)) && h.dom().contains(x2[v].node) && (h[x2[v].node].unigrams_.len() > 0 ==> node_ok(h[x2[v].node])) by {
        assert(means1(h0, g, h, x2, lay, k, v));
        if k == g.spans_.len() + 1 { ar_zero(); } else { let p = x2[v].node; let d = h0[p].spanningLength_; assert(node_at(g.spans_, k - 1, d) == p); assert(placed(h0, g, k - 1, d)); assert(h[p] == h0[p]); }
    }
    assert forall|k: int, v: int| #[trigger] onlay(lay, k, v) implies reached(h, x2, lay, root, ord, ord.len() as int, v) by { assert(x.dom().contains(v)); }
}
pub proof fn lemma_at(h0: Heap, g: ReadingGrid, h: Heap, x: VH, lay: Seq<Seq<int>>, root: int, ord: Seq<int>, v: int)
    requires walking(h0, g, h, x, lay, root, ord), somewhere(lay, v), lev(lay, v) > 0
    ensures x.dom().contains(v), h.dom().contains(x[v].node), h[x[v].node].unigrams_.len() > 0 ==> node_ok(h[x[v].node])
{ assert(onlay(lay, lev(lay, v), v)); }
pub proof fn lemma_walking(h0: Heap, g: ReadingGrid, h: Heap, x: VH, x2: VH, lay: Seq<Seq<int>>, root: int, ord: Seq<int>)
    requires walking(h0, g, h, x, lay, root, ord), same_shape(x, x2)
    ensures walking(h0, g, h, x2, lay, root, ord)
{
    lemma_shape(h0, g, h, x, x2, lay, root);
    assert(lay[0][0] == root); assert(onlay(lay, 0, root));
    assert forall|p: int| 0 <= p < ord.len() implies #[trigger] before(x2, ord, p) by { assert(before(x, ord, p)); assert(somewhere(lay, ord[p])); assert(onlay(lay, lev(lay, ord[p]), ord[p])); assert(x2[ord[p]].edges == x[ord[p]].edges); }
    assert forall|k: int, v: int| #[trigger] onlay(lay, k, v) && k > 0 implies fin(sc(h, x2, v)) && h.dom().contains(x2[v].node) && (h[x2[v].node].unigrams_.len() > 0 ==> node_ok(h[x2[v].node])) by { assert(x.dom().contains(v)); assert(x2[v].node == x[v].node); assert(fin(sc(h, x, v))); }
}
pub proof fn lemma_arrived(h0: Heap, g: ReadingGrid, h: Heap, x: VH, lay: Seq<Seq<int>>, root: int, term: int, walked: Seq<int>, it: int, sum: int)
    requires grid_ok(h0, g), grown(h0, h), layered(x, lay, root), means(h0, g, h, x, lay), best(h, x, lay, root), arith(), scored(h, x, lay), scores_ok(h0, g), onlay(lay, lay.len() as int - 1, term), x[root].edges == lay[1], g.spans_.len() > 0,
        back(h0, g, h, x, lay, term, walked, it, sum), x[it].prev == 0
    ensures walked.len() >= 2, sum == g.spans_.len(), tiles(h0, g, behind(walked), 0), heaviest(h0, g, behind(walked))
{
    assert(onlay(lay, lev(lay, it), it));
    assert(it == root);
    assert(lay[0][0] == root); assert(onlay(lay, 0, root)); lemma_lev(x, lay, root, 0, root); lemma_lev(x, lay, root, lay.len() as int - 1, term);
    assert(hop(lay, 0, x[root].edges, 1)); assert(lay[1].len() > 0);
    lemma_nxt(lay, 0, x[root].edges, 1);
    assert(walked.len() > 0);
    if walked.len() == 1 { assert(behind(walked) =~= Seq::empty()); assert(false); }
    lemma_heaviest(h0, g, h, x, lay, root, term, walked, behind(walked));
}
pub proof fn lemma_nothing(h0: Heap, g: ReadingGrid, ns: Seq<int>)
    requires arith(), g.spans_.len() == 0, ns.len() == 0
    ensures heaviest(h0, g, ns)
{
    assert forall|ms: Seq<int>| #[trigger] tiles(h0, g, ms, 0) implies dle(total(h0, ms), total(h0, ns)) by { if ms.len() > 0 { assert(false); } assert(ms =~= ns); ar_same(total(h0, ms)); }
}
@fn Relax
@opt heaps ReadingGrid_Node Vertex!
@requires
- heap_Vertex.dom().contains(u) && heap_Vertex.dom().contains(v)
- heap_ReadingGrid_Node.dom().contains(heap_Vertex[v].node)
- heap_ReadingGrid_Node[heap_Vertex[v].node].unigrams_.len() > 0 ==> node_ok(heap_ReadingGrid_Node[heap_Vertex[v].node])
@ensures
- heap_Vertex_post =~= relaxed(heap_Vertex, u, v, score_of(heap_ReadingGrid_Node[heap_Vertex[v].node]))
@fn TopologicalSort
@opt heaps Vertex!
@requires
- exists|lay: Seq<Seq<int>>| layered(heap_Vertex, lay, root) && unsorted(heap_Vertex, lay)
@ensures
- topo(heap_Vertex, ret, root)
- reachable_only(heap_Vertex, root, Seq::empty(), ret)
- same_graph(heap_Vertex, heap_Vertex_post)
@ghost
lay: Seq<Seq<int>> = Seq::empty()
s0: Seq<State> = Seq::empty()
@at entry
lay = choose|lay: Seq<Seq<int>>| layered(heap_Vertex, lay, root) && unsorted(heap_Vertex, lay); assert(lay[0][0] == root); assert(onlay(lay, 0, root));
@at loop0.pre
lemma_dfs_start(heap_Vertex, lay, stack, root);
@loop 0
@inv
- dfs(heap_Vertex, lay, stack, result, root)
- reachable_only(old_heap_Vertex, root, stack, result)
- same_graph(old_heap_Vertex, heap_Vertex)
- stack.len() <= lay.len()
- result.len() <= heap_Vertex.dom().len()
@dec
heap_Vertex.dom().len() - result.len(), lay.len() - stack.len()
@at loop0.begin
    s0 = stack;
    assert(frame(heap_Vertex, lay, stack, stack.len() - 1));
    assert(onlay(lay, lev(lay, stack.last().v), stack.last().v));
    assert(heap_Vertex.dom().contains(stack.last().v)); assert(old_heap_Vertex[stack.last().v].edges == heap_Vertex[stack.last().v].edges);
    if stack.last().edgeIter.off < stack.last().edgeIter.buf.len() {
        let o = stack.last().edgeIter.off; let nv = stack.last().edgeIter.buf[o];
        lemma_edge(heap_Vertex, lay, root, stack.last().v, o);
        assert(onlay(lay, nx(heap_Vertex, lay, stack.last().v), nv));
        if !heap_Vertex[nv].topologicallySorted {
            lemma_push(heap_Vertex, lay, s0, result, root, s0.update(s0.len() - 1, State { edgeIter: it_add(s0.last().edgeIter, 1), ..s0.last() }).push(State { v: nv, edgeIter: it_begin(heap_Vertex[nv].edges) }), nv);
            lemma_reach_push(old_heap_Vertex, root, s0, result, s0.update(s0.len() - 1, State { edgeIter: it_add(s0.last().edgeIter, 1), ..s0.last() }).push(State { v: nv, edgeIter: it_begin(heap_Vertex[nv].edges) }), o);
        }
    }
    if stack.last().edgeIter.off == stack.last().edgeIter.buf.len() || heap_Vertex[stack.last().edgeIter.buf[stack.last().edgeIter.off]].topologicallySorted {
        lemma_ready(heap_Vertex, lay, s0, result, root);
        lemma_reach_pop(old_heap_Vertex, root, s0, result);
        lemma_pop(heap_Vertex, lay, s0, result, root, heap_Vertex.insert(s0.last().v, VertexS { topologicallySorted: true, ..heap_Vertex[s0.last().v] }));
    }
@at loop0.end
if stack.len() < s0.len() { assert(stack =~= s0.drop_last()); }
@at return
assert(stack =~= Seq::empty());
assert forall|p: int| 0 <= p < ret.len() implies #[trigger] before(old_heap_Vertex, ret, p) by { assert(before(heap_Vertex, ret, p)); assert(somewhere(lay, ret[p])); assert(onlay(lay, lev(lay, ret[p]), ret[p])); assert(heap_Vertex.dom().contains(ret[p])); assert(old_heap_Vertex[ret[p]].edges == heap_Vertex[ret[p]].edges); }
@fn ReadingGrid_walk
@opt heaps ReadingGrid_Node!
@requires
- grid_ok(heap_ReadingGrid_Node, this)
- heard(this)
- arith()
- scores_ok(heap_ReadingGrid_Node, this)
@ensures
- this_post == this
- grown(heap_ReadingGrid_Node, heap_ReadingGrid_Node_post)
- tiles(heap_ReadingGrid_Node, this, ret.nodes, 0)
- ret.totalReadings == this.readings_.len()
- heaviest(heap_ReadingGrid_Node, this, ret.nodes)
@ghost
heap_Vertex: VH = Map::empty()
g: ReadingGrid = this
h0: Heap = heap_ReadingGrid_Node
x1: VH = Map::empty()
vs1: Seq<Seq<int>> = Seq::empty()
lay: Seq<Seq<int>> = Seq::empty()
tn: int = 0
x5: VH = Map::empty()
wk: Seq<int> = Seq::empty()
hx: Heap = heap_ReadingGrid_Node
xs: VH = Map::empty()
tm: int = 0
rt: int = 0
wv: int = 0
ord: Seq<int> = Seq::empty()
vs: Seq<Seq<int>> = Seq::empty()
@at loop0.pre
assert(stocked(h0, g, heap_Vertex, vspans)); assert(distinct(vspans));
@loop 0
@inv
- this == g && len == g.spans_.len() && vspans.len() == g.spans_.len() && heap_ReadingGrid_Node == h0 && i <= len
- stocked(h0, g, heap_Vertex, vspans)
- distinct(vspans)
- forall|k: int| 0 <= k < i ==> row(heap_Vertex, #[trigger] vspans[k], g.spans_[k], 6)
@loop 1
@inv
- this == g && vspans.len() == g.spans_.len() && heap_ReadingGrid_Node == h0 && 1 <= j <= maxSpanLen + 1
- stocked(h0, g, heap_Vertex, vspans)
- distinct(vspans)
- forall|k: int| 0 <= k < i ==> row(heap_Vertex, #[trigger] vspans[k], g.spans_[k], 6)
- row(heap_Vertex, vspans[i as int], g.spans_[i], j - 1)
@at loop1.begin
x1 = heap_Vertex; vs1 = vspans;
assert(span_ok(g.spans_[i]));
assert(cell(g.spans_, i, j));
assert(g.spans_[i].nodes_[j - 1] == node_at(g.spans_, i, j));
if node_at(g.spans_, i, j) != 0 { assert(placed(h0, g, i, j)); assert(starts(h0, g, i, node_at(g.spans_, i, j))); }
@at loop1.end
if g.spans_[i].nodes_[j - 2] != 0 {
    let nw = vspans[i].last();
    lemma_add(h0, g, x1, vs1, i, g.spans_[i].nodes_[j - 2], heap_Vertex, vspans, nw, heap_Vertex[nw]);
}
assert forall|k: int| 0 <= k < i implies row(heap_Vertex, #[trigger] vspans[k], g.spans_[k], 6) by { assert(row(x1, vs1[k], g.spans_[k], 6)); }
assert(row(heap_Vertex, vspans[i as int], g.spans_[i], j - 1)) by { assert(row(x1, vs1[i as int], g.spans_[i], j - 2)); }
@at loop0.end
assert(span_ok(g.spans_[i - 1]));
assert(row(heap_Vertex, vspans[i - 1], g.spans_[i - 1], 6));
@at before Vertex terminal
xs = heap_Vertex;
@at loop2.pre
tm = terminal; vs = vspans;
assert(grown(h0, heap_ReadingGrid_Node));
assert(wired(h0, g, heap_Vertex, vs, tm, 0, 0)) by {
    assert forall|k: int, t: int| #[trigger] vat(vs, k, t) implies wired1(h0, g, heap_Vertex, vs, tm, k < 0 || k == 0 && t < 0, k, vs[k][t]) by {
        assert(xs.dom().contains(vs[k][t])); assert(heap_Vertex[vs[k][t]] == xs[vs[k][t]]); assert(xs[vs[k][t]].edges =~= Seq::empty());
    }
}
lemma_rows_same(xs, heap_Vertex, vs, g);
hx = heap_ReadingGrid_Node; tn = heap_Vertex[tm].node;
@loop 2
@inv
- vspans == vs && vspansLen == vs.len() && heap_ReadingGrid_Node == hx && terminal == tm && i_2 <= vspansLen
- wired(h0, g, heap_Vertex, vs, tm, i_2, 0)
- forall|k: int| 0 <= k < vs.len() ==> row(heap_Vertex, #[trigger] vs[k], g.spans_[k], 6)
- heap_Vertex.dom().contains(tm) && heap_Vertex[tm].node == tn
@at loop3.pre
assert(here(heap_Vertex, vspans[i_2 as int])) by { assert forall|t: int| 0 <= t < vspans[i_2 as int].len() implies heap_Vertex.dom().contains(#[trigger] vspans[i_2 as int][t]) by { assert(vat(vs, i_2 as int, t)); assert(wired1(h0, g, heap_Vertex, vs, tm, false, i_2 as int, vs[i_2 as int][t])); } }
@loop 3
@inv
- vspans == vs && vspansLen == vs.len() && heap_ReadingGrid_Node == hx && terminal == tm && 0 <= i_2 < vspansLen
- wired(h0, g, heap_Vertex, vs, tm, i_2, idx0)
- here(heap_Vertex, rng0) && rng0 == vs[i_2 as int]
- forall|k: int| 0 <= k < vs.len() ==> row(heap_Vertex, #[trigger] vs[k], g.spans_[k], 6)
- heap_Vertex.dom().contains(tm) && heap_Vertex[tm].node == tn
@at loop3.begin
xs = heap_Vertex; wv = rng0[idx0];
assert(vat(vs, i_2, idx0)); assert(wired1(h0, g, xs, vs, tm, false, i_2, wv));
assert(placed(h0, g, i_2, h0[xs[wv].node].spanningLength_)) by { assert(node_at(g.spans_, i_2, h0[xs[wv].node].spanningLength_) == xs[wv].node); }
@loop 4
@inv
- vspans == vs && vspansLen == vs.len() && heap_ReadingGrid_Node == hx && terminal == tm && rng1 == vs[nextVertexPos as int] && v == wv
- heap_Vertex =~= xs.insert(wv, VertexS { edges: rng1.subrange(0, idx1), ..xs[wv] })
- here(heap_Vertex, rng1)
@at loop4.pre
assert(here(heap_Vertex, vspans[nextVertexPos as int])) by { assert forall|t: int| 0 <= t < vspans[nextVertexPos as int].len() implies heap_Vertex.dom().contains(#[trigger] vspans[nextVertexPos as int][t]) by { assert(vat(vs, nextVertexPos as int, t)); } }
assert(vspans[nextVertexPos as int].subrange(0, 0) =~= xs[wv].edges);
assert(heap_Vertex =~= xs.insert(wv, xs[wv]));
@at loop4.end
assert(rng1.subrange(0, idx1) =~= rng1.subrange(0, idx1 - 1).push(rng1[idx1 - 1]));
@at loop3.end
assert(heap_Vertex[wv].edges =~= edges_of(h0, vs, xs[wv], tm, i_2 as int)) by {
    let nx2 = i_2 + h0[xs[wv].node].spanningLength_;
    if nx2 == vs.len() { assert(heap_Vertex[wv].edges =~= seq![tm]); } else { assert(heap_Vertex[wv].edges =~= vs[nx2].subrange(0, vs[nx2].len() as int)); }
}
assert(heap_Vertex =~= xs.insert(wv, VertexS { edges: edges_of(h0, vs, xs[wv], tm, i_2), ..xs[wv] }));
lemma_wire(h0, g, xs, vs, tm, i_2, idx0 - 1, heap_Vertex);
lemma_rows_same(xs, heap_Vertex, vs, g);
@at loop2.end
lemma_wire_next(h0, g, heap_Vertex, vs, tm, i_2 - 1, vs[i_2 - 1].len() as int);
@at before Vertex root
xs = heap_Vertex;
@at loop5.pre
rt = root; x5 = heap_Vertex; hx = heap_ReadingGrid_Node;
assert(grown(h0, hx));
assert(vs[0].subrange(0, 0) =~= x5[rt].edges);
assert(here(heap_Vertex, vs[0])) by { assert forall|t: int| 0 <= t < vs[0].len() implies heap_Vertex.dom().contains(#[trigger] vs[0][t]) by { assert(vat(vs, 0, t)); assert(wired1(h0, g, xs, vs, tm, 0 < vs.len() || 0 == vs.len() && t < 0, 0, vs[0][t])); } }
@loop 5
@inv
- vspans == vs && heap_ReadingGrid_Node == hx && root == rt && rng2 == vs[0]
- here(heap_Vertex, rng2)
- heap_Vertex =~= x5.insert(rt, VertexS { edges: rng2.subrange(0, idx2), ..x5[rt] })
@at loop5.end
assert(rng2.subrange(0, idx2) =~= rng2.subrange(0, idx2 - 1).push(rng2[idx2 - 1]));
@at before std::vector<Vertex*> ordered
lay = layers(vs, rt, tm);
lemma_layers(vs, rt, tm);
assert(vs[0].subrange(0, vs[0].len() as int) =~= vs[0]);
assert(wired(h0, g, heap_Vertex, vs, tm, vs.len() as int, 0)) by {
    assert forall|k: int, t: int| #[trigger] vat(vs, k, t) implies wired1(h0, g, heap_Vertex, vs, tm, k < vs.len() || k == vs.len() && t < 0, k, vs[k][t]) by { assert(wired1(h0, g, xs, vs, tm, k < vs.len() || k == vs.len() && t < 0, k, vs[k][t])); }
}
assert forall|k: int, t: int| #[trigger] vat(vs, k, t) implies vs[k][t] != rt by { assert(wired1(h0, g, xs, vs, tm, k < vs.len() || k == vs.len() && t < 0, k, vs[k][t])); }
lemma_rows_same(xs, heap_Vertex, vs, g);
lemma_lattice(h0, g, hx, heap_Vertex, vs, rt, tm);
x5 = heap_Vertex;
@at loop6.pre
lemma_settle(h0, g, hx, x5, heap_Vertex, lay, rt, ordered);
ord = ordered;
x5 = heap_Vertex;
@loop 6
@inv
- ordered == ord && it.buf == ord && rend == it_begin(ord) && 0 <= it.off <= ord.len() && !it.nil && heap_ReadingGrid_Node == hx
- walking(h0, g, hx, heap_Vertex, lay, rt, ord)
- relaxed_to(hx, heap_Vertex, lay, rt, ord, it.off)
@at loop6.begin
lemma_relax_start(hx, heap_Vertex, lay, rt, ord, it.off);
assert(somewhere(lay, ord[it.off - 1])); assert(onlay(lay, lev(lay, ord[it.off - 1]), ord[it.off - 1]));
@loop 7
@inv
- ordered == ord && it.buf == ord && 0 < it.off <= ord.len() && u == ord[it.off - 1] && heap_ReadingGrid_Node == hx && heap_Vertex.dom().contains(u)
- walking(h0, g, hx, heap_Vertex, lay, rt, ord)
- relaxing(hx, heap_Vertex, lay, rt, ord, it.off - 1, idx3)
@at loop7.begin
xs = heap_Vertex;
assert(somewhere(lay, u));
lemma_edge(xs, lay, rt, u, idx3);
lemma_at(h0, g, hx, xs, lay, rt, ord, xs[u].edges[idx3]);
lemma_relax(h0, g, hx, xs, lay, rt, ord, it.off - 1, idx3, relaxed(xs, u, xs[u].edges[idx3], sc(hx, xs, xs[u].edges[idx3])));
@at loop7.end
lemma_walking(h0, g, hx, xs, heap_Vertex, lay, rt, ord);
@at loop8.pre
lemma_best(h0, g, hx, heap_Vertex, lay, rt, ord);
lemma_lev(heap_Vertex, lay, rt, lay.len() - 1, tm);
xs = heap_Vertex;
@loop 8
@inv
- heap_ReadingGrid_Node == hx && heap_Vertex == xs && totalReadingLen <= g.spans_.len()
- back(h0, g, hx, xs, lay, tm, walked, it_2, totalReadingLen)
@dec
lev(lay, it_2)
@at loop8.begin
lemma_back(h0, g, hx, xs, lay, rt, tm, walked, it_2, totalReadingLen);
wk = walked;
@at loop8.exit
wk = walked;
lemma_arrived(h0, g, hx, xs, lay, rt, tm, walked, it_2, totalReadingLen);
@at return
assert(arith());
if g.spans_.len() == 0 { lemma_nothing(h0, g, ret.nodes); } else { assert(ret.nodes =~= behind(wk)); }
