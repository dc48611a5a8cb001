@import uom
@import grid
@source src/Engine/UserOverrideModel.cpp McBopomofo
@source src/Engine/UserOverrideModel.cpp Formosa
@source src/Engine/gramambular2/reading_grid.cpp Formosa
@heap ReadingGrid_Node
@opaque Formosa::Gramambular2::LanguageModel
@prelude
// ---- a conversion result: nodes laid end to end ----------------------------------------------------
pub open spec fn upto(h: Heap, ns: Seq<int>, i: int) -> int
    decreases i
{ if i <= 0 { 0 } else { upto(h, ns, i - 1) + h[ns[i - 1]].spanningLength_ } }
pub open spec fn h1(h: Heap, ns: Seq<int>, i: int) -> int { h[ns[i]].spanningLength_ }
pub open spec fn this_first(h: Heap, ns: Seq<int>) -> int { upto(h, ns, 0) + h[ns[0]].spanningLength_ }
pub open spec fn sound(h: Heap, p: int) -> bool { h.dom().contains(p) && node_ok(h[p]) && h[p].spanningLength_ >= 1 }
pub open spec fn laid(h: Heap, r: ReadingGrid_WalkResult) -> bool { (forall|i: int| 0 <= i < r.nodes.len() ==> sound(h, #[trigger] r.nodes[i])) && r.totalReadings == upto(h, r.nodes, r.nodes.len() as int) }
// the node over a cursor; after the last reading: the last node
pub open spec fn covers(h: Heap, ns: Seq<int>, i: int, c: int) -> bool { 0 <= i < ns.len() && upto(h, ns, i) <= c && (c < upto(h, ns, i + 1) || i == ns.len() - 1 && c == upto(h, ns, i + 1)) }
pub proof fn lemma_upto(h: Heap, ns: Seq<int>, i: int, j: int)
    requires 0 <= i <= j <= ns.len(), forall|k: int| 0 <= k < ns.len() ==> sound(h, #[trigger] ns[k])
    ensures upto(h, ns, i) + (j - i) <= upto(h, ns, j)
    decreases j - i
{ if i < j { lemma_upto(h, ns, i, j - 1); assert(sound(h, ns[j - 1])); } }
pub proof fn lemma_covers(h: Heap, ns: Seq<int>, i: int, j: int, c: int)
    requires covers(h, ns, i, c), covers(h, ns, j, c), forall|k: int| 0 <= k < ns.len() ==> sound(h, #[trigger] ns[k])
    ensures i == j
{ if i < j { lemma_upto(h, ns, i + 1, j); } else if j < i { lemma_upto(h, ns, j + 1, i); } }
pub open spec fn spot(h: Heap, ns: Seq<int>, c: int) -> int { choose|i: int| covers(h, ns, i, c) }
pub proof fn lemma_spot(h: Heap, ns: Seq<int>, i: int, c: int)
    requires covers(h, ns, i, c), forall|k: int| 0 <= k < ns.len() ==> sound(h, #[trigger] ns[k])
    ensures spot(h, ns, c) == i
{ lemma_covers(h, ns, i, spot(h, ns, c), c); }
// ---- the context of a word: itself and up to two words before it, back to a punctuation mark --------
pub open spec fn nothing() -> Seq<u8> { seq![40u8, 41u8] }
pub open spec fn word(reading: Seq<u8>, value: Seq<u8>) -> Seq<u8> { seq![40u8] + reading + seq![44u8] + value + seq![41u8] }
pub open spec fn mark(h: Heap, ns: Seq<int>, i: int) -> bool { h[ns[i]].reading_.len() > 0 && h[ns[i]].reading_[0] == 95 }
pub open spec fn before_it(h: Heap, ns: Seq<int>, i: int, k: int) -> bool
    decreases k
{ k <= 0 || i - k >= 0 && !mark(h, ns, i - k) && before_it(h, ns, i, k - 1) }
pub open spec fn prior(h: Heap, ns: Seq<int>, i: int, k: int) -> Seq<u8> { if before_it(h, ns, i, k) { word(h[ns[i - k]].reading_, now(h[ns[i - k]]).value_) } else { nothing() } }
pub open spec fn context(h: Heap, ns: Seq<int>, i: int) -> Seq<u8> { prior(h, ns, i, 2) + seq![45u8] + prior(h, ns, i, 1) + seq![45u8] + word(h[ns[i]].reading_, h[ns[i]].unigrams_[0].value_) }
// ---- what a selection teaches ------------------------------------------------------------------------
pub open spec fn span_at(h: Heap, ns: Seq<int>, i: int) -> int { h[ns[i]].spanningLength_ }
pub open spec fn breaks(h: Heap, b: Seq<int>, a: Seq<int>, i: int, j: int) -> bool { span_at(h, a, i) == 1 && span_at(h, b, j) > 1 }
pub open spec fn lesson(h: Heap, m: UserOverrideModel, b: Seq<int>, a: Seq<int>, i: int, j: int, ts: Dbl) -> Seq<(Seq<u8>, UserOverrideModel_Observation)> {
    remember(m, if breaks(h, b, a, i, j) { context(h, a, i) } else { context(h, b, j) }, now(h[a[i]]).value_, ts, span_at(h, a, i) > span_at(h, b, j))
}
// nothing is learned from results that cannot be compared, or for phrases of more than three readings
pub open spec fn teaches(h: Heap, b: ReadingGrid_WalkResult, a: ReadingGrid_WalkResult, c: int) -> bool {
    b.nodes.len() > 0 && a.nodes.len() > 0 && b.totalReadings == a.totalReadings && c <= a.totalReadings && span_at(h, a.nodes, spot(h, a.nodes, c)) <= 3
}
pub open spec fn learned(h: Heap, m: UserOverrideModel, b: Seq<int>, a: Seq<int>, c: int, ts: Dbl) -> Seq<(Seq<u8>, UserOverrideModel_Observation)> {
    lesson(h, m, b, a, spot(h, a, c), spot(h, b, upto(h, a, spot(h, a, c) + 1) - 1), ts)
}
@fn ReadingGrid_WalkResult_findNodeAt
@opt heaps ReadingGrid_Node
@requires
- laid(heap_ReadingGrid_Node, this)
@ensures
- this.nodes.len() == 0 || cursor > this.totalReadings ==> ret == it_end(this.nodes) && outCursorPastNode_post == outCursorPastNode
- this.nodes.len() > 0 && cursor <= this.totalReadings ==> ret == (It { buf: this.nodes, off: spot(heap_ReadingGrid_Node, this.nodes, cursor), nil: false }) && covers(heap_ReadingGrid_Node, this.nodes, ret.off, cursor)
- this.nodes.len() > 0 && cursor <= this.totalReadings ==> outCursorPastNode_post == (if outCursorPastNode.is_some() { Some(upto(heap_ReadingGrid_Node, this.nodes, ret.off + 1)) } else { None })
@at entry
let n = this.nodes.len() as int;
if n > 0 { lemma_upto(heap_ReadingGrid_Node, this.nodes, 1, n); lemma_upto(heap_ReadingGrid_Node, this.nodes, n - 1, n); assert(sound(heap_ReadingGrid_Node, this.nodes[0])); assert(sound(heap_ReadingGrid_Node, this.nodes[n - 1]));
    assert(upto(heap_ReadingGrid_Node, this.nodes, 0) == 0); assert(upto(heap_ReadingGrid_Node, this.nodes, 1) == this_first(heap_ReadingGrid_Node, this.nodes)); }
@at return
if this.nodes.len() > 0 && cursor <= this.totalReadings { assert(covers(heap_ReadingGrid_Node, this.nodes, ret.off, cursor)); lemma_spot(heap_ReadingGrid_Node, this.nodes, ret.off, cursor);
    assert(upto(heap_ReadingGrid_Node, this.nodes, ret.off + 1) == upto(heap_ReadingGrid_Node, this.nodes, ret.off) + h1(heap_ReadingGrid_Node, this.nodes, ret.off));
    if ret.off == n0 - 1 { assert(upto(heap_ReadingGrid_Node, this.nodes, ret.off + 1) == this.totalReadings); } }
@ghost
n0: int = this.nodes.len() as int
@loop 0
@inv
- outCursorPastNode == old_outCursorPastNode
- i.buf == this.nodes && !i.nil && 0 <= i.off <= this.nodes.len() && accumulated == upto(heap_ReadingGrid_Node, this.nodes, i.off) && accumulated <= cursor
@at loop0.begin
if i.off < this.nodes.len() { assert(sound(heap_ReadingGrid_Node, this.nodes[i.off])); lemma_upto(heap_ReadingGrid_Node, this.nodes, i.off + 1, this.nodes.len() as int); }
@fn CombineReadingValue
@ensures
- ret =~= word(reading, value)
@fn IsPunctuation
@opt heaps ReadingGrid_Node
@requires
- heap_ReadingGrid_Node.dom().contains(node)
@ensures
- ret == mark(heap_ReadingGrid_Node, seq![node], 0)
@fn FormObservationKey
@opt heaps ReadingGrid_Node
@requires
- head.buf == end.buf && !head.nil && !end.nil && end.off == 0 && 0 <= head.off < head.buf.len()
- forall|i: int| 0 <= i < head.buf.len() ==> sound(heap_ReadingGrid_Node, #[trigger] head.buf[i])
@ensures
- ret =~= context(heap_ReadingGrid_Node, head.buf, head.off)
@at entry
let ns = head.buf; let o = head.off;
assert(sound(heap_ReadingGrid_Node, ns[o])); if o > 0 { assert(sound(heap_ReadingGrid_Node, ns[o - 1])); } if o > 1 { assert(sound(heap_ReadingGrid_Node, ns[o - 2])); }
assert(before_it(heap_ReadingGrid_Node, ns, o, 0));
assert(before_it(heap_ReadingGrid_Node, ns, o, 1) == (o >= 1 && !mark(heap_ReadingGrid_Node, ns, o - 1)));
assert(before_it(heap_ReadingGrid_Node, ns, o, 2) == (o >= 2 && !mark(heap_ReadingGrid_Node, ns, o - 2) && before_it(heap_ReadingGrid_Node, ns, o, 1)));
@fn UserOverrideModel_suggest/3
@opt heaps ReadingGrid_Node
@requires
- uom_ok(this)
- laid(heap_ReadingGrid_Node, currentWalk) && currentWalk.nodes.len() > 0 && cursor <= currentWalk.totalReadings
@ensures
- this_post == this
- ordered() ==> suggestion(recall(this, context(heap_ReadingGrid_Node, currentWalk.nodes, spot(heap_ReadingGrid_Node, currentWalk.nodes, cursor))), timestamp, this.decayExponent_, ret)
@fn UserOverrideModel_observe/WalkResult
@opt heaps ReadingGrid_Node
@requires
- uom_ok(this)
- laid(heap_ReadingGrid_Node, walkBeforeUserOverride) && laid(heap_ReadingGrid_Node, walkAfterUserOverride)
@ensures
- uom_ok(this_post) && this_post.capacity_ == this.capacity_ && this_post.decayExponent_ == this.decayExponent_
- contexts(this_post) =~= (if teaches(heap_ReadingGrid_Node, walkBeforeUserOverride, walkAfterUserOverride, cursor) { learned(heap_ReadingGrid_Node, this, walkBeforeUserOverride.nodes, walkAfterUserOverride.nodes, cursor, timestamp) } else { contexts(this) })
@at entry
let ha = heap_ReadingGrid_Node; let a = walkAfterUserOverride; let i = spot(ha, a.nodes, cursor);
if a.nodes.len() > 0 { lemma_upto(ha, a.nodes, 0, a.nodes.len() as int); }
if covers(ha, a.nodes, i, cursor) { assert(sound(ha, a.nodes[i])); lemma_upto(ha, a.nodes, 0, i); lemma_upto(ha, a.nodes, i + 1, a.nodes.len() as int); }
@post
