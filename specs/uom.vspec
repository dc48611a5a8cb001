@source src/Engine/UserOverrideModel.cpp McBopomofo
@source src/Engine/UserOverrideModel.cpp Formosa
@include order.rs
@extern exp(double) -> double = dexp($0)
@extern log(double) -> double = dlog($0)
@prelude
pub uninterp spec fn dexp(x: Dbl) -> Dbl;
pub uninterp spec fn dlog(x: Dbl) -> Dbl;
// ---- the memory: contexts in order of recency, each with what was chosen in it --------------------
pub open spec fn obs(m: UserOverrideModel, i: int) -> (Seq<u8>, UserOverrideModel_Observation) { m.lruList_.elems[m.lruList_.order[i]] }
pub open spec fn contexts(m: UserOverrideModel) -> Seq<(Seq<u8>, UserOverrideModel_Observation)> { Seq::new(m.lruList_.order.len(), |i: int| obs(m, i)) }
// list and index in step, each context once, no more than the capacity
pub open spec fn indexed(m: UserOverrideModel, i: int) -> bool { m.lruMap_.dom().contains(obs(m, i).0) && m.lruMap_[obs(m, i).0] == m.lruList_.order[i] && obs(m, i).1.overrides.dom().finite() }
pub open spec fn listed(m: UserOverrideModel, k: Seq<u8>) -> bool { llist_has(m.lruList_, m.lruMap_[k]) && m.lruList_.elems[m.lruMap_[k]].0 == k }
pub open spec fn in_step(m: UserOverrideModel) -> bool {
    llist_ok(m.lruList_) && (forall|i: int| 0 <= i < m.lruList_.order.len() ==> #[trigger] indexed(m, i))
        && (forall|k: Seq<u8>| m.lruMap_.dom().contains(k) ==> #[trigger] listed(m, k))
}
pub open spec fn uom_ok(m: UserOverrideModel) -> bool { in_step(m) && 1 <= m.capacity_ && m.lruList_.order.len() <= m.capacity_ }
pub open spec fn knows(m: UserOverrideModel, key: Seq<u8>) -> bool { m.lruMap_.dom().contains(key) }
pub open spec fn blank() -> UserOverrideModel_Observation { UserOverrideModel_Observation { count: 0, overrides: Map::empty() } }
pub open spec fn recall(m: UserOverrideModel, key: Seq<u8>) -> UserOverrideModel_Observation { if knows(m, key) { m.lruList_.elems[m.lruMap_[key]].1 } else { blank() } }
pub open spec fn times(o: UserOverrideModel_Observation, c: Seq<u8>) -> int { if o.overrides.dom().contains(c) { o.overrides[c].count } else { 0 } }
pub open spec fn updated(o: UserOverrideModel_Observation, c: Seq<u8>, ts: Dbl, f: bool) -> UserOverrideModel_Observation {
    UserOverrideModel_Observation { count: u64_add(o.count, 1), overrides: o.overrides.insert(c, UserOverrideModel_Override { count: u64_add(times(o, c), 1), timestamp: ts, forceHighScoreOverride: f }) }
}
pub open spec fn place(m: UserOverrideModel, key: Seq<u8>) -> int { m.lruList_.order.index_of(m.lruMap_[key]) }
pub open spec fn others(m: UserOverrideModel, key: Seq<u8>) -> Seq<(Seq<u8>, UserOverrideModel_Observation)> {
    if knows(m, key) { contexts(m).remove(place(m, key)) } else { contexts(m) }
}
// what observing makes of the memory: the context comes first; if there are too many, the last one goes
pub open spec fn remember(m: UserOverrideModel, key: Seq<u8>, c: Seq<u8>, ts: Dbl, f: bool) -> Seq<(Seq<u8>, UserOverrideModel_Observation)> {
    let all = seq![(key, updated(recall(m, key), c, ts, f))] + others(m, key);
    if all.len() > m.capacity_ { all.drop_last() } else { all }
}
pub proof fn lemma_ids(l: LList<(Seq<u8>, UserOverrideModel_Observation)>)
    requires llist_ok(l)
    ensures forall|i: int| 0 <= i < l.order.len() ==> l.order.index_of(#[trigger] l.order[i]) == i && l.elems.dom().contains(l.order[i]) && l.order[i] != l.next && llist_has(l, l.order[i])
{
    assert forall|i: int| 0 <= i < l.order.len() implies l.order.index_of(#[trigger] l.order[i]) == i && l.elems.dom().contains(l.order[i]) && l.order[i] != l.next && llist_has(l, l.order[i]) by {
        assert(l.order.contains(l.order[i]));
        let k = l.order.index_of(l.order[i]);
        assert(l.order[k] == l.order[i]);
    }
}
// a new context at the front
pub proof fn lemma_new(m: UserOverrideModel, p: UserOverrideModel, key: Seq<u8>, o: UserOverrideModel_Observation)
    requires in_step(m), !knows(m, key), o.overrides.dom().finite(),
        p.lruList_ == llist_insert(m.lruList_, llist_begin(m.lruList_), (key, o)), p.lruMap_ == m.lruMap_.insert(key, m.lruList_.next)
    ensures in_step(p), contexts(p) =~= seq![(key, o)] + contexts(m), p.lruList_.order.len() == m.lruList_.order.len() + 1
{
    let l = m.lruList_; let q = p.lruList_;
    lemma_ids(l);
    if l.order.len() > 0 { assert(l.order.index_of(l.order[0]) == 0); }
    assert(q.order =~= seq![l.next] + l.order);
    assert forall|i: int| #[trigger] q.elems.dom().contains(i) <==> q.order.contains(i) by {
        if l.order.contains(i) { let k = l.order.index_of(i); assert(q.order[k + 1] == i); }
        if i == l.next { assert(q.order[0] == i); }
        if q.order.contains(i) && i != l.next { let k = q.order.index_of(i); assert(l.order[k - 1] == i); }
    }
    assert forall|a: int, b: int| 0 <= a < q.order.len() && 0 <= b < q.order.len() && a != b implies q.order[a] != q.order[b] by {
        if a > 0 { assert(l.elems.dom().contains(l.order[a - 1])); }
        if b > 0 { assert(l.elems.dom().contains(l.order[b - 1])); }
    }
    assert forall|i: int| 0 <= i < q.order.len() implies #[trigger] indexed(p, i) by {
        if i > 0 { assert(indexed(m, i - 1)); assert(obs(p, i) == obs(m, i - 1)); }
    }
    assert forall|k: Seq<u8>| p.lruMap_.dom().contains(k) implies #[trigger] listed(p, k) by {
        if k != key { assert(listed(m, k)); let id = m.lruMap_[k]; let j = l.order.index_of(id); assert(q.order[j + 1] == id); }
        else { assert(q.order[0] == l.next); }
    }
    assert forall|i: int| 0 < i < q.order.len() implies contexts(p)[i] == contexts(m)[i - 1] by { assert(obs(p, i) == obs(m, i - 1)); }
}
// the last context dropped
pub proof fn lemma_drop(m: UserOverrideModel, p: UserOverrideModel)
    requires in_step(m), m.lruList_.order.len() > 0,
        p.lruList_ == llist_erase(m.lruList_, m.lruList_.order.last()), p.lruMap_ == m.lruMap_.remove(obs(m, m.lruList_.order.len() - 1).0)
    ensures in_step(p), contexts(p) =~= contexts(m).drop_last()
{
    let l = m.lruList_; let q = p.lruList_; let n = l.order.len() as int;
    lemma_ids(l);
    assert(l.order.index_of(l.order[n - 1]) == n - 1);
    assert(q.order =~= l.order.drop_last());
    assert(indexed(m, n - 1));
    assert forall|i: int| #[trigger] q.elems.dom().contains(i) <==> q.order.contains(i) by {
        assert(l.elems.dom().contains(i) <==> l.order.contains(i));
        if l.order.contains(i) && i != l.order[n - 1] { let k = l.order.index_of(i); assert(q.order[k] == i); }
        if q.order.contains(i) { let k = q.order.index_of(i); assert(l.order[k] == i); }
    }
    assert forall|i: int| 0 <= i < q.order.len() implies #[trigger] indexed(p, i) by {
        assert(indexed(m, i)); assert(obs(p, i) == obs(m, i)); assert(l.order[i] != l.order[n - 1]);
    }
    assert forall|k: Seq<u8>| p.lruMap_.dom().contains(k) implies #[trigger] listed(p, k) by {
        assert(listed(m, k)); let id = m.lruMap_[k]; let j = l.order.index_of(id); assert(l.order[j] == id); assert(indexed(m, j)); if j == n - 1 { assert(false); } assert(q.order[j] == id);
        assert(q.elems.dom().contains(id));
    }
    assert forall|i: int| 0 <= i < q.order.len() implies contexts(p)[i] == contexts(m)[i] by { assert(obs(p, i) == obs(m, i)); }
}
// a known context moved to the front and updated
pub proof fn lemma_move(m: UserOverrideModel, p: UserOverrideModel, key: Seq<u8>, o: UserOverrideModel_Observation)
    requires in_step(m), knows(m, key), o.overrides.dom().finite(), p.lruMap_ == m.lruMap_,
        p.lruList_ == (LList { elems: llist_splice(m.lruList_, llist_begin(m.lruList_), m.lruMap_[key]).elems.insert(m.lruMap_[key], (key, o)), ..llist_splice(m.lruList_, llist_begin(m.lruList_), m.lruMap_[key]) })
    ensures in_step(p), contexts(p) =~= seq![(key, o)] + others(m, key), p.lruList_.order.len() == m.lruList_.order.len()
{
    let l = m.lruList_; let q = p.lruList_; let id = m.lruMap_[key];
    lemma_ids(l);
    assert(listed(m, key));
    let at = l.order.index_of(id);
    assert(0 <= at < l.order.len() && l.order[at] == id);
    let o2 = l.order.remove(at);
    if at == 0 {
        assert(q.order =~= l.order);
    } else {
        assert(o2[0] == l.order[0]);
        assert(o2.contains(l.order[0]));
        let z = o2.index_of(l.order[0]);
        assert(o2[z] == l.order[0]);
        assert(z == 0);
    }
    assert(q.order =~= seq![id] + o2);
    assert forall|i: int| 0 <= i < q.order.len() implies (#[trigger] q.order[i]) == (if i == 0 { id } else if i <= at { l.order[i - 1] } else { l.order[i] }) by { }
    assert forall|i: int| #[trigger] q.elems.dom().contains(i) <==> q.order.contains(i) by {
        assert(l.elems.dom().contains(i) <==> l.order.contains(i));
        assert(l.elems.dom().contains(id));
        if l.order.contains(i) { let k = l.order.index_of(i); if k == at { assert(q.order[0] == i); } else if k < at { assert(q.order[k + 1] == i); } else { assert(q.order[k] == i); } }
        if q.order.contains(i) { let k = q.order.index_of(i); if k > 0 && k <= at { assert(l.order[k - 1] == i); } else if k > at { assert(l.order[k] == i); } }
    }
    assert forall|i: int| 0 <= i < q.order.len() implies #[trigger] indexed(p, i) by {
        let x = q.order[i];
        if i == 0 { } else if i <= at { assert(indexed(m, i - 1)); assert(l.order[i - 1] != l.order[at]); assert(obs(p, i) == obs(m, i - 1)); } else { assert(indexed(m, i)); assert(l.order[i] != l.order[at]); assert(obs(p, i) == obs(m, i)); }
    }
    assert forall|k: Seq<u8>| p.lruMap_.dom().contains(k) implies #[trigger] listed(p, k) by {
        assert(listed(m, k)); assert(q.elems.dom().contains(m.lruMap_[k]));
    }
    assert forall|i: int| 0 <= i < q.order.len() implies contexts(p)[i] == (seq![(key, o)] + others(m, key))[i] by {
        let x = q.order[i];
        if i == 0 { } else if i <= at { assert(l.order[i - 1] != l.order[at]); assert(obs(p, i) == obs(m, i - 1)); } else { assert(l.order[i] != l.order[at]); assert(obs(p, i) == obs(m, i)); }
    }
}
// ---- C12 over the contracts: each context once, so what is dropped is the context observed longest ago
pub proof fn lemma_once(m: UserOverrideModel)
    requires in_step(m)
    ensures forall|i: int, j: int| 0 <= i < j < contexts(m).len() ==> (#[trigger] contexts(m)[i]).0 != (#[trigger] contexts(m)[j]).0,
        forall|i: int| 0 <= i < contexts(m).len() ==> knows(m, (#[trigger] contexts(m)[i]).0) && recall(m, contexts(m)[i].0) == contexts(m)[i].1,
        forall|k: Seq<u8>| #[trigger] knows(m, k) ==> exists|i: int| 0 <= i < contexts(m).len() && (#[trigger] contexts(m)[i]).0 == k
{
    assert forall|i: int, j: int| 0 <= i < j < contexts(m).len() implies (#[trigger] contexts(m)[i]).0 != (#[trigger] contexts(m)[j]).0 by { assert(indexed(m, i) && indexed(m, j)); }
    assert forall|i: int| 0 <= i < contexts(m).len() implies knows(m, (#[trigger] contexts(m)[i]).0) && recall(m, contexts(m)[i].0) == contexts(m)[i].1 by { assert(indexed(m, i)); }
    assert forall|k: Seq<u8>| #[trigger] knows(m, k) implies exists|i: int| 0 <= i < contexts(m).len() && (#[trigger] contexts(m)[i]).0 == k by {
        assert(listed(m, k)); let j = m.lruList_.order.index_of(m.lruMap_[k]); assert(contexts(m)[j].0 == k);
    }
}
// ---- the score of one choice, and the best one ---------------------------------------------------
pub open spec fn weight(n: int, total: int, then: Dbl, now: Dbl, l: Dbl) -> Dbl {
    let d = dexp(dmul(dsub(now, then), l));
    if dlt(d, c_kDecayThreshold()) { dlit(0) } else { dmul(ddiv(d_of_int(n), d_of_int(total)), d) }
}
pub open spec fn weight_of(o: UserOverrideModel_Observation, c: Seq<u8>, now: Dbl, l: Dbl) -> Dbl { weight(o.overrides[c].count, o.count, o.overrides[c].timestamp, now, l) }
// c is at least as good as every choice in s
pub open spec fn beats(o: UserOverrideModel_Observation, w: Dbl, s: Set<Seq<u8>>, now: Dbl, l: Dbl) -> bool {
    forall|k: Seq<u8>| #[trigger] o.overrides.dom().contains(k) && s.contains(k) ==> deq(weight_of(o, k, now, l), dlit(0)) || !dlt(w, weight_of(o, k, now, l))
}
pub open spec fn picked(c: Seq<u8>, f: bool) -> UserOverrideModel_Suggestion { UserOverrideModel_Suggestion { candidate: c, forceHighScoreOverride: f } }
pub open spec fn best_of(o: UserOverrideModel_Observation, s: Set<Seq<u8>>, now: Dbl, l: Dbl, r: UserOverrideModel_Suggestion, w: Dbl) -> bool {
    beats(o, w, s, now, l) && ((r.candidate.len() == 0 && !r.forceHighScoreOverride && w == dlit(0))
        || (o.overrides.dom().contains(r.candidate) && s.contains(r.candidate) && r.forceHighScoreOverride == o.overrides[r.candidate].forceHighScoreOverride && w == weight_of(o, r.candidate, now, l) && dlt(dlit(0), w)))
}
pub open spec fn suggestion(o: UserOverrideModel_Observation, now: Dbl, l: Dbl, r: UserOverrideModel_Suggestion) -> bool {
    exists|w: Dbl| best_of(o, o.overrides.dom(), now, l, r, w)
}
pub open spec fn passed(o: UserOverrideModel_Observation, i: Option<Seq<u8>>) -> Set<Seq<u8>> { o.overrides.dom().difference(map_rest(o.overrides, i)) }
pub proof fn lemma_better(o: UserOverrideModel_Observation, s: Set<Seq<u8>>, now: Dbl, l: Dbl, r: UserOverrideModel_Suggestion, w: Dbl, k: Seq<u8>)
    requires ordered(), best_of(o, s, now, l, r, w), o.overrides.dom().contains(k)
    ensures !dlt(w, weight_of(o, k, now, l)) || deq(weight_of(o, k, now, l), dlit(0)) ==> best_of(o, s.insert(k), now, l, r, w),
        dlt(w, weight_of(o, k, now, l)) ==> best_of(o, s.insert(k), now, l, picked(k, o.overrides[k].forceHighScoreOverride), weight_of(o, k, now, l))
{
    let v = weight_of(o, k, now, l);
    if dlt(w, v) {
        assert forall|j: Seq<u8>| #[trigger] o.overrides.dom().contains(j) && s.insert(k).contains(j) implies deq(weight_of(o, j, now, l), dlit(0)) || !dlt(v, weight_of(o, j, now, l)) by {
            let u = weight_of(o, j, now, l);
            if j == k { assert(!dlt(v, v)) by { if dlt(v, v) { } } } else { assert(s.contains(j)); if !dlt(w, u) { assert(!dlt(v, w)); } }
        }
        if !dlt(dlit(0), v) { assert(!dlt(v, w)); assert(!dlt(dlit(0), w)); assert(!dlt(v, dlit(0)) || true); }
    }
}
// once every choice of a context has decayed, nothing is suggested
pub proof fn lemma_forgotten(o: UserOverrideModel_Observation, now: Dbl, l: Dbl, r: UserOverrideModel_Suggestion)
    requires ordered(), suggestion(o, now, l, r), forall|k: Seq<u8>| #[trigger] o.overrides.dom().contains(k) ==> dlt(dexp(dmul(dsub(now, o.overrides[k].timestamp), l)), c_kDecayThreshold())
    ensures r.candidate.len() == 0, !r.forceHighScoreOverride
{
    let w = choose|w: Dbl| best_of(o, o.overrides.dom(), now, l, r, w);
    assert(!dlt(dlit(0), dlit(0)));
}
@fn Score
@ensures
- ret == weight(eventCount, totalCount, eventTimestamp, timestamp, lambda)
@fn UserOverrideModel_Observation_update
@ensures
- this_post =~= updated(this, candidate, timestamp, forceHighScoreOverride)
@fn UserOverrideModel_ctor
@requires
- capacity >= 1
@ensures
- uom_ok(ret) && contexts(ret).len() == 0
- ret.capacity_ == capacity && ret.decayExponent_ == ddiv(dlog(dlit(2259563469)), decayConstant)
@fn UserOverrideModel_suggest/2
@requires
- uom_ok(this)
@ensures
- this_post == this
- ordered() ==> suggestion(recall(this, key), timestamp, this.decayExponent_, ret)
@ghost
o: UserOverrideModel_Observation = recall(this, key)
@at entry
lemma_ids(this.lruList_);
if knows(this, key) { assert(listed(this, key)); assert(indexed(this, place(this, key))); }
@at loop0.pre
lemma_map_begin(o.overrides);
assert(passed(o, i) =~= Set::empty());
@loop 0
@inv
- this == old_this && key == old_key && timestamp == old_timestamp && knows(this, key) && listed(this, key) && o == recall(this, key) && o.overrides.dom().finite()
- i.is_some() ==> o.overrides.dom().contains(i->0)
- ordered() ==> best_of(o, passed(o, i), timestamp, this.decayExponent_, picked(candidate, forceHighScoreOverride), score)
@ens
- ordered() ==> best_of(o, o.overrides.dom(), timestamp, this.decayExponent_, picked(candidate, forceHighScoreOverride), score)
@dec
map_left(o.overrides, i)
@at loop0.begin
lemma_map_next(o.overrides, i);
assert(passed(o, map_next(o.overrides, i)) =~= passed(o, i).insert(i->0));
if ordered() { lemma_better(o, passed(o, i), timestamp, this.decayExponent_, picked(candidate, forceHighScoreOverride), score, i->0); }
@at loop0.exit
assert(passed(o, i) =~= o.overrides.dom());
if ordered() { assert(best_of(o, o.overrides.dom(), timestamp, this.decayExponent_, picked(candidate, forceHighScoreOverride), score)); }
@at return
if !knows(old_this, old_key) {
    assert(o.overrides.dom() =~= Set::empty());
    assert(best_of(o, o.overrides.dom(), timestamp, this.decayExponent_, ret, dlit(0)));
}
@fn UserOverrideModel_observe/observeERKNSt
@requires
- uom_ok(this)
@ensures
- uom_ok(this_post)
- contexts(this_post) =~= remember(this, key, candidate, timestamp, forceHighScoreOverride)
- this_post.capacity_ == this.capacity_ && this_post.decayExponent_ == this.decayExponent_
@at entry
lemma_ids(this.lruList_);
if knows(this, key) { assert(listed(this, key)); assert(indexed(this, place(this, key))); }
@at after lruMap_.insert
lemma_new(old_this, this, key, keyValuePair.1);
lemma_ids(this.lruList_);
@ghost
full: UserOverrideModel = this
@at before --lastKeyValuePair
full = this;
@at after lruList_.pop_back
lemma_drop(full, this);
@at after lruList_.splice
lemma_ids(old_this.lruList_);
assert(this.lruList_.order.contains(this.lruMap_[key])) by { let l = old_this.lruList_; let b = llist_begin(l); if b != this.lruMap_[key] { let o2 = l.order.remove(l.order.index_of(this.lruMap_[key])); let p = llist_at(LList { order: o2, ..l }, b); assert(o2.contains(b)) by { assert(o2[0] == b); } assert(this.lruList_.order[p] == this.lruMap_[key]); } }
@at return
if knows(old_this, old_key) { lemma_move(old_this, this, key, recall(this, key)); }
