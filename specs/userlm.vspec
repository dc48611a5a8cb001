@source src/Engine/UserPhrasesLM.cpp McBopomofo
@source src/Engine/PhraseReplacementMap.cpp McBopomofo
@source src/Engine/UserPhrasesLM.cpp Formosa
@option broadcast lemma_get_or_insert
@import blob
@import mmf
@prelude
// the (key, value) pairs the documented grammar gives from position p on are folded into the tables
pub open spec fn get_rows(m: Map<Seq<u8>, Seq<Seq<u8>>>, r: Seq<u8>) -> Seq<Seq<u8>> {
    if m.dom().contains(r) { m[r] } else { Seq::empty() }
}
pub open spec fn user_unigrams(r: Seq<Seq<u8>>) -> Seq<LanguageModel_Unigram> { r.map_values(|v: Seq<u8>| LanguageModel_Unigram { value_: v, score_: dlit(0) }) }
pub open spec fn utab(b: Seq<u8>, p: int, m: Map<Seq<u8>, Seq<Seq<u8>>>) -> Map<Seq<u8>, Seq<Seq<u8>>>
    decreases b.len() - p
{
    match entry(b, p) {
        Entry::Pair { k0, k1, v0, v1, next } => if p < next <= b.len() {
            utab(b, next, m.insert(b.subrange(v0, v1), get_rows(m, b.subrange(v0, v1)).push(b.subrange(k0, k1))))
        } else { m },
        _ => m,
    }
}
pub open spec fn rtab(b: Seq<u8>, p: int, m: Map<Seq<u8>, Seq<u8>>) -> Map<Seq<u8>, Seq<u8>>
    decreases b.len() - p
{
    match entry(b, p) {
        Entry::Pair { k0, k1, v0, v1, next } => if p < next <= b.len() {
            rtab(b, next, m.insert(b.subrange(k0, k1), b.subrange(v0, v1)))
        } else { m },
        _ => m,
    }
}
pub open spec fn user_table(b: Seq<u8>) -> Map<Seq<u8>, Seq<Seq<u8>>> { utab(b, 0, Map::empty()) }
pub open spec fn repl_table(b: Seq<u8>) -> Map<Seq<u8>, Seq<u8>> { rtab(b, 0, Map::empty()) }
// the phrases the text gives for a reading, in the order of the text
pub open spec fn rows(b: Seq<u8>, p: int, r: Seq<u8>) -> Seq<Seq<u8>>
    decreases b.len() - p
{
    match entry(b, p) {
        Entry::Pair { k0, k1, v0, v1, next } => if p < next <= b.len() {
            (if b.subrange(v0, v1) == r { seq![b.subrange(k0, k1)] } else { Seq::empty() }) + rows(b, next, r)
        } else { Seq::empty() },
        _ => Seq::empty(),
    }
}
// the replacement the last line about a phrase states
pub open spec fn last_value(b: Seq<u8>, p: int, k: Seq<u8>, d: Seq<u8>) -> Seq<u8>
    decreases b.len() - p
{
    match entry(b, p) {
        Entry::Pair { k0, k1, v0, v1, next } => if p < next <= b.len() {
            last_value(b, next, k, if b.subrange(k0, k1) == k { b.subrange(v0, v1) } else { d })
        } else { d },
        _ => d,
    }
}
pub open spec fn get_value(m: Map<Seq<u8>, Seq<u8>>, k: Seq<u8>) -> Seq<u8> { if m.dom().contains(k) { m[k] } else { Seq::empty() } }
pub proof fn lemma_user_table(b: Seq<u8>, p: int, m: Map<Seq<u8>, Seq<Seq<u8>>>, r: Seq<u8>)
    requires forall|x: Seq<u8>| #[trigger] m.dom().contains(x) ==> m[x].len() > 0
    ensures get_rows(utab(b, p, m), r) =~= get_rows(m, r) + rows(b, p, r),
        utab(b, p, m).dom().contains(r) <==> m.dom().contains(r) || rows(b, p, r).len() > 0,
    decreases b.len() - p
{
    match entry(b, p) {
        Entry::Pair { k0, k1, v0, v1, next } => if p < next <= b.len() {
            let m2 = m.insert(b.subrange(v0, v1), get_rows(m, b.subrange(v0, v1)).push(b.subrange(k0, k1)));
            lemma_user_table(b, next, m2, r);
        },
        _ => {},
    }
}
// the table holds for every reading exactly the rows of the text, in order
pub proof fn lemma_user_table_exact(b: Seq<u8>, r: Seq<u8>)
    ensures get_rows(user_table(b), r) =~= rows(b, 0, r), user_table(b).dom().contains(r) <==> rows(b, 0, r).len() > 0
{ lemma_user_table(b, 0, Map::empty(), r); }
pub proof fn lemma_repl_table(b: Seq<u8>, p: int, m: Map<Seq<u8>, Seq<u8>>, k: Seq<u8>)
    ensures get_value(rtab(b, p, m), k) =~= last_value(b, p, k, get_value(m, k))
    decreases b.len() - p
{
    match entry(b, p) {
        Entry::Pair { k0, k1, v0, v1, next } => if p < next <= b.len() {
            lemma_repl_table(b, next, m.insert(b.subrange(k0, k1), b.subrange(v0, v1)), k);
        },
        _ => {},
    }
}
pub proof fn lemma_repl_table_exact(b: Seq<u8>, k: Seq<u8>)
    ensures get_value(repl_table(b), k) =~= last_value(b, 0, k, Seq::empty())
{ lemma_repl_table(b, 0, Map::empty(), k); }
pub open spec fn buffer_ok(p: It<u8>, n: int) -> bool { !p.nil && p.off == 0 && n == p.buf.len() }

@fn UserPhrasesLM_load
@requires
- data.nil || length == 0 || buffer_ok(data, length)
@ensures
- ret == !(data.nil || length == 0)
- ret ==> this_post.keyRowMap == user_table(data.buf)
- !ret ==> this_post.keyRowMap == this.keyRowMap
- this_post.mmapedFile_ == this.mmapedFile_
@loop 0
@inv
- this.mmapedFile_ == old_this.mmapedFile_
- reader_ok(reader) && reader.current_.buf == data.buf && reader.state_ != KeyValueBlobReader_State_ERROR()
- utab(data.buf, reader.current_.off, this.keyRowMap) == user_table(data.buf)
@dec
data.buf.len() - reader.current_.off

@fn UserPhrasesLM_open
@opt world
@requires
- ok(this.mmapedFile_, w)
@ensures
- ret ==> closed(this.mmapedFile_) && owns(this_post.mmapedFile_, w_post) && same(without(this_post.mmapedFile_, w_post), w) && !w.fds.dom().contains(this_post.mmapedFile_.fd_)
- ret ==> w.fs.dom().contains(cpath(path)) && this_post.keyRowMap == user_table(w.fs[cpath(path)].content)
- closed(this.mmapedFile_) && readable(w, cpath(path)) ==> ret
- !ret ==> this_post.keyRowMap == this.keyRowMap && same(w_post, w) && (this_post.mmapedFile_ == this.mmapedFile_ || closed(this.mmapedFile_) && closed(this_post.mmapedFile_))

@fn UserPhrasesLM_close
@opt world
@requires
- ok(this.mmapedFile_, w)
@ensures
- this_post.keyRowMap == Map::<Seq<u8>, Seq<Seq<u8>>>::empty()
- closed(this_post.mmapedFile_) && same(w_post, without(this.mmapedFile_, w))

@fn UserPhrasesLM_getUnigrams
@ensures
- ret =~= user_unigrams(get_rows(this.keyRowMap, key))
- this_post == this
@loop 0
@inv
- v.len() == idx0
- forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).value_ == rng0[i] && v[i].score_ == dlit(0)

@fn UserPhrasesLM_hasUnigrams
@ensures
- ret == this.keyRowMap.dom().contains(key)
- this_post == this

@fn PhraseReplacementMap_load
@requires
- data.nil || length == 0 || buffer_ok(data, length)
@ensures
- ret == !(data.nil || length == 0)
- ret ==> this_post.keyValueMap_ == repl_table(data.buf)
- !ret ==> this_post.keyValueMap_ == this.keyValueMap_
- this_post.mmapedFile_ == this.mmapedFile_
@loop 0
@inv
- this.mmapedFile_ == old_this.mmapedFile_
- reader_ok(reader) && reader.current_.buf == data.buf && reader.state_ != KeyValueBlobReader_State_ERROR()
- rtab(data.buf, reader.current_.off, this.keyValueMap_) == repl_table(data.buf)
@dec
data.buf.len() - reader.current_.off

@fn PhraseReplacementMap_open
@opt world
@requires
- ok(this.mmapedFile_, w)
@ensures
- ret ==> closed(this.mmapedFile_) && owns(this_post.mmapedFile_, w_post) && same(without(this_post.mmapedFile_, w_post), w) && !w.fds.dom().contains(this_post.mmapedFile_.fd_)
- ret ==> w.fs.dom().contains(cpath(path)) && this_post.keyValueMap_ == repl_table(w.fs[cpath(path)].content)
- closed(this.mmapedFile_) && readable(w, cpath(path)) ==> ret
- !ret ==> this_post.keyValueMap_ == this.keyValueMap_ && same(w_post, w) && (this_post.mmapedFile_ == this.mmapedFile_ || closed(this.mmapedFile_) && closed(this_post.mmapedFile_))

@fn PhraseReplacementMap_close
@opt world
@requires
- ok(this.mmapedFile_, w)
@ensures
- this_post.keyValueMap_ == Map::<Seq<u8>, Seq<u8>>::empty()
- closed(this_post.mmapedFile_) && same(w_post, without(this.mmapedFile_, w))

@fn PhraseReplacementMap_valueForKey
@ensures
- ret == get_value(this.keyValueMap_, key)
