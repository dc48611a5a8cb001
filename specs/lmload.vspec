@source src/Engine/McBopomofoLM.cpp McBopomofo
@option broadcast lemma_close_a, lemma_open_a, lemma_close_b, lemma_open_b, lemma_close_c, lemma_open_c, lemma_close_d, lemma_open_d, lemma_close_e, lemma_open_e, lemma_same5
@source src/Engine/ParselessLM.cpp McBopomofo
@source src/Engine/AssociatedPhrasesV2.cpp McBopomofo
@import userlm
@import pdb
@prelude
pub open spec fn has(o: MemoryMappedFile, x: It<u8>) -> int { if !o.data_.nil && o.data_ == x { 1 } else { 0 } }
pub open spec fn fds_apart(o: MemoryMappedFile, p: MemoryMappedFile) -> bool { o.data_.nil || p.data_.nil || o.fd_ != p.fd_ }
// five objects that own different descriptors and mappings
pub open spec fn ok5(a: MemoryMappedFile, b: MemoryMappedFile, c: MemoryMappedFile, d: MemoryMappedFile, e: MemoryMappedFile, w: World) -> bool {
    ok(a, w) && ok(b, w) && ok(c, w) && ok(d, w) && ok(e, w)
    && fds_apart(a, b) && fds_apart(a, c) && fds_apart(a, d) && fds_apart(a, e) && fds_apart(b, c) && fds_apart(b, d) && fds_apart(b, e) && fds_apart(c, d) && fds_apart(c, e) && fds_apart(d, e)
    && forall|x: It<u8>| has(a, x) + has(b, x) + has(c, x) + has(d, x) + has(e, x) <= #[trigger] w.maps.count(x)
}
pub open spec fn files_ok(lm: McBopomofoLM, w: World) -> bool {
    ok5(lm.userPhrases_.mmapedFile_, lm.excludedPhrases_.mmapedFile_, lm.phraseReplacement_.mmapedFile_, lm.languageModel_.mmapedFile_, lm.associatedPhrasesV2_.mmapedFile_, w)
}
pub open spec fn lm_parts(lm: McBopomofoLM) -> bool { (lm.languageModel_.db_ is Some ==> db_ok(lm.languageModel_.db_->0)) && (lm.associatedPhrasesV2_.db_ is Some ==> db_ok(lm.associatedPhrasesV2_.db_->0)) }
// closing one keeps the others
pub broadcast proof fn lemma_close_a(a: MemoryMappedFile, b: MemoryMappedFile, c: MemoryMappedFile, d: MemoryMappedFile, e: MemoryMappedFile, n: MemoryMappedFile, w: World, w2: World)
    requires #[trigger] ok5(a, b, c, d, e, w), #[trigger] closed(n), #[trigger] same(w2, without(a, w))
    ensures ok5(n, b, c, d, e, w2)
{
    assert forall|x: It<u8>| has(n, x) + has(b, x) + has(c, x) + has(d, x) + has(e, x) <= #[trigger] w2.maps.count(x) by { assert(w.maps.count(x) >= has(a, x) + has(b, x) + has(c, x) + has(d, x) + has(e, x)); assert(w2.maps.count(x) == without(a, w).maps.count(x)); }
    assert(w2.maps.count(b.data_) >= has(b, b.data_)); assert(w2.maps.count(c.data_) >= has(c, c.data_)); assert(w2.maps.count(d.data_) >= has(d, d.data_)); assert(w2.maps.count(e.data_) >= has(e, e.data_));
}
// opening one keeps the others
pub broadcast proof fn lemma_open_a(a: MemoryMappedFile, b: MemoryMappedFile, c: MemoryMappedFile, d: MemoryMappedFile, e: MemoryMappedFile, n: MemoryMappedFile, w: World, w2: World)
    requires #[trigger] ok5(a, b, c, d, e, w), closed(a), owns(n, w2), #[trigger] same(without(n, w2), w), !w.fds.dom().contains(n.fd_)
    ensures ok5(n, b, c, d, e, w2)
{
    assert forall|x: It<u8>| has(n, x) + has(b, x) + has(c, x) + has(d, x) + has(e, x) <= #[trigger] w2.maps.count(x) by { assert(w.maps.count(x) >= has(a, x) + has(b, x) + has(c, x) + has(d, x) + has(e, x)); assert(without(n, w2).maps.count(x) == w.maps.count(x)); }
    assert(w2.maps.count(b.data_) >= has(b, b.data_)); if !b.data_.nil { assert(without(n, w2).fds.dom().contains(b.fd_) && without(n, w2).fds[b.fd_] == w.fds[b.fd_]); } assert(w2.maps.count(c.data_) >= has(c, c.data_)); if !c.data_.nil { assert(without(n, w2).fds.dom().contains(c.fd_) && without(n, w2).fds[c.fd_] == w.fds[c.fd_]); } assert(w2.maps.count(d.data_) >= has(d, d.data_)); if !d.data_.nil { assert(without(n, w2).fds.dom().contains(d.fd_) && without(n, w2).fds[d.fd_] == w.fds[d.fd_]); } assert(w2.maps.count(e.data_) >= has(e, e.data_)); if !e.data_.nil { assert(without(n, w2).fds.dom().contains(e.fd_) && without(n, w2).fds[e.fd_] == w.fds[e.fd_]); }
}
// closing one keeps the others
pub broadcast proof fn lemma_close_b(a: MemoryMappedFile, b: MemoryMappedFile, c: MemoryMappedFile, d: MemoryMappedFile, e: MemoryMappedFile, n: MemoryMappedFile, w: World, w2: World)
    requires #[trigger] ok5(a, b, c, d, e, w), #[trigger] closed(n), #[trigger] same(w2, without(b, w))
    ensures ok5(a, n, c, d, e, w2)
{
    assert forall|x: It<u8>| has(a, x) + has(n, x) + has(c, x) + has(d, x) + has(e, x) <= #[trigger] w2.maps.count(x) by { assert(w.maps.count(x) >= has(a, x) + has(b, x) + has(c, x) + has(d, x) + has(e, x)); assert(w2.maps.count(x) == without(b, w).maps.count(x)); }
    assert(w2.maps.count(a.data_) >= has(a, a.data_)); assert(w2.maps.count(c.data_) >= has(c, c.data_)); assert(w2.maps.count(d.data_) >= has(d, d.data_)); assert(w2.maps.count(e.data_) >= has(e, e.data_));
}
// opening one keeps the others
pub broadcast proof fn lemma_open_b(a: MemoryMappedFile, b: MemoryMappedFile, c: MemoryMappedFile, d: MemoryMappedFile, e: MemoryMappedFile, n: MemoryMappedFile, w: World, w2: World)
    requires #[trigger] ok5(a, b, c, d, e, w), closed(b), owns(n, w2), #[trigger] same(without(n, w2), w), !w.fds.dom().contains(n.fd_)
    ensures ok5(a, n, c, d, e, w2)
{
    assert forall|x: It<u8>| has(a, x) + has(n, x) + has(c, x) + has(d, x) + has(e, x) <= #[trigger] w2.maps.count(x) by { assert(w.maps.count(x) >= has(a, x) + has(b, x) + has(c, x) + has(d, x) + has(e, x)); assert(without(n, w2).maps.count(x) == w.maps.count(x)); }
    assert(w2.maps.count(a.data_) >= has(a, a.data_)); if !a.data_.nil { assert(without(n, w2).fds.dom().contains(a.fd_) && without(n, w2).fds[a.fd_] == w.fds[a.fd_]); } assert(w2.maps.count(c.data_) >= has(c, c.data_)); if !c.data_.nil { assert(without(n, w2).fds.dom().contains(c.fd_) && without(n, w2).fds[c.fd_] == w.fds[c.fd_]); } assert(w2.maps.count(d.data_) >= has(d, d.data_)); if !d.data_.nil { assert(without(n, w2).fds.dom().contains(d.fd_) && without(n, w2).fds[d.fd_] == w.fds[d.fd_]); } assert(w2.maps.count(e.data_) >= has(e, e.data_)); if !e.data_.nil { assert(without(n, w2).fds.dom().contains(e.fd_) && without(n, w2).fds[e.fd_] == w.fds[e.fd_]); }
}
// closing one keeps the others
pub broadcast proof fn lemma_close_c(a: MemoryMappedFile, b: MemoryMappedFile, c: MemoryMappedFile, d: MemoryMappedFile, e: MemoryMappedFile, n: MemoryMappedFile, w: World, w2: World)
    requires #[trigger] ok5(a, b, c, d, e, w), #[trigger] closed(n), #[trigger] same(w2, without(c, w))
    ensures ok5(a, b, n, d, e, w2)
{
    assert forall|x: It<u8>| has(a, x) + has(b, x) + has(n, x) + has(d, x) + has(e, x) <= #[trigger] w2.maps.count(x) by { assert(w.maps.count(x) >= has(a, x) + has(b, x) + has(c, x) + has(d, x) + has(e, x)); assert(w2.maps.count(x) == without(c, w).maps.count(x)); }
    assert(w2.maps.count(a.data_) >= has(a, a.data_)); assert(w2.maps.count(b.data_) >= has(b, b.data_)); assert(w2.maps.count(d.data_) >= has(d, d.data_)); assert(w2.maps.count(e.data_) >= has(e, e.data_));
}
// opening one keeps the others
pub broadcast proof fn lemma_open_c(a: MemoryMappedFile, b: MemoryMappedFile, c: MemoryMappedFile, d: MemoryMappedFile, e: MemoryMappedFile, n: MemoryMappedFile, w: World, w2: World)
    requires #[trigger] ok5(a, b, c, d, e, w), closed(c), owns(n, w2), #[trigger] same(without(n, w2), w), !w.fds.dom().contains(n.fd_)
    ensures ok5(a, b, n, d, e, w2)
{
    assert forall|x: It<u8>| has(a, x) + has(b, x) + has(n, x) + has(d, x) + has(e, x) <= #[trigger] w2.maps.count(x) by { assert(w.maps.count(x) >= has(a, x) + has(b, x) + has(c, x) + has(d, x) + has(e, x)); assert(without(n, w2).maps.count(x) == w.maps.count(x)); }
    assert(w2.maps.count(a.data_) >= has(a, a.data_)); if !a.data_.nil { assert(without(n, w2).fds.dom().contains(a.fd_) && without(n, w2).fds[a.fd_] == w.fds[a.fd_]); } assert(w2.maps.count(b.data_) >= has(b, b.data_)); if !b.data_.nil { assert(without(n, w2).fds.dom().contains(b.fd_) && without(n, w2).fds[b.fd_] == w.fds[b.fd_]); } assert(w2.maps.count(d.data_) >= has(d, d.data_)); if !d.data_.nil { assert(without(n, w2).fds.dom().contains(d.fd_) && without(n, w2).fds[d.fd_] == w.fds[d.fd_]); } assert(w2.maps.count(e.data_) >= has(e, e.data_)); if !e.data_.nil { assert(without(n, w2).fds.dom().contains(e.fd_) && without(n, w2).fds[e.fd_] == w.fds[e.fd_]); }
}
// closing one keeps the others
pub broadcast proof fn lemma_close_d(a: MemoryMappedFile, b: MemoryMappedFile, c: MemoryMappedFile, d: MemoryMappedFile, e: MemoryMappedFile, n: MemoryMappedFile, w: World, w2: World)
    requires #[trigger] ok5(a, b, c, d, e, w), #[trigger] closed(n), #[trigger] same(w2, without(d, w))
    ensures ok5(a, b, c, n, e, w2)
{
    assert forall|x: It<u8>| has(a, x) + has(b, x) + has(c, x) + has(n, x) + has(e, x) <= #[trigger] w2.maps.count(x) by { assert(w.maps.count(x) >= has(a, x) + has(b, x) + has(c, x) + has(d, x) + has(e, x)); assert(w2.maps.count(x) == without(d, w).maps.count(x)); }
    assert(w2.maps.count(a.data_) >= has(a, a.data_)); assert(w2.maps.count(b.data_) >= has(b, b.data_)); assert(w2.maps.count(c.data_) >= has(c, c.data_)); assert(w2.maps.count(e.data_) >= has(e, e.data_));
}
// opening one keeps the others
pub broadcast proof fn lemma_open_d(a: MemoryMappedFile, b: MemoryMappedFile, c: MemoryMappedFile, d: MemoryMappedFile, e: MemoryMappedFile, n: MemoryMappedFile, w: World, w2: World)
    requires #[trigger] ok5(a, b, c, d, e, w), closed(d), owns(n, w2), #[trigger] same(without(n, w2), w), !w.fds.dom().contains(n.fd_)
    ensures ok5(a, b, c, n, e, w2)
{
    assert forall|x: It<u8>| has(a, x) + has(b, x) + has(c, x) + has(n, x) + has(e, x) <= #[trigger] w2.maps.count(x) by { assert(w.maps.count(x) >= has(a, x) + has(b, x) + has(c, x) + has(d, x) + has(e, x)); assert(without(n, w2).maps.count(x) == w.maps.count(x)); }
    assert(w2.maps.count(a.data_) >= has(a, a.data_)); if !a.data_.nil { assert(without(n, w2).fds.dom().contains(a.fd_) && without(n, w2).fds[a.fd_] == w.fds[a.fd_]); } assert(w2.maps.count(b.data_) >= has(b, b.data_)); if !b.data_.nil { assert(without(n, w2).fds.dom().contains(b.fd_) && without(n, w2).fds[b.fd_] == w.fds[b.fd_]); } assert(w2.maps.count(c.data_) >= has(c, c.data_)); if !c.data_.nil { assert(without(n, w2).fds.dom().contains(c.fd_) && without(n, w2).fds[c.fd_] == w.fds[c.fd_]); } assert(w2.maps.count(e.data_) >= has(e, e.data_)); if !e.data_.nil { assert(without(n, w2).fds.dom().contains(e.fd_) && without(n, w2).fds[e.fd_] == w.fds[e.fd_]); }
}
// closing one keeps the others
pub broadcast proof fn lemma_close_e(a: MemoryMappedFile, b: MemoryMappedFile, c: MemoryMappedFile, d: MemoryMappedFile, e: MemoryMappedFile, n: MemoryMappedFile, w: World, w2: World)
    requires #[trigger] ok5(a, b, c, d, e, w), #[trigger] closed(n), #[trigger] same(w2, without(e, w))
    ensures ok5(a, b, c, d, n, w2)
{
    assert forall|x: It<u8>| has(a, x) + has(b, x) + has(c, x) + has(d, x) + has(n, x) <= #[trigger] w2.maps.count(x) by { assert(w.maps.count(x) >= has(a, x) + has(b, x) + has(c, x) + has(d, x) + has(e, x)); assert(w2.maps.count(x) == without(e, w).maps.count(x)); }
    assert(w2.maps.count(a.data_) >= has(a, a.data_)); assert(w2.maps.count(b.data_) >= has(b, b.data_)); assert(w2.maps.count(c.data_) >= has(c, c.data_)); assert(w2.maps.count(d.data_) >= has(d, d.data_));
}
// opening one keeps the others
pub broadcast proof fn lemma_open_e(a: MemoryMappedFile, b: MemoryMappedFile, c: MemoryMappedFile, d: MemoryMappedFile, e: MemoryMappedFile, n: MemoryMappedFile, w: World, w2: World)
    requires #[trigger] ok5(a, b, c, d, e, w), closed(e), owns(n, w2), #[trigger] same(without(n, w2), w), !w.fds.dom().contains(n.fd_)
    ensures ok5(a, b, c, d, n, w2)
{
    assert forall|x: It<u8>| has(a, x) + has(b, x) + has(c, x) + has(d, x) + has(n, x) <= #[trigger] w2.maps.count(x) by { assert(w.maps.count(x) >= has(a, x) + has(b, x) + has(c, x) + has(d, x) + has(e, x)); assert(without(n, w2).maps.count(x) == w.maps.count(x)); }
    assert(w2.maps.count(a.data_) >= has(a, a.data_)); if !a.data_.nil { assert(without(n, w2).fds.dom().contains(a.fd_) && without(n, w2).fds[a.fd_] == w.fds[a.fd_]); } assert(w2.maps.count(b.data_) >= has(b, b.data_)); if !b.data_.nil { assert(without(n, w2).fds.dom().contains(b.fd_) && without(n, w2).fds[b.fd_] == w.fds[b.fd_]); } assert(w2.maps.count(c.data_) >= has(c, c.data_)); if !c.data_.nil { assert(without(n, w2).fds.dom().contains(c.fd_) && without(n, w2).fds[c.fd_] == w.fds[c.fd_]); } assert(w2.maps.count(d.data_) >= has(d, d.data_)); if !d.data_.nil { assert(without(n, w2).fds.dom().contains(d.fd_) && without(n, w2).fds[d.fd_] == w.fds[d.fd_]); }
}
pub broadcast proof fn lemma_same5(a: MemoryMappedFile, b: MemoryMappedFile, c: MemoryMappedFile, d: MemoryMappedFile, e: MemoryMappedFile, w: World, w2: World)
    requires #[trigger] ok5(a, b, c, d, e, w), #[trigger] same(w2, w)
    ensures ok5(a, b, c, d, e, w2)
{ }
// what is served after loading a path: the table of its content, or nothing
pub open spec fn served(t: Map<Seq<u8>, Seq<Seq<u8>>>, path: It<u8>, w: World) -> bool {
    (path.nil || !readable(w, cpath(path))) && t == Map::<Seq<u8>, Seq<Seq<u8>>>::empty() || !path.nil && w.fs.dom().contains(cpath(path)) && t == user_table(w.fs[cpath(path)].content)
}

pub open spec fn rserved(t: Map<Seq<u8>, Seq<u8>>, path: It<u8>, w: World) -> bool {
    !readable(w, cpath(path)) && t == Map::<Seq<u8>, Seq<u8>>::empty() || w.fs.dom().contains(cpath(path)) && t == repl_table(w.fs[cpath(path)].content)
}

// a table over the mapped content of the file at the path: all of it, or nothing of a file that does not say it is sorted
pub open spec fn table_of(d: Option<ParselessPhraseDB>, path: It<u8>, w: World) -> bool {
    d is Some && w.fs.dom().contains(cpath(path)) && db_ok(d->0) && d->0.begin_.buf =~= w.fs[cpath(path)].content
    && (prefixed(w.fs[cpath(path)].content, c_SORTED_PRAGMA_HEADER()) ==> d->0.begin_.off == c_SORTED_PRAGMA_HEADER().len() && d->0.end_.off == w.fs[cpath(path)].content.len())
    && (!prefixed(w.fs[cpath(path)].content, c_SORTED_PRAGMA_HEADER()) ==> d->0.begin_.off == d->0.end_.off)
}
pub open spec fn tserved(d: Option<ParselessPhraseDB>, path: It<u8>, w: World) -> bool { !readable(w, cpath(path)) && d is None || table_of(d, path, w) }

@fn McBopomofoLM_loadUserPhrases/EPKcS
@opt world
@requires
- files_ok(this, w)
@ensures
- served(this_post.userPhrases_.keyRowMap, userPhrasesDataPath, w) && served(this_post.excludedPhrases_.keyRowMap, excludedPhrasesDataPath, w)
- files_ok(this_post, w_post) && w_post.fs == w.fs && w_post.healthy == w.healthy
- this_post.phraseReplacement_ == this.phraseReplacement_ && this_post.phraseReplacementEnabled_ == this.phraseReplacementEnabled_ && this_post.languageModel_ == this.languageModel_ && this_post.associatedPhrasesV2_ == this.associatedPhrasesV2_

@fn McBopomofoLM_loadPhraseReplacementMap/EPKc
@opt world
@requires
- files_ok(this, w)
@ensures
- files_ok(this_post, w_post) && w_post.fs == w.fs && w_post.healthy == w.healthy
- phraseReplacementPath.nil ==> this_post == this && same(w_post, w)
- !phraseReplacementPath.nil ==> rserved(this_post.phraseReplacement_.keyValueMap_, phraseReplacementPath, w)
- this_post.userPhrases_ == this.userPhrases_ && this_post.excludedPhrases_ == this.excludedPhrases_ && this_post.phraseReplacementEnabled_ == this.phraseReplacementEnabled_ && this_post.languageModel_ == this.languageModel_ && this_post.associatedPhrasesV2_ == this.associatedPhrasesV2_

@fn McBopomofoLM_loadUserPhrases/EPKcm
@opt world
@requires
- files_ok(this, w)
- data.nil || length == 0 || buffer_ok(data, length)
@ensures
- files_ok(this_post, w_post) && w_post.fs == w.fs && w_post.healthy == w.healthy
- this_post.userPhrases_.keyRowMap == (if data.nil || length == 0 { Map::<Seq<u8>, Seq<Seq<u8>>>::empty() } else { user_table(data.buf) })
- this_post.excludedPhrases_ == this.excludedPhrases_ && this_post.phraseReplacement_ == this.phraseReplacement_

@fn McBopomofoLM_loadExcludedPhrases
@opt world
@requires
- files_ok(this, w)
- data.nil || length == 0 || buffer_ok(data, length)
@ensures
- files_ok(this_post, w_post) && w_post.fs == w.fs && w_post.healthy == w.healthy
- this_post.excludedPhrases_.keyRowMap == (if data.nil || length == 0 { Map::<Seq<u8>, Seq<Seq<u8>>>::empty() } else { user_table(data.buf) })
- this_post.userPhrases_ == this.userPhrases_ && this_post.phraseReplacement_ == this.phraseReplacement_

@fn McBopomofoLM_loadPhraseReplacementMap/EPKcm
@opt world
@requires
- files_ok(this, w)
- data.nil || length == 0 || buffer_ok(data, length)
@ensures
- files_ok(this_post, w_post) && w_post.fs == w.fs && w_post.healthy == w.healthy
- this_post.phraseReplacement_.keyValueMap_ == (if data.nil || length == 0 { Map::<Seq<u8>, Seq<u8>>::empty() } else { repl_table(data.buf) })
- this_post.userPhrases_ == this.userPhrases_ && this_post.excludedPhrases_ == this.excludedPhrases_

@fn ParselessLM_open/EPKc
@opt world
@requires
- ok(this.mmapedFile_, w)
@ensures
- ok(this_post.mmapedFile_, w_post) && w_post.fs == w.fs && w_post.healthy == w.healthy
- ret ==> closed(this.mmapedFile_) && owns(this_post.mmapedFile_, w_post) && same(without(this_post.mmapedFile_, w_post), w) && !w.fds.dom().contains(this_post.mmapedFile_.fd_)
- ret ==> table_of(this_post.db_, path, w)
- !ret ==> (this_post.mmapedFile_ == this.mmapedFile_ || closed(this.mmapedFile_) && closed(this_post.mmapedFile_)) && this_post.db_ == this.db_ && same(w_post, w)
- closed(this.mmapedFile_) && readable(w, cpath(path)) ==> ret

@fn ParselessLM_close
@opt world
@requires
- ok(this.mmapedFile_, w)
@ensures
- closed(this_post.mmapedFile_) && this_post.db_ is None && same(w_post, without(this.mmapedFile_, w))

@fn ParselessLM_open/unique
@ensures
- ret == (this.db_ is None)
- this_post.mmapedFile_ == this.mmapedFile_ && this_post.db_ == (if ret { db } else { this.db_ })

@fn AssociatedPhrasesV2_open/EPKc
@opt world
@requires
- ok(this.mmapedFile_, w)
@ensures
- ok(this_post.mmapedFile_, w_post) && w_post.fs == w.fs && w_post.healthy == w.healthy
- ret ==> this.db_ is None && closed(this.mmapedFile_) && owns(this_post.mmapedFile_, w_post) && same(without(this_post.mmapedFile_, w_post), w) && !w.fds.dom().contains(this_post.mmapedFile_.fd_)
- ret ==> table_of(this_post.db_, path, w)
- !ret ==> (this_post.mmapedFile_ == this.mmapedFile_ || closed(this.mmapedFile_) && closed(this_post.mmapedFile_)) && this_post.db_ == this.db_ && same(w_post, w)
- closed(this.mmapedFile_) && this.db_ is None && readable(w, cpath(path)) ==> ret

@fn AssociatedPhrasesV2_close
@opt world
@requires
- ok(this.mmapedFile_, w)
@ensures
- closed(this_post.mmapedFile_) && this_post.db_ is None && same(w_post, without(this.mmapedFile_, w))

@fn AssociatedPhrasesV2_open/unique
@ensures
- ret == (this.db_ is None)
- this_post.mmapedFile_ == this.mmapedFile_ && this_post.db_ == (if ret { db } else { this.db_ })

@fn McBopomofoLM_loadLanguageModel/EPKc
@opt world
@requires
- files_ok(this, w)
@ensures
- files_ok(this_post, w_post) && w_post.fs == w.fs && w_post.healthy == w.healthy
- languageModelDataPath.nil ==> this_post == this && same(w_post, w)
- !languageModelDataPath.nil ==> tserved(this_post.languageModel_.db_, languageModelDataPath, w)
- this_post.userPhrases_ == this.userPhrases_ && this_post.excludedPhrases_ == this.excludedPhrases_ && this_post.phraseReplacement_ == this.phraseReplacement_ && this_post.phraseReplacementEnabled_ == this.phraseReplacementEnabled_ && this_post.associatedPhrasesV2_ == this.associatedPhrasesV2_

@fn McBopomofoLM_loadAssociatedPhrasesV2/EPKc
@opt world
@requires
- files_ok(this, w)
@ensures
- files_ok(this_post, w_post) && w_post.fs == w.fs && w_post.healthy == w.healthy
- associatedPhrasesPath.nil ==> this_post == this && same(w_post, w)
- !associatedPhrasesPath.nil ==> tserved(this_post.associatedPhrasesV2_.db_, associatedPhrasesPath, w)
- this_post.userPhrases_ == this.userPhrases_ && this_post.excludedPhrases_ == this.excludedPhrases_ && this_post.phraseReplacement_ == this.phraseReplacement_ && this_post.phraseReplacementEnabled_ == this.phraseReplacementEnabled_ && this_post.languageModel_ == this.languageModel_

@fn McBopomofoLM_isDataModelLoaded
@ensures
- ret == (this.languageModel_.db_ is Some)
