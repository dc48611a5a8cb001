@source src/Engine/KeyValueBlobReader.cpp McBopomofo
@option broadcast lemma_scan_ext
@prelude
// ---- documented grammar -------------------------------------------------------------
pub open spec fn is_nl(c: int) -> bool { c == 10 || c == 13 }
pub open spec fn is_bl(c: int) -> bool { c == 32 || c == 9 }
pub open spec fn is_content(c: int) -> bool { !is_bl(c) && !is_nl(c) }
// the text ends at the end of the buffer or at the first NUL
pub open spec fn at_end(b: Seq<u8>, p: int) -> bool { p >= b.len() || b[p] == 0 }
// first position at or after p where the text ends or a byte satisfies `stop`
pub open spec fn scan(b: Seq<u8>, p: int, stop: spec_fn(int) -> bool) -> int
    decreases b.len() - p
{
    if at_end(b, p) || stop(b[p] as int) { p } else { scan(b, p + 1, stop) }
}
pub proof fn lemma_scan(b: Seq<u8>, p: int, stop: spec_fn(int) -> bool)
    requires 0 <= p <= b.len()
    ensures ({ let q = scan(b, p, stop); p <= q <= b.len() && (at_end(b, q) || stop(b[q] as int))
        && forall|k: int| p <= k < q ==> b[k] != 0 && !stop(#[trigger] b[k] as int) })
    decreases b.len() - p
{
    if at_end(b, p) || stop(b[p] as int) { } else { lemma_scan(b, p + 1, stop); }
}
pub proof fn lemma_scan_is(b: Seq<u8>, p: int, q: int, stop: spec_fn(int) -> bool)
    requires 0 <= p <= q <= b.len(), at_end(b, q) || stop(b[q] as int),
        forall|k: int| p <= k < q ==> b[k] != 0 && !stop(#[trigger] b[k] as int),
    ensures scan(b, p, stop) == q
    decreases q - p
{
    if p < q { assert(!at_end(b, p) && !stop(b[p] as int)); lemma_scan_is(b, p + 1, q, stop); }
}
pub broadcast proof fn lemma_scan_ext(b: Seq<u8>, p: int, f: spec_fn(int) -> bool, g: spec_fn(int) -> bool)
    requires forall|c: int| 0 <= c < 256 ==> #[trigger] f(c) == g(c), 0 <= p <= b.len()
    ensures #[trigger] scan(b, p, f) == #[trigger] scan(b, p, g)
    decreases b.len() - p
{
    if at_end(b, p) || f(b[p] as int) { } else { lemma_scan_ext(b, p + 1, f, g); }
}
pub enum Entry { End, Error, Pair { k0: int, k1: int, v0: int, v1: int, next: int } }
// what the documented format says is found when reading from position p
pub open spec fn entry(b: Seq<u8>, p: int) -> Entry
    decreases b.len() - p
{
    let q = scan(b, p, |c: int| is_content(c));
    if at_end(b, q) || q < p { Entry::End }
    else if b[q] == 35 {
        let r = scan(b, q, |c: int| is_nl(c));
        if at_end(b, r) || r <= q { Entry::End } else { entry(b, r) }
    } else {
        let k1 = scan(b, q, |c: int| !is_content(c));
        if at_end(b, k1) || !is_bl(b[k1] as int) { Entry::Error }
        else {
            let v0 = scan(b, k1, |c: int| !is_bl(c));
            if at_end(b, v0) || !is_content(b[v0] as int) { Entry::Error }
            else {
                let v1 = scan(b, v0, |c: int| !is_content(c));
                Entry::Pair { k0: q, k1: k1, v0: v0, v1: v1, next: scan(b, v1, |c: int| is_nl(c)) }
            }
        }
    }
}
pub open spec fn reader_ok(r: KeyValueBlobReader) -> bool {
    r.current_.buf =~= r.end_.buf && !r.current_.nil && !r.end_.nil
    && 0 <= r.current_.off <= r.end_.off && r.end_.off == r.end_.buf.len()
}
// same text, possibly further on
pub open spec fn moved(a: KeyValueBlobReader, b: KeyValueBlobReader) -> bool {
    reader_ok(b) && b.end_ == a.end_ && b.current_.buf == a.current_.buf && a.current_.off <= b.current_.off
}
pub open spec fn is_run(b: Seq<u8>, i: int, j: int) -> bool {
    0 <= i < j <= b.len() && forall|k: int| i <= k < j ==> b[k] != 0 && is_content(#[trigger] b[k] as int)
}
// what every entry looks like, independently of how it was found
pub proof fn lemma_entry(b: Seq<u8>, p: int)
    requires 0 <= p <= b.len()
    ensures
        entry(b, p) matches Entry::Pair { k0, k1, v0, v1, next } ==>
            p <= k0 && is_run(b, k0, k1) && k1 < v0 && is_run(b, v0, v1) && v1 <= next <= b.len()
            && b[k0] != 35
            && (forall|k: int| k1 <= k < v0 ==> is_bl(#[trigger] b[k] as int))
            && (v1 == b.len() || b[v1] == 0 || !is_content(b[v1] as int))
            && (next == b.len() || b[next] == 0 || is_nl(b[next] as int))
            && (forall|k: int| v1 <= k < next ==> !is_nl(#[trigger] b[k] as int)),
    decreases b.len() - p
{
    let q = scan(b, p, |c: int| is_content(c));
    lemma_scan(b, p, |c: int| is_content(c));
    if at_end(b, q) { return; }
    if b[q] == 35 {
        let r = scan(b, q, |c: int| is_nl(c));
        lemma_scan(b, q, |c: int| is_nl(c));
        if at_end(b, r) || r <= q { return; }
        lemma_entry(b, r);
        return;
    }
    let k1 = scan(b, q, |c: int| !is_content(c));
    lemma_scan(b, q, |c: int| !is_content(c));
    if at_end(b, k1) || !is_bl(b[k1] as int) { return; }
    let v0 = scan(b, k1, |c: int| !is_bl(c));
    lemma_scan(b, k1, |c: int| !is_bl(c));
    if at_end(b, v0) || !is_content(b[v0] as int) { return; }
    let v1 = scan(b, v0, |c: int| !is_content(c));
    lemma_scan(b, v0, |c: int| !is_content(c));
    lemma_scan(b, v1, |c: int| is_nl(c));
    assert(scan(b, q, |c: int| !is_content(c)) > q) by { assert(is_content(b[q] as int)); lemma_scan_step(b, q, |c: int| !is_content(c)); }
    assert(scan(b, k1, |c: int| !is_bl(c)) > k1) by { lemma_scan_step(b, k1, |c: int| !is_bl(c)); }
    assert(scan(b, v0, |c: int| !is_content(c)) > v0) by { lemma_scan_step(b, v0, |c: int| !is_content(c)); }
}
pub proof fn lemma_scan_step(b: Seq<u8>, p: int, stop: spec_fn(int) -> bool)
    requires 0 <= p < b.len(), b[p] != 0, !stop(b[p] as int)
    ensures scan(b, p, stop) > p
{
    lemma_scan(b, p + 1, stop);
}
pub proof fn lemma_entry_step(b: Seq<u8>, p: int)
    requires 0 <= p <= b.len()
    ensures ({ let q = scan(b, p, |c: int| is_content(c)); p <= q <= b.len() && (!at_end(b, q) && b[q] == 35 ==> scan(b, q, |c: int| is_nl(c)) > q) })
{
    lemma_scan(b, p, |c: int| is_content(c));
    let q = scan(b, p, |c: int| is_content(c));
    if !at_end(b, q) && b[q] == 35 { lemma_scan_step(b, q, |c: int| is_nl(c)); }
}

@fn KeyValueBlobReader_SkipUntil
@requires
- reader_ok(this)
@ensures
- moved(this, this_post) && this_post.state_ == this.state_
- this_post.current_.off == scan(this.current_.buf, this.current_.off, f)
- (ret == KeyValueBlobReader_State_END()) <==> at_end(this_post.current_.buf, this_post.current_.off)
- ret == KeyValueBlobReader_State_END() || ret == KeyValueBlobReader_State_CAN_CONTINUE()
@loop 0
@inv
- moved(old_this, this) && this.state_ == old_this.state_
- forall|k: int| old_this.current_.off <= k < this.current_.off ==> old_this.current_.buf[k] != 0 && !f(#[trigger] old_this.current_.buf[k] as int)
@at return
lemma_scan_is(old_this.current_.buf, old_this.current_.off, this.current_.off, f);

@fn KeyValueBlobReader_SkipUntilNot
@requires
- reader_ok(this)
@ensures
- moved(this, this_post) && this_post.state_ == this.state_
- this_post.current_.off == scan(this.current_.buf, this.current_.off, |c: int| !f(c))
- (ret == KeyValueBlobReader_State_END()) <==> at_end(this_post.current_.buf, this_post.current_.off)
- ret == KeyValueBlobReader_State_END() || ret == KeyValueBlobReader_State_CAN_CONTINUE()
@loop 0
@inv
- moved(old_this, this) && this.state_ == old_this.state_
- forall|k: int| old_this.current_.off <= k < this.current_.off ==> old_this.current_.buf[k] != 0 && f(#[trigger] old_this.current_.buf[k] as int)
@at return
lemma_scan_is(old_this.current_.buf, old_this.current_.off, this.current_.off, |c: int| !f(c));

@fn KeyValueBlobReader_Next
@requires
- reader_ok(this)
@ensures
- this_post.end_ == this.end_ && moved(this, this_post)
- this_post.state_ == ret
- ret == KeyValueBlobReader_State_HAS_PAIR() ==> this.current_.off < this_post.current_.off
- this.state_ == KeyValueBlobReader_State_ERROR() ==> ret == KeyValueBlobReader_State_ERROR() && out_post == out
- this.state_ != KeyValueBlobReader_State_ERROR() ==> match entry(this.current_.buf, this.current_.off) {
      Entry::End => ret == KeyValueBlobReader_State_END() && out_post == out
          && at_end(this_post.current_.buf, this_post.current_.off),
      Entry::Error => ret == KeyValueBlobReader_State_ERROR() && out_post == out,
      Entry::Pair { k0, k1, v0, v1, next } => ret == KeyValueBlobReader_State_HAS_PAIR()
          && this_post.current_.off == next
          && (out.is_some() <==> out_post.is_some())
          && (out.is_some() ==> out_post->0.key =~= this.current_.buf.subrange(k0, k1)
              && out_post->0.value =~= this.current_.buf.subrange(v0, v1)),
  }
@loop 0
@inv
- moved(old_this, this)
- entry(old_this.current_.buf, old_this.current_.off) == entry(this.current_.buf, this.current_.off)
- out == old_out
@dec
this.end_.off - this.current_.off
@at entry
lemma_entry(this.current_.buf, this.current_.off);
@at loop0.begin
lemma_entry_step(this.current_.buf, this.current_.off);

@fn KeyValueBlobReader_ctor
@requires
- !blob.nil && 0 <= blob.off && size >= 0 && blob.off + size == blob.buf.len()
@ensures
- reader_ok(ret) && ret.current_.buf == blob.buf && ret.current_.off == blob.off
- ret.state_ != KeyValueBlobReader_State_ERROR()
