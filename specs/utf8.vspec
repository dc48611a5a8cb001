@source src/Engine/UTF8Helper.cpp McBopomofo
@prelude
// ---- the standard: Table 3-7 of the Unicode Standard, well-formed UTF-8 byte sequences ----
pub open spec fn at(s: Seq<u8>, i: int) -> int { if 0 <= i < s.len() { s[i] as int } else { -1 } }
pub open spec fn cont(b: int) -> bool { 0x80 <= b <= 0xBF }
// length of the well-formed sequence that starts at i, 0 if there is none
pub open spec fn u8len(s: Seq<u8>, i: int) -> int {
    let a = at(s, i); let b = at(s, i + 1); let c = at(s, i + 2); let d = at(s, i + 3);
    if 0 <= a <= 0x7F { 1 }
    else if 0xC2 <= a <= 0xDF && cont(b) { 2 }
    else if a == 0xE0 && 0xA0 <= b <= 0xBF && cont(c) { 3 }
    else if 0xE1 <= a <= 0xEC && cont(b) && cont(c) { 3 }
    else if a == 0xED && 0x80 <= b <= 0x9F && cont(c) { 3 }
    else if 0xEE <= a <= 0xEF && cont(b) && cont(c) { 3 }
    else if a == 0xF0 && 0x90 <= b <= 0xBF && cont(c) && cont(d) { 4 }
    else if 0xF1 <= a <= 0xF3 && cont(b) && cont(c) && cont(d) { 4 }
    else if a == 0xF4 && 0x80 <= b <= 0x8F && cont(c) && cont(d) { 4 }
    else { 0 }
}
// the code points of the longest well-formed prefix of s[i..]
pub open spec fn pieces(s: Seq<u8>, i: int) -> Seq<Seq<u8>>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() || u8len(s, i) == 0 { Seq::empty() }
    else { seq![s.subrange(i, i + u8len(s, i))] + pieces(s, i + u8len(s, i)) }
}
// where the k-th code point from i on starts
pub open spec fn start(s: Seq<u8>, i: int, k: int) -> int
    decreases k
{ if k <= 0 || u8len(s, i) == 0 { i } else { start(s, i + u8len(s, i), k - 1) } }
pub proof fn lemma_u8len(s: Seq<u8>, i: int)
    ensures 0 <= u8len(s, i) <= 4, u8len(s, i) > 0 ==> 0 <= i && i + u8len(s, i) <= s.len()
{ }
// the pieces joined together are the prefix that is counted; the standard's decoding is total
pub open spec fn join(p: Seq<Seq<u8>>) -> Seq<u8>
    decreases p.len()
{ if p.len() == 0 { Seq::empty() } else { p[0] + join(p.drop_first()) } }
pub proof fn lemma_join(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures join(pieces(s, i)) =~= s.subrange(i, start(s, i, pieces(s, i).len() as int)),
        i <= start(s, i, pieces(s, i).len() as int) <= s.len(),
        // maximal: what follows is not well-formed
        u8len(s, start(s, i, pieces(s, i).len() as int)) == 0
    decreases s.len() - i
{
    if i >= s.len() || u8len(s, i) == 0 { } else {
        let n = u8len(s, i);
        lemma_u8len(s, i);
        lemma_join(s, i + n);
        assert(pieces(s, i).drop_first() =~= pieces(s, i + n));
        assert(pieces(s, i)[0] =~= s.subrange(i, i + n));
    }
}
pub proof fn lemma_start(s: Seq<u8>, i: int, k: int)
    requires 0 <= i <= s.len()
    ensures i <= start(s, i, k) <= s.len()
    decreases k
{ lemma_u8len(s, i); if k > 0 && u8len(s, i) != 0 { lemma_start(s, i + u8len(s, i), k - 1); } }
// one more code point
pub proof fn lemma_start_step(s: Seq<u8>, i: int, k: int)
    requires 0 <= i, 0 <= k
    ensures start(s, i, k + 1) == start(s, i, k) + u8len(s, start(s, i, k))
    decreases k
{
    lemma_u8len(s, i);
    if u8len(s, i) == 0 { } else if k > 0 { lemma_start_step(s, i + u8len(s, i), k - 1); } else {
        assert(start(s, i + u8len(s, i), 0) == i + u8len(s, i)); }
}
// k code points counted from i on
pub proof fn lemma_pieces_at(s: Seq<u8>, i: int, k: int)
    requires 0 <= i <= s.len(), 0 <= k, k == 0 || k <= pieces(s, i).len()
    ensures pieces(s, i).len() == k + pieces(s, start(s, i, k)).len(),
        forall|j: int| k <= j < pieces(s, i).len() ==> #[trigger] pieces(s, i)[j] == pieces(s, start(s, i, k))[j - k],
        start(s, i, k) <= s.len()
    decreases k
{
    lemma_u8len(s, i);
    if k > 0 && u8len(s, i) != 0 && i < s.len() {
        lemma_pieces_at(s, i + u8len(s, i), k - 1);
        assert(forall|j: int| 1 <= j < pieces(s, i).len() ==> #[trigger] pieces(s, i)[j] == pieces(s, i + u8len(s, i))[j - 1]);
    }
}
pub proof fn lemma_pieces_len(s: Seq<u8>, i: int)
    ensures pieces(s, i).len() <= (if 0 <= i <= s.len() { s.len() - i } else { 0 })
    decreases s.len() - i
{ lemma_u8len(s, i); if 0 <= i < s.len() && u8len(s, i) != 0 { lemma_pieces_len(s, i + u8len(s, i)); } }
pub proof fn lemma_stuck(s: Seq<u8>, i: int, a: int, b: int)
    requires 0 <= a <= b, 0 <= i, u8len(s, start(s, i, a)) == 0
    ensures start(s, i, b) == start(s, i, a)
    decreases b - a
{ if a < b { lemma_start_step(s, i, a); lemma_stuck(s, i, a + 1, b); } }
// ---- bit level -----------------------------------------------------------------------
pub open spec fn acc(s: Seq<u8>, i: int, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { bor_u32(bshl_u32(acc(s, i, k - 1), 6), band_u32(at(s, i + k), 0x3F)) } }
pub open spec fn more(b: int, k: int) -> bool { band_u32(bshl_u32(b, k), 0x40) != 0 }
pub open spec fn allmore(b: int, k: int) -> bool
    decreases k
{ k <= 0 || more(b, k - 1) && allmore(b, k - 1) }
pub open spec fn allcont(s: Seq<u8>, i: int, k: int) -> bool
    decreases k
{ k <= 0 || cont(at(s, i + k)) && allcont(s, i, k - 1) }
pub proof fn bits_cont(b: u32)
    requires b < 256
    ensures (b & 0xC0 == 0x80) == (0x80 <= b <= 0xBF)
{ assert((b & 0xC0u32 == 0x80) == (0x80 <= b && b <= 0xBF)) by (bit_vector) requires b < 256; }
pub proof fn bits_shl(b: u32, k: u32)
    requires b < 256, k < 8
    ensures (b << k) << 1u32 == b << ((k + 1) as u32), b << 0u32 == b
{ assert((b << k) << 1u32 == b << ((k + 1) as u32)) by (bit_vector) requires b < 256, k < 8;
  assert(b << 0u32 == b) by (bit_vector); }
pub proof fn bits_lead(b: u32)
    requires 0x80 <= b < 256
    ensures ((b << 0u32) & 0x40 != 0) == (b >= 0xC0),
        (b >= 0xC0 ==> ((b << 1u32) & 0x40 != 0) == (b >= 0xE0)),
        (b >= 0xE0 ==> ((b << 2u32) & 0x40 != 0) == (b >= 0xF0)),
        (b >= 0xF0 ==> ((b << 3u32) & 0x40 != 0) == (b >= 0xF8)),
        (b >= 0xF8 ==> ((b << 4u32) & 0x40 != 0) == (b >= 0xFC)),
        (b >= 0xFC ==> ((b << 5u32) & 0x40 != 0) == (b >= 0xFE)),
        (b >= 0xFE ==> ((b << 6u32) & 0x40 != 0) == (b >= 0xFF)),
        (b << 7u32) & 0x40 == 0,
{
    assert(((b << 0u32) & 0x40 != 0) == (b >= 0xC0)) by (bit_vector) requires 0x80 <= b, b < 256;
    assert(b >= 0xC0 ==> ((b << 1u32) & 0x40 != 0) == (b >= 0xE0)) by (bit_vector) requires 0x80 <= b, b < 256;
    assert(b >= 0xE0 ==> ((b << 2u32) & 0x40 != 0) == (b >= 0xF0)) by (bit_vector) requires 0x80 <= b, b < 256;
    assert(b >= 0xF0 ==> ((b << 3u32) & 0x40 != 0) == (b >= 0xF8)) by (bit_vector) requires 0x80 <= b, b < 256;
    assert(b >= 0xF8 ==> ((b << 4u32) & 0x40 != 0) == (b >= 0xFC)) by (bit_vector) requires 0x80 <= b, b < 256;
    assert(b >= 0xFC ==> ((b << 5u32) & 0x40 != 0) == (b >= 0xFE)) by (bit_vector) requires 0x80 <= b, b < 256;
    assert(b >= 0xFE ==> ((b << 6u32) & 0x40 != 0) == (b >= 0xFF)) by (bit_vector) requires 0x80 <= b, b < 256;
    assert((b << 7u32) & 0x40 == 0) by (bit_vector) requires b < 256;
}
pub proof fn bits_2(a: u32, b: u32)
    requires 0xC0 <= a < 0xE0, 0x80 <= b <= 0xBF
    ensures ({ let r = (((0u32 << 6u32) | (b & 0x3F)) | (((a << 1u32) & 0x7F) << 5u32)); r == (a - 0xC0) * 64 + (b - 0x80) })
{
    assert((((0u32 << 6u32) | (b & 0x3Fu32)) | (((a << 1u32) & 0x7Fu32) << 5u32)) == sub(a, 0xC0) * 64 + sub(b, 0x80)) by (bit_vector)
        requires 0xC0 <= a, a < 0xE0, 0x80 <= b, b <= 0xBF;
}
pub proof fn bits_3(a: u32, b: u32, c: u32)
    requires 0xE0 <= a < 0xF0, 0x80 <= b <= 0xBF, 0x80 <= c <= 0xBF
    ensures ({ let r = (((((0u32 << 6u32) | (b & 0x3F)) << 6u32) | (c & 0x3F)) | (((a << 2u32) & 0x7F) << 10u32));
        r == (a - 0xE0) * 4096 + (b - 0x80) * 64 + (c - 0x80) })
{
    assert((((((0u32 << 6u32) | (b & 0x3Fu32)) << 6u32) | (c & 0x3Fu32)) | (((a << 2u32) & 0x7Fu32) << 10u32)) == sub(a, 0xE0) * 4096 + sub(b, 0x80) * 64 + sub(c, 0x80)) by (bit_vector)
        requires 0xE0 <= a, a < 0xF0, 0x80 <= b, b <= 0xBF, 0x80 <= c, c <= 0xBF;
}
pub proof fn bits_4(a: u32, b: u32, c: u32, d: u32)
    requires 0xF0 <= a < 0xF8, 0x80 <= b <= 0xBF, 0x80 <= c <= 0xBF, 0x80 <= d <= 0xBF
    ensures ({ let r = (((((((0u32 << 6u32) | (b & 0x3F)) << 6u32) | (c & 0x3F)) << 6u32) | (d & 0x3F)) | (((a << 3u32) & 0x7F) << 15u32));
        r == (a - 0xF0) * 0x40000 + (b - 0x80) * 4096 + (c - 0x80) * 64 + (d - 0x80) })
{
    assert((((((((0u32 << 6u32) | (b & 0x3Fu32)) << 6u32) | (c & 0x3Fu32)) << 6u32) | (d & 0x3Fu32)) | (((a << 3u32) & 0x7Fu32) << 15u32)) == sub(a, 0xF0) * 0x40000 + sub(b, 0x80) * 4096 + sub(c, 0x80) * 64 + sub(d, 0x80)) by (bit_vector)
        requires 0xF0 <= a, a < 0xF8, 0x80 <= b, b <= 0xBF, 0x80 <= c, c <= 0xBF, 0x80 <= d, d <= 0xBF;
}
pub proof fn bits_lead0(b: u32)
    requires 0x80 <= b <= 0xBF
    ensures ((0u32 | ((b & 0x7F) << 0u32)) < 0x80)
{ assert((0u32 | ((b & 0x7Fu32) << 0u32)) < 0x80) by (bit_vector); }

pub proof fn bits_not0()
    ensures bnot_u32(0) == 0xFFFFFFFF
{ assert(!0u32 == 0xFFFFFFFFu32) by (bit_vector); }
// a sequence cut short is not well-formed
pub proof fn lemma_trunc(s: Seq<u8>, i: int, k: int)
    requires 0 <= i < s.len(), s[i] >= 0x80, 0 <= k <= 6, allmore(s[i] as int, k), more(s[i] as int, k), !cont(at(s, i + k + 1))
    ensures u8len(s, i) == 0
{
    reveal_with_fuel(allmore, 9);
    bits_lead(s[i] as u32);
}
pub open spec fn limit(k: int) -> int { if k == 0 { 0xFFFFFFFF } else if k == 1 { 0x80 } else if k == 2 { 0x800 } else if k == 3 { 0x10000 } else if k == 4 { 0x200000 } else { 0x4000000 } }
// the accumulated value is acceptable exactly for the well-formed sequences of the table
pub proof fn lemma_decode(s: Seq<u8>, i: int, k: int, c: int)
    requires 0 <= i < s.len(), s[i] >= 0x80, 0 <= k <= 7, allmore(s[i] as int, k), !more(s[i] as int, k), allcont(s, i, k),
        c == bshl_u32(s[i] as int, k)
    ensures
        k <= 5 ==> ({ let r = bor_u32(acc(s, i, k), bshl_u32(band_u32(c, 0x7F), k * 5));
            (r > 0x10FFFF || r < limit(k) || 0xD800 <= r <= 0xDFFF) <==> u8len(s, i) == 0 }),
        u8len(s, i) > 0 ==> u8len(s, i) == k + 1,
        k > 5 ==> u8len(s, i) == 0
{
    reveal_with_fuel(allmore, 9);
    reveal_with_fuel(allcont, 9);
    reveal_with_fuel(acc, 5);
    bits_lead(s[i] as u32);
    let a = s[i] as u32;
    if k == 0 { bits_lead0(a); }
    else if k == 1 { bits_2(a, s[i + 1] as u32); }
    else if k == 2 { bits_3(a, s[i + 1] as u32, s[i + 2] as u32); }
    else if k == 3 { bits_4(a, s[i + 1] as u32, s[i + 2] as u32, s[i + 3] as u32); }
}

@fn IsContinuationByte
@requires
- 0 <= c < 256
@ensures
- ret <==> cont(c)
@at entry
bits_cont(c as u32);

@fn DecodeUTF8
@requires
- it_same(i, end) && !i.nil && 0 <= i.off <= end.off && end.off == end.buf.len()
@ensures
- it_same(i_post, i)
- ret ==> u8len(i.buf, i.off) > 0 && i_post.off == i.off + u8len(i.buf, i.off)
- !ret ==> u8len(i.buf, i.off) == 0 && i_post.off == i.off
@loop 0
@inv
- i == old_i
- count <= 7
- it_same(next, i) && next.off == i.off + count && next.off < end.off
- c == bshl_u32(i.buf[i.off] as int, count)
- allmore(i.buf[i.off] as int, count)
- allcont(i.buf, i.off, count)
- res == acc(i.buf, i.off, count)
@dec
8 - count
@at loop0.pre
bits_shl(i.buf[i.off] as u32, 0);
@at loop0.begin
reveal_with_fuel(allmore, 9);
bits_lead(i.buf[i.off] as u32);
if count < 7 { bits_shl(i.buf[i.off] as u32, count as u32); }
if !cont(at(i.buf, i.off + count + 1)) { lemma_trunc(i.buf, i.off, count); }
@at loop0.post
bits_not0();
lemma_decode(i.buf, i.off, count, c);
@loop 1
@inv
- it_same(i, old_i) && 0 <= j <= count && i.off == old_i.off + j

@fn CodePointCount
@ensures
- ret == pieces(s, 0).len()
@loop 0
@inv
- i.buf =~= s && !i.nil && 0 <= i.off <= s.len() && end == it_end(s)
- 0 <= c && c + pieces(s, i.off).len() == pieces(s, 0).len()
@ens
- c == pieces(s, 0).len()
@at loop0.begin
lemma_pieces_len(s, 0);

@fn SubstringToCodePoints
@ensures
- ret =~= s.subrange(0, start(s, 0, cp))
@loop 0
@inv
- i.buf =~= s && !i.nil && 0 <= i.off <= s.len() && end == it_end(s)
- 0 <= c <= cp && i.off == start(s, 0, c)
@ens
- i.off == start(s, 0, cp)
@at loop0.begin
lemma_start_step(s, 0, c);
@at loop0.break
lemma_stuck(s, 0, c, cp);
@at loop0.exit
if c < cp { lemma_stuck(s, 0, c, cp); }

@fn GetCodePoint
@ensures
- cp < pieces(s, 0).len() ==> ret =~= pieces(s, 0)[cp]
- cp >= pieces(s, 0).len() ==> ret.len() == 0 || (pieces(s, 0).len() > 0 && ret =~= pieces(s, 0).last())
@loop 0
@inv
- i.buf =~= s && !i.nil && lastUsed.buf =~= s && !lastUsed.nil && 0 <= lastUsed.off <= i.off <= s.len() && end == it_end(s)
- 0 <= c <= cp + 1 && i.off == start(s, 0, c) && c <= pieces(s, 0).len()
- c > 0 ==> lastUsed.off == start(s, 0, c - 1)
@exc
- true
@ens
- c == cp + 1 || u8len(s, i.off) == 0
- lastUsed == i || c > 0
@dec
s.len() - i.off
@at loop0.begin
lemma_start_step(s, 0, c);
lemma_pieces_at(s, 0, c);
lemma_pieces_len(s, 0);
@at loop0.post
lemma_pieces_at(s, 0, c);
if c > 0 { lemma_pieces_at(s, 0, c - 1); lemma_start_step(s, 0, c - 1); }

@fn Split
@ensures
- ret =~= pieces(s, 0)
@loop 0
@inv
- i.buf =~= s && !i.nil && lastUsed.buf =~= s && !lastUsed.nil && 0 <= i.off <= s.len() && end == it_end(s)
- output + pieces(s, i.off) =~= pieces(s, 0)
@ens
- output =~= pieces(s, 0)
@dec
s.len() - i.off
