@source src/Engine/Mandarin/Mandarin.cpp Formosa
@include order.rs
@extern tolower(int) -> int = c_tolower($0)
@prelude
// tolower: ASCII as the C standard has it, anything else as the locale has it
pub uninterp spec fn c_tolower_other(c: int) -> int;
pub open spec fn c_tolower(c: int) -> int { if 65 <= c <= 90 { c + 32 } else if 0 <= c < 128 { c } else { c_tolower_other(c) } }
// a syllable: one number with a field for each kind of component
#[verifier::opaque]
pub open spec fn con(x: int) -> int { x % 32 }
#[verifier::opaque]
pub open spec fn med(x: int) -> int { (x / 32) % 4 }
#[verifier::opaque]
pub open spec fn vow(x: int) -> int { (x / 128) % 16 }
#[verifier::opaque]
pub open spec fn ton(x: int) -> int { (x / 2048) % 8 }
#[verifier::opaque]
pub open spec fn top(x: int) -> int { x / 16384 }
pub open spec fn syl_of(c: int, m: int, v: int, t: int, p: int) -> int { c + 32 * m + 128 * v + 2048 * t + 16384 * p }
pub proof fn lemma_decomp(x: int)
    requires 0 <= x < 65536
    ensures x == syl_of(con(x), med(x), vow(x), ton(x), top(x)), 0 <= con(x) < 32, 0 <= med(x) < 4, 0 <= vow(x) < 16, 0 <= ton(x) < 8, 0 <= top(x) < 4
{
    reveal(con); reveal(med); reveal(vow); reveal(ton); reveal(top);
    let y = x as u32;
    assert(y == (y % 32) + 32 * ((y / 32u32) % 4u32) + 128 * ((y / 128u32) % 16u32) + 2048 * ((y / 2048u32) % 8u32) + 16384 * (y / 16384u32) && y / 16384 < 4) by (bit_vector) requires y < 65536;
}
pub proof fn lemma_band(x: int)
    requires 0 <= x < 65536
    ensures band_i32(x, 0x1f) == con(x), band_i32(x, 0x60) == 32 * med(x), band_i32(x, 0x780) == 128 * vow(x), band_i32(x, 0x3800) == 2048 * ton(x),
      x == syl_of(con(x), med(x), vow(x), ton(x), top(x)),
      0 <= con(x) < 32, 0 <= med(x) < 4, 0 <= vow(x) < 16, 0 <= ton(x) < 8, 0 <= top(x) < 4
{
    reveal(con); reveal(med); reveal(vow); reveal(ton); reveal(top);
    lemma_decomp(x);
    let y = x as u32;
    assert((y as i32 & 0x1fi32) as u32 == y & 0x1f && (y as i32 & 0x60i32) as u32 == y & 0x60 && (y as i32 & 0x780i32) as u32 == y & 0x780 && (y as i32 & 0x3800i32) as u32 == y & 0x3800) by (bit_vector) requires y < 65536;
    assert((y as i32 & 0x1fi32) >= 0 && (y as i32 & 0x60i32) >= 0 && (y as i32 & 0x780i32) >= 0 && (y as i32 & 0x3800i32) >= 0) by (bit_vector) requires y < 65536;
    assert(y & 0x1fu32 == y % 32) by (bit_vector);
    assert(y & 0x60u32 == ((y / 32u32) % 4u32) * 32u32) by (bit_vector);
    assert(y & 0x780u32 == ((y / 128u32) % 16u32) * 128u32) by (bit_vector);
    assert(y & 0x3800u32 == ((y / 2048u32) % 8u32) * 2048u32) by (bit_vector);
}
pub proof fn lemma_fields(c: int, m: int, v: int, t: int, p: int)
    requires 0 <= c < 32, 0 <= m < 4, 0 <= v < 16, 0 <= t < 8, 0 <= p < 4
    ensures ({ let x = syl_of(c, m, v, t, p); con(x) == c && med(x) == m && vow(x) == v && ton(x) == t && top(x) == p && 0 <= x < 65536 && (p == 0 <==> x < 16384) })
{
    reveal(con); reveal(med); reveal(vow); reveal(ton); reveal(top);
    let (a, b, d, e, f) = (c as u32, m as u32, v as u32, t as u32, p as u32);
    let y = (c + 32 * m + 128 * v + 2048 * t + 16384 * p) as u32;
    assert(y % 32 == a && (y / 32u32) % 4u32 == b && (y / 128u32) % 16u32 == d && (y / 2048u32) % 8u32 == e && y / 16384u32 == f) by (bit_vector)
        requires a < 32, b < 4, d < 16, e < 8, f < 4, y == a + 32 * b + 128 * d + 2048 * e + 16384 * f;
}
pub proof fn lemma_put(x: int, y: int)
    requires 0 <= x < 65536, 0 <= y < 65536
    ensures bor_i32(band_i32(x, bnot_i32(0x1f)), band_i32(y, 0x1f)) == x - con(x) + con(y),
       bor_i32(band_i32(x, bnot_i32(0x60)), band_i32(y, 0x60)) == x - 32 * med(x) + 32 * med(y),
       bor_i32(band_i32(x, bnot_i32(0x780)), band_i32(y, 0x780)) == x - 128 * vow(x) + 128 * vow(y),
       bor_i32(band_i32(x, bnot_i32(0x3800)), band_i32(y, 0x3800)) == x - 2048 * ton(x) + 2048 * ton(y),
{
    lemma_band(x); lemma_band(y);
    put1(x as i32, y as i32, 0x1f); put1(x as i32, y as i32, 0x60); put1(x as i32, y as i32, 0x780); put1(x as i32, y as i32, 0x3800);
}
proof fn put1(a: i32, b: i32, m: i32)
    requires 0 <= a < 65536, 0 <= b < 65536
    ensures bor_i32(band_i32(a as int, bnot_i32(m as int)), band_i32(b as int, m as int)) == a - band_i32(a as int, m as int) + band_i32(b as int, m as int)
{
    let n = !m;
    assert(-2147483648i32 <= !m && !m <= 2147483647i32) by (bit_vector);
    assert((n as int) as i32 == n);
    let p = a & n; let q = b & m;
    assert((p as int) as i32 == p && (q as int) as i32 == q);
    assert(((a & !m) | (b & m)) == a - (a & m) + (b & m)) by (bit_vector) requires 0 <= a < 65536, 0 <= b < 65536;
}
pub proof fn lemma_or(x: int, y: int)
    requires 0 <= x < 65536, 0 <= y < 65536, con(x) == 0 || con(y) == 0, med(x) == 0 || med(y) == 0, vow(x) == 0 || vow(y) == 0, ton(x) == 0 || ton(y) == 0, top(x) == 0 || top(y) == 0
    ensures bor_i32(x, y) == x + y
{
    reveal(con); reveal(med); reveal(vow); reveal(ton); reveal(top);
    let a = x as u32; let b = y as u32;
    assert((a as i32 | b as i32) as u32 == a + b && (a as i32 | b as i32) >= 0) by (bit_vector) requires a < 65536, b < 65536,
      a % 32 == 0 || b % 32 == 0, (a / 32) % 4 == 0 || (b/32)%4 == 0, (a / 128) % 16 == 0 || (b/128)%16 == 0, (a / 2048) % 8 == 0 || (b/2048)%8 == 0, a / 16384 == 0 || b / 16384 == 0;
}
// one component of one kind
pub open spec fn is_comp(c: int) -> bool {
    1 <= c <= 21 || c == 32 || c == 64 || c == 96 || (128 <= c <= 1664 && c % 128 == 0) || c == 2048 || c == 4096 || c == 6144 || c == 8192
}
// at most one component of each kind, each of them an existing one
pub open spec fn syl(x: int) -> bool { 0 <= x < 16384 && con(x) <= 21 && vow(x) <= 13 && ton(x) <= 4 }
// adding components: those of y take the place of those of the same kind in x
pub open spec fn plus(x: int, y: int) -> int {
    syl_of(if con(y) != 0 { con(y) } else { con(x) }, if med(y) != 0 { med(y) } else { med(x) }, if vow(y) != 0 { vow(y) } else { vow(x) },
        if ton(y) != 0 { ton(y) } else { ton(x) }, top(x))
}
// the Bopomofo character of a component (Unicode order) and back
pub open spec fn txt(c: int) -> Seq<u8> {
    if c <= 0 { Seq::empty() } else if c < 32 { seq![0xE3u8, 0x84u8, (0x84 + c) as u8] } else if c < 128 { seq![0xE3u8, 0x84u8, (0xA6 + c / 32) as u8] }
    else if c < 2048 { seq![0xE3u8, 0x84u8, (0x99 + c / 128) as u8] }
    else { seq![0xCBu8, if c == 2048 { 0x8Au8 } else if c == 4096 { 0x87u8 } else if c == 6144 { 0x8Bu8 } else { 0x99u8 }] }
}
pub open spec fn chr(s: Seq<u8>) -> int {
    if s.len() == 3 && s[0] == 0xE3 && s[1] == 0x84 {
        if 0x85 <= s[2] <= 0x99 { s[2] - 0x84 } else if 0x9A <= s[2] <= 0xA6 { (s[2] - 0x99) * 128 } else if 0xA7 <= s[2] <= 0xA9 { (s[2] - 0xA6) * 32 } else { 0 }
    } else if s.len() == 2 && s[0] == 0xCB {
        if s[1] == 0x8A { 2048 } else if s[1] == 0x87 { 4096 } else if s[1] == 0x8B { 6144 } else if s[1] == 0x99 { 8192 } else { 0 }
    } else { 0 }
}
pub open spec fn charmap_ok(m: BopomofoCharacterMap) -> bool {
    &&& forall|s: Seq<u8>| #[trigger] m.characterToComponent.dom().contains(s) <==> chr(s) != 0
    &&& forall|s: Seq<u8>| #[trigger] m.characterToComponent.dom().contains(s) ==> m.characterToComponent[s] == chr(s)
    &&& forall|c: int| #[trigger] m.componentToCharacter.dom().contains(c) <==> is_comp(c)
    &&& forall|c: int| #[trigger] m.componentToCharacter.dom().contains(c) ==> m.componentToCharacter[c] == txt(c)
}
pub proof fn lemma_lits()
    ensures seq![227u8, 132u8, 133u8] == txt(1), seq![227u8, 132u8, 134u8] == txt(2), seq![227u8, 132u8, 135u8] == txt(3), seq![227u8, 132u8, 136u8] == txt(4), seq![227u8, 132u8, 137u8] == txt(5), seq![227u8, 132u8, 138u8] == txt(6), seq![227u8, 132u8, 139u8] == txt(7), seq![227u8, 132u8, 140u8] == txt(8), seq![227u8, 132u8, 141u8] == txt(9), seq![227u8, 132u8, 142u8] == txt(10), seq![227u8, 132u8, 143u8] == txt(11), seq![227u8, 132u8, 144u8] == txt(12), seq![227u8, 132u8, 145u8] == txt(13), seq![227u8, 132u8, 146u8] == txt(14), seq![227u8, 132u8, 147u8] == txt(15), seq![227u8, 132u8, 148u8] == txt(16), seq![227u8, 132u8, 149u8] == txt(17), seq![227u8, 132u8, 150u8] == txt(18), seq![227u8, 132u8, 151u8] == txt(19), seq![227u8, 132u8, 152u8] == txt(20), seq![227u8, 132u8, 153u8] == txt(21), seq![227u8, 132u8, 167u8] == txt(32), seq![227u8, 132u8, 168u8] == txt(64), seq![227u8, 132u8, 169u8] == txt(96), seq![227u8, 132u8, 154u8] == txt(128), seq![227u8, 132u8, 155u8] == txt(256), seq![227u8, 132u8, 156u8] == txt(384), seq![227u8, 132u8, 157u8] == txt(512), seq![227u8, 132u8, 158u8] == txt(640), seq![227u8, 132u8, 159u8] == txt(768), seq![227u8, 132u8, 160u8] == txt(896), seq![227u8, 132u8, 161u8] == txt(1024), seq![227u8, 132u8, 162u8] == txt(1152), seq![227u8, 132u8, 163u8] == txt(1280), seq![227u8, 132u8, 164u8] == txt(1408), seq![227u8, 132u8, 165u8] == txt(1536), seq![227u8, 132u8, 166u8] == txt(1664), seq![203u8, 138u8] == txt(2048), seq![203u8, 135u8] == txt(4096), seq![203u8, 139u8] == txt(6144), seq![203u8, 153u8] == txt(8192)
{
    assert(seq![227u8, 132u8, 133u8] =~= txt(1));
    assert(seq![227u8, 132u8, 134u8] =~= txt(2));
    assert(seq![227u8, 132u8, 135u8] =~= txt(3));
    assert(seq![227u8, 132u8, 136u8] =~= txt(4));
    assert(seq![227u8, 132u8, 137u8] =~= txt(5));
    assert(seq![227u8, 132u8, 138u8] =~= txt(6));
    assert(seq![227u8, 132u8, 139u8] =~= txt(7));
    assert(seq![227u8, 132u8, 140u8] =~= txt(8));
    assert(seq![227u8, 132u8, 141u8] =~= txt(9));
    assert(seq![227u8, 132u8, 142u8] =~= txt(10));
    assert(seq![227u8, 132u8, 143u8] =~= txt(11));
    assert(seq![227u8, 132u8, 144u8] =~= txt(12));
    assert(seq![227u8, 132u8, 145u8] =~= txt(13));
    assert(seq![227u8, 132u8, 146u8] =~= txt(14));
    assert(seq![227u8, 132u8, 147u8] =~= txt(15));
    assert(seq![227u8, 132u8, 148u8] =~= txt(16));
    assert(seq![227u8, 132u8, 149u8] =~= txt(17));
    assert(seq![227u8, 132u8, 150u8] =~= txt(18));
    assert(seq![227u8, 132u8, 151u8] =~= txt(19));
    assert(seq![227u8, 132u8, 152u8] =~= txt(20));
    assert(seq![227u8, 132u8, 153u8] =~= txt(21));
    assert(seq![227u8, 132u8, 167u8] =~= txt(32));
    assert(seq![227u8, 132u8, 168u8] =~= txt(64));
    assert(seq![227u8, 132u8, 169u8] =~= txt(96));
    assert(seq![227u8, 132u8, 154u8] =~= txt(128));
    assert(seq![227u8, 132u8, 155u8] =~= txt(256));
    assert(seq![227u8, 132u8, 156u8] =~= txt(384));
    assert(seq![227u8, 132u8, 157u8] =~= txt(512));
    assert(seq![227u8, 132u8, 158u8] =~= txt(640));
    assert(seq![227u8, 132u8, 159u8] =~= txt(768));
    assert(seq![227u8, 132u8, 160u8] =~= txt(896));
    assert(seq![227u8, 132u8, 161u8] =~= txt(1024));
    assert(seq![227u8, 132u8, 162u8] =~= txt(1152));
    assert(seq![227u8, 132u8, 163u8] =~= txt(1280));
    assert(seq![227u8, 132u8, 164u8] =~= txt(1408));
    assert(seq![227u8, 132u8, 165u8] =~= txt(1536));
    assert(seq![227u8, 132u8, 166u8] =~= txt(1664));
    assert(seq![203u8, 138u8] =~= txt(2048));
    assert(seq![203u8, 135u8] =~= txt(4096));
    assert(seq![203u8, 139u8] =~= txt(6144));
    assert(seq![203u8, 153u8] =~= txt(8192));
}
pub proof fn lemma_chr(s: Seq<u8>)
    ensures chr(s) != 0 ==> is_comp(chr(s)) && s == txt(chr(s)), chr(s) == 0 ==> forall|c: int| #[trigger] is_comp(c) ==> s != txt(c)
{
    if chr(s) != 0 { assert(s =~= txt(chr(s))); }
    assert forall|c: int| #[trigger] is_comp(c) && chr(s) == 0 implies s != txt(c) by { lemma_txt(c); }
}
pub proof fn lemma_txt(c: int)
    requires is_comp(c)
    ensures chr(txt(c)) == c, c == 1 || c == 2 || c == 3 || c == 4 || c == 5 || c == 6 || c == 7 || c == 8 || c == 9 || c == 10 || c == 11 || c == 12 || c == 13 || c == 14 || c == 15 || c == 16 || c == 17 || c == 18 || c == 19 || c == 20 || c == 21 || c == 32 || c == 64 || c == 96 || c == 128 || c == 256 || c == 384 || c == 512 || c == 640 || c == 768 || c == 896 || c == 1024 || c == 1152 || c == 1280 || c == 1408 || c == 1536 || c == 1664 || c == 2048 || c == 4096 || c == 6144 || c == 8192
{ }

// what the text starts with: the component of its first character, 0 if that is not a Bopomofo character
pub open spec fn front(s: Seq<u8>) -> int {
    if s.len() >= 2 && chr(s.take(2)) != 0 { chr(s.take(2)) } else if s.len() >= 3 { chr(s.take(3)) } else { 0 }
}
pub open spec fn front_len(s: Seq<u8>) -> int { if front(s) == 0 { 0 } else if front(s) >= 2048 { 2 } else { 3 } }
// text as a syllable: its Bopomofo characters, up to the first other one, added up from left to right
pub open spec fn parse(s: Seq<u8>, acc: int) -> int
    decreases s.len()
{
    if front(s) == 0 || front_len(s) > s.len() { acc } else { parse(s.skip(front_len(s)), plus(acc, front(s))) }
}
pub open spec fn text(x: int) -> Seq<u8> { txt(con(x)) + txt(32 * med(x)) + txt(128 * vow(x)) + txt(2048 * ton(x)) }
pub proof fn lemma_plus(x: int, y: int)
    requires 0 <= x < 65536, 0 <= y < 65536
    ensures 0 <= plus(x, y) < 65536, con(plus(x, y)) == if con(y) != 0 { con(y) } else { con(x) }, med(plus(x, y)) == if med(y) != 0 { med(y) } else { med(x) },
        vow(plus(x, y)) == if vow(y) != 0 { vow(y) } else { vow(x) }, ton(plus(x, y)) == if ton(y) != 0 { ton(y) } else { ton(x) }, top(plus(x, y)) == top(x),
        syl(x) && syl(y) ==> syl(plus(x, y))
{
    lemma_band(x); lemma_band(y);
    lemma_fields(if con(y) != 0 { con(y) } else { con(x) }, if med(y) != 0 { med(y) } else { med(x) }, if vow(y) != 0 { vow(y) } else { vow(x) }, if ton(y) != 0 { ton(y) } else { ton(x) }, top(x));
}
// the four steps in which one syllable is added to another
pub proof fn lemma_steps(x: int, y: int)
    requires 0 <= x < 65536, 0 <= y < 65536
    ensures ({
        let x1 = if con(y) != 0 { x - con(x) + con(y) } else { x };
        let x2 = if med(y) != 0 { x1 - 32 * med(x1) + 32 * med(y) } else { x1 };
        let x3 = if vow(y) != 0 { x2 - 128 * vow(x2) + 128 * vow(y) } else { x2 };
        let x4 = if ton(y) != 0 { x3 - 2048 * ton(x3) + 2048 * ton(y) } else { x3 };
        x4 == plus(x, y) && 0 <= x1 < 65536 && 0 <= x2 < 65536 && 0 <= x3 < 65536 && 0 <= x4 < 65536
        && bor_i32(band_i32(x, bnot_i32(0x1f)), band_i32(y, 0x1f)) == x - con(x) + con(y)
        && bor_i32(band_i32(x1, bnot_i32(0x60)), band_i32(y, 0x60)) == x1 - 32 * med(x1) + 32 * med(y)
        && bor_i32(band_i32(x2, bnot_i32(0x780)), band_i32(y, 0x780)) == x2 - 128 * vow(x2) + 128 * vow(y)
        && bor_i32(band_i32(x3, bnot_i32(0x3800)), band_i32(y, 0x3800)) == x3 - 2048 * ton(x3) + 2048 * ton(y)
    })
{
    lemma_band(x); lemma_band(y);
    let x1 = if con(y) != 0 { x - con(x) + con(y) } else { x };
    let (c, m, v) = (if con(y) != 0 { con(y) } else { con(x) }, if med(y) != 0 { med(y) } else { med(x) }, if vow(y) != 0 { vow(y) } else { vow(x) });
    lemma_fields(c, med(x), vow(x), ton(x), top(x)); assert(x1 == syl_of(c, med(x), vow(x), ton(x), top(x)));
    let x2 = if med(y) != 0 { x1 - 32 * med(x1) + 32 * med(y) } else { x1 };
    lemma_fields(c, m, vow(x), ton(x), top(x)); assert(x2 == syl_of(c, m, vow(x), ton(x), top(x)));
    let x3 = if vow(y) != 0 { x2 - 128 * vow(x2) + 128 * vow(y) } else { x2 };
    lemma_fields(c, m, v, ton(x), top(x)); assert(x3 == syl_of(c, m, v, ton(x), top(x)));
    lemma_put(x, y); lemma_put(x1, y); lemma_put(x2, y); lemma_put(x3, y);
}
pub proof fn lemma_chrs()
    ensures chr(txt(1)) == 1, chr(txt(2)) == 2, chr(txt(3)) == 3, chr(txt(4)) == 4, chr(txt(5)) == 5, chr(txt(6)) == 6, chr(txt(7)) == 7, chr(txt(8)) == 8, chr(txt(9)) == 9, chr(txt(10)) == 10, chr(txt(11)) == 11, chr(txt(12)) == 12, chr(txt(13)) == 13, chr(txt(14)) == 14, chr(txt(15)) == 15, chr(txt(16)) == 16, chr(txt(17)) == 17, chr(txt(18)) == 18, chr(txt(19)) == 19, chr(txt(20)) == 20, chr(txt(21)) == 21, chr(txt(32)) == 32, chr(txt(64)) == 64, chr(txt(96)) == 96, chr(txt(128)) == 128, chr(txt(256)) == 256, chr(txt(384)) == 384, chr(txt(512)) == 512, chr(txt(640)) == 640, chr(txt(768)) == 768, chr(txt(896)) == 896, chr(txt(1024)) == 1024, chr(txt(1152)) == 1152, chr(txt(1280)) == 1280, chr(txt(1408)) == 1408, chr(txt(1536)) == 1536, chr(txt(1664)) == 1664, chr(txt(2048)) == 2048, chr(txt(4096)) == 4096, chr(txt(6144)) == 6144, chr(txt(8192)) == 8192
{
}
pub open spec fn charmap_half(m: Map<Seq<u8>, int>) -> bool {
    forall|s: Seq<u8>| (#[trigger] m.dom().contains(s) <==> chr(s) != 0) && (m.dom().contains(s) ==> m[s] == chr(s))
}
// from the list of the 41 characters to the closed form
pub proof fn lemma_lead()
    ensures band_i32(sx8(0xE3), 0x80) != 0, band_i32(sx8(0xCB), 0x80) != 0, band_i32(sx8(0xE3), 0x20) != 0, band_i32(sx8(0xCB), 0x20) == 0,
        band_i32(sx8(0xE3), 0x10) == 0, band_i32(sx8(0xE3), 0xC0) != 0, band_i32(sx8(0xE3), 0xE0) != 0, band_i32(sx8(0xCB), 0xC0) != 0
{
    assert(-29i32 & 0x80i32 != 0 && -53i32 & 0x80i32 != 0 && -29i32 & 0x20i32 != 0 && -53i32 & 0x20i32 == 0 && -29i32 & 0x10i32 == 0 && -29i32 & 0xC0i32 != 0 && -29i32 & 0xE0i32 != 0 && -53i32 & 0xC0i32 != 0) by (bit_vector);
}
// a component is a syllable with one field
pub proof fn lemma_comp(c: int)
    ensures is_comp(c) ==> syl(c) && top(c) == 0 && con(c) == (if c < 32 { c } else { 0 }) && 32 * med(c) == (if 32 <= c < 128 { c } else { 0 })
        && 128 * vow(c) == (if 128 <= c < 2048 { c } else { 0 }) && 2048 * ton(c) == (if 2048 <= c { c } else { 0 }),
        syl(c) ==> (con(c) == 0 || is_comp(con(c))) && (med(c) == 0 || is_comp(32 * med(c))) && (vow(c) == 0 || is_comp(128 * vow(c))) && (ton(c) == 0 || is_comp(2048 * ton(c))),
        syl(0) && con(0) == 0 && med(0) == 0 && vow(0) == 0 && ton(0) == 0 && top(0) == 0
{
    lemma_fields(0, 0, 0, 0, 0);
    if is_comp(c) {
        if c < 32 { lemma_fields(c, 0, 0, 0, 0); } else if c < 128 { lemma_fields(0, c / 32, 0, 0, 0); } else if c < 2048 { lemma_fields(0, 0, c / 128, 0, 0); } else { lemma_fields(0, 0, 0, c / 2048, 0); }
    } else if syl(c) { lemma_band(c); }
}
pub proof fn lemma_sum(c: int, m: int, v: int, t: int)
    requires c == 0 || is_comp(c) && c < 32, m == 0 || is_comp(m) && 32 <= m < 128, v == 0 || is_comp(v) && 128 <= v < 2048, t == 0 || is_comp(t) && 2048 <= t
    ensures bor_i32(bor_i32(bor_i32(c, m), v), t) == c + m + v + t, syl(c + m + v + t)
{
    lemma_comp(0); lemma_comp(c); lemma_comp(m); lemma_comp(v); lemma_comp(t);
    lemma_fields(con(c), med(m), 0, 0, 0); lemma_fields(con(c), med(m), vow(v), 0, 0); lemma_fields(con(c), med(m), vow(v), ton(t), 0);
    lemma_or(c, m); lemma_or(c + m, v); lemma_or(c + m + v, t);
}
pub proof fn lemma_front(s: Seq<u8>)
    ensures s.len() > 0 && s[0] == 0xE3 ==> front(s) == if s.len() >= 3 { chr(s.take(3)) } else { 0 },
        s.len() > 0 && s[0] == 0xCB ==> front(s) == if s.len() >= 2 { chr(s.take(2)) } else { 0 },
        s.len() == 0 || s[0] != 0xE3 && s[0] != 0xCB ==> front(s) == 0,
        front(s) != 0 ==> is_comp(front(s)) && s.len() >= front_len(s) && s.take(front_len(s)) == txt(front(s)),
        front(s) == 0 || s.len() > 0 && (s[0] == 0xE3 && front_len(s) == 3 || s[0] == 0xCB && front_len(s) == 2)
{
    if s.len() >= 3 { lemma_chr(s.take(3)); assert(s.take(3)[0] == s[0]); }
    if s.len() >= 2 { lemma_chr(s.take(2)); assert(s.take(2)[0] == s[0]); }
}
pub proof fn lemma_parse_txt(c: int, rest: Seq<u8>, acc: int)
    requires c == 0 || is_comp(c), 0 <= acc < 65536
    ensures parse(txt(c) + rest, acc) == parse(rest, plus(acc, c))
{
    let s = txt(c) + rest;
    lemma_band(acc); lemma_comp(c); lemma_comp(0);
    if c == 0 { assert(s =~= rest); assert(plus(acc, 0) == acc); }
    else {
        lemma_txt(c);
        assert(s[0] == txt(c)[0]);
        assert(s.take(txt(c).len() as int) =~= txt(c));
        lemma_front(s);
        assert(s.skip(txt(c).len() as int) =~= rest);
    }
}
// C09: display text and back
pub proof fn lemma_text_roundtrip(x: int)
    requires syl(x)
    ensures parse(text(x), 0) == x
{
    lemma_band(x);
    let (c, m, v, t) = (con(x), 32 * med(x), 128 * vow(x), 2048 * ton(x));
    lemma_comp(x); lemma_comp(0); lemma_comp(c); lemma_comp(m); lemma_comp(v); lemma_comp(t);
    assert(text(x) =~= txt(c) + (txt(m) + (txt(v) + (txt(t) + Seq::empty()))));
    lemma_plus(0, c); lemma_plus(plus(0, c), m); lemma_plus(plus(plus(0, c), m), v); lemma_plus(plus(plus(plus(0, c), m), v), t);
    lemma_parse_txt(c, txt(m) + (txt(v) + (txt(t) + Seq::empty())), 0);
    lemma_parse_txt(m, txt(v) + (txt(t) + Seq::empty()), plus(0, c));
    lemma_parse_txt(v, txt(t) + Seq::empty(), plus(plus(0, c), m));
    lemma_parse_txt(t, Seq::empty(), plus(plus(plus(0, c), m), v));
    let r = plus(plus(plus(plus(0, c), m), v), t);
    lemma_band(r);
    assert(r == x);
    assert(parse(Seq::empty(), r) == r) by { lemma_front(Seq::empty()); }
}
@fn PinyinParseHelper_ConsumePrefix
@at entry
if target.len() >= prefix.len() { assert(target.subrange(0, prefix.len() as int) =~= target.take(prefix.len() as int)); assert(target.subrange(prefix.len() as int, target.len() as int) =~= target.skip(prefix.len() as int)); assert(target.subrange(prefix.len() as int, prefix.len() + (target.len() - prefix.len())) =~= target.skip(prefix.len() as int)); }
@ensures
- ret == (target.len() >= prefix.len() && target.take(prefix.len() as int) == prefix)
- target_post == if ret { target.skip(prefix.len() as int) } else { target }
@fn BopomofoSyllable_op_pluseq
@at entry
lemma_band(this.syllable_); lemma_band(another.syllable_); lemma_steps(this.syllable_, another.syllable_);
@requires
- 0 <= another.syllable_ < 65536 && 0 <= this.syllable_ < 65536
@ensures
- this_post.syllable_ == plus(this.syllable_, another.syllable_)
@fn BopomofoSyllable_op_plus
@at entry
lemma_band(this.syllable_); lemma_band(another.syllable_); lemma_steps(this.syllable_, another.syllable_);
@requires
- 0 <= another.syllable_ < 65536 && 0 <= this.syllable_ < 65536
@ensures
- ret.syllable_ == plus(this.syllable_, another.syllable_)
@fn BopomofoCharacterMap_ctor
@ensures
- charmap_ok(ret)
@loop 0
@inv
- charmap_half(this.characterToComponent) && this.characterToComponent.dom().finite()
- iter.is_some() ==> this.characterToComponent.dom().contains(iter->0)
- forall|c: int| #[trigger] this.componentToCharacter.dom().contains(c) <==> is_comp(c) && !map_rest(this.characterToComponent, iter).contains(txt(c))
- forall|c: int| #[trigger] this.componentToCharacter.dom().contains(c) ==> this.componentToCharacter[c] == txt(c)
@dec
map_left(this.characterToComponent, iter)
@at loop0.pre
lemma_lits();
assert forall|s: Seq<u8>| (#[trigger] this.characterToComponent.dom().contains(s) <==> chr(s) != 0) && (this.characterToComponent.dom().contains(s) ==> this.characterToComponent[s] == chr(s)) by {
    lemma_chr(s); if chr(s) != 0 { lemma_txt(chr(s)); }
    lemma_chrs();
}
lemma_map_begin(this.characterToComponent);
assert forall|c: int| is_comp(c) implies this.characterToComponent.dom().contains(#[trigger] txt(c)) by { lemma_txt(c); }
@at loop0.begin
lemma_map_next(this.characterToComponent, iter); lemma_chr(iter->0);
assert forall|c: int| #[trigger] is_comp(c) implies (txt(c) == iter->0 <==> c == chr(iter->0)) by { lemma_txt(c); }
@fn BopomofoCharacterMap_SharedInstance
@ensures
- charmap_ok(ret)
@fn BopomofoSyllable_composedString
@requires
- syl(this.syllable_)
@ensures
- ret =~= text(this.syllable_)
@at entry
lemma_band(this.syllable_);
@fn BopomofoSyllable_FromComposedString
@ensures
- ret.syllable_ == parse(str, 0)
- syl(ret.syllable_)
@loop 0
@inv
- it_same(iter, it_begin(str)) && 0 <= iter.off <= str.len()
- parse(str.skip(iter.off), syllable.syllable_) == parse(str, 0)
- syl(syllable.syllable_)
@ens
- syllable.syllable_ == parse(str, 0)
@dec
str.len() - iter.off
@at loop0.pre
assert(str.skip(0) =~= str); lemma_comp(0);
@at loop0.begin
lemma_lead(); lemma_comp(0);
let rest = str.skip(iter.off);
lemma_front(rest); lemma_comp(front(rest)); 
if 0 <= iter.off < str.len() {
    assert(rest[0] == str[iter.off]);
    if front(rest) != 0 {
        lemma_chr(txt(front(rest))); lemma_txt(front(rest)); lemma_plus(syllable.syllable_, front(rest));
        assert(rest.take(front_len(rest)) =~= str.subrange(iter.off, iter.off + front_len(rest)));
        assert(rest.skip(front_len(rest)) =~= str.skip(iter.off + front_len(rest)));
    } else if rest.len() >= 2 {
        assert(rest.take(2) =~= str.subrange(iter.off, iter.off + 2));
        if rest.len() >= 3 { assert(rest.take(3) =~= str.subrange(iter.off, iter.off + 3)); }
    }
}
@fn BopomofoSyllable_FromHanyuPinyin
@ensures
- syl(ret.syllable_)
- str.len() == 0 ==> ret.syllable_ == 0
- str.len() > 0 && 97 <= c_tolower(sx8(str[0] as int)) <= 122 ==> ret.syllable_ != 0
@ghost
low: Seq<u8> = Seq::empty()
@at before if (PinyinParseHelper::ConsumePrefix(pinyin, "yuan"))
low = pinyin;
if str.len() > 0 { assert(low[0] as int == w_u8(c_tolower(sx8(str[0] as int)))); assert(low.take(1) =~= seq![low[0]]); }
@at before if (PinyinParseHelper::ConsumePrefix(pinyin, "zh"))
assert(firstComponent != 0 || secondComponent != 0 || pinyin == low && (97 <= low[0] <= 122 ==> low[0] == 97 || low[0] == 99 || low[0] == 101 || low[0] == 105 || low[0] == 111 || low[0] == 114 || low[0] == 115 || low[0] == 117 || low[0] == 118 || low[0] == 122));
@at before if (PinyinParseHelper::ConsumePrefix(pinyin, "veng"))
assert(firstComponent != 0 || secondComponent != 0 || pinyin == low && (97 <= low[0] <= 122 ==> low[0] == 97 || low[0] == 101 || low[0] == 105 || low[0] == 111 || low[0] == 117 || low[0] == 118));
assert(independentConsonant ==> firstComponent != 0);
@at before if (PinyinParseHelper::ConsumePrefix(pinyin, "i"))
assert(firstComponent != 0 || secondComponent != 0 || thirdComponent != 0 || pinyin == low);
@at before if (PinyinParseHelper::ConsumePrefix(pinyin, "ang"))
assert(firstComponent != 0 || secondComponent != 0 || thirdComponent != 0 || pinyin == low && (97 <= low[0] <= 122 ==> low[0] == 97 || low[0] == 101 || low[0] == 111));
@at before return BPMF(firstComponent
lemma_comp(0); lemma_comp(firstComponent); lemma_comp(secondComponent); lemma_comp(thirdComponent); lemma_comp(toneComponent);
lemma_sum(firstComponent, secondComponent, thirdComponent, toneComponent);
@at entry
lemma_comp(0);
@fn BopomofoSyllable_consonantComponent
@at entry
lemma_band(this.syllable_);
@ensures
- ret == con(this.syllable_)
@fn BopomofoSyllable_middleVowelComponent
@at entry
lemma_band(this.syllable_);
@ensures
- ret == 32 * med(this.syllable_)
@fn BopomofoSyllable_vowelComponent
@at entry
lemma_band(this.syllable_);
@ensures
- ret == 128 * vow(this.syllable_)
@fn BopomofoSyllable_toneMarkerComponent
@at entry
lemma_band(this.syllable_);
@ensures
- ret == 2048 * ton(this.syllable_)
@fn BopomofoSyllable_hasConsonant
@at entry
lemma_band(this.syllable_);
@ensures
- ret == (con(this.syllable_) != 0)
@fn BopomofoSyllable_hasMiddleVowel
@at entry
lemma_band(this.syllable_);
@ensures
- ret == (med(this.syllable_) != 0)
@fn BopomofoSyllable_hasVowel
@at entry
lemma_band(this.syllable_);
@ensures
- ret == (vow(this.syllable_) != 0)
@fn BopomofoSyllable_hasToneMarker
@at entry
lemma_band(this.syllable_);
@ensures
- ret == (ton(this.syllable_) != 0)
@fn BopomofoSyllable_isEmpty
@ensures
- ret == (this.syllable_ == 0)
@fn BopomofoSyllable_isOverlappingWith
@at entry
lemma_band(this.syllable_); lemma_band(another.syllable_);
@requires
- 0 <= another.syllable_ < 65536
@ensures
- ret == (con(this.syllable_) != 0 && con(another.syllable_) != 0 || med(this.syllable_) != 0 && med(another.syllable_) != 0 || vow(this.syllable_) != 0 && vow(another.syllable_) != 0 || ton(this.syllable_) != 0 && ton(another.syllable_) != 0)
