@source src/ChineseNumbers/StringUtils.cpp StringUtils
@source src/ChineseNumbers/ChineseNumbers.cpp ChineseNumbers
@source src/ChineseNumbers/ChineseNumbers.cpp convert4Digits
@source src/ChineseNumbers/SuzhouNumbers.cpp SuzhouNumbers
@option broadcast lemma_pad_long, lemma_trim_step, axiom_ceil_quarter, lemma_text_push, lemma_text_cat, lemma_dec_step
@prelude
// ---- vocabulary -------------------------------------------------------------------------
#[verifier::opaque]
pub open spec fn vocab_l() -> Seq<Seq<u8>> { seq![seq![227u8, 128u8, 135u8], seq![228u8, 184u8, 128u8], seq![228u8, 186u8, 140u8], seq![228u8, 184u8, 137u8], seq![229u8, 155u8, 155u8], seq![228u8, 186u8, 148u8], seq![229u8, 133u8, 173u8], seq![228u8, 184u8, 131u8], seq![229u8, 133u8, 171u8], seq![228u8, 185u8, 157u8], seq![229u8, 141u8, 129u8], seq![231u8, 153u8, 190u8], seq![229u8, 141u8, 131u8], seq![232u8, 144u8, 172u8], seq![229u8, 132u8, 132u8], seq![229u8, 133u8, 134u8], seq![228u8, 186u8, 172u8], seq![229u8, 158u8, 147u8], seq![231u8, 167u8, 173u8], seq![231u8, 169u8, 176u8], seq![230u8, 186u8, 157u8], seq![230u8, 190u8, 151u8], seq![230u8, 173u8, 163u8], seq![232u8, 188u8, 137u8]] }
#[verifier::opaque]
pub open spec fn vocab_u() -> Seq<Seq<u8>> { seq![seq![233u8, 155u8, 182u8], seq![229u8, 163u8, 185u8], seq![232u8, 178u8, 179u8], seq![229u8, 143u8, 131u8], seq![232u8, 130u8, 134u8], seq![228u8, 188u8, 141u8], seq![233u8, 153u8, 184u8], seq![230u8, 159u8, 146u8], seq![230u8, 141u8, 140u8], seq![231u8, 142u8, 150u8], seq![230u8, 139u8, 190u8], seq![228u8, 189u8, 176u8], seq![228u8, 187u8, 159u8], seq![232u8, 144u8, 172u8], seq![229u8, 132u8, 132u8], seq![229u8, 133u8, 134u8], seq![228u8, 186u8, 172u8], seq![229u8, 158u8, 147u8], seq![231u8, 167u8, 173u8], seq![231u8, 169u8, 176u8], seq![230u8, 186u8, 157u8], seq![230u8, 190u8, 151u8], seq![230u8, 173u8, 163u8], seq![232u8, 188u8, 137u8]] }
#[verifier::opaque]
pub open spec fn vert() -> Seq<Seq<u8>> { seq![seq![227u8, 128u8, 135u8], seq![227u8, 128u8, 161u8], seq![227u8, 128u8, 162u8], seq![227u8, 128u8, 163u8], seq![227u8, 128u8, 164u8], seq![227u8, 128u8, 165u8], seq![227u8, 128u8, 166u8], seq![227u8, 128u8, 167u8], seq![227u8, 128u8, 168u8], seq![227u8, 128u8, 169u8]] }
#[verifier::opaque]
pub open spec fn horz() -> Seq<Seq<u8>> { seq![seq![227u8, 128u8, 135u8], seq![228u8, 184u8, 128u8], seq![228u8, 186u8, 140u8], seq![228u8, 184u8, 137u8]] }
#[verifier::opaque]
pub open spec fn special() -> Seq<Seq<u8>> { seq![seq![227u8, 128u8, 184u8], seq![227u8, 128u8, 185u8], seq![227u8, 128u8, 186u8]] }
#[verifier::opaque]
pub open spec fn pnames() -> Seq<Seq<u8>> { seq![Seq::<u8>::empty(), seq![229u8, 141u8, 129u8], seq![231u8, 153u8, 190u8], seq![229u8, 141u8, 131u8], seq![228u8, 184u8, 135u8], seq![229u8, 141u8, 129u8, 228u8, 184u8, 135u8], seq![231u8, 153u8, 190u8, 228u8, 184u8, 135u8], seq![229u8, 141u8, 131u8, 228u8, 184u8, 135u8], seq![229u8, 132u8, 132u8], seq![229u8, 141u8, 129u8, 229u8, 132u8, 132u8], seq![231u8, 153u8, 190u8, 229u8, 132u8, 132u8], seq![229u8, 141u8, 131u8, 229u8, 132u8, 132u8], seq![229u8, 133u8, 134u8], seq![229u8, 141u8, 129u8, 229u8, 133u8, 134u8], seq![231u8, 153u8, 190u8, 229u8, 133u8, 134u8], seq![229u8, 141u8, 131u8, 229u8, 133u8, 134u8], seq![228u8, 186u8, 172u8], seq![229u8, 141u8, 129u8, 228u8, 186u8, 172u8], seq![231u8, 153u8, 190u8, 228u8, 186u8, 172u8], seq![229u8, 141u8, 131u8, 228u8, 186u8, 172u8], seq![229u8, 158u8, 147u8], seq![229u8, 141u8, 129u8, 229u8, 158u8, 147u8], seq![231u8, 153u8, 190u8, 229u8, 158u8, 147u8], seq![229u8, 141u8, 131u8, 229u8, 158u8, 147u8], seq![231u8, 167u8, 173u8], seq![229u8, 141u8, 129u8, 231u8, 167u8, 173u8], seq![231u8, 153u8, 190u8, 231u8, 167u8, 173u8], seq![229u8, 141u8, 131u8, 231u8, 167u8, 173u8], seq![231u8, 169u8, 176u8], seq![229u8, 141u8, 129u8, 231u8, 169u8, 176u8], seq![231u8, 153u8, 190u8, 231u8, 169u8, 176u8], seq![229u8, 141u8, 131u8, 231u8, 169u8, 176u8]] }
pub open spec fn code(s: Seq<u8>) -> int { (s[0] * 256 + s[1]) * 256 + s[2] }
pub open spec fn code_vocab_l(i: int) -> int { if i == 0 { 14909575 } else if i == 1 { 14989440 } else if i == 2 { 14989964 } else if i == 3 { 14989449 } else if i == 4 { 15047579 } else if i == 5 { 14989972 } else if i == 6 { 15041965 } else if i == 7 { 14989443 } else if i == 8 { 15041963 } else if i == 9 { 14989725 } else if i == 10 { 15043969 } else if i == 11 { 15178174 } else if i == 12 { 15043971 } else if i == 13 { 15241388 } else if i == 14 { 15041668 } else if i == 15 { 15041926 } else if i == 16 { 14989996 } else if i == 17 { 15048339 } else if i == 18 { 15181741 } else if i == 19 { 15182256 } else if i == 20 { 15121053 } else if i == 21 { 15122071 } else if i == 22 { 15117731 } else if i == 23 { 15252617 } else { 0 } }
pub open spec fn code_vocab_u(i: int) -> int { if i == 0 { 15309750 } else if i == 1 { 15049657 } else if i == 2 { 15250099 } else if i == 3 { 15044483 } else if i == 4 { 15237766 } else if i == 5 { 14990477 } else if i == 6 { 15309240 } else if i == 7 { 15114130 } else if i == 8 { 15109516 } else if i == 9 { 15175318 } else if i == 10 { 15109054 } else if i == 11 { 14990768 } else if i == 12 { 14990239 } else if i == 13 { 15241388 } else if i == 14 { 15041668 } else if i == 15 { 15041926 } else if i == 16 { 14989996 } else if i == 17 { 15048339 } else if i == 18 { 15181741 } else if i == 19 { 15182256 } else if i == 20 { 15121053 } else if i == 21 { 15122071 } else if i == 22 { 15117731 } else if i == 23 { 15252617 } else { 0 } }
// the words of one style are different from each other, three bytes each: the text determines the tokens
pub proof fn lemma_words(i: int, j: int)
    requires 0 <= i < 24, 0 <= j < 24, i != j
    ensures vocab_l().len() == 24, vocab_u().len() == 24, vocab_l()[i].len() == 3, vocab_u()[i].len() == 3,
        vocab_l()[i] != vocab_l()[j], vocab_u()[i] != vocab_u()[j]
{
    reveal(vocab_l); reveal(vocab_u);
    assert(code(vocab_l()[i]) == code_vocab_l(i)); assert(code(vocab_l()[j]) == code_vocab_l(j));
    assert(code(vocab_u()[i]) == code_vocab_u(i)); assert(code(vocab_u()[j]) == code_vocab_u(j));
}
// dividing by four and rounding up is exact on doubles for numbers below 2^52 (IEEE 754)
#[verifier::external_body]
pub broadcast proof fn axiom_ceil_quarter(n: int)
    requires 0 <= n < 0x10000000000000
    ensures #[trigger] d_trunc(dceil(ddiv(d_of_int(n), dlit(4)))) == (n + 3) / 4
{ }
// ---- digit strings ----------------------------------------------------------------------
pub open spec fn digits(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> 48 <= #[trigger] s[i] <= 57 }
pub open spec fn dv(s: Seq<u8>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { dv(s.drop_last()) * 10 + dg(s.last()) } }
pub open spec fn dg(c: u8) -> int { if 48 <= c <= 57 { c - 48 } else { 0 } }
// without the leading zeros
pub open spec fn trim0(s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { s } else {
        let p = trim0(s.drop_last());
        if p.len() == 0 && s.last() == 48 { p } else { p.push(s.last()) }
    }
}
pub broadcast proof fn lemma_trim_step(s: Seq<u8>, i: int)
    requires 0 <= i < s.len()
    ensures #![trigger trim0(s.subrange(0, i)), s[i]]
        trim0(s.subrange(0, i + 1)) == (if trim0(s.subrange(0, i)).len() == 0 && s[i] == 48 { trim0(s.subrange(0, i)) } else { trim0(s.subrange(0, i)).push(s[i]) })
{ assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); }
// without the trailing zeros
pub open spec fn trimend(s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{ if s.len() > 0 && s.last() == 48 { trimend(s.drop_last()) } else { s } }
pub proof fn lemma_trim0(s: Seq<u8>)
    requires digits(s)
    ensures digits(trim0(s)), dv(trim0(s)) == dv(s), trim0(s).len() > 0 ==> trim0(s)[0] != 48, trim0(s).len() <= s.len(),
        trim0(s).len() == 0 ==> dv(s) == 0
    decreases s.len()
{
    if s.len() > 0 {
        lemma_trim0(s.drop_last());
        let p = trim0(s.drop_last());
        if !(p.len() == 0 && s.last() == 48) { assert(p.push(s.last()).drop_last() =~= p); }
    }
}
pub proof fn lemma_trim_front(s: Seq<u8>)
    ensures s.len() > 0 && s[0] == 48 ==> trim0(s) == trim0(s.drop_first()), s.len() > 0 && s[0] != 48 ==> trim0(s) == s
    decreases s.len()
{
    if s.len() > 0 {
        let q = s.drop_last();
        lemma_trim_front(q);
        assert(q.push(s.last()) =~= s);
        if s.len() == 1 { assert(q =~= Seq::empty()); assert(s.drop_first() =~= Seq::empty()); }
        else { assert(s.drop_first().drop_last() =~= q.drop_first()); assert(s.drop_first().last() == s.last()); }
    }
}
pub proof fn lemma_trim_end(s: Seq<u8>)
    ensures trim0(s.reverse()).reverse() == trimend(s)
    decreases s.len()
{
    let r = s.reverse();
    if s.len() > 0 {
        lemma_trim_front(r);
        assert(r[0] == s.last());
        if s.last() == 48 { lemma_trim_end(s.drop_last()); assert(r.drop_first() =~= s.drop_last().reverse()); }
        else { assert(r.reverse() =~= s); }
    } else { assert(trim0(r).reverse() =~= s); }
}
pub proof fn lemma_trimend(s: Seq<u8>)
    requires digits(s)
    ensures digits(trimend(s)), trimend(s).len() <= s.len(), trimend(s).len() > 0 ==> trimend(s).last() != 48,
        trimend(s) == s.subrange(0, trimend(s).len() as int),
        forall|i: int| trimend(s).len() <= i < s.len() ==> s[i] == 48,
    decreases s.len()
{
    if s.len() > 0 && s.last() == 48 {
        lemma_trimend(s.drop_last());
        assert(s.drop_last().subrange(0, trimend(s).len() as int) =~= s.subrange(0, trimend(s).len() as int));
        assert forall|i: int| trimend(s).len() <= i < s.len() implies s[i] == 48 by { if i < s.len() - 1 { assert(s.drop_last()[i] == 48); } }
    } else { assert(s.subrange(0, s.len() as int) =~= s); }
}
// ---- numerals as tokens: a digit, a place within a section (10^k), a section mark (10^(4k)) ----
pub enum Tok { D(int), P(int), H(int) }
pub open spec fn num_word(t: Tok, up: bool) -> Seq<u8> {
    let v = if up { vocab_u() } else { vocab_l() };
    match t { Tok::D(d) => v[d], Tok::P(k) => v[9 + k], Tok::H(k) => v[12 + k] }
}
pub open spec fn num_text(t: Seq<Tok>, up: bool) -> Seq<u8>
    decreases t.len()
{ if t.len() == 0 { Seq::empty() } else { num_text(t.drop_last(), up) + num_word(t.last(), up) } }
pub broadcast proof fn lemma_text_push(t: Seq<Tok>, x: Tok, up: bool)
    ensures #[trigger] num_text(t.push(x), up) == num_text(t, up) + num_word(x, up)
{ assert(t.push(x).drop_last() =~= t); }
pub broadcast proof fn lemma_text_cat(a: Seq<Tok>, b: Seq<Tok>, up: bool)
    ensures #[trigger] num_text(a + b, up) == num_text(a, up) + num_text(b, up)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(num_text(a, up) + num_text(b, up) =~= num_text(a, up)); }
    else {
        lemma_text_cat(a, b.drop_last(), up);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((num_text(a, up) + num_text(b.drop_last(), up)) + num_word(b.last(), up) =~= num_text(a, up) + (num_text(b.drop_last(), up) + num_word(b.last(), up)));
    }
}
// the first i characters of a section of four, z: a zero is pending before it
pub open spec fn sec(s: Seq<u8>, i: int, z: bool) -> (Seq<Tok>, bool)
    decreases i
{
    if i <= 0 { (Seq::empty(), z) } else {
        let (t, y) = sec(s, i - 1, z);
        let c = s[i - 1];
        if c == 32 { (t, y) }
        else if c == 48 { (t, true) }
        else {
            let t1 = if y { t.push(Tok::D(0)) } else { t };
            let t2 = t1.push(Tok::D(dg(c)));
            (if i < 4 { t2.push(Tok::P(4 - i)) } else { t2 }, false)
        }
    }
}
pub open spec fn section(f: Seq<u8>, r: int) -> Seq<u8> { f.subrange(4 * r, 4 * r + 4) }
pub open spec fn zeros4() -> Seq<u8> { seq![48u8, 48u8, 48u8, 48u8] }
// the first r of the n sections of f
pub open spec fn gen(f: Seq<u8>, n: int, r: int) -> (Seq<Tok>, bool)
    decreases r
{
    if r <= 0 { (Seq::empty(), false) } else {
        let (t, z) = gen(f, n, r - 1);
        let s = section(f, r - 1);
        if s == zeros4() { (t, true) }
        else {
            let t1 = t + sec(s, 4, z).0;
            (if n - r > 0 { t1.push(Tok::H(n - r)) } else { t1 }, false)
        }
    }
}
pub open spec fn filled4(s: Seq<u8>) -> Seq<u8> { Seq::new((4 * ((s.len() + 3) / 4) - s.len()) as nat, |i: int| 32u8) + s }
pub open spec fn int_toks(s: Seq<u8>) -> Seq<Tok> {
    let t = trim0(s);
    let n = (t.len() + 3) / 4;
    if t.len() == 0 { seq![Tok::D(0)] } else { gen(filled4(t), n as int, n as int).0 }
}
pub open spec fn dec_toks(s: Seq<u8>) -> Seq<Tok> { Seq::new(s.len(), |i: int| Tok::D(dg(s[i]))) }
pub open spec fn numeral(ip: Seq<u8>, dp: Seq<u8>, up: bool) -> Seq<u8> {
    num_text(int_toks(ip), up) + (if trimend(dp).len() == 0 { Seq::empty() } else { seq![233u8, 187u8, 158u8] + num_text(dec_toks(trimend(dp)), up) })
}
pub broadcast proof fn lemma_dec_step(s: Seq<u8>, i: int)
    requires 0 <= i < s.len()
    ensures #![trigger dec_toks(s.subrange(0, i)), s[i]] dec_toks(s.subrange(0, i + 1)) == dec_toks(s.subrange(0, i)).push(Tok::D(dg(s[i])))
{ assert(dec_toks(s.subrange(0, i + 1)) =~= dec_toks(s.subrange(0, i)).push(Tok::D(dg(s[i])))); }
// ---- C11: what the tokens read as --------------------------------------------------------
pub open spec fn p10(k: int) -> int
    decreases k
{ if k <= 0 { 1 } else { 10 * p10(k - 1) } }
// (finished sections, this section, pending digit)
pub open spec fn step(a: (int, int, int), t: Tok) -> (int, int, int) {
    match t {
        Tok::D(d) => (a.0, a.1, d),
        Tok::P(k) => (a.0, a.1 + a.2 * p10(k), 0),
        Tok::H(k) => (a.0 + (a.1 + a.2) * p10(4 * k), 0, 0),
    }
}
pub open spec fn num_run(a: (int, int, int), t: Seq<Tok>) -> (int, int, int)
    decreases t.len()
{ if t.len() == 0 { a } else { step(num_run(a, t.drop_last()), t.last()) } }
pub open spec fn reads(t: Seq<Tok>) -> int { let a = num_run((0, 0, 0), t); a.0 + a.1 + a.2 }
pub proof fn num_lemma_run_push(a: (int, int, int), t: Seq<Tok>, x: Tok)
    ensures num_run(a, t.push(x)) == step(num_run(a, t), x)
{ assert(t.push(x).drop_last() =~= t); }
pub proof fn lemma_run_cat(a: (int, int, int), t: Seq<Tok>, u: Seq<Tok>)
    ensures num_run(a, t + u) == num_run(num_run(a, t), u)
    decreases u.len()
{
    if u.len() == 0 { assert(t + u =~= t); }
    else { lemma_run_cat(a, t, u.drop_last()); assert((t + u).drop_last() =~= t + u.drop_last()); }
}
pub open spec fn charsok(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 32 || 48 <= s[i] <= 57 }
// value of the first i characters of a section
pub open spec fn pv(s: Seq<u8>, i: int) -> int
    decreases i
{ if i <= 0 { 0 } else { pv(s, i - 1) + dg(s[i - 1]) * p10(4 - i) } }
pub proof fn lemma_p10()
    ensures p10(0) == 1, p10(1) == 10, p10(2) == 100, p10(3) == 1000, p10(4) == 10000
{ reveal_with_fuel(p10, 6); }
pub proof fn lemma_p10_add(k: int)
    requires k >= 0
    ensures p10(k + 4) == 10000 * p10(k)
{ reveal_with_fuel(p10, 6); }
pub proof fn lemma_sec(s: Seq<u8>, i: int, z: bool, a: (int, int, int))
    requires s.len() == 4, charsok(s), 0 <= i <= 4, a.1 == 0, a.2 == 0
    ensures ({
        let r = num_run(a, sec(s, i, z).0);
        r.0 == a.0 && (i < 4 ==> r.2 == 0) && r.1 + r.2 == pv(s, i)
    })
    decreases i
{
    lemma_p10();
    if i > 0 {
        lemma_sec(s, i - 1, z, a);
        let (t, y) = sec(s, i - 1, z);
        let c = s[i - 1];
        assert(dg(48) * p10(4 - i) == 0);
        assert(dg(32) * p10(4 - i) == 0);
        if c != 32 && c != 48 {
            let t1 = if y { t.push(Tok::D(0)) } else { t };
            num_lemma_run_push(a, t, Tok::D(0));
            num_lemma_run_push(a, t1, Tok::D(dg(c)));
            num_lemma_run_push(a, t1.push(Tok::D(dg(c))), Tok::P(4 - i));
            assert(num_run(a, t1).1 == num_run(a, t).1);
            if i == 4 { assert(dg(c) * p10(0) == dg(c)); }
        }
    }
}
// value of the first r sections
pub open spec fn pd(f: Seq<u8>, r: int) -> int
    decreases r
{ if r <= 0 { 0 } else { pd(f, r - 1) * 10000 + pv(section(f, r - 1), 4) } }
pub proof fn lemma_gen(f: Seq<u8>, n: int, r: int)
    requires f.len() == 4 * n, charsok(f), 0 <= r <= n
    ensures ({
        let a = num_run((0, 0, 0), gen(f, n, r).0);
        (r < n ==> a.1 == 0 && a.2 == 0) && a.0 + a.1 + a.2 == pd(f, r) * p10(4 * (n - r))
    })
    decreases r
{
    if r > 0 {
        lemma_gen(f, n, r - 1);
        let (t, z) = gen(f, n, r - 1);
        let s = section(f, r - 1);
        let a = num_run((0, 0, 0), t);
        lemma_p10_add(4 * (n - r));
        let p = p10(4 * (n - r));
        let q = pd(f, r - 1);
        assert(a.0 == q * (10000 * p));
        assert(q * (10000 * p) == (q * 10000) * p) by (nonlinear_arith);
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == 32 || 48 <= s[i] <= 57 by { assert(s[i] == f[4 * (r - 1) + i]); }
        if s == zeros4() {
            reveal_with_fuel(pv, 5);
            assert(s[0] == 48 && s[1] == 48 && s[2] == 48 && s[3] == 48);
            assert(forall|k: int| 0 * #[trigger] p10(k) == 0);
            assert(pv(s, 4) == 0);
            assert(pd(f, r) == q * 10000);
        } else {
            lemma_sec(s, 4, z, a);
            let b = num_run(a, sec(s, 4, z).0);
            lemma_run_cat((0, 0, 0), t, sec(s, 4, z).0);
            num_lemma_run_push((0, 0, 0), t + sec(s, 4, z).0, Tok::H(n - r));
            let v = pv(s, 4);
            assert((q * 10000 + v) * p == (q * 10000) * p + v * p) by (nonlinear_arith);
            if n == r { lemma_p10(); assert(v * p == v) by (nonlinear_arith) requires p == 1; }
        }
    } else { assert(0 * p10(4 * n) == 0); }
}
// the digits of the whole string with blanks as zeros
pub proof fn lemma_pd(f: Seq<u8>, r: int)
    requires charsok(f), 0 <= r, 4 * r <= f.len()
    ensures pd(f, r) == dv(f.subrange(0, 4 * r))
    decreases r
{
    if r > 0 {
        lemma_pd(f, r - 1);
        lemma_p10();
        reveal_with_fuel(pv, 5);
        let g = f.subrange(0, 4 * r);
        let s = section(f, r - 1);
        let h = 4 * (r - 1);
        assert(g.drop_last() =~= f.subrange(0, h + 3)); assert(g.last() == s[3]);
        assert(f.subrange(0, h + 3).drop_last() =~= f.subrange(0, h + 2)); assert(f.subrange(0, h + 3).last() == s[2]);
        assert(f.subrange(0, h + 2).drop_last() =~= f.subrange(0, h + 1)); assert(f.subrange(0, h + 2).last() == s[1]);
        assert(f.subrange(0, h + 1).drop_last() =~= f.subrange(0, h)); assert(f.subrange(0, h + 1).last() == s[0]);
        let x = dv(f.subrange(0, h));
        assert(dv(f.subrange(0, h + 1)) == x * 10 + dg(s[0]));
        assert(dv(f.subrange(0, h + 2)) == (x * 10 + dg(s[0])) * 10 + dg(s[1]));
        assert(dv(f.subrange(0, h + 3)) == ((x * 10 + dg(s[0])) * 10 + dg(s[1])) * 10 + dg(s[2]));
        assert(pv(s, 4) == dg(s[0]) * 1000 + dg(s[1]) * 100 + dg(s[2]) * 10 + dg(s[3]));
    } else { assert(f.subrange(0, 0) =~= Seq::empty()); }
}
pub proof fn lemma_blank(k: nat, s: Seq<u8>)
    ensures dv(Seq::new(k, |i: int| 32u8) + s) == dv(s)
    decreases k + s.len()
{
    let b = Seq::new(k, |i: int| 32u8);
    let t = b + s;
    if s.len() > 0 { lemma_blank(k, s.drop_last()); assert(t.drop_last() =~= b + s.drop_last()); assert(t.last() == s.last()); }
    else if k > 0 {
        lemma_blank((k - 1) as nat, s);
        assert(t.drop_last() =~= Seq::new((k - 1) as nat, |i: int| 32u8) + s);
        assert(t.last() == 32);
    } else { assert(t =~= s); }
}
// C11: the integer part reads back as the number typed
pub proof fn lemma_reads_back(ip: Seq<u8>)
    requires digits(ip)
    ensures reads(int_toks(ip)) == dv(ip)
{
    lemma_trim0(ip);
    let t = trim0(ip);
    let n = ((t.len() + 3) / 4) as int;
    if t.len() == 0 {
        let u = seq![Tok::D(0)];
        assert(u.drop_last() =~= Seq::empty());
        reveal_with_fuel(num_run, 2);
    } else {
        let f = filled4(t);
        assert(f.len() == 4 * n);
        assert forall|i: int| 0 <= i < f.len() implies #[trigger] f[i] == 32 || 48 <= f[i] <= 57 by {
            if i >= f.len() - t.len() { assert(f[i] == t[i - (f.len() - t.len())]); }
        }
        lemma_gen(f, n, n); lemma_p10();
        lemma_pd(f, n);
        assert(f.subrange(0, 4 * n) =~= f);
        lemma_blank((4 * n - t.len()) as nat, t);
        assert(pd(f, n) * p10(0) == pd(f, n));
    }
}
// a zero is written only inside, once, and before a digit that is not zero
pub open spec fn neat(t: Seq<Tok>) -> bool {
    forall|i: int| 0 <= i < t.len() && #[trigger] t[i] == Tok::D(0) ==> i > 0 && i + 1 < t.len() && nonzero(t[i + 1])
}
pub open spec fn nonzero(t: Tok) -> bool { match t { Tok::D(d) => d > 0, _ => false } }
pub open spec fn inner(t: Seq<Tok>) -> bool {
    forall|i: int| 0 <= i < t.len() && #[trigger] t[i] == Tok::D(0) ==> i + 1 < t.len() && nonzero(t[i + 1])
}
pub proof fn lemma_inner_cat(a: Seq<Tok>, b: Seq<Tok>)
    requires inner(a), inner(b)
    ensures inner(a + b)
{
    let t = a + b;
    assert forall|i: int| 0 <= i < t.len() && #[trigger] t[i] == Tok::D(0) implies i + 1 < t.len() && nonzero(t[i + 1]) by {
        if i < a.len() { assert(a[i] == t[i]); assert(a[i + 1] == t[i + 1]); } else { assert(b[i - a.len()] == t[i]); assert(b[i - a.len() + 1] == t[i + 1]); }
    }
}
pub proof fn lemma_sec_inner(s: Seq<u8>, i: int, z: bool)
    requires s.len() == 4, charsok(s), 0 <= i <= 4
    ensures inner(sec(s, i, z).0),
        // leading blanks and then a digit that is not zero: the first token is that digit
        !z && (exists|k: int| 0 <= k < 4 && s[k] != 32 && s[k] != 48 && forall|j: int| 0 <= j < k ==> s[j] == 32) ==>
            ((sec(s, i, z).0.len() == 0 ==> !sec(s, i, z).1) && (sec(s, i, z).0.len() > 0 ==> nonzero(sec(s, i, z).0[0]))),
        forall|k: int| 0 <= k < i && s[k] != 32 && s[k] != 48 ==> sec(s, i, z).0.len() > 0,
    decreases i
{
    if i > 0 {
        lemma_sec_inner(s, i - 1, z);
        let (t, y) = sec(s, i - 1, z);
        let c = s[i - 1];
        if c != 32 && c != 48 {
            let d = Tok::D(dg(c));
            let b = if y { seq![Tok::D(0), d] } else { seq![d] };
            let e = if i < 4 { seq![Tok::P(4 - i)] } else { Seq::<Tok>::empty() };
            assert(inner(b)); assert(inner(e));
            lemma_inner_cat(t, b); lemma_inner_cat(t + b, e);
            assert(sec(s, i, z).0 =~= t + b + e);
        }
    }
}
pub proof fn lemma_gen_inner(f: Seq<u8>, n: int, r: int)
    requires f.len() == 4 * n, charsok(f), 0 <= r <= n, n > 0,
        exists|k: int| 0 <= k < 4 && f[k] != 32 && f[k] != 48 && forall|j: int| 0 <= j < k ==> f[j] == 32
    ensures inner(gen(f, n, r).0), r > 0 ==> gen(f, n, r).0.len() > 0 && nonzero(gen(f, n, r).0[0])
    decreases r
{
    if r > 0 {
        lemma_gen_inner(f, n, r - 1);
        let (t, z) = gen(f, n, r - 1);
        let s = section(f, r - 1);
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == 32 || 48 <= s[i] <= 57 by { assert(s[i] == f[4 * (r - 1) + i]); }
        let k = choose|k: int| 0 <= k < 4 && f[k] != 32 && f[k] != 48 && forall|j: int| 0 <= j < k ==> f[j] == 32;
        if r == 1 {
            assert(s[k] == f[k]);
            assert forall|j: int| 0 <= j < k implies s[j] == 32 by { assert(s[j] == f[j]); }
            assert(s != zeros4()) by { assert(zeros4()[k] == 48); }
        }
        if s != zeros4() {
            lemma_sec_inner(s, 4, z);
            let e = if n - r > 0 { seq![Tok::H(n - r)] } else { Seq::<Tok>::empty() };
            assert(inner(e));
            lemma_inner_cat(t, sec(s, 4, z).0); lemma_inner_cat(t + sec(s, 4, z).0, e);
            assert(gen(f, n, r).0 =~= t + sec(s, 4, z).0 + e);
        }
    }
}
pub proof fn lemma_neat(ip: Seq<u8>)
    requires digits(ip), trim0(ip).len() > 0
    ensures neat(int_toks(ip)), int_toks(ip).len() > 0, nonzero(int_toks(ip)[0])
{
    lemma_trim0(ip);
    let t = trim0(ip);
    let n = ((t.len() + 3) / 4) as int;
    let f = filled4(t);
    assert(f.len() == 4 * n);
    assert forall|i: int| 0 <= i < f.len() implies #[trigger] f[i] == 32 || 48 <= f[i] <= 57 by {
        if i >= f.len() - t.len() { assert(f[i] == t[i - (f.len() - t.len())]); }
    }
    let k = f.len() - t.len();
    assert(f[k] == t[0]);
    assert(0 <= k < 4 && f[k] != 32 && f[k] != 48 && forall|j: int| 0 <= j < k ==> f[j] == 32);
    lemma_gen_inner(f, n, n);
}
// ---- Suzhou numerals ---------------------------------------------------------------------
// the first i digits; .1: the next 1, 2 or 3 stands upright
pub open spec fn suz(s: Seq<u8>, i: int, pref: bool) -> (Seq<u8>, bool)
    decreases i
{
    if i <= 0 { (Seq::empty(), pref) } else {
        let (t, v) = suz(s, i - 1, pref);
        let d = dg(s[i - 1]);
        if 1 <= d <= 3 { (t + (if v { vert()[d] } else { horz()[d] }), !v) } else { (t + vert()[d], pref) }
    }
}
pub open spec fn suz_int(ip: Seq<u8>, dp: Seq<u8>) -> Seq<u8> {
    let t = if trimend(dp).len() == 0 { trimend(trim0(ip)) } else { trim0(ip) };
    if t.len() == 0 { seq![48u8] } else { t }
}
// power of ten of the leading digit
pub open spec fn suz_place(ip: Seq<u8>) -> int { if trim0(ip).len() == 0 { 0 } else { trim0(ip).len() - 1 } }
pub open spec fn suzhou(ip: Seq<u8>, dp: Seq<u8>, unit: Seq<u8>, pref: bool) -> Seq<u8> {
    let j = suz_int(ip, dp) + trimend(dp);
    let d = dg(j[0]);
    if j.len() == 1 && suz_place(ip) == 1 && 1 <= d <= 3 { special()[d - 1] + unit }
    else { suz(j, j.len() as int, pref).0 + (if j.len() > 1 { seq![10u8] } else { Seq::empty() }) + pnames()[suz_place(ip)] + unit }
}
// C11: the digits shown are the digits typed, without leading zeros (and without trailing ones when there is no fraction)
pub proof fn lemma_suz_digits(ip: Seq<u8>, dp: Seq<u8>)
    requires digits(ip), digits(dp)
    ensures
        trim0(ip).len() > 0 ==> suz_int(ip, dp)[0] != 48 && suz_int(ip, dp) == trim0(ip).subrange(0, suz_int(ip, dp).len() as int)
            && forall|i: int| suz_int(ip, dp).len() <= i < trim0(ip).len() ==> trim0(ip)[i] == 48,
        trimend(dp).len() > 0 && trim0(ip).len() > 0 ==> suz_int(ip, dp) == trim0(ip),
        dv(trim0(ip)) == dv(ip),
{
    lemma_trim0(ip); lemma_trimend(trim0(ip)); lemma_trimend(dp);
    let t = trim0(ip);
    assert(t.subrange(0, t.len() as int) =~= t);
    if t.len() > 0 && trimend(t).len() == 0 { assert(t[0] == 48); }
}
// the tables in the code are the vocabulary
pub proof fn lemma_code_tables()
    ensures
        c_kLowerDigits().len() == 10, c_kUpperDigits().len() == 10, c_kLowerPlaces().len() == 4, c_kUpperPlaces().len() == 4, c_kHigherPlaces().len() >= 12,
        forall|d: int| 0 <= d < 10 ==> #[trigger] c_kLowerDigits()[d] == num_word(Tok::D(d), false),
        forall|d: int| 0 <= d < 10 ==> #[trigger] c_kUpperDigits()[d] == num_word(Tok::D(d), true),
        forall|k: int| 0 <= k < 3 ==> #[trigger] c_kLowerPlaces()[k] == num_word(Tok::P(3 - k), false),
        forall|k: int| 0 <= k < 3 ==> #[trigger] c_kUpperPlaces()[k] == num_word(Tok::P(3 - k), true),
        c_kLowerPlaces()[3].len() == 0, c_kUpperPlaces()[3].len() == 0, c_kHigherPlaces()[0].len() == 0,
        forall|k: int| 1 <= k < 12 ==> #[trigger] c_kHigherPlaces()[k] == num_word(Tok::H(k), false),
        forall|k: int| 1 <= k < 12 ==> #[trigger] c_kHigherPlaces()[k] == num_word(Tok::H(k), true),
{ reveal(vocab_l); reveal(vocab_u); }
@fn StringUtils_TrimZerosAtStart
@ensures
- ret == trim0(input)
@loop 0
@inv
- output.s == trim0(input.subrange(0, idx0)) && nonZeroFound == (output.s.len() > 0) && output.width == 0 && rng0 == input
@at return
assert(input.subrange(0, input.len() as int) =~= input);
@fn StringUtils_TrimZerosAtEnd
@ensures
- ret == trimend(input)
@at return
lemma_trim_end(old_input);
@fn StringUtils_LeftPadding
@ensures
- input.len() >= toLength ==> ret == input
- input.len() < toLength ==> ret =~= Seq::new((toLength - input.len()) as nat, |i: int| character as u8) + input
@loop 0
@inv
- 0 <= i <= toLength - input.len() && ss.s =~= Seq::new(i as nat, |k: int| character as u8) && ss.width == 0
@fn convert4Digits
@opt hide c_kLowerDigits c_kUpperDigits c_kLowerPlaces c_kUpperPlaces c_kHigherPlaces
@requires
- substring.len() == 4 && charsok(substring)
- digitCase == 0 || digitCase == 1
@ensures
- ret == num_text(sec(substring, 4, zeroEverHappened).0, digitCase == 1)
@at entry
lemma_code_tables();
@loop 0
@inv
- i <= 4 && output.s == num_text(sec(substring, i, zeroEverHappened).0, digitCase == 1) && zeroHappened == sec(substring, i, zeroEverHappened).1 && output.width == 0
@fn ChineseNumbers_Generate
@opt hide c_kLowerDigits c_kUpperDigits c_kLowerPlaces c_kUpperPlaces c_kHigherPlaces
@requires
- digits(intPart) && digits(decPart)
- trim0(intPart).len() <= 48
- digitCase == 0 || digitCase == 1
@ensures
- ret =~= numeral(intPart, decPart, digitCase == 1)
@at entry
lemma_code_tables(); lemma_trim0(intPart); lemma_trimend(decPart);
@loop 0
@inv
- readHead % 4 == 0 && readHead <= filledLength && filledLength == 4 * intSectionCount && intSectionCount == (intTrimmed.len() + 3) / 4
- filled == filled4(intTrimmed) && output.width == 0
- output.s == num_text(gen(filled, intSectionCount, readHead / 4).0, digitCase == 1) && zeroEverHappen == gen(filled, intSectionCount, readHead / 4).1
@at loop0.begin
assert(section(filled, readHead / 4) == str_sub(filled, readHead, 4));
assert forall|i: int| 0 <= i < 4 implies #[trigger] section(filled, readHead / 4)[i] == 32 || 48 <= section(filled, readHead / 4)[i] <= 57 by { assert(section(filled, readHead / 4)[i] == filled[readHead + i]); }
assert(gen(filled, intSectionCount, readHead / 4 + 1) == gen(filled, intSectionCount, readHead / 4 + 1));
@at loop1.begin
assert(dec_toks(rng0.subrange(0, idx0 + 1)) == dec_toks(rng0.subrange(0, idx0)).push(Tok::D(dg(rng0[idx0]))));
@at return
assert(decTrimmed.subrange(0, decTrimmed.len() as int) =~= decTrimmed);
@loop 1
@inv
- rng0 == decTrimmed && decTrimmed == trimend(old_decPart)
- output.s =~= num_text(int_toks(old_intPart), digitCase == 1) + (seq![233u8, 187u8, 158u8] + num_text(dec_toks(rng0.subrange(0, idx0)), digitCase == 1)) && output.width == 0
@fn SuzhouNumbers_Generate
@requires
- digits(intPart) && digits(decPart)
- trim0(intPart).len() <= 32
@ensures
- ret =~= suzhou(intPart, decPart, unit, preferInitialVertical)
@at entry
reveal(vert); reveal(horz); reveal(special); reveal(pnames); lemma_trim0(intPart); lemma_trimend(decPart); lemma_trimend(trim0(intPart)); lemma_suz_digits(intPart, decPart);
@loop 0
@inv
- output.s == suz(joined, idx0, preferInitialVertical).0 && isVertical == suz(joined, idx0, preferInitialVertical).1 && output.width == 0 && rng0 == joined
