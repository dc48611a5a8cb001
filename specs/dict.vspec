@source src/DictionaryService.cpp urlEncode
@source src/DictionaryService.cpp McBopomofo
@source src/DictionaryService.cpp HttpBasedDictionaryService
@poly McBopomofo::InputState
@opaque McBopomofo::InputStates::SelectingFeature
@opaque McBopomofo::InputStates::SelectingDateMacro
@extern world call_InputState(std::unique_ptr<McBopomofo::InputState>) -> void
@opaque McBopomofo::DictionaryService
@extern world DictionaryService::lookup(McBopomofo::DictionaryService, std::string, McBopomofo::InputState *, size_t, _) -> void
@extern DictionaryService::textForMenu(McBopomofo::DictionaryService, std::string) -> std::string = text_for($0, $1)
@extern world startProcess(std::vector<std::string>) -> void
@prelude
// the programs started so far, oldest first, each with its arguments
pub struct World { pub started: Seq<Seq<Seq<u8>>>, pub asked: Seq<(DictionaryService, Seq<u8>)>, pub entered: Seq<Option<InputState>> }
#[verifier::external_body]
pub fn ext_call_InputState(w: Ghost<World>, s: Ghost<Option<InputState>>) -> (r: Ghost<World>) ensures r@ == (World { entered: w@.entered.push(s@), ..w@ }) { unimplemented!() }
// asked: the services asked so far, each with the phrase
#[verifier::external_body]
pub fn ext_DictionaryService_lookup(w: Ghost<World>, d: Ghost<DictionaryService>, p: Ghost<Seq<u8>>, s: Ghost<Option<InputState>>, i: Ghost<int>) -> (r: Ghost<World>)
    ensures r@ == (World { asked: w@.asked.push((d@, p@)), ..w@ })
{ unimplemented!() }
pub uninterp spec fn text_for(d: DictionaryService, phrase: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn ext_startProcess(w: Ghost<World>, cmd: Ghost<Seq<Seq<u8>>>) -> (r: Ghost<World>)
    ensures r@ == (World { started: w@.started.push(cmd@), ..w@ })
{ unimplemented!() }

// ---- percent-encoding (RFC 3986) ---------------------------------------------------------
pub open spec fn unreserved(c: u8) -> bool {
    65 <= c <= 90 || 97 <= c <= 122 || 48 <= c <= 57 || c == 45 || c == 46 || c == 95 || c == 126
}
pub open spec fn hexdig(d: int) -> u8 { (if d < 10 { 48 + d } else { 55 + d }) as u8 }
pub open spec fn esc(c: u8) -> Seq<u8> {
    if unreserved(c) { seq![c] } else { seq![37u8, hexdig(c as int / 16), hexdig(c as int % 16)] }
}
pub open spec fn enc(s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { enc(s.drop_last()) + esc(s.last()) }
}
// reading it back
pub open spec fn hexval(c: u8) -> int { if 48 <= c <= 57 { c - 48 } else if 65 <= c <= 70 { c - 55 } else { -1 } }
pub open spec fn dec(t: Seq<u8>) -> Seq<u8>
    decreases t.len()
{
    if t.len() == 0 { Seq::empty() }
    else if t[0] == 37 && t.len() >= 3 { seq![(hexval(t[1]) * 16 + hexval(t[2])) as u8] + dec(t.subrange(3, t.len() as int)) }
    else { seq![t[0]] + dec(t.subrange(1, t.len() as int)) }
}
// a sequence of unreserved characters and %XX escapes
pub open spec fn wellformed(t: Seq<u8>) -> bool
    decreases t.len()
{
    t.len() == 0
    || (unreserved(t[0]) && wellformed(t.subrange(1, t.len() as int)))
    || (t[0] == 37 && t.len() >= 3 && hexval(t[1]) >= 0 && hexval(t[2]) >= 0 && wellformed(t.subrange(3, t.len() as int)))
}
pub proof fn lemma_radix16(c: int)
    requires 0 <= c < 256
    ensures pad(int_text(c, 16, true), 2, 48) =~= seq![hexdig(c / 16), hexdig(c % 16)]
{
    reveal_with_fuel(radix, 3);
    assert(c / 16 < 16);
    if c < 16 {
        assert(c / 16 == 0 && c % 16 == c);
        assert(radix(c, 16, true) =~= seq![digit_char(c, true)]);
        assert(pad(radix(c, 16, true), 2, 48) =~= seq![48u8, digit_char(c, true)]);
    } else {
        assert(radix(c, 16, true) =~= seq![digit_char(c / 16, true)].push(digit_char(c % 16, true)));
    }
}
pub broadcast proof fn lemma_radix16_b(c: int)
    requires 0 <= c < 256
    ensures pad(#[trigger] int_text(c, 16, true), 2, 48) =~= seq![hexdig(c / 16), hexdig(c % 16)]
{ lemma_radix16(c); }
pub broadcast proof fn lemma_enc_push(s: Seq<u8>, i: int)
    requires 0 <= i < s.len()
    ensures #![trigger enc(s.subrange(0, i)), s[i]] enc(s.subrange(0, i + 1)) == enc(s.subrange(0, i)) + esc(s[i])
{ assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); }
// C16: only unreserved characters and %XX
pub proof fn lemma_wf_cat(a: Seq<u8>, b: Seq<u8>)
    requires wellformed(a), wellformed(b)
    ensures wellformed(a + b), dec(a + b) == dec(a) + dec(b)
    decreases a.len()
{
    let t = a + b;
    if a.len() == 0 { assert(t =~= b); assert(dec(a) + dec(b) =~= dec(b)); }
    else if unreserved(a[0]) && wellformed(a.subrange(1, a.len() as int)) {
        lemma_wf_cat(a.subrange(1, a.len() as int), b);
        assert(t.subrange(1, t.len() as int) =~= a.subrange(1, a.len() as int) + b);
        assert(dec(t) =~= dec(a) + dec(b));
    } else {
        lemma_wf_cat(a.subrange(3, a.len() as int), b);
        assert(t.subrange(3, t.len() as int) =~= a.subrange(3, a.len() as int) + b);
        assert(dec(t) =~= dec(a) + dec(b));
    }
}
pub proof fn lemma_esc(c: u8)
    ensures wellformed(esc(c)), dec(esc(c)) == seq![c]
{
    let t = esc(c);
    reveal_with_fuel(dec, 3); reveal_with_fuel(wellformed, 3);
    if unreserved(c) {
        assert(t.subrange(1, 1) =~= Seq::<u8>::empty());
        assert(dec(t) =~= seq![c]);
    } else {
        let h = c as int / 16; let l = c as int % 16;
        assert(hexval(hexdig(h)) == h); assert(hexval(hexdig(l)) == l);
        assert(t.subrange(3, 3) =~= Seq::<u8>::empty());
        assert(dec(t) =~= seq![c]);
    }
}
pub proof fn lemma_roundtrip(s: Seq<u8>)
    ensures wellformed(enc(s)), dec(enc(s)) == s
    decreases s.len()
{
    if s.len() == 0 { assert(dec(enc(s)) =~= s); }
    else {
        lemma_roundtrip(s.drop_last()); lemma_esc(s.last());
        lemma_wf_cat(enc(s.drop_last()), esc(s.last()));
        assert(dec(enc(s)) =~= s);
    }
}
// the URL for a template: its first placeholder replaced, all the rest kept
pub open spec fn hole() -> Seq<u8> { seq![40u8, 101u8, 110u8, 99u8, 111u8, 100u8, 101u8, 100u8, 41u8] }
pub open spec fn first_at(t: Seq<u8>, p: Seq<u8>, k: int) -> bool { is_at(t, p, k) && forall|j: int| 0 <= j < k ==> !is_at(t, p, j) }
pub open spec fn url_of(t: Seq<u8>, phrase: Seq<u8>, url: Seq<u8>) -> bool {
    if exists|k: int| is_at(t, hole(), k) {
        exists|k: int| #[trigger] first_at(t, hole(), k) && url == t.subrange(0, k) + enc(phrase) + t.subrange(k + 9, t.len() as int)
    } else { url == t }
}
pub proof fn lemma_first(t: Seq<u8>, p: Seq<u8>, k: int)
    requires is_at(t, p, k)
    ensures exists|m: int| #[trigger] first_at(t, p, m)
    decreases k
{
    if !first_at(t, p, k) {
        let j = choose|j: int| 0 <= j < k && is_at(t, p, j);
        lemma_first(t, p, j);
    }
}
pub broadcast proof fn lemma_find(t: Seq<u8>, p: Seq<u8>)
    ensures
        (exists|k: int| is_at(t, p, k)) ==> first_at(t, p, #[trigger] str_find(t, p, 0)),
        !(exists|k: int| is_at(t, p, k)) ==> str_find(t, p, 0) == 0xFFFFFFFFFFFFFFFF,
{
    if exists|k: int| is_at(t, p, k) {
        let k = choose|k: int| is_at(t, p, k);
        lemma_first(t, p, k);
        let m = choose|m: int| #[trigger] first_at(t, p, m);
        assert(m >= 0 && is_at(t, p, m) && forall|j: int| 0 <= j < m ==> !is_at(t, p, j));
    }
}
pub open spec fn opener() -> Seq<u8> { seq![120u8, 100u8, 103u8, 45u8, 111u8, 112u8, 101u8, 110u8] }
// exactly one program was started, and it is the browser with the URL for this phrase; the empty state is entered, once
pub open spec fn opened(w: World, w2: World, t: Seq<u8>, phrase: Seq<u8>) -> bool {
    exists|url: Seq<u8>| #[trigger] url_of(t, phrase, url) && w2 == (World { started: w.started.push(seq![opener(), url]), entered: w.entered.push(Some(InputState::Empty(InputStates_Empty { }))), ..w })
}
@option broadcast lemma_radix16_b, lemma_pad_long, lemma_enc_push, lemma_find
@fn urlEncode
@ensures
- ret == enc(str)
@loop 0
@inv
- encodedStream.s == enc(str.subrange(0, idx0)) && encodedStream.base == 16 && encodedStream.upper && encodedStream.fill == 48 && encodedStream.width == 0
- rng0 == str
@at return
assert(str.subrange(0, str.len() as int) =~= str);
@fn HttpBasedDictionaryService_lookup
@opt world
@ensures
- opened(w, w_post, this.urlTemplate_, phrase)
@at return
lemma_find(old_this.urlTemplate_, hole());
assert(url_of(old_this.urlTemplate_, old_phrase, url));
@fn HttpBasedDictionaryService_ctor
@ensures
- ret.urlTemplate_ == urlTemplate
- ret.name_ == name
@fn DictionaryServices_hasServices
@ensures
- ret == (this.services_.len() > 0)
@fn DictionaryServices_lookup
@opt world
@requires
- forall|i: int| 0 <= i < this.services_.len() ==> (#[trigger] this.services_[i]).is_some()
@ensures
- serviceIndex >= this.services_.len() ==> w_post == w
- serviceIndex < this.services_.len() ==> w_post == (World { asked: w.asked.push((this.services_[serviceIndex]->0, phrase)), ..w })
@fn DictionaryServices_menuForPhrase
@requires
- forall|i: int| 0 <= i < this.services_.len() ==> (#[trigger] this.services_[i]).is_some()
@ensures
- ret.len() == this.services_.len() && (forall|i: int| 0 <= i < ret.len() ==> ret[i] == text_for((#[trigger] this.services_[i])->0, phrase))
@loop 0
@inv
- rng0 == this.services_ && menu.len() == idx0
- forall|i: int| 0 <= i < rng0.len() ==> (#[trigger] rng0[i]).is_some()
- forall|i: int| 0 <= i < idx0 ==> menu[i] == text_for((#[trigger] this.services_[i])->0, phrase)
