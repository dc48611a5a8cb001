@source src/InputMacro.cpp McBopomofo
@opaque McBopomofo::InputMacro
@extern InputMacro::replacement(McBopomofo::InputMacro) -> std::string = macro_text($0)
@prelude
pub uninterp spec fn macro_text(m: InputMacro) -> Seq<u8>;
// the ten stems and the twelve branches in their traditional order, and the animals and elements that go with them
#[verifier::opaque]
pub open spec fn stems() -> Seq<Seq<u8>> { seq![seq![231u8, 148u8, 178u8], seq![228u8, 185u8, 153u8], seq![228u8, 184u8, 153u8], seq![228u8, 184u8, 129u8], seq![230u8, 136u8, 138u8], seq![229u8, 183u8, 177u8], seq![229u8, 186u8, 154u8], seq![232u8, 190u8, 155u8], seq![229u8, 163u8, 172u8], seq![231u8, 153u8, 184u8]] }
#[verifier::opaque]
pub open spec fn branches() -> Seq<Seq<u8>> { seq![seq![229u8, 173u8, 144u8], seq![228u8, 184u8, 145u8], seq![229u8, 175u8, 133u8], seq![229u8, 141u8, 175u8], seq![232u8, 190u8, 176u8], seq![229u8, 183u8, 179u8], seq![229u8, 141u8, 136u8], seq![230u8, 156u8, 170u8], seq![231u8, 148u8, 179u8], seq![233u8, 133u8, 137u8], seq![230u8, 136u8, 140u8], seq![228u8, 186u8, 165u8]] }
#[verifier::opaque]
pub open spec fn elements() -> Seq<Seq<u8>> { seq![seq![230u8, 156u8, 168u8], seq![230u8, 156u8, 168u8], seq![231u8, 129u8, 171u8], seq![231u8, 129u8, 171u8], seq![229u8, 156u8, 159u8], seq![229u8, 156u8, 159u8], seq![233u8, 135u8, 145u8], seq![233u8, 135u8, 145u8], seq![230u8, 176u8, 180u8], seq![230u8, 176u8, 180u8]] }
#[verifier::opaque]
pub open spec fn animals() -> Seq<Seq<u8>> { seq![seq![233u8, 188u8, 160u8], seq![231u8, 137u8, 155u8], seq![232u8, 153u8, 142u8], seq![229u8, 133u8, 148u8], seq![233u8, 190u8, 141u8], seq![232u8, 155u8, 135u8], seq![233u8, 166u8, 172u8], seq![231u8, 190u8, 138u8], seq![231u8, 140u8, 180u8], seq![233u8, 155u8, 158u8], seq![231u8, 139u8, 151u8], seq![232u8, 177u8, 172u8]] }
#[verifier::opaque]
pub open spec fn nian() -> Seq<u8> { seq![229u8, 185u8, 180u8] }
// the place of a year in the cycle of sixty: 4 CE and 1984 are Jia-Zi (0)
pub open spec fn cyc(year: int) -> int { (year - 4) % 60 }
pub open spec fn ganzhi(year: int) -> Seq<u8> { stems()[cyc(year) % 10] + branches()[cyc(year) % 12] + nian() }
pub open spec fn zodiac(year: int) -> Seq<u8> { elements()[cyc(year) % 10] + animals()[cyc(year) % 12] + nian() }
pub proof fn lemma_mod(y: int)
    ensures cyc(y) % 10 == (y - 4) % 10, cyc(y) % 12 == (y - 4) % 12, ((cyc(y) + 1) % 60) % 10 == (y - 3) % 10, ((cyc(y) + 1) % 60) % 12 == (y - 3) % 12
{
    use vstd::arithmetic::div_mod::{lemma_mod_mod, lemma_fundamental_div_mod};
    lemma_mod_mod(y - 4, 10, 6); lemma_mod_mod(y - 4, 12, 5);
    lemma_mod_mod(y - 3, 10, 6); lemma_mod_mod(y - 3, 12, 5);
    assert((cyc(y) + 1) % 60 == (y - 3) % 60) by { let c = (y - 4) % 60; let d = (y - 4) / 60; assert(y - 4 == 60 * d + c); if c == 59 { assert(y - 3 == 60 * (d + 1)); } else { assert(y - 3 == 60 * d + (c + 1)); } }
}
pub proof fn lemma_60(y: int) ensures cyc(y + 60) == cyc(y), cyc(1984) == 0 { assert((y + 60 - 4) % 60 == (y - 4) % 60); }
pub proof fn lemma_step(y: int)
    requires y >= 4
    ensures cyc(y + 1) % 10 == (cyc(y) % 10 + 1) % 10, cyc(y + 1) % 12 == (cyc(y) % 12 + 1) % 12, cyc(y + 12) % 12 == cyc(y) % 12
{
    let c = cyc(y);
    assert(0 <= c < 60);
    assert(cyc(y + 1) == if c == 59 { 0 } else { c + 1 });
    assert(cyc(y + 12) == if c < 48 { c + 12 } else { c - 48 });
}
// C19: one stem and one branch further every year, period 60, anchored at 1984 = Jia-Zi, year of the Rat
pub proof fn lemma_cycle(y: int)
    requires y >= 4
    ensures
        cyc(y + 1) % 10 == (cyc(y) % 10 + 1) % 10,
        cyc(y + 1) % 12 == (cyc(y) % 12 + 1) % 12,
        ganzhi(y + 60) == ganzhi(y), zodiac(y + 60) == zodiac(y),
        cyc(1984) == 0,
        animals()[cyc(y + 12) % 12] == animals()[cyc(y) % 12],
{
    lemma_60(y); lemma_step(y);
}
pub open spec fn code(s: Seq<u8>) -> int { (s[0] * 256 + s[1]) * 256 + s[2] }
pub open spec fn code_stems(i: int) -> int { if i == 0 { 15176882 } else if i == 1 { 14989721 } else if i == 2 { 14989465 } else if i == 3 { 14989441 } else if i == 4 { 15108234 } else if i == 5 { 15054769 } else if i == 6 { 15055514 } else if i == 7 { 15253147 } else if i == 8 { 15049644 } else if i == 9 { 15178168 } else { 0 } }
pub open spec fn code_branches(i: int) -> int { if i == 0 { 15052176 } else if i == 1 { 14989457 } else if i == 2 { 15052677 } else if i == 3 { 15044015 } else if i == 4 { 15253168 } else if i == 5 { 15054771 } else if i == 6 { 15043976 } else if i == 7 { 15113386 } else if i == 8 { 15176883 } else if i == 9 { 15304073 } else if i == 10 { 15108236 } else if i == 11 { 14989989 } else { 0 } }
pub open spec fn code_animals(i: int) -> int { if i == 0 { 15318176 } else if i == 1 { 15174043 } else if i == 2 { 15243662 } else if i == 3 { 15041940 } else if i == 4 { 15318669 } else if i == 5 { 15244167 } else if i == 6 { 15312556 } else if i == 7 { 15187594 } else if i == 8 { 15174836 } else if i == 9 { 15309726 } else if i == 10 { 15174551 } else if i == 11 { 15249836 } else { 0 } }
pub proof fn lemma_anchor()
    ensures ganzhi(1984) == stems()[0] + branches()[0] + nian(), zodiac(1984) == elements()[0] + animals()[0] + nian(),
        forall|i: int, j: int| 0 <= i < j < 10 ==> stems()[i] != stems()[j],
        forall|i: int, j: int| 0 <= i < j < 12 ==> branches()[i] != branches()[j],
        forall|i: int, j: int| 0 <= i < j < 12 ==> animals()[i] != animals()[j],
{
    reveal(stems); reveal(branches); reveal(elements); reveal(animals);
    assert forall|i: int, j: int| 0 <= i < j < 10 implies stems()[i] != stems()[j] by {
        assert(code(stems()[i]) == code_stems(i)); assert(code(stems()[j]) == code_stems(j));
    }
    assert forall|i: int, j: int| 0 <= i < j < 12 implies branches()[i] != branches()[j] by {
        assert(code(branches()[i]) == code_branches(i)); assert(code(branches()[j]) == code_branches(j));
    }
    assert forall|i: int, j: int| 0 <= i < j < 12 implies animals()[i] != animals()[j] by {
        assert(code(animals()[i]) == code_animals(i)); assert(code(animals()[j]) == code_animals(j));
    }
}
@fn getYearBase
@requires
- year > -2147483646
@ensures
- 0 <= ret <= 61
- year >= 4 ==> ret == (cyc(year) + 1) % 60
@fn GetGanzhi
@requires
- year > -2147483646
@ensures
- year >= 4 ==> ret =~= ganzhi(year)
@at entry
lemma_mod(year); reveal(stems); reveal(branches); reveal(nian);
@fn GetChineseZodiac
@requires
- year > -2147483646
@ensures
- year >= 4 ==> ret =~= zodiac(year)
@at entry
lemma_mod(year); reveal(elements); reveal(animals); reveal(nian);
@fn InputMacroController_handle
@requires
- forall|k: Seq<u8>| #[trigger] this.macros_.dom().contains(k) ==> this.macros_[k].is_some()
@ensures
- !this.macros_.dom().contains(input) ==> ret == input
- this.macros_.dom().contains(input) && this.macros_[input].is_some() ==> ret == macro_text(this.macros_[input]->0)
