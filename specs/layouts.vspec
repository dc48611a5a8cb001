@source src/Engine/Mandarin/Mandarin.cpp Formosa
@import mandarin
@include order.rs
@extern tolower(int) -> int = c_tolower($0)
@prelude
// the keys of the layouts: what each key stands for
pub open spec fn keys_standard(k: int) -> Seq<int> { if k == 49 { seq![1int] } else if k == 113 { seq![2int] } else if k == 97 { seq![3int] } else if k == 122 { seq![4int] } else if k == 50 { seq![5int] } else if k == 119 { seq![6int] } else if k == 115 { seq![7int] } else if k == 120 { seq![8int] } else if k == 101 { seq![9int] } else if k == 100 { seq![10int] } else if k == 99 { seq![11int] } else if k == 114 { seq![12int] } else if k == 102 { seq![13int] } else if k == 118 { seq![14int] } else if k == 53 { seq![15int] } else if k == 116 { seq![16int] } else if k == 103 { seq![17int] } else if k == 98 { seq![18int] } else if k == 121 { seq![19int] } else if k == 104 { seq![20int] } else if k == 110 { seq![21int] } else if k == 117 { seq![32int] } else if k == 106 { seq![64int] } else if k == 109 { seq![96int] } else if k == 56 { seq![128int] } else if k == 105 { seq![256int] } else if k == 107 { seq![384int] } else if k == 44 { seq![512int] } else if k == 57 { seq![640int] } else if k == 111 { seq![768int] } else if k == 108 { seq![896int] } else if k == 46 { seq![1024int] } else if k == 48 { seq![1152int] } else if k == 112 { seq![1280int] } else if k == 59 { seq![1408int] } else if k == 47 { seq![1536int] } else if k == 45 { seq![1664int] } else if k == 51 { seq![4096int] } else if k == 52 { seq![6144int] } else if k == 54 { seq![2048int] } else if k == 55 { seq![8192int] } else { seq![] } }
pub open spec fn keys_ibm(k: int) -> Seq<int> { if k == 49 { seq![1int] } else if k == 50 { seq![2int] } else if k == 51 { seq![3int] } else if k == 52 { seq![4int] } else if k == 53 { seq![5int] } else if k == 54 { seq![6int] } else if k == 55 { seq![7int] } else if k == 56 { seq![8int] } else if k == 57 { seq![9int] } else if k == 48 { seq![10int] } else if k == 45 { seq![11int] } else if k == 113 { seq![12int] } else if k == 119 { seq![13int] } else if k == 101 { seq![14int] } else if k == 114 { seq![15int] } else if k == 116 { seq![16int] } else if k == 121 { seq![17int] } else if k == 117 { seq![18int] } else if k == 105 { seq![19int] } else if k == 111 { seq![20int] } else if k == 112 { seq![21int] } else if k == 97 { seq![32int] } else if k == 115 { seq![64int] } else if k == 100 { seq![96int] } else if k == 102 { seq![128int] } else if k == 103 { seq![256int] } else if k == 104 { seq![384int] } else if k == 106 { seq![512int] } else if k == 107 { seq![640int] } else if k == 108 { seq![768int] } else if k == 59 { seq![896int] } else if k == 122 { seq![1024int] } else if k == 120 { seq![1152int] } else if k == 99 { seq![1280int] } else if k == 118 { seq![1408int] } else if k == 98 { seq![1536int] } else if k == 110 { seq![1664int] } else if k == 109 { seq![2048int] } else if k == 44 { seq![4096int] } else if k == 46 { seq![6144int] } else if k == 47 { seq![8192int] } else { seq![] } }
pub open spec fn keys_eten(k: int) -> Seq<int> { if k == 98 { seq![1int] } else if k == 112 { seq![2int] } else if k == 109 { seq![3int] } else if k == 102 { seq![4int] } else if k == 100 { seq![5int] } else if k == 116 { seq![6int] } else if k == 110 { seq![7int] } else if k == 108 { seq![8int] } else if k == 118 { seq![9int] } else if k == 107 { seq![10int] } else if k == 104 { seq![11int] } else if k == 103 { seq![12int] } else if k == 55 { seq![13int] } else if k == 99 { seq![14int] } else if k == 44 { seq![15int] } else if k == 46 { seq![16int] } else if k == 47 { seq![17int] } else if k == 106 { seq![18int] } else if k == 59 { seq![19int] } else if k == 39 { seq![20int] } else if k == 115 { seq![21int] } else if k == 101 { seq![32int] } else if k == 120 { seq![64int] } else if k == 117 { seq![96int] } else if k == 97 { seq![128int] } else if k == 111 { seq![256int] } else if k == 114 { seq![384int] } else if k == 119 { seq![512int] } else if k == 105 { seq![640int] } else if k == 113 { seq![768int] } else if k == 122 { seq![896int] } else if k == 121 { seq![1024int] } else if k == 56 { seq![1152int] } else if k == 57 { seq![1280int] } else if k == 48 { seq![1408int] } else if k == 45 { seq![1536int] } else if k == 61 { seq![1664int] } else if k == 50 { seq![2048int] } else if k == 51 { seq![4096int] } else if k == 52 { seq![6144int] } else if k == 49 { seq![8192int] } else { seq![] } }
pub open spec fn keys_hsu(k: int) -> Seq<int> { if k == 98 { seq![1int] } else if k == 112 { seq![2int] } else if k == 109 { seq![3int, 1152int] } else if k == 102 { seq![4int, 4096int] } else if k == 100 { seq![5int, 2048int] } else if k == 116 { seq![6int] } else if k == 110 { seq![7int, 1280int] } else if k == 108 { seq![8int, 1536int, 1664int] } else if k == 103 { seq![9int, 384int] } else if k == 107 { seq![10int, 1408int] } else if k == 104 { seq![11int, 256int] } else if k == 106 { seq![12int, 15int, 6144int] } else if k == 118 { seq![13int, 16int] } else if k == 99 { seq![14int, 17int] } else if k == 114 { seq![18int] } else if k == 122 { seq![19int] } else if k == 97 { seq![20int, 768int] } else if k == 115 { seq![21int, 8192int] } else if k == 101 { seq![32int, 512int] } else if k == 120 { seq![64int] } else if k == 117 { seq![96int] } else if k == 121 { seq![128int] } else if k == 105 { seq![640int] } else if k == 119 { seq![896int] } else if k == 111 { seq![1024int] } else { seq![] } }
pub open spec fn keys_eten26(k: int) -> Seq<int> { if k == 98 { seq![1int] } else if k == 112 { seq![2int, 1024int] } else if k == 109 { seq![3int, 1152int] } else if k == 102 { seq![4int, 2048int] } else if k == 100 { seq![5int, 8192int] } else if k == 116 { seq![6int, 1408int] } else if k == 110 { seq![7int, 1280int] } else if k == 108 { seq![8int, 1536int] } else if k == 118 { seq![9int, 13int] } else if k == 107 { seq![10int, 6144int] } else if k == 104 { seq![11int, 1664int] } else if k == 103 { seq![15int, 12int] } else if k == 99 { seq![17int, 14int] } else if k == 121 { seq![16int] } else if k == 106 { seq![18int, 4096int] } else if k == 113 { seq![19int, 768int] } else if k == 119 { seq![20int, 512int] } else if k == 115 { seq![21int] } else if k == 101 { seq![32int] } else if k == 120 { seq![64int] } else if k == 117 { seq![96int] } else if k == 97 { seq![128int] } else if k == 111 { seq![256int] } else if k == 114 { seq![384int] } else if k == 105 { seq![640int] } else if k == 122 { seq![896int] } else { seq![] } }

// the key for each component, and its place among what that key stands for
pub open spec fn code_standard(c: int) -> int { if c == 1 { 49 } else if c == 2 { 113 } else if c == 3 { 97 } else if c == 4 { 122 } else if c == 5 { 50 } else if c == 6 { 119 } else if c == 7 { 115 } else if c == 8 { 120 } else if c == 9 { 101 } else if c == 10 { 100 } else if c == 11 { 99 } else if c == 12 { 114 } else if c == 13 { 102 } else if c == 14 { 118 } else if c == 15 { 53 } else if c == 16 { 116 } else if c == 17 { 103 } else if c == 18 { 98 } else if c == 19 { 121 } else if c == 20 { 104 } else if c == 21 { 110 } else if c == 32 { 117 } else if c == 64 { 106 } else if c == 96 { 109 } else if c == 128 { 56 } else if c == 256 { 105 } else if c == 384 { 107 } else if c == 512 { 44 } else if c == 640 { 57 } else if c == 768 { 111 } else if c == 896 { 108 } else if c == 1024 { 46 } else if c == 1152 { 48 } else if c == 1280 { 112 } else if c == 1408 { 59 } else if c == 1536 { 47 } else if c == 1664 { 45 } else if c == 2048 { 54 } else if c == 4096 { 51 } else if c == 6144 { 52 } else if c == 8192 { 55 } else { 0 } }
pub open spec fn place_standard(c: int) -> int { 0 }
pub proof fn lemma_complete_standard(c: int)
    requires is_comp(c)
    ensures keys_standard(code_standard(c)).len() > place_standard(c) >= 0, keys_standard(code_standard(c))[place_standard(c)] == c
{ }
pub open spec fn code_ibm(c: int) -> int { if c == 1 { 49 } else if c == 2 { 50 } else if c == 3 { 51 } else if c == 4 { 52 } else if c == 5 { 53 } else if c == 6 { 54 } else if c == 7 { 55 } else if c == 8 { 56 } else if c == 9 { 57 } else if c == 10 { 48 } else if c == 11 { 45 } else if c == 12 { 113 } else if c == 13 { 119 } else if c == 14 { 101 } else if c == 15 { 114 } else if c == 16 { 116 } else if c == 17 { 121 } else if c == 18 { 117 } else if c == 19 { 105 } else if c == 20 { 111 } else if c == 21 { 112 } else if c == 32 { 97 } else if c == 64 { 115 } else if c == 96 { 100 } else if c == 128 { 102 } else if c == 256 { 103 } else if c == 384 { 104 } else if c == 512 { 106 } else if c == 640 { 107 } else if c == 768 { 108 } else if c == 896 { 59 } else if c == 1024 { 122 } else if c == 1152 { 120 } else if c == 1280 { 99 } else if c == 1408 { 118 } else if c == 1536 { 98 } else if c == 1664 { 110 } else if c == 2048 { 109 } else if c == 4096 { 44 } else if c == 6144 { 46 } else if c == 8192 { 47 } else { 0 } }
pub open spec fn place_ibm(c: int) -> int { 0 }
pub proof fn lemma_complete_ibm(c: int)
    requires is_comp(c)
    ensures keys_ibm(code_ibm(c)).len() > place_ibm(c) >= 0, keys_ibm(code_ibm(c))[place_ibm(c)] == c
{ }
pub open spec fn code_eten(c: int) -> int { if c == 1 { 98 } else if c == 2 { 112 } else if c == 3 { 109 } else if c == 4 { 102 } else if c == 5 { 100 } else if c == 6 { 116 } else if c == 7 { 110 } else if c == 8 { 108 } else if c == 9 { 118 } else if c == 10 { 107 } else if c == 11 { 104 } else if c == 12 { 103 } else if c == 13 { 55 } else if c == 14 { 99 } else if c == 15 { 44 } else if c == 16 { 46 } else if c == 17 { 47 } else if c == 18 { 106 } else if c == 19 { 59 } else if c == 20 { 39 } else if c == 21 { 115 } else if c == 32 { 101 } else if c == 64 { 120 } else if c == 96 { 117 } else if c == 128 { 97 } else if c == 256 { 111 } else if c == 384 { 114 } else if c == 512 { 119 } else if c == 640 { 105 } else if c == 768 { 113 } else if c == 896 { 122 } else if c == 1024 { 121 } else if c == 1152 { 56 } else if c == 1280 { 57 } else if c == 1408 { 48 } else if c == 1536 { 45 } else if c == 1664 { 61 } else if c == 2048 { 50 } else if c == 4096 { 51 } else if c == 6144 { 52 } else if c == 8192 { 49 } else { 0 } }
pub open spec fn place_eten(c: int) -> int { 0 }
pub proof fn lemma_complete_eten(c: int)
    requires is_comp(c)
    ensures keys_eten(code_eten(c)).len() > place_eten(c) >= 0, keys_eten(code_eten(c))[place_eten(c)] == c
{ }
pub open spec fn code_hsu(c: int) -> int { if c == 1 { 98 } else if c == 2 { 112 } else if c == 3 { 109 } else if c == 4 { 102 } else if c == 5 { 100 } else if c == 6 { 116 } else if c == 7 { 110 } else if c == 8 { 108 } else if c == 9 { 103 } else if c == 10 { 107 } else if c == 11 { 104 } else if c == 12 { 106 } else if c == 13 { 118 } else if c == 14 { 99 } else if c == 15 { 106 } else if c == 16 { 118 } else if c == 17 { 99 } else if c == 18 { 114 } else if c == 19 { 122 } else if c == 20 { 97 } else if c == 21 { 115 } else if c == 32 { 101 } else if c == 64 { 120 } else if c == 96 { 117 } else if c == 128 { 121 } else if c == 256 { 104 } else if c == 384 { 103 } else if c == 512 { 101 } else if c == 640 { 105 } else if c == 768 { 97 } else if c == 896 { 119 } else if c == 1024 { 111 } else if c == 1152 { 109 } else if c == 1280 { 110 } else if c == 1408 { 107 } else if c == 1536 { 108 } else if c == 1664 { 108 } else if c == 2048 { 100 } else if c == 4096 { 102 } else if c == 6144 { 106 } else if c == 8192 { 115 } else { 0 } }
pub open spec fn place_hsu(c: int) -> int { if c == 15 { 1 } else if c == 16 { 1 } else if c == 17 { 1 } else if c == 256 { 1 } else if c == 384 { 1 } else if c == 512 { 1 } else if c == 768 { 1 } else if c == 1152 { 1 } else if c == 1280 { 1 } else if c == 1408 { 1 } else if c == 1536 { 1 } else if c == 1664 { 2 } else if c == 2048 { 1 } else if c == 4096 { 1 } else if c == 6144 { 2 } else if c == 8192 { 1 } else { 0 } }
pub proof fn lemma_complete_hsu(c: int)
    requires is_comp(c)
    ensures keys_hsu(code_hsu(c)).len() > place_hsu(c) >= 0, keys_hsu(code_hsu(c))[place_hsu(c)] == c
{ }
pub open spec fn code_eten26(c: int) -> int { if c == 1 { 98 } else if c == 2 { 112 } else if c == 3 { 109 } else if c == 4 { 102 } else if c == 5 { 100 } else if c == 6 { 116 } else if c == 7 { 110 } else if c == 8 { 108 } else if c == 9 { 118 } else if c == 10 { 107 } else if c == 11 { 104 } else if c == 12 { 103 } else if c == 13 { 118 } else if c == 14 { 99 } else if c == 15 { 103 } else if c == 16 { 121 } else if c == 17 { 99 } else if c == 18 { 106 } else if c == 19 { 113 } else if c == 20 { 119 } else if c == 21 { 115 } else if c == 32 { 101 } else if c == 64 { 120 } else if c == 96 { 117 } else if c == 128 { 97 } else if c == 256 { 111 } else if c == 384 { 114 } else if c == 512 { 119 } else if c == 640 { 105 } else if c == 768 { 113 } else if c == 896 { 122 } else if c == 1024 { 112 } else if c == 1152 { 109 } else if c == 1280 { 110 } else if c == 1408 { 116 } else if c == 1536 { 108 } else if c == 1664 { 104 } else if c == 2048 { 102 } else if c == 4096 { 106 } else if c == 6144 { 107 } else if c == 8192 { 100 } else { 0 } }
pub open spec fn place_eten26(c: int) -> int { if c == 12 { 1 } else if c == 13 { 1 } else if c == 14 { 1 } else if c == 512 { 1 } else if c == 768 { 1 } else if c == 1024 { 1 } else if c == 1152 { 1 } else if c == 1280 { 1 } else if c == 1408 { 1 } else if c == 1536 { 1 } else if c == 1664 { 1 } else if c == 2048 { 1 } else if c == 4096 { 1 } else if c == 6144 { 1 } else if c == 8192 { 1 } else { 0 } }
pub proof fn lemma_complete_eten26(c: int)
    requires is_comp(c)
    ensures keys_eten26(code_eten26(c)).len() > place_eten26(c) >= 0, keys_eten26(code_eten26(c))[place_eten26(c)] == c
{ }
pub open spec fn has_keys(l: BopomofoKeyboardLayout, f: spec_fn(int) -> Seq<int>) -> bool {
    &&& forall|k: int| #[trigger] l.keyToComponent_.dom().contains(k) <==> f(k).len() > 0
    &&& forall|k: int| #[trigger] l.keyToComponent_.dom().contains(k) ==> l.keyToComponent_[k] =~= f(k)
}
// a table of keys: ASCII keys, each standing for one to three components
pub open spec fn keys_ok(m: Map<int, Seq<int>>) -> bool {
    &&& m.dom().finite()
    &&& forall|k: int| #[trigger] m.dom().contains(k) ==> 0 < k < 128 && 1 <= m[k].len() <= 3
    &&& forall|k: int, i: int| #[trigger] m.dom().contains(k) && 0 <= i < m[k].len() ==> is_comp(#[trigger] m[k][i])
}
pub open spec fn stands_for(m: Map<int, Seq<int>>, k: int, c: int) -> bool { m.dom().contains(k) && m[k].contains(c) }
// the table in the other direction
pub open spec fn inverse(m: Map<int, Seq<int>>, r: Map<int, int>) -> bool {
    &&& forall|c: int| #[trigger] r.dom().contains(c) ==> stands_for(m, r[c], c)
    &&& forall|k: int, c: int| #[trigger] stands_for(m, k, c) ==> r.dom().contains(c)
}
pub open spec fn layout_ok(l: BopomofoKeyboardLayout) -> bool { keys_ok(l.keyToComponent_) && inverse(l.keyToComponent_, l.componentToKey_) }
// every component can be typed
pub open spec fn complete(l: BopomofoKeyboardLayout) -> bool { forall|c: int| #[trigger] is_comp(c) ==> l.componentToKey_.dom().contains(c) }
// every key stands for one component
pub open spec fn single(l: BopomofoKeyboardLayout) -> bool { forall|k: int| #[trigger] l.keyToComponent_.dom().contains(k) ==> l.keyToComponent_[k].len() == 1 }
pub open spec fn comp1(l: BopomofoKeyboardLayout, k: int) -> int { l.keyToComponent_[k][0] }
pub open spec fn valid(l: BopomofoKeyboardLayout, k: int) -> bool { l.keyToComponent_.dom().contains(k) }
// the key for a component (nothing for no component)
pub open spec fn key_of(l: BopomofoKeyboardLayout, c: int) -> Seq<u8> {
    if c != 0 && l.componentToKey_.dom().contains(c) && l.componentToKey_[c] != 0 { seq![l.componentToKey_[c] as u8] } else { seq![] }
}
pub open spec fn keyseq(l: BopomofoKeyboardLayout, x: int) -> Seq<u8> { key_of(l, con(x)) + key_of(l, 32 * med(x)) + key_of(l, 128 * vow(x)) + key_of(l, 2048 * ton(x)) }
pub open spec fn one(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn ncomp(x: int) -> int { one(con(x) != 0) + one(med(x) != 0) + one(vow(x) != 0) + one(ton(x) != 0) }
// the syllable without its last component
pub open spec fn drop_comp(x: int) -> int {
    if ton(x) != 0 { syl_of(con(x), med(x), vow(x), 0, top(x)) } else if vow(x) != 0 { syl_of(con(x), med(x), 0, 0, top(x)) } else if med(x) != 0 { syl_of(con(x), 0, 0, 0, top(x)) } else { syl_of(0, 0, 0, 0, top(x)) }
}
pub open spec fn any_valid(l: BopomofoKeyboardLayout, s: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && valid(l, #[trigger] s[i] as int) }
// what a key sequence means where each key stands for one component
pub open spec fn fold(l: BopomofoKeyboardLayout, s: Seq<u8>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { let p = fold(l, s.drop_last()); if valid(l, s.last() as int) { plus(p, comp1(l, s.last() as int)) } else { p } }
}
pub open spec fn lower(k: int) -> int { w_u8(c_tolower(sx8(k))) }
// c is among what the typed keys stand for; every component of x is (GI and GUE of the Hsu layout are read as JI and JUE)
pub open spec fn typed_in(l: BopomofoKeyboardLayout, s: Seq<u8>, c: int) -> bool { exists|i: int| 0 <= i < s.len() && stands_for(l.keyToComponent_, #[trigger] s[i] as int, c) }
pub open spec fn from_keys(l: BopomofoKeyboardLayout, s: Seq<u8>, x: int) -> bool {
    &&& con(x) != 0 ==> typed_in(l, s, con(x)) || con(x) == 12 && typed_in(l, s, 9) && med(x) % 2 == 1
    &&& med(x) != 0 ==> typed_in(l, s, 32 * med(x))
    &&& vow(x) != 0 ==> typed_in(l, s, 128 * vow(x))
    &&& ton(x) != 0 ==> typed_in(l, s, 2048 * ton(x))
}
pub open spec fn from_keys0(l: BopomofoKeyboardLayout, s: Seq<u8>, x: int) -> bool { from_keys(l, s, x) && (con(x) != 0 ==> typed_in(l, s, con(x))) }
pub proof fn lemma_from(l: BopomofoKeyboardLayout, s: Seq<u8>, x: int, c: int)
    requires syl(x), is_comp(c), s.len() > 0, from_keys0(l, s.drop_last(), x), stands_for(l.keyToComponent_, s.last() as int, c)
    ensures from_keys0(l, s, x), from_keys0(l, s, plus(x, c))
{
    lemma_comp(c); lemma_comp(0); lemma_plus(x, c);
    assert forall|d: int| #[trigger] typed_in(l, s.drop_last(), d) implies typed_in(l, s, d) by { let i = choose|i: int| 0 <= i < s.len() - 1 && stands_for(l.keyToComponent_, #[trigger] s.drop_last()[i] as int, d); assert(stands_for(l.keyToComponent_, s[i] as int, d)); }
    assert(stands_for(l.keyToComponent_, s[s.len() - 1] as int, c));
    assert(typed_in(l, s, c));
}
pub proof fn lemma_from_skip(l: BopomofoKeyboardLayout, s: Seq<u8>, x: int)
    requires s.len() > 0, from_keys0(l, s.drop_last(), x)
    ensures from_keys0(l, s, x)
{
    assert forall|d: int| #[trigger] typed_in(l, s.drop_last(), d) implies typed_in(l, s, d) by { let i = choose|i: int| 0 <= i < s.len() - 1 && stands_for(l.keyToComponent_, #[trigger] s.drop_last()[i] as int, d); assert(stands_for(l.keyToComponent_, s[i] as int, d)); }
}
// the two readings of the Hsu layout that depend on the rest of the syllable
pub proof fn lemma_hsu(l: BopomofoKeyboardLayout, s: Seq<u8>, x: int)
    requires syl(x), has_keys(l, |k: int| keys_hsu(k)), from_keys0(l, s, x)
    ensures vow(x) == 12 ==> from_keys(l, s, plus(x, 1664)), con(x) == 9 && med(x) % 2 == 1 ==> from_keys(l, s, plus(x, 12))
{
    lemma_comp(12); lemma_comp(1664); lemma_comp(0); lemma_plus(x, 12); lemma_plus(x, 1664);
    if vow(x) == 12 {
        let i = choose|i: int| 0 <= i < s.len() && stands_for(l.keyToComponent_, #[trigger] s[i] as int, 1536);
        let k = s[i] as int;
        let j = choose|j: int| 0 <= j < l.keyToComponent_[k].len() && l.keyToComponent_[k][j] == 1536;
        assert(l.keyToComponent_[k] =~= keys_hsu(k)); assert(keys_hsu(k)[j] == 1536); assert(k == 108); assert(keys_hsu(108)[2] == 1664);
        assert(stands_for(l.keyToComponent_, s[i] as int, 1664));
    }
}
// adding one component
pub proof fn lemma_add1(x: int, c: int)
    requires syl(x), is_comp(c)
    ensures syl(plus(x, c)), plus(x, c) != 0, ncomp(plus(x, c)) <= ncomp(x) + 1, 0 <= ncomp(x), (x == 0 <==> ncomp(x) == 0)
{
    lemma_comp(c); lemma_comp(0); lemma_plus(x, c); lemma_decomp(x); lemma_decomp(plus(x, c)); lemma_decomp(c);
}
pub proof fn lemma_zero(x: int)
    requires syl(x)
    ensures x == 0 <==> ncomp(x) == 0, 0 <= ncomp(x) <= 4
{ lemma_comp(0); lemma_decomp(x); lemma_decomp(0); }
// where all components can be typed, the keys of a syllable are as many as its components
pub proof fn lemma_key_of(l: BopomofoKeyboardLayout, c: int)
    requires layout_ok(l), complete(l), is_comp(c)
    ensures key_of(l, c).len() == 1, key_of(l, c) == seq![l.componentToKey_[c] as u8], stands_for(l.keyToComponent_, key_of(l, c)[0] as int, c), valid(l, key_of(l, c)[0] as int),
        single(l) ==> comp1(l, key_of(l, c)[0] as int) == c
{ assert(stands_for(l.keyToComponent_, l.componentToKey_[c], c)); }
pub proof fn lemma_keyseq(l: BopomofoKeyboardLayout, x: int)
    requires layout_ok(l), complete(l), syl(x)
    ensures keyseq(l, x).len() == ncomp(x)
{
    lemma_comp(x);
    if con(x) != 0 { lemma_key_of(l, con(x)); } if med(x) != 0 { lemma_key_of(l, 32 * med(x)); } if vow(x) != 0 { lemma_key_of(l, 128 * vow(x)); } if ton(x) != 0 { lemma_key_of(l, 2048 * ton(x)); }
}
pub proof fn lemma_fold_key(l: BopomofoKeyboardLayout, s: Seq<u8>, c: int)
    requires layout_ok(l), complete(l), single(l), c == 0 || is_comp(c), 0 <= fold(l, s) < 65536
    ensures fold(l, s + key_of(l, c)) == plus(fold(l, s), c), key_of(l, c).len() == one(c != 0)
{
    let p = fold(l, s);
    if c != 0 { lemma_key_of(l, c); let t = s + key_of(l, c); assert(t.drop_last() =~= s); assert(t.last() == key_of(l, c)[0]); }
    else { assert(s + key_of(l, c) =~= s); lemma_comp(0); lemma_decomp(p); lemma_plus(p, 0); }
}
// C10: for these layouts, typing the keys of a syllable gives the syllable; erasing the last of them removes its last component
pub proof fn lemma_keyseq_roundtrip(l: BopomofoKeyboardLayout, x: int)
    requires layout_ok(l), complete(l), single(l), syl(x)
    ensures fold(l, keyseq(l, x)) == x, x != 0 ==> fold(l, keyseq(l, x).drop_last()) == drop_comp(x)
{
    let (c, m, v, t) = (con(x), 32 * med(x), 128 * vow(x), 2048 * ton(x));
    let (kc, km, kv, kt) = (key_of(l, c), key_of(l, m), key_of(l, v), key_of(l, t));
    lemma_comp(x); lemma_comp(0); lemma_comp(c); lemma_comp(m); lemma_comp(v); lemma_comp(t); lemma_decomp(x);
    let e = Seq::<u8>::empty();
    let x1 = syl_of(con(x), 0, 0, 0, 0); let x2 = syl_of(con(x), med(x), 0, 0, 0); let x3 = syl_of(con(x), med(x), vow(x), 0, 0);
    lemma_fields(con(x), 0, 0, 0, 0); lemma_fields(con(x), med(x), 0, 0, 0); lemma_fields(con(x), med(x), vow(x), 0, 0);
    assert(fold(l, e) == 0);
    lemma_fold_key(l, e, c); lemma_plus(0, c); assert(plus(0, c) == x1);
    lemma_fold_key(l, e + kc, m); assert(plus(x1, m) == x2);
    lemma_fold_key(l, e + kc + km, v); assert(plus(x2, v) == x3);
    lemma_fold_key(l, e + kc + km + kv, t); assert(plus(x3, t) == x);
    assert(keyseq(l, x) =~= e + kc + km + kv + kt);
    if t != 0 { assert(keyseq(l, x).drop_last() =~= e + kc + km + kv); }
    else if v != 0 { assert(keyseq(l, x).drop_last() =~= e + kc + km); }
    else if m != 0 { assert(keyseq(l, x).drop_last() =~= e + kc); }
    else if c != 0 { assert(keyseq(l, x).drop_last() =~= e); }
    lemma_zero(x);
}
// a key added to the keys of a syllable
pub proof fn lemma_key_added(l: BopomofoKeyboardLayout, x: int, k: int)
    requires layout_ok(l), complete(l), syl(x), valid(l, k)
    ensures any_valid(l, keyseq(l, x).push(k as u8)), single(l) ==> fold(l, keyseq(l, x).push(k as u8)) == plus(x, comp1(l, k))
{
    let s = keyseq(l, x).push(k as u8);
    assert(valid(l, s[s.len() - 1] as int));
    assert(s.drop_last() =~= keyseq(l, x));
    if single(l) { lemma_keyseq_roundtrip(l, x); }
}
// the Pinyin layout assigns no key a component
pub open spec fn hanyu() -> BopomofoKeyboardLayout { BopomofoKeyboardLayout { name_: seq![72u8, 97u8, 110u8, 121u8, 117u8, 80u8, 105u8, 110u8, 121u8, 105u8, 110u8], keyToComponent_: Map::empty(), componentToKey_: Map::empty() } }
pub open spec fn buf_ok(b: BopomofoReadingBuffer) -> bool {
    &&& syl(b.syllable_.syllable_)
    &&& b.layout_.is_some() ==> layout_ok(b.layout_->0) && (b.pinyin_mode_ || complete(b.layout_->0))
    &&& b.pinyin_mode_ <==> b.layout_ == Some(hanyu())
    &&& b.pinyin_mode_ && b.pinyin_sequence_.len() > 0 ==> 97 <= b.pinyin_sequence_[0] <= 122 && b.syllable_.syllable_ != 0
}
pub open spec fn letter(k: int) -> bool { 97 <= k <= 122 }
pub open spec fn tone_key(k: int) -> bool { 50 <= k <= 53 }
pub open spec fn accepts(b: BopomofoReadingBuffer, k: int) -> bool {
    let s = b.pinyin_sequence_;
    if !b.pinyin_mode_ { b.layout_.is_some() && valid(b.layout_->0, k) }
    else if letter(lower(k)) { s.len() == 0 || !tone_key(s.last() as int) }
    else { s.len() > 0 && tone_key(lower(k)) }
}
// how much there is to erase
pub open spec fn amount(b: BopomofoReadingBuffer) -> int { if b.pinyin_mode_ { b.pinyin_sequence_.len() as int } else { ncomp(b.syllable_.syllable_) } }
pub open spec fn query1(c: int) -> Seq<u8> { if c == 0 { seq![] } else { seq![code_standard(c) as u8] } }
pub open spec fn query(x: int) -> Seq<u8> { query1(con(x)) + query1(32 * med(x)) + query1(128 * vow(x)) + query1(2048 * ton(x)) }
pub proof fn lemma_std(k: int)
    ensures keys_standard(k).len() > 0 ==> keys_standard(k).len() == 1 && code_standard(keys_standard(k)[0]) == k && 0 < k < 128
{ }
pub proof fn lemma_query(l: BopomofoKeyboardLayout, x: int)
    requires layout_ok(l), complete(l), has_keys(l, |k: int| keys_standard(k)), syl(x)
    ensures keyseq(l, x) =~= query(x)
{
    lemma_comp(x);
    assert forall|c: int| #[trigger] is_comp(c) implies key_of(l, c) == query1(c) by {
        let k = l.componentToKey_[c]; assert(stands_for(l.keyToComponent_, k, c)); lemma_std(k);
        assert(l.keyToComponent_[k] =~= keys_standard(k));
    }
}
@fn BopomofoKeyboardLayout_ctor
@requires
- keys_ok(ktcm)
@ensures
- ret.name_ == name && ret.keyToComponent_ == ktcm
- layout_ok(ret)
@loop 0
@inv
- this.keyToComponent_ == ktcm && this.name_ == name
- miter.is_some() ==> ktcm.dom().contains(miter->0)
- forall|c: int| #[trigger] this.componentToKey_.dom().contains(c) ==> stands_for(ktcm, this.componentToKey_[c], c)
- forall|k: int, c: int| #[trigger] stands_for(ktcm, k, c) && !imap_rest(ktcm, miter).contains(k) ==> this.componentToKey_.dom().contains(c)
@dec
imap_left(ktcm, miter)
@at loop0.pre
lemma_imap_begin(ktcm);
@at loop0.begin
lemma_imap_next(ktcm, miter);
@loop 1
@inv
- it_pos(viter, ktcm[miter->0]) && viter.nil == false
- this.keyToComponent_ == ktcm && this.name_ == name
- forall|c: int| #[trigger] this.componentToKey_.dom().contains(c) ==> stands_for(ktcm, this.componentToKey_[c], c)
- forall|k: int, c: int| #[trigger] stands_for(ktcm, k, c) && !imap_rest(ktcm, miter).contains(k) ==> this.componentToKey_.dom().contains(c)
- forall|i: int| 0 <= i < viter.off ==> this.componentToKey_.dom().contains(#[trigger] ktcm[miter->0][i])
@dec
ktcm[miter->0].len() - viter.off
@at loop1.begin
if viter.off < ktcm[miter->0].len() { assert(stands_for(ktcm, miter->0, ktcm[miter->0][viter.off])); }
@at loop1.post
assert forall|c: int| #[trigger] stands_for(ktcm, miter->0, c) implies this.componentToKey_.dom().contains(c) by { let i = choose|i: int| 0 <= i < ktcm[miter->0].len() && ktcm[miter->0][i] == c; assert(this.componentToKey_.dom().contains(ktcm[miter->0][i])); }
@fn BopomofoKeyboardLayout_componentToKey
@requires
- layout_ok(this)
@ensures
- ret == if this.componentToKey_.dom().contains(component) { this.componentToKey_[component] } else { 0 }
@fn BopomofoKeyboardLayout_keyToComponents
@ensures
- ret == if this.keyToComponent_.dom().contains(key) { this.keyToComponent_[key] } else { Seq::empty() }
@fn BopomofoKeyboardLayout_keySequenceFromSyllable
@requires
- layout_ok(this)
- 0 <= syllable.syllable_ < 65536
@ensures
- ret =~= keyseq(this, syllable.syllable_)
@fn BopomofoKeyboardLayout_sequenceContainsIorUE
@requires
- layout_ok(this)
- it_span(start, end) && !start.nil && !end.nil
@ensures
- true
@loop 0
@inv
- it_span(start, end) && !start.nil && !end.nil
@dec
end.off - start.off
@fn BopomofoKeyboardLayout_endAheadOrAheadHasToneMarkKey
@requires
- layout_ok(this)
- it_span(ahead, end) && !ahead.nil && !end.nil
@ensures
- ahead.off == end.off ==> ret
@fn BopomofoKeyboardLayout_syllableFromKeySequence
@requires
- layout_ok(this)
@ensures
- syl(ret.syllable_) && 0 <= ncomp(ret.syllable_) <= sequence.len()
- ret.syllable_ != 0 <==> any_valid(this, sequence)
- single(this) ==> ret.syllable_ == fold(this, sequence)
- from_keys(this, sequence, ret.syllable_)
@loop 0
@inv
- it_pos(iter, sequence) && !iter.nil
- syl(syllable.syllable_) && 0 <= ncomp(syllable.syllable_) <= iter.off
- syllable.syllable_ != 0 <==> any_valid(this, sequence.take(iter.off))
- single(this) ==> syllable.syllable_ == fold(this, sequence.take(iter.off))
- from_keys0(this, sequence.take(iter.off), syllable.syllable_)
@dec
sequence.len() - iter.off
@at loop0.pre
lemma_comp(0); assert(sequence.take(0) =~= Seq::empty());
@at loop0.begin
let x = syllable.syllable_;
lemma_zero(x);
if iter.off < sequence.len() {
    let k = sequence[iter.off] as int;
    let t = sequence.take(iter.off + 1);
    assert(t.drop_last() =~= sequence.take(iter.off));
    assert(t.last() == sequence[iter.off]);
    assert(any_valid(this, t) <==> any_valid(this, sequence.take(iter.off)) || valid(this, k)) by {
        if any_valid(this, t) { let i = choose|i: int| 0 <= i < t.len() && valid(this, #[trigger] t[i] as int); if i < iter.off { assert(sequence.take(iter.off)[i] == t[i]); } }
        if valid(this, k) { assert(valid(this, t[iter.off] as int)); }
        if any_valid(this, sequence.take(iter.off)) { let i = choose|i: int| 0 <= i < iter.off && valid(this, #[trigger] sequence.take(iter.off)[i] as int); assert(valid(this, t[i] as int)); }
    }
    lemma_from_skip(this, t, x);
    if valid(this, k) {
        let cs = this.keyToComponent_[k];
        assert forall|i: int| 0 <= i < cs.len() implies from_keys0(this, t, plus(x, #[trigger] cs[i])) by { lemma_from(this, t, x, cs[i]); }
        lemma_add1(x, cs[0]); lemma_comp(cs[0]);
        if cs.len() > 1 { lemma_add1(x, cs[1]); lemma_comp(cs[1]); }
        if cs.len() > 2 { lemma_add1(x, cs[2]); lemma_comp(cs[2]); }
    }
}
@at loop0.post
assert(sequence.take(sequence.len() as int) =~= sequence);
lemma_add1(syllable.syllable_, 12); lemma_add1(syllable.syllable_, 1664);
lemma_zero(syllable.syllable_); lemma_comp(12); lemma_comp(1664); lemma_comp(0); lemma_plus(syllable.syllable_, 12); lemma_plus(syllable.syllable_, 1664);
if has_keys(this, |k: int| keys_hsu(k)) { lemma_hsu(this, sequence, syllable.syllable_); }
@fn CreateStandardLayout
@at before return new
assert forall|c: int| #[trigger] is_comp(c) implies stands_for(ktcm, code_standard(c), c) by { lemma_complete_standard(c); assert(ktcm.dom().contains(code_standard(c))); assert(ktcm[code_standard(c)] =~= keys_standard(code_standard(c))); }
@ensures
- ret.is_some() && layout_ok(ret->0) && has_keys(ret->0, |k: int| keys_standard(k))
- single(ret->0) && complete(ret->0)
@fn BopomofoKeyboardLayout_StandardLayout
@ensures
- ret.is_some() && layout_ok(ret->0) && has_keys(ret->0, |k: int| keys_standard(k))
- single(ret->0) && complete(ret->0)
@fn CreateIBMLayout
@at before return new
assert forall|c: int| #[trigger] is_comp(c) implies stands_for(ktcm, code_ibm(c), c) by { lemma_complete_ibm(c); assert(ktcm.dom().contains(code_ibm(c))); assert(ktcm[code_ibm(c)] =~= keys_ibm(code_ibm(c))); }
@ensures
- ret.is_some() && layout_ok(ret->0) && has_keys(ret->0, |k: int| keys_ibm(k))
- single(ret->0) && complete(ret->0)
@fn BopomofoKeyboardLayout_IBMLayout
@ensures
- ret.is_some() && layout_ok(ret->0) && has_keys(ret->0, |k: int| keys_ibm(k))
- single(ret->0) && complete(ret->0)
@fn CreateETenLayout
@at before return new
assert forall|c: int| #[trigger] is_comp(c) implies stands_for(ktcm, code_eten(c), c) by { lemma_complete_eten(c); assert(ktcm.dom().contains(code_eten(c))); assert(ktcm[code_eten(c)] =~= keys_eten(code_eten(c))); }
@ensures
- ret.is_some() && layout_ok(ret->0) && has_keys(ret->0, |k: int| keys_eten(k))
- single(ret->0) && complete(ret->0)
@fn BopomofoKeyboardLayout_ETenLayout
@ensures
- ret.is_some() && layout_ok(ret->0) && has_keys(ret->0, |k: int| keys_eten(k))
- single(ret->0) && complete(ret->0)
@fn CreateHsuLayout
@at before return new
assert forall|c: int| #[trigger] is_comp(c) implies stands_for(ktcm, code_hsu(c), c) by { lemma_complete_hsu(c); assert(ktcm.dom().contains(code_hsu(c))); assert(ktcm[code_hsu(c)] =~= keys_hsu(code_hsu(c))); }
@ensures
- ret.is_some() && layout_ok(ret->0) && has_keys(ret->0, |k: int| keys_hsu(k))
- complete(ret->0)
@fn BopomofoKeyboardLayout_HsuLayout
@ensures
- ret.is_some() && layout_ok(ret->0) && has_keys(ret->0, |k: int| keys_hsu(k))
- complete(ret->0)
@fn CreateETen26Layout
@at before return new
assert forall|c: int| #[trigger] is_comp(c) implies stands_for(ktcm, code_eten26(c), c) by { lemma_complete_eten26(c); assert(ktcm.dom().contains(code_eten26(c))); assert(ktcm[code_eten26(c)] =~= keys_eten26(code_eten26(c))); }
@ensures
- ret.is_some() && layout_ok(ret->0) && has_keys(ret->0, |k: int| keys_eten26(k))
- complete(ret->0)
@fn BopomofoKeyboardLayout_ETen26Layout
@ensures
- ret.is_some() && layout_ok(ret->0) && has_keys(ret->0, |k: int| keys_eten26(k))
- complete(ret->0)
@fn CreateHanyuPinyinLayout
@ensures
- ret =~= Some(hanyu()) && layout_ok(ret->0)
@fn BopomofoKeyboardLayout_HanyuPinyinLayout
@ensures
- ret =~= Some(hanyu()) && layout_ok(ret->0)
@fn BopomofoReadingBuffer_ctor
@requires
- layout.is_some() ==> layout_ok(layout->0) && (layout->0 == hanyu() || complete(layout->0))
@at entry
lemma_comp(0);
@ensures
- buf_ok(ret) && ret.syllable_.syllable_ == 0 && ret.pinyin_sequence_.len() == 0 && ret.layout_ == layout
@fn BopomofoReadingBuffer_setKeyboardLayout
@requires
- buf_ok(this)
- layout.is_some() ==> layout_ok(layout->0) && (layout->0 == hanyu() || complete(layout->0))
@ensures
- buf_ok(this_post) && this_post.layout_ == layout && this_post.syllable_ == this.syllable_
@fn BopomofoReadingBuffer_isValidKey
@requires
- buf_ok(this)
@ensures
- ret == accepts(this, k)
@fn BopomofoReadingBuffer_combineKey
@requires
- buf_ok(this)
@ensures
- ret == accepts(this, k)
- !ret ==> this_post == this
- buf_ok(this_post) && this_post.layout_ == this.layout_
- ret ==> this_post.syllable_.syllable_ != 0
- ret && !this.pinyin_mode_ ==> from_keys(this.layout_->0, keyseq(this.layout_->0, this.syllable_.syllable_).push(k as u8), this_post.syllable_.syllable_)
- ret && !this.pinyin_mode_ && single(this.layout_->0) ==> this_post.syllable_.syllable_ == plus(this.syllable_.syllable_, comp1(this.layout_->0, k))
- ret && this.pinyin_mode_ ==> this_post.pinyin_sequence_ =~= this.pinyin_sequence_.push(lower(k) as u8)
@at before if (pinyin_mode_) #0
if !this.pinyin_mode_ { lemma_key_added(this.layout_->0, this.syllable_.syllable_, k); }
@at before syllable_ = layout_->syllableFromKeySequence(sequence)
assert(sequence =~= keyseq(this.layout_->0, this.syllable_.syllable_).push(k as u8));
@fn BopomofoReadingBuffer_clear
@requires
- buf_ok(this)
@at entry
lemma_comp(0);
@ensures
- buf_ok(this_post) && this_post.syllable_.syllable_ == 0 && this_post.pinyin_sequence_.len() == 0 && this_post.layout_ == this.layout_
@fn BopomofoReadingBuffer_backspace
@requires
- buf_ok(this) && this.layout_.is_some()
@ensures
- buf_ok(this_post) && this_post.layout_ == this.layout_
- amount(this) > 0 ==> amount(this_post) < amount(this)
- amount(this) == 0 ==> this_post.syllable_.syllable_ == 0
- amount(this_post) == 0 ==> this_post.syllable_.syllable_ == 0
- !this.pinyin_mode_ && single(this.layout_->0) && this.syllable_.syllable_ != 0 ==> this_post.syllable_.syllable_ == drop_comp(this.syllable_.syllable_)
- this.pinyin_mode_ ==> this_post.pinyin_sequence_ =~= if this.pinyin_sequence_.len() > 0 { this.pinyin_sequence_.drop_last() } else { this.pinyin_sequence_ }
@at entry
assert forall|x: int| syl(x) implies (x == 0 <==> #[trigger] ncomp(x) == 0) by { lemma_zero(x); }
lemma_zero(this.syllable_.syllable_);
if !this.pinyin_mode_ && this.layout_.is_some() { lemma_keyseq(this.layout_->0, this.syllable_.syllable_); if single(this.layout_->0) { lemma_keyseq_roundtrip(this.layout_->0, this.syllable_.syllable_); } 
    let s = keyseq(this.layout_->0, this.syllable_.syllable_); if s.len() > 0 { assert(s.subrange(0, s.len() - 1) =~= s.drop_last()); } }
if this.pinyin_sequence_.len() > 0 { assert(this.pinyin_sequence_.subrange(0, this.pinyin_sequence_.len() - 1) =~= this.pinyin_sequence_.drop_last()); }
@fn BopomofoReadingBuffer_isEmpty
@ensures
- ret == (this.syllable_.syllable_ == 0)
@fn BopomofoReadingBuffer_hasToneMarker
@ensures
- ret == (ton(this.syllable_.syllable_) != 0)
@fn BopomofoReadingBuffer_hasToneMarkerOnly
@requires
- syl(this.syllable_.syllable_)
@at entry
lemma_decomp(this.syllable_.syllable_); lemma_zero(this.syllable_.syllable_);
@ensures
- ret == (ton(this.syllable_.syllable_) != 0 && ncomp(this.syllable_.syllable_) == 1)
@fn BopomofoReadingBuffer_composedString
@requires
- buf_ok(this)
@ensures
- ret =~= if this.pinyin_mode_ { this.pinyin_sequence_ } else { text(this.syllable_.syllable_) }
@fn BopomofoReadingBuffer_syllable
@ensures
- ret == this.syllable_
@fn BopomofoReadingBuffer_keyboardLayout
@ensures
- ret == this.layout_
@fn BopomofoReadingBuffer_standardLayoutQueryString
@requires
- buf_ok(this)
@ensures
- ret =~= query(this.syllable_.syllable_)
@at before return BopomofoKeyboardLayout::StandardLayout()
assert forall|l: BopomofoKeyboardLayout| layout_ok(l) && complete(l) && has_keys(l, |k: int| keys_standard(k)) implies #[trigger] keyseq(l, this.syllable_.syllable_) =~= query(this.syllable_.syllable_) by { lemma_query(l, this.syllable_.syllable_); }
