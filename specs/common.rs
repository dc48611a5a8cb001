// Fixed prelude of every generated file: mathematical models of the C++ machine types and
// of the pieces of the C++ library the code uses.  Every `external_body` item is trusted.
#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, non_snake_case, non_camel_case_types, unused_assignments, unreachable_code, unused_labels)]
use vstd::prelude::*;
use vstd::seq_lib::*;
verus! {

// control-flow oracle: the branch taken is the one the ghost condition says
#[verifier::external_body]
pub fn br(b: Ghost<bool>) -> (r: bool) ensures r == b@ { unimplemented!() }

// physical limit of any container
#[verifier::external_body]
pub proof fn phys<T>(s: Seq<T>) ensures s.len() < 0x1000000000000 { }
// memory: the address of a new object, where none lives
pub uninterp spec fn heap_new<V>(h: Map<int, V>) -> int;
#[verifier::external_body]
pub proof fn ax_heap_new<V>(h: Map<int, V>) ensures heap_new(h) > 0, !h.dom().contains(heap_new(h)) { }
// C++ typing: a value of an integer type lies in the range of that type
#[verifier::external_body]
pub proof fn typed(b: bool) ensures b { }

pub open spec fn sx8(x: int) -> int { if x < 128 { x } else { x - 256 } }
pub open spec fn w_u8(x: int) -> int { if 0 <= x < 256 { x } else if -256 <= x < 0 { x + 256 } else { x % 256 } }
pub open spec fn w_u16(x: int) -> int { if 0 <= x < 0x10000 { x } else if -0x10000 <= x < 0 { x + 0x10000 } else { x % 0x10000 } }
pub open spec fn w_u32(x: int) -> int { if 0 <= x < 0x100000000 { x } else if -0x100000000 <= x < 0 { x + 0x100000000 } else { x % 0x100000000 } }
pub open spec fn w_u64(x: int) -> int { if 0 <= x < 0x10000000000000000 { x } else if -0x10000000000000000 <= x < 0 { x + 0x10000000000000000 } else { x % 0x10000000000000000 } }
pub open spec fn w_i8(x: int) -> int { let y = w_u8(x); if y < 0x80 { y } else { y - 0x100 } }
pub open spec fn w_i16(x: int) -> int { let y = w_u16(x); if y < 0x8000 { y } else { y - 0x10000 } }
pub open spec fn w_i32(x: int) -> int { if -0x80000000 <= x < 0x80000000 { x } else { let y = w_u32(x); if y < 0x80000000 { y } else { y - 0x100000000 } } }
pub open spec fn w_i64(x: int) -> int { if -0x8000000000000000 <= x < 0x8000000000000000 { x } else { let y = w_u64(x); if y < 0x8000000000000000 { y } else { y - 0x10000000000000000 } } }

pub open spec fn u64_add(a: int, b: int) -> int { if a + b < 0x10000000000000000 { a + b } else { a + b - 0x10000000000000000 } }
pub open spec fn u64_sub(a: int, b: int) -> int { if a >= b { a - b } else { a - b + 0x10000000000000000 } }
pub open spec fn u64_mul(a: int, b: int) -> int { if a * b < 0x10000000000000000 { a * b } else { (a * b) % 0x10000000000000000 } }
pub open spec fn u32_add(a: int, b: int) -> int { if a + b < 0x100000000 { a + b } else { a + b - 0x100000000 } }
pub open spec fn u32_sub(a: int, b: int) -> int { if a >= b { a - b } else { a - b + 0x100000000 } }
pub open spec fn u32_mul(a: int, b: int) -> int { if a * b < 0x100000000 { a * b } else { (a * b) % 0x100000000 } }
pub open spec fn c_div(a: int, b: int) -> int { if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn c_mod(a: int, b: int) -> int { a - b * c_div(a, b) }

pub open spec fn band_u32(a: int, b: int) -> int { ((a as u32) & (b as u32)) as int }
pub open spec fn bor_u32(a: int, b: int) -> int { ((a as u32) | (b as u32)) as int }
pub open spec fn bxor_u32(a: int, b: int) -> int { ((a as u32) ^ (b as u32)) as int }
pub open spec fn bshl_u32(a: int, b: int) -> int { ((a as u32) << (b as u32)) as int }
pub open spec fn bshr_u32(a: int, b: int) -> int { ((a as u32) >> (b as u32)) as int }
pub open spec fn bnot_u32(a: int) -> int { (!(a as u32)) as int }
pub open spec fn band_i32(a: int, b: int) -> int { ((a as i32) & (b as i32)) as int }
pub open spec fn bor_i32(a: int, b: int) -> int { ((a as i32) | (b as i32)) as int }
pub open spec fn bxor_i32(a: int, b: int) -> int { ((a as i32) ^ (b as i32)) as int }
pub open spec fn bshr_i32(a: int, b: int) -> int { ((a as i32) >> (b as i32)) as int }
pub open spec fn bnot_i32(a: int) -> int { (!(a as i32)) as int }
pub open spec fn band_u64(a: int, b: int) -> int { ((a as u64) & (b as u64)) as int }
pub open spec fn bor_u64(a: int, b: int) -> int { ((a as u64) | (b as u64)) as int }

// output string streams: the text so far and the formatting state
#[verifier::ext_equal]
pub struct SStream { pub s: Seq<u8>, pub base: int, pub upper: bool, pub fill: int, pub width: int }
pub open spec fn ss_new(t: Seq<u8>) -> SStream { SStream { s: t, base: 10, upper: false, fill: 32, width: 0 } }
pub open spec fn pad(t: Seq<u8>, width: int, fill: int) -> Seq<u8> { if t.len() >= width { t } else { Seq::new((width - t.len()) as nat, |i: int| fill as u8) + t } }
pub open spec fn ss_put(x: SStream, t: Seq<u8>) -> SStream { SStream { s: x.s + pad(t, x.width, x.fill), width: 0, ..x } }
pub open spec fn digit_char(d: int, upper: bool) -> u8 { (if d < 10 { 48 + d } else if upper { 55 + d } else { 87 + d }) as u8 }
pub open spec fn radix(n: int, base: int, upper: bool) -> Seq<u8>
    decreases n via radix_ends
{
    if n < base || base < 2 { seq![digit_char(n, upper)] } else { radix(n / base, base, upper).push(digit_char(n % base, upper)) }
}
#[via_fn]
proof fn radix_ends(n: int, base: int, upper: bool) { if !(n < base || base < 2) { assert(n / base < n) by (nonlinear_arith) requires n >= base, base >= 2; assert(n / base >= 0) by (nonlinear_arith) requires n >= base, base >= 2; } }
pub uninterp spec fn int_text_other(n: int, base: int, upper: bool) -> Seq<u8>;
pub open spec fn int_text(n: int, base: int, upper: bool) -> Seq<u8> {
    if n >= 0 { radix(n, base, upper) } else if base == 10 { seq![45u8] + radix(-n, base, upper) } else { int_text_other(n, base, upper) }
}
pub broadcast proof fn lemma_pad_long(t: Seq<u8>, w: int, f: int)
    requires w <= t.len()
    ensures #[trigger] pad(t, w, f) == t
{ }
pub open spec fn ss_put_int(x: SStream, n: int) -> SStream { ss_put(x, int_text(n, x.base, x.upper)) }

// fat pointers / iterators: a buffer and an offset into it
#[verifier::ext_equal]
pub struct It<T> { pub buf: Seq<T>, pub off: int, pub nil: bool }
pub open spec fn it_add<T>(p: It<T>, n: int) -> It<T> { It { buf: p.buf, off: p.off + n, nil: p.nil } }
pub open spec fn it_deref<T>(p: It<T>) -> bool { !p.nil && 0 <= p.off < p.buf.len() }
pub open spec fn it_same<T>(p: It<T>, q: It<T>) -> bool { p.buf =~= q.buf && p.nil == q.nil }
pub open spec fn it_range<T>(p: It<T>, n: int) -> bool { n == 0 || (!p.nil && 0 <= n && 0 <= p.off && p.off + n <= p.buf.len()) }
pub open spec fn it_span<T>(p: It<T>, q: It<T>) -> bool { p.buf =~= q.buf && 0 <= p.off <= q.off <= p.buf.len() }
pub open spec fn it_pos<T>(p: It<T>, s: Seq<T>) -> bool { p.buf =~= s && 0 <= p.off <= s.len() }
pub open spec fn it_begin<T>(s: Seq<T>) -> It<T> { It { buf: s, off: 0, nil: false } }
pub open spec fn it_end<T>(s: Seq<T>) -> It<T> { It { buf: s, off: s.len() as int, nil: false } }
// (void *)-1, the failure value of mmap
pub open spec fn it_fail<T>() -> It<T> { It { buf: Seq::empty(), off: -1, nil: false } }
pub open spec fn it_null<T>() -> It<T> { It { buf: Seq::empty(), off: 0, nil: true } }

// lexicographic comparison of byte strings (unsigned bytes)
pub open spec fn lexcmp(a: Seq<u8>, b: Seq<u8>) -> int
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { 0 } else { -1 } }
    else if b.len() == 0 { 1 }
    else if a[0] < b[0] { -1 }
    else if a[0] > b[0] { 1 }
    else { lexcmp(a.drop_first(), b.drop_first()) }
}
pub open spec fn sgn(x: int) -> int { if x < 0 { -1 } else if x == 0 { 0 } else { 1 } }
pub open spec fn it_take<T>(p: It<T>, n: int) -> Seq<T> { p.buf.subrange(p.off, p.off + n) }
#[verifier::external_body]
pub fn ext_memcmp(p: Ghost<It<u8>>, q: Ghost<It<u8>>, n: Ghost<int>) -> (r: Ghost<int>)
    ensures n@ > 0 ==> sgn(r@) == lexcmp(it_take(p@, n@), it_take(q@, n@)), n@ == 0 ==> r@ == 0,
        -0x80000000 <= r@ < 0x80000000
{ unimplemented!() }

// the C string in s: what comes before its first NUL byte
pub open spec fn zcut(s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 || s[0] == 0 { Seq::empty() } else { seq![s[0]] + zcut(s.drop_first()) }
}
pub open spec fn str_sub(s: Seq<u8>, pos: int, n: int) -> Seq<u8> {
    if pos + n <= s.len() { s.subrange(pos, pos + n) } else { s.subrange(pos, s.len() as int) }
}
pub open spec fn is_at(s: Seq<u8>, pat: Seq<u8>, i: int) -> bool {
    0 <= i && i + pat.len() <= s.len() && s.subrange(i, i + pat.len()) =~= pat
}
// first occurrence of pat at or after pos, or npos
pub open spec fn str_find(s: Seq<u8>, pat: Seq<u8>, pos: int) -> int {
    if exists|i: int| i >= pos && is_at(s, pat, i) {
        choose|i: int| i >= pos && is_at(s, pat, i) && forall|j: int| pos <= j < i ==> !is_at(s, pat, j)
    } else { 0xFFFFFFFFFFFFFFFF }
}
// stable sorting: x is placed after everything it is not less than
pub open spec fn sins<T>(s: Seq<T>, x: T, less: spec_fn(T, T) -> bool) -> Seq<T>
    decreases s.len()
{ if s.len() > 0 && less(x, s.last()) { sins(s.drop_last(), x, less).push(s.last()) } else { s.push(x) } }
pub open spec fn ssort<T>(s: Seq<T>, less: spec_fn(T, T) -> bool) -> Seq<T>
    decreases s.len()
{ if s.len() == 0 { s } else { sins(ssort(s.drop_last(), less), s.last(), less) } }
pub proof fn lemma_sins_ext<T>(s: Seq<T>, x: T, f: spec_fn(T, T) -> bool, g: spec_fn(T, T) -> bool)
    requires forall|a: T, b: T| #[trigger] f(a, b) == g(a, b)
    ensures sins(s, x, f) == sins(s, x, g)
    decreases s.len()
{ if s.len() > 0 { lemma_sins_ext(s.drop_last(), x, f, g); } }
pub broadcast proof fn lemma_ssort_ext<T>(s: Seq<T>, f: spec_fn(T, T) -> bool, g: spec_fn(T, T) -> bool)
    requires forall|a: T, b: T| #[trigger] f(a, b) == g(a, b)
    ensures #![trigger ssort(s, f), ssort(s, g)] ssort(s, f) == ssort(s, g)
    decreases s.len()
{ if s.len() > 0 { lemma_ssort_ext(s.drop_last(), f, g); lemma_sins_ext(ssort(s.drop_last(), f), s.last(), f, g); } }
pub proof fn lemma_sins<T>(s: Seq<T>, x: T, less: spec_fn(T, T) -> bool)
    ensures sins(s, x, less).len() == s.len() + 1, sins(s, x, less).to_multiset() =~= s.to_multiset().insert(x),
        (forall|a: T, b: T| #[trigger] less(a, b) ==> !less(b, a)) && (forall|a: T, b: T, c: T| !(#[trigger] less(a, b)) && !(#[trigger] less(b, c)) ==> !less(a, c))
        && (forall|i: int, j: int| 0 <= i < j < s.len() ==> !less(#[trigger] s[j], #[trigger] s[i])) ==>
            forall|i: int, j: int| 0 <= i < j < sins(s, x, less).len() ==> !less(#[trigger] sins(s, x, less)[j], #[trigger] sins(s, x, less)[i])
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let r = sins(s, x, less);
    if s.len() > 0 && less(x, s.last()) {
        let q = s.drop_last();
        lemma_sins(q, x, less);
        let t = sins(q, x, less);
        assert(q.push(s.last()) =~= s);
        assert(s.to_multiset() =~= q.to_multiset().insert(s.last()));
        assert(r.to_multiset() =~= t.to_multiset().insert(s.last()));
        if (forall|a: T, b: T| #[trigger] less(a, b) ==> !less(b, a)) && (forall|a: T, b: T, c: T| !(#[trigger] less(a, b)) && !(#[trigger] less(b, c)) ==> !less(a, c))
            && (forall|i: int, j: int| 0 <= i < j < s.len() ==> !less(#[trigger] s[j], #[trigger] s[i])) {
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies !less(#[trigger] r[j], #[trigger] r[i]) by {
                if j < t.len() { assert(r[j] == t[j] && r[i] == t[i]); assert forall|i2: int, j2: int| 0 <= i2 < j2 < q.len() implies !less(#[trigger] q[j2], #[trigger] q[i2]) by { assert(s[j2] == q[j2] && s[i2] == q[i2]); } }
                else {
                    assert(t.to_multiset().contains(t[i])) by { assert(t.contains(t[i])); }
                    assert(r[i] == t[i] && r[j] == s.last());
                    if t[i] == x { } else {
                        assert(q.to_multiset().contains(t[i])); assert(q.contains(t[i]));
                        let k = choose|k: int| 0 <= k < q.len() && q[k] == t[i];
                        assert(s[k] == q[k] && s[s.len() - 1] == s.last());
                    }
                }
            }
        }
    } else {
        if (forall|a: T, b: T| #[trigger] less(a, b) ==> !less(b, a)) && (forall|a: T, b: T, c: T| !(#[trigger] less(a, b)) && !(#[trigger] less(b, c)) ==> !less(a, c))
            && (forall|i: int, j: int| 0 <= i < j < s.len() ==> !less(#[trigger] s[j], #[trigger] s[i])) {
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies !less(#[trigger] r[j], #[trigger] r[i]) by {
                if j < s.len() { assert(r[j] == s[j] && r[i] == s[i]); }
                else { assert(!less(x, s.last())); assert(r[i] == s[i]); if i < s.len() - 1 { assert(!less(s[s.len() - 1], s[i])); } }
            }
        }
    }
}
// the result is a rearrangement, in order
pub proof fn lemma_ssort<T>(s: Seq<T>, less: spec_fn(T, T) -> bool)
    ensures ssort(s, less).len() == s.len(), ssort(s, less).to_multiset() =~= s.to_multiset(),
        (forall|a: T, b: T| #[trigger] less(a, b) ==> !less(b, a)) && (forall|a: T, b: T, c: T| !(#[trigger] less(a, b)) && !(#[trigger] less(b, c)) ==> !less(a, c)) ==>
            forall|i: int, j: int| 0 <= i < j < s.len() ==> !less(#[trigger] ssort(s, less)[j], #[trigger] ssort(s, less)[i])
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() > 0 {
        lemma_ssort(s.drop_last(), less);
        lemma_sins(ssort(s.drop_last(), less), s.last(), less);
        assert(s.drop_last().push(s.last()) =~= s);
    }
}
pub open spec fn seq_insert_all<T>(s: Seq<T>, at: int, x: Seq<T>) -> Seq<T> {
    s.subrange(0, at) + x + s.subrange(at, s.len() as int)
}
pub open spec fn seq_resize<T>(s: Seq<T>, n: int, d: T) -> Seq<T> {
    Seq::new(n as nat, |i: int| if i < s.len() { s[i] } else { d })
}
pub open spec fn map_get_or_insert<K, V>(m: Map<K, V>, k: K, d: V) -> Map<K, V> {
    if m.dom().contains(k) { m } else { m.insert(k, d) }
}
pub broadcast proof fn lemma_get_or_insert<K, V>(m: Map<K, V>, k: K, d: V, x: V)
    ensures #[trigger] map_get_or_insert(m, k, d).insert(k, x) == m.insert(k, x)
{ assert(map_get_or_insert(m, k, d).insert(k, x) =~= m.insert(k, x)); }

// std::map with text keys, in key order
pub open spec fn map_least<V>(m: Map<Seq<u8>, V>, k: Seq<u8>) -> bool { m.dom().contains(k) && forall|j: Seq<u8>| #[trigger] m.dom().contains(j) ==> lexcmp(k, j) <= 0 }
pub open spec fn map_begin<V>(m: Map<Seq<u8>, V>) -> Option<Seq<u8>> { if m.dom() =~= Set::empty() { None } else { Some(choose|k: Seq<u8>| map_least(m, k)) } }
pub open spec fn map_above<V>(m: Map<Seq<u8>, V>, k: Seq<u8>) -> Map<Seq<u8>, V> { m.restrict(m.dom().filter(|j: Seq<u8>| lexcmp(k, j) < 0)) }
pub open spec fn map_next<V>(m: Map<Seq<u8>, V>, i: Option<Seq<u8>>) -> Option<Seq<u8>> { map_begin(map_above(m, i->0)) }
// the entries from an iterator on, how many they are
pub open spec fn map_rest<V>(m: Map<Seq<u8>, V>, i: Option<Seq<u8>>) -> Set<Seq<u8>> { if i.is_none() { Set::empty() } else { m.dom().filter(|j: Seq<u8>| lexcmp(i->0, j) <= 0) } }
pub open spec fn map_left<V>(m: Map<Seq<u8>, V>, i: Option<Seq<u8>>) -> int { map_rest(m, i).len() as int }

// std::map with number keys
pub open spec fn imap_least<V>(m: Map<int, V>, k: int) -> bool { m.dom().contains(k) && forall|j: int| #[trigger] m.dom().contains(j) ==> k <= j }
pub open spec fn imap_begin<V>(m: Map<int, V>) -> Option<int> { if m.dom() =~= Set::empty() { None } else { Some(choose|k: int| imap_least(m, k)) } }
pub open spec fn imap_next<V>(m: Map<int, V>, i: Option<int>) -> Option<int> { imap_begin(m.restrict(m.dom().filter(|j: int| i->0 < j))) }
pub open spec fn imap_rest<V>(m: Map<int, V>, i: Option<int>) -> Set<int> { if i.is_none() { Set::empty() } else { m.dom().filter(|j: int| i->0 <= j) } }
pub open spec fn imap_left<V>(m: Map<int, V>, i: Option<int>) -> int { imap_rest(m, i).len() as int }

// std::list: elements with an identity, in an order; -1 stands for end()
#[verifier::ext_equal]
pub struct LList<T> { pub elems: Map<int, T>, pub order: Seq<int>, pub next: int }
pub open spec fn llist_empty<T>() -> LList<T> { LList { elems: Map::empty(), order: Seq::empty(), next: 0 } }
pub open spec fn llist_ok<T>(l: LList<T>) -> bool {
    l.order.no_duplicates() && l.next >= 0 && (forall|i: int| #[trigger] l.elems.dom().contains(i) <==> l.order.contains(i)) && (forall|i: int| #[trigger] l.elems.dom().contains(i) ==> 0 <= i < l.next)
}
pub open spec fn llist_begin<T>(l: LList<T>) -> int { if l.order.len() > 0 { l.order[0] } else { -1 } }
pub open spec fn llist_at<T>(l: LList<T>, p: int) -> int { if p == -1 { l.order.len() as int } else { l.order.index_of(p) } }
pub open spec fn llist_has<T>(l: LList<T>, p: int) -> bool { l.elems.dom().contains(p) && l.order.contains(p) }
pub open spec fn llist_next<T>(l: LList<T>, p: int) -> int { if l.order.index_of(p) + 1 < l.order.len() { l.order[l.order.index_of(p) + 1] } else { -1 } }
pub open spec fn llist_prev<T>(l: LList<T>, p: int) -> int { l.order[llist_at(l, p) - 1] }
pub open spec fn llist_insert<T>(l: LList<T>, p: int, x: T) -> LList<T> {
    LList { elems: l.elems.insert(l.next, x), order: l.order.insert(llist_at(l, p), l.next), next: l.next + 1 }
}
pub open spec fn llist_erase<T>(l: LList<T>, p: int) -> LList<T> {
    LList { elems: l.elems.remove(p), order: l.order.remove(l.order.index_of(p)), next: l.next }
}
pub open spec fn llist_splice<T>(l: LList<T>, p: int, e: int) -> LList<T> {
    if p == e { l } else {
        let o = LList { elems: l.elems, order: l.order.remove(l.order.index_of(e)), next: l.next };
        LList { order: o.order.insert(llist_at(o, p), e), ..o }
    }
}

// double: abstract, never NaN
#[verifier::external_body]
pub struct Dbl { x: int }
pub uninterp spec fn dlit(i: int) -> Dbl;
pub uninterp spec fn d_of_int(i: int) -> Dbl;
pub uninterp spec fn d_trunc(d: Dbl) -> int;
pub uninterp spec fn dlt(a: Dbl, b: Dbl) -> bool;
pub open spec fn dle(a: Dbl, b: Dbl) -> bool { !dlt(b, a) }
pub open spec fn deq(a: Dbl, b: Dbl) -> bool { !dlt(b, a) && !dlt(a, b) }
// what not being NaN gives
pub open spec fn ordered() -> bool {
    (forall|a: Dbl, b: Dbl| #[trigger] dlt(a, b) ==> !dlt(b, a)) && (forall|a: Dbl, b: Dbl, c: Dbl| !(#[trigger] dlt(a, b)) && !(#[trigger] dlt(b, c)) ==> !dlt(a, c))
}
pub uninterp spec fn dadd(a: Dbl, b: Dbl) -> Dbl;
pub uninterp spec fn dsub(a: Dbl, b: Dbl) -> Dbl;
pub uninterp spec fn dmul(a: Dbl, b: Dbl) -> Dbl;
pub uninterp spec fn ddiv(a: Dbl, b: Dbl) -> Dbl;
pub uninterp spec fn dneg(a: Dbl) -> Dbl;
pub uninterp spec fn dlowest() -> Dbl;
pub uninterp spec fn dinf() -> Dbl;
pub uninterp spec fn dceil(a: Dbl) -> Dbl;
pub uninterp spec fn dfloor(a: Dbl) -> Dbl;

}
