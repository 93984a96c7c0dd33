// C10, lists of any length. The functions of BufList, cut out of /repo on every run; around them
// the contracts of what they call. `strict()` is an arbitrary truth value: a panic of a callee is
// forbidden when it holds (so that nothing panics that should not), and when it does not, callees
// panic, which here means that they do not return (so that nothing returns that should not).
use vstd::prelude::*;

verus! {

pub uninterp spec fn strict() -> bool;

// ---- contracts of core and std

/// debug_assert!: in some builds it is not there
#[verifier::external_body]
fn demand_debug(c: bool)
    requires strict() ==> c,
{ unimplemented!() }

/// assert!
#[verifier::external_body]
fn demand(c: bool)
    requires strict() ==> c,
    ensures c,
{ unimplemented!() }

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecDeque<T> { v: std::collections::VecDeque<T> }

impl<T> View for VecDeque<T> {
    type V = Seq<T>;
    uninterp spec fn view(&self) -> Seq<T>;
}

impl<T> VecDeque<T> {
    #[verifier::external_body]
    fn new() -> (r: VecDeque<T>)
        ensures r@ == Seq::<T>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    fn push_back(&mut self, x: T)
        ensures final(self)@ == old(self)@.push(x),
    { unimplemented!() }

    #[verifier::external_body]
    fn pop_front(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }

    #[verifier::external_body]
    fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }

    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0),
    { unimplemented!() }

    #[verifier::external_body]
    fn front(&self) -> (r: Option<&T>)
        ensures match r { Some(f) => self@.len() > 0 && *f == self@[0], None => self@.len() == 0 },
    { unimplemented!() }

    #[verifier::external_body]
    fn front_mut(&mut self) -> (r: Option<&mut T>)
        ensures
            match r {
                Some(f) => old(self)@.len() > 0 && *f == old(self)@[0]
                    && final(self)@ == old(self)@.update(0, *final(f)),
                None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            },
    { unimplemented!() }

    /// &mut v[i]
    #[verifier::external_body]
    fn at_mut(&mut self, i: usize) -> (r: &mut T)
        requires strict() ==> i < old(self)@.len(),
        ensures
            i < old(self)@.len(),
            *r == old(self)@[i as int],
            final(self)@ == old(self)@.update(i as int, *final(r)),
    { unimplemented!() }

    /// v.iter().map(f).sum()
    #[verifier::external_body]
    fn sum_of<F: Fn(&T) -> usize>(&self, f: F) -> (r: usize)
        requires
            forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((&self@[i],)),
        ensures
            exists|s: Seq<usize>| s.len() == self@.len() && r == #[trigger] sum(s)
                && forall|i: int| 0 <= i < s.len() ==> f.ensures((&self@[i],), #[trigger] s[i]),
    { unimplemented!() }
}

/// `for x in &v`
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Iter<'a, T> { v: std::collections::vec_deque::Iter<'a, T> }

impl<'a, T> Iter<'a, T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn at(&self) -> int;

    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a T>)
        ensures
            final(self).all() == old(self).all(),
            match r {
                Some(x) => 0 <= old(self).at() < old(self).all().len() && *x == old(self).all()[old(self).at()]
                    && final(self).at() == old(self).at() + 1,
                None => old(self).at() == old(self).all().len() && final(self).at() == old(self).at(),
            },
    { unimplemented!() }
}

impl<T> VecDeque<T> {
    #[verifier::external_body]
    fn each<'a>(&'a self) -> (r: Iter<'a, T>)
        ensures r.all() == self@, r.at() == 0,
    { unimplemented!() }
}

/// An empty slice: `Default` of `&[u8]`
#[verifier::external_body]
fn nothing<'a>() -> (r: &'a [u8])
    ensures r@.len() == 0
{ &[] }

#[verifier::external_body]
pub struct IoSlice<'a> { s: std::io::IoSlice<'a> }
impl<'a> IoSlice<'a> { pub uninterp spec fn bytes(&self) -> Seq<u8>; }

pub open spec fn sum(s: Seq<usize>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { s[0] + sum(s.skip(1)) }
}

// ---- contracts of bytes

#[verifier::external_body]
pub struct Bytes { b: Vec<u8> }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }

#[verifier::external_body]
pub struct BytesMut { b: Vec<u8> }
impl View for BytesMut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }

impl BytesMut {
    #[verifier::external_body]
    fn new() -> (r: BytesMut)
        ensures r@ == Seq::<u8>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: BytesMut)
        ensures r@ == Seq::<u8>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    fn freeze(self) -> (r: Bytes)
        ensures r@ == self@,
    { unimplemented!() }
}

/// The slices d[a..b] one after the other
pub open spec fn region(d: Seq<IoSlice>, a: int, b: int) -> Seq<u8> decreases b - a {
    if a >= b { Seq::empty() } else { d[a].bytes() + region(d, a + 1, b) }
}

pub open spec fn prefix(p: Seq<u8>, s: Seq<u8>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }

/// The slices d[a..b] are consecutive pieces of s, from its start, and all of it if they do not fill d.
pub open spec fn pieces(s: Seq<u8>, d: Seq<IoSlice>, a: int, b: int) -> bool {
    &&& prefix(region(d, a, b), s)
    &&& b < d.len() ==> region(d, a, b) == s
    &&& forall|i: int| a <= i < b ==> (#[trigger] d[i]).bytes().len() > 0
}

/// The contract of bytes::Buf: what the buffers in the list keep, and what the list has to keep.
pub trait Buf: Sized {
    spec fn bytes(&self) -> Seq<u8>;
    /// its invariant
    spec fn sound(&self) -> bool;

    fn remaining(&self) -> (r: usize)
        requires self.sound(),
        ensures r == self.bytes().len();

    fn has_remaining(&self) -> (r: bool)
        requires self.sound(),
        ensures r == (self.bytes().len() > 0),
    { self.remaining() > 0 }

    fn chunk(&self) -> (r: &[u8])
        requires self.sound(),
        ensures
            r@.len() <= self.bytes().len(),
            r@ == self.bytes().take(r@.len() as int),
            self.bytes().len() > 0 ==> r@.len() > 0;

    fn chunks_vectored<'t>(&'t self, dst: &mut [IoSlice<'t>]) -> (r: usize)
        requires self.sound(),
        ensures
            r <= old(dst)@.len() == final(dst)@.len(),
            pieces(self.bytes(), final(dst)@, 0, r as int);

    fn advance(&mut self, cnt: usize)
        requires old(self).sound(), strict() ==> cnt <= old(self).bytes().len(),
        ensures
            cnt <= old(self).bytes().len(),
            final(self).bytes() == old(self).bytes().skip(cnt as int),
            final(self).sound();

    fn copy_to_bytes(&mut self, len: usize) -> (r: Bytes)
        requires old(self).sound(), strict() ==> len <= old(self).bytes().len(),
        ensures
            len <= old(self).bytes().len(),
            r@ == old(self).bytes().take(len as int),
            final(self).bytes() == old(self).bytes().skip(len as int),
            final(self).sound();
}

/// b.chunks_vectored(&mut dst[at..])
#[verifier::external_body]
fn chunks_at<'t, B: Buf>(b: &'t B, dst: &mut [IoSlice<'t>], at: usize) -> (n: usize)
    requires b.sound(), strict() ==> at <= old(dst)@.len(),
    ensures
        at + n <= old(dst)@.len() == final(dst)@.len() <= usize::MAX,
        forall|i: int| 0 <= i < at ==> #[trigger] final(dst)@[i] == old(dst)@[i],
        pieces(b.bytes(), final(dst)@, at as int, at + n),
{ unimplemented!() }

// ---- the list and what it stands for

//@struct binate/src/connection/buf.rs | BufList

pub open spec fn cat<T: Buf>(s: Seq<T>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { s[0].bytes() + cat(s.skip(1)) }
}

/// No buffer is empty: the documented precondition of `push`, kept by all.
pub open spec fn full<T: Buf>(s: Seq<T>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).bytes().len() > 0 && s[i].sound()
}

/// `b` is what is left of `a` after n bytes
pub open spec fn after(a: Seq<u8>, b: Seq<u8>, n: int) -> bool { 0 <= n <= a.len() && a.skip(n) == b }

/// m.put(src.take(n)): BufMut::put over Take reads src through the methods of Buf alone. That their
/// contracts hold for the list is proved here.
#[verifier::external_body]
fn put_taken<T: Buf>(m: &mut BytesMut, src: &mut BufList<T>, n: usize)
    requires full(old(src).bufs@),
    ensures
        full(final(src).bufs@),
        n <= cat(old(src).bufs@).len() ==>
            final(m)@ == old(m)@ + cat(old(src).bufs@).take(n as int)
            && cat(final(src).bufs@) == cat(old(src).bufs@).skip(n as int),
        n > cat(old(src).bufs@).len() ==>
            final(m)@ == old(m)@ + cat(old(src).bufs@) && cat(final(src).bufs@).len() == 0,
{ unimplemented!() }

// ---- lemmas

broadcast proof fn some<T: Buf>(a: Seq<u8>, s: Seq<T>, n: int)
    requires #[trigger] after(a, cat(s), n),
    ensures n < a.len() ==> s.len() > 0, s.len() > 0 || n == a.len(), cat(s).len() == a.len() - n
{
    assert(a.skip(n).len() == a.len() - n);
    if s.len() == 0 { assert(cat(s) =~= Seq::<u8>::empty()); }
}

broadcast proof fn start(a: Seq<u8>)
    ensures #[trigger] after(a, a, 0)
{ assert(a.skip(0) =~= a); }

broadcast proof fn front<T: Buf>(a: Seq<u8>, s: Seq<T>, n: int, x: T, k: int)
    requires
        #[trigger] after(a, cat(s), n), s.len() > 0, 0 <= k <= s[0].bytes().len(),
        x.bytes() == #[trigger] s[0].bytes().skip(k),
    ensures after(a, #[trigger] cat(s.update(0, x)), n + k)
{
    assert(s.update(0, x).skip(1) =~= s.skip(1));
    assert(cat(s.update(0, x)) =~= cat(s).skip(k));
    assert(cat(s).skip(k) =~= a.skip(n + k));
}

broadcast proof fn shorter<T: Buf>(s: Seq<T>, x: T, k: int)
    requires s.len() > 0, 0 <= k <= s[0].bytes().len(), x.bytes() == #[trigger] s[0].bytes().skip(k),
    ensures #[trigger] cat(s.update(0, x)) == cat(s).skip(k)
{
    assert(s.update(0, x).skip(1) =~= s.skip(1));
    assert(cat(s.update(0, x)) =~= cat(s).skip(k));
}

broadcast proof fn popped<T: Buf>(s: Seq<T>)
    requires s.len() > 0, s[0].bytes().len() == 0,
    ensures #[trigger] cat(s.skip(1)) == cat(s)
{ assert(cat(s) =~= cat(s.skip(1))); }

broadcast proof fn head<T: Buf>(s: Seq<T>, k: int)
    requires s.len() > 0, 0 <= k <= s[0].bytes().len(),
    ensures #[trigger] s[0].bytes().take(k) == cat(s).take(k), cat(s).len() >= s[0].bytes().len(),
{ assert(s[0].bytes().take(k) =~= cat(s).take(k)); }

broadcast proof fn pushed<T: Buf>(s: Seq<T>, x: T)
    ensures #[trigger] cat(s.push(x)) == cat(s) + x.bytes()
    decreases s.len()
{
    if s.len() == 0 {
        assert(s.push(x).skip(1) =~= Seq::<T>::empty());
        assert(s.push(x)[0] == x);
        assert(cat(s) =~= Seq::<u8>::empty());
        assert(cat(s.push(x).skip(1)) =~= Seq::<u8>::empty());
        assert(cat(s.push(x)) =~= cat(s) + x.bytes());
    } else {
        assert(s.push(x).skip(1) =~= s.skip(1).push(x));
        pushed(s.skip(1), x);
        assert(cat(s.push(x)) =~= cat(s) + x.bytes());
    }
}

broadcast proof fn total<T: Buf>(s: Seq<T>, n: Seq<usize>)
    requires s.len() == n.len(), forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] == s[i].bytes().len(),
    ensures #[trigger] sum(n) == #[trigger] cat(s).len()
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < n.skip(1).len() implies #[trigger] n.skip(1)[i] == s.skip(1)[i].bytes().len() by {
            assert(n.skip(1)[i] == n[i + 1]);
        }
        total(s.skip(1), n.skip(1));
    }
}

broadcast proof fn grown(d0: Seq<IoSlice>, d1: Seq<IoSlice>, a: int, b: int)
    requires 0 <= a <= b <= d1.len() == d0.len(), forall|i: int| 0 <= i < a ==> #[trigger] d1[i] == d0[i],
    ensures region(d1, 0, b) == #[trigger] region(d0, 0, a) + #[trigger] region(d1, a, b)
{ grown_from(d0, d1, 0, a, b); }

proof fn grown_from(d0: Seq<IoSlice>, d1: Seq<IoSlice>, o: int, a: int, b: int)
    requires 0 <= o <= a <= b <= d1.len() == d0.len(), forall|i: int| 0 <= i < a ==> #[trigger] d1[i] == d0[i],
    ensures region(d1, o, b) == region(d0, o, a) + region(d1, a, b)
    decreases a - o
{
    if o == a {
        assert(region(d0, o, a) =~= Seq::<u8>::empty());
        assert(region(d1, o, b) =~= region(d0, o, a) + region(d1, a, b));
    } else {
        grown_from(d0, d1, o + 1, a, b);
        assert(d1[o] == d0[o]);
        assert(region(d1, o, b) =~= region(d0, o, a) + region(d1, a, b));
    }
}

broadcast proof fn empty_region(d: Seq<IoSlice>)
    ensures #[trigger] region(d, 0, 0) == Seq::<u8>::empty()
{ }

broadcast proof fn nothing_yet(d: Seq<IoSlice>, s: Seq<u8>)
    ensures #[trigger] prefix(region(d, 0, 0), s)
{ assert(s.take(0) =~= Seq::<u8>::empty()); }

broadcast proof fn same<T>(s: Seq<T>, x: T)
    requires s.len() > 0, x == s[0],
    ensures #[trigger] s.update(0, x) == s
{ assert(s.update(0, x) =~= s); }

broadcast proof fn reach<T: Buf>(s: Seq<T>, k: int, p: Seq<u8>)
    requires 0 <= k < s.len(), #[trigger] prefix(p, s[k].bytes()),
    ensures
        #![trigger cat(s.take(k)), prefix(p, s[k].bytes())]
        prefix(cat(s.take(k)) + p, cat(s)),
        cat(s.take(k + 1)) == cat(s.take(k)) + s[k].bytes(),
{
    assert(s.take(k + 1) =~= s.take(k).push(s[k]));
    pushed(s.take(k), s[k]);
    joined(s, k + 1);
    assert(prefix(cat(s.take(k)) + p, cat(s))) by {
        assert(cat(s).take((cat(s.take(k)) + p).len() as int) =~= cat(s.take(k)) + p);
    }
}

proof fn joined<T: Buf>(s: Seq<T>, k: int)
    requires 0 <= k <= s.len(),
    ensures cat(s) == cat(s.take(k)) + cat(s.skip(k))
    decreases s.len()
{
    if k == 0 {
        assert(s.take(0) =~= Seq::<T>::empty());
        assert(s.skip(0) =~= s);
        assert(cat(s) =~= cat(s.take(k)) + cat(s.skip(k)));
    } else {
        joined(s.skip(1), k - 1);
        assert(s.skip(1).take(k - 1) =~= s.take(k).skip(1));
        assert(s.skip(1).skip(k - 1) =~= s.skip(k));
        assert(cat(s) =~= cat(s.take(k)) + cat(s.skip(k)));
    }
}

broadcast proof fn ends<T: Buf>(s: Seq<T>, k: int)
    requires 0 <= k <= s.len(),
    ensures
        k == 0 ==> #[trigger] cat(s.take(k)) == Seq::<u8>::empty(),
        k == s.len() ==> cat(s.take(k)) == cat(s),
        prefix(cat(s.take(k)), cat(s)),
{
    joined(s, k);
    if k == 0 { assert(s.take(0) =~= Seq::<T>::empty()); }
    if k == s.len() { assert(s.take(k) =~= s); }
    assert(cat(s).take(cat(s.take(k)).len() as int) =~= cat(s.take(k)));
}

broadcast proof fn first<T: Buf>(s: Seq<T>, k: int)
    requires s.len() > 0, 0 <= k <= s[0].bytes().len(),
    ensures #[trigger] s[0].bytes().take(k) == cat(s).take(k), cat(s).len() >= s[0].bytes().len()
{ assert(s[0].bytes().take(k) =~= cat(s).take(k)); }

broadcast proof fn none<T: Buf>(s: Seq<T>)
    ensures
        s.len() == 0 ==> #[trigger] cat(s) == Seq::<u8>::empty(),
        s.len() > 0 ==> cat(s).len() >= s[0].bytes().len(),
{ }

// ---- the code

//@only binate/src/connection/buf.rs | impl<T: Buf> BufList<T> | new push len
//@only binate/src/connection/buf.rs | impl<T: Buf> Buf for BufList<T> | remaining chunk chunks_vectored advance copy_to_bytes

impl<T: Buf> BufList<T> {

//@fn binate/src/connection/buf.rs | impl<T: Buf> BufList<T> | new
    ensures r.bytes() == Seq::<u8>::empty(), r.sound()
//@end

//@fn binate/src/connection/buf.rs | impl<T: Buf> BufList<T> | push
    requires strict() ==> $1.bytes().len() > 0, $1.sound(), old(self).sound()
    ensures
        final(self).bytes() == old(self).bytes() + $1.bytes(),
        $1.bytes().len() > 0 ==> final(self).sound()
//@use pushed
//@end

//@fn binate/src/connection/buf.rs | impl<T: Buf> BufList<T> | len
    ensures r == self.bufs@.len()
//@end

}

impl<T: Buf> Buf for BufList<T> {

open spec fn bytes(&self) -> Seq<u8> { cat(self.bufs@) }
open spec fn sound(&self) -> bool { full(self.bufs@) }

//@fn binate/src/connection/buf.rs | impl<T: Buf> Buf for BufList<T> | remaining
//@use total
//@end

//@fn binate/src/connection/buf.rs | impl<T: Buf> Buf for BufList<T> | chunk
//@use first, none
//@end

//@fn binate/src/connection/buf.rs | impl<T: Buf> Buf for BufList<T> | chunks_vectored
//@use grown, reach, ends, empty_region, nothing_yet
//@loop
    invariant_except_break
        vecs < $1@.len(),
        region($1@, 0, vecs as int) == cat(self.bufs@.take(each.at())),
    invariant
        each.all() == self.bufs@, 0 <= each.at() <= self.bufs@.len(),
        vecs <= $1@.len() == old($1)@.len(),
        prefix(region($1@, 0, vecs as int), cat(self.bufs@)),
        forall|i: int| 0 <= i < vecs ==> (#[trigger] $1@[i]).bytes().len() > 0,
    ensures
        vecs < $1@.len() ==> region($1@, 0, vecs as int) == cat(self.bufs@),
    decreases self.bufs@.len() - each.at()
//@end

//@fn binate/src/connection/buf.rs | impl<T: Buf> Buf for BufList<T> | advance
//@use some, start, front, popped
//@loop
    invariant $1 <= $0, strict() ==> $0 <= cat(old(self).bufs@).len(), full(self.bufs@),
        after(cat(old(self).bufs@), cat(self.bufs@), $0 - $1)
    decreases $1, self.bufs@.len()
//@end

//@fn binate/src/connection/buf.rs | impl<T: Buf> Buf for BufList<T> | copy_to_bytes
//@use shorter, popped, first, none, same
//@end

}

}
fn main() {}
