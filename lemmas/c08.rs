//! C08: from the contracts of `next` and `len` (harness/src/c08.rs, proved about the code) to
//! the statement of the property, by induction on what is left. Checked by Verus.
use vstd::prelude::*;

verus! {

pub type Part = Option<Seq<u8>>;

/// What `next` yields of a part (contract `step`: take(..).0).
pub open spec fn first(n: int, p: Part) -> Part {
    match p {
        None => None,
        Some(s) => if s.len() <= n { Some(s) } else { Some(s.subrange(0, n)) },
    }
}

/// What `next` leaves of a part (contract `step`: take(..).1).
pub open spec fn rest(n: int, p: Part) -> Part {
    match p {
        None => None,
        Some(s) => if s.len() <= n { None } else { Some(s.subrange(n, s.len() as int)) },
    }
}

pub open spec fn size(p: Part) -> nat {
    match p { None => 0, Some(s) => s.len() + 1 }
}

/// What iterating yields, until `next` returns None (contract `step`).
pub open spec fn yields(n: int, m: Part, d: Part) -> Seq<(Part, Part)>
    decreases size(m) + size(d)
{
    if n <= 0 || (m.is_none() && d.is_none()) {
        Seq::empty()
    } else {
        seq![(first(n, m), first(n, d))] + yields(n, rest(n, m), rest(n, d))
    }
}

/// The pieces of one part.
pub open spec fn pieces(n: int, p: Part) -> Seq<Seq<u8>>
    decreases size(p)
{
    match p {
        None => Seq::empty(),
        Some(s) => if n <= 0 || s.len() <= n { seq![s] }
            else { seq![s.subrange(0, n)] + pieces(n, Some(s.subrange(n, s.len() as int))) },
    }
}

pub open spec fn concat(ps: Seq<Seq<u8>>) -> Seq<u8>
    decreases ps.len()
{
    if ps.len() == 0 { Seq::empty() } else { ps[0] + concat(ps.subrange(1, ps.len() as int)) }
}

/// What `len` announces for one part (contract `count`).
pub open spec fn count(n: int, p: Part) -> int {
    match p {
        None => 0,
        Some(s) => if s.len() == 0 { 1 } else { (s.len() - 1) / n + 1 },
    }
}
pub open spec fn max(a: int, b: int) -> int { if a > b { a } else { b } }

proof fn count_step(n: int, p: Part)
    requires n > 0,
    ensures
        p.is_some() ==> count(n, p) == 1 + count(n, rest(n, p)),
        p.is_none() ==> count(n, rest(n, p)) == 0,
        count(n, p) >= 0,
        count(n, p) == 0 <==> p.is_none(),
{
    if let Some(s) = p {
        let l = s.len() as int;
        if l <= n {
            if l > 0 { assert((l - 1) / n == 0) by (nonlinear_arith) requires 0 < l <= n; }
        } else {
            assert((l - 1) / n == 1 + (l - n - 1) / n) by (nonlinear_arith) requires l > n, n > 0;
            assert((l - n - 1) / n >= 0) by (nonlinear_arith) requires l > n, n > 0;
        }
    }
}

/// The announced number of chunks is exactly the number yielded, at every point of the
/// iteration (every point is a state, and this holds for every state).
pub proof fn announced(n: int, m: Part, d: Part)
    requires n > 0,
    ensures yields(n, m, d).len() == max(count(n, m), count(n, d)),
    decreases size(m) + size(d),
{
    count_step(n, m);
    count_step(n, d);
    if m.is_some() || d.is_some() {
        announced(n, rest(n, m), rest(n, d));
    }
}

/// The k-th chunk has the k-th piece of each part, or that part is absent.
pub proof fn chunk(n: int, m: Part, d: Part, k: int)
    requires n > 0, 0 <= k < yields(n, m, d).len(),
    ensures
        yields(n, m, d)[k].0 == (if k < pieces(n, m).len() { Some(pieces(n, m)[k]) } else { None }),
        yields(n, m, d)[k].1 == (if k < pieces(n, d).len() { Some(pieces(n, d)[k]) } else { None }),
    decreases size(m) + size(d),
{
    if k > 0 {
        chunk(n, rest(n, m), rest(n, d), k - 1);
        piece_rest(n, m);
        piece_rest(n, d);
    } else {
        piece_rest(n, m);
        piece_rest(n, d);
    }
}

proof fn piece_rest(n: int, p: Part)
    requires n > 0,
    ensures
        p.is_some() ==> pieces(n, p) =~= seq![first(n, p).unwrap()] + pieces(n, rest(n, p)),
        p.is_none() ==> pieces(n, p) =~= pieces(n, rest(n, p)) && pieces(n, p).len() == 0,
{
    reveal_with_fuel(pieces, 2);
}

/// There is a chunk for every piece of a part.
pub proof fn no_piece_lost(n: int, p: Part)
    requires n > 0,
    ensures pieces(n, p).len() == count(n, p),
    decreases size(p),
{
    count_step(n, p);
    piece_rest(n, p);
    if p.is_some() { no_piece_lost(n, rest(n, p)); }
    reveal_with_fuel(pieces, 2);
}

/// The pieces concatenate to the part.
pub proof fn nothing_lost(n: int, s: Seq<u8>)
    requires n > 0,
    ensures concat(pieces(n, Some(s))) =~= s,
    decreases s.len(),
{
    let ps = pieces(n, Some(s));
    reveal_with_fuel(concat, 2);
    if s.len() > n {
        let r = s.subrange(n, s.len() as int);
        nothing_lost(n, r);
        assert(ps.subrange(1, ps.len() as int) =~= pieces(n, Some(r)));
        assert(s =~= s.subrange(0, n) + r);
    } else {
        assert(ps.subrange(1, 1) =~= Seq::<Seq<u8>>::empty());
    }
}

/// Each piece but the last is n bytes long, the last at most n; none is empty unless the part is.
pub proof fn sizes(n: int, s: Seq<u8>, k: int)
    requires n > 0, 0 <= k < pieces(n, Some(s)).len(),
    ensures
        k < pieces(n, Some(s)).len() - 1 ==> pieces(n, Some(s))[k].len() == n,
        pieces(n, Some(s))[k].len() <= n,
        s.len() > 0 ==> pieces(n, Some(s))[k].len() > 0,
    decreases s.len(),
{
    if s.len() > n {
        let r = s.subrange(n, s.len() as int);
        if k > 0 { sizes(n, r, k - 1); } else { reveal_with_fuel(pieces, 2); }
    }
}

/// After the end it stays at the end.
pub proof fn ends(n: int)
    requires n > 0,
    ensures yields(n, None, None).len() == 0, rest(n, None::<Seq<u8>>).is_none(),
{
}

fn main() {}

} // verus!
