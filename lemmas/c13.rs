// C13, any history. The contracts of the operations are proved on the real code (harness/src/c13.rs):
// whatever the count is when an operation takes effect, `add(n)` raises it by n, `dec` lowers it by
// one and gives the count before, the others leave it alone. Each takes effect at one moment, so that a
// history is a sequence, whichever threads its operations belong to.
use vstd::prelude::*;

verus! {

pub enum Op { Add(int), Take, Look }

pub open spec fn after(c: int, o: Op) -> int {
    match o { Op::Add(n) => c + n, Op::Take => c - 1, Op::Look => c }
}

pub open spec fn count(start: int, h: Seq<Op>) -> int decreases h.len() {
    if h.len() == 0 { start } else { after(count(start, h.drop_last()), h.last()) }
}

pub open spec fn added(h: Seq<Op>) -> int decreases h.len() {
    if h.len() == 0 { 0 } else { added(h.drop_last()) + (match h.last() { Op::Add(n) => n, _ => 0 }) }
}

pub open spec fn taken(h: Seq<Op>) -> int decreases h.len() {
    if h.len() == 0 { 0 } else { taken(h.drop_last()) + (match h.last() { Op::Take => 1int, _ => 0 }) }
}

proof fn exact(start: int, h: Seq<Op>)
    ensures count(start, h) == start + added(h) - taken(h)
    decreases h.len()
{
    if h.len() > 0 { exact(start, h.drop_last()); }
}

/// The i-th operation gives (dec, load) or compares with zero (is_zero) what has been added and
/// taken before it.
proof fn observed(start: int, h: Seq<Op>, i: int)
    requires 0 <= i < h.len(),
    ensures count(start, h.take(i)) == start + added(h.take(i)) - taken(h.take(i))
{
    exact(start, h.take(i));
}

}
fn main() {}
