@module loop_ranges
@uses
@items
impl LoopRange {
    pub open spec fn lo(self) -> nat { self.0 as nat }
    pub open spec fn bounded(self) -> bool { self.1 is Some }
    pub open spec fn hi(self) -> nat { self.1->0 as nat }
    pub open spec fn wf(self) -> bool { self.1 is Some ==> self.0 <= self.1->0 }
    /// n belongs to the set denoted by the range
    pub open spec fn has(self, n: nat) -> bool {
        self.lo() <= n && (self.bounded() ==> n <= self.hi())
    }
    pub open spec fn zero(self) -> bool { self.bounded() && self.lo() == 0 && self.hi() == 0 }
    /// set denoted by the product range (over unbounded integers)
    pub open spec fn mul_has(self, o: LoopRange, n: nat) -> bool {
        if self.zero() || o.zero() { n == 0 }
        else if self.bounded() && o.bounded() { self.lo() * o.lo() <= n && n <= self.hi() * o.hi() }
        else { self.lo() * o.lo() <= n }
    }
    /// some y in o is such that n is a sum of y elements of self
    pub open spec fn fold_has(self, o: LoopRange, n: nat) -> bool {
        exists|y: nat| #[trigger] o.has(y) && ksum(self, y, n)
    }
}

/// n is the sum of k elements of r
pub open spec fn ksum(r: LoopRange, k: nat, n: nat) -> bool
    decreases k
{
    if k == 0 { n == 0 } else { exists|x: nat| #[trigger] r.has(x) && x <= n && ksum(r, (k - 1) as nat, (n - x) as nat) }
}

/// n is the sum of an element of a and an element of b
pub open spec fn sum_has(a: LoopRange, b: LoopRange, n: nat) -> bool {
    exists|x: nat, y: nat| #[trigger] a.has(x) && #[trigger] b.has(y) && n == x + y
}

pub open spec fn pred(x: nat) -> nat { if x == 0 { 0 } else { (x - 1) as nat } }

pub proof fn lemma_ksum(r: LoopRange, k: nat, n: nat)
    requires r.wf(),
    ensures
        ksum(r, k, n) <==> (if k == 0 { n == 0 } else { k * r.lo() <= n && (r.bounded() ==> n <= k * r.hi()) }),
    decreases k,
{
    if k > 0 {
        let k1 = (k - 1) as nat;
        if ksum(r, k, n) {
            let x = choose|x: nat| #[trigger] r.has(x) && x <= n && ksum(r, k1, (n - x) as nat);
            lemma_ksum(r, k1, (n - x) as nat);
            assert(k * r.lo() == k1 * r.lo() + r.lo()) by (nonlinear_arith) requires k == k1 + 1;
            assert(k * r.hi() == k1 * r.hi() + r.hi()) by (nonlinear_arith) requires k == k1 + 1;
            if k1 == 0 { assert(k1 * r.lo() == 0); assert(k1 * r.hi() == 0); }
        }
        if k * r.lo() <= n && (r.bounded() ==> n <= k * r.hi()) {
            assert(k * r.lo() == k1 * r.lo() + r.lo()) by (nonlinear_arith) requires k == k1 + 1;
            assert(k * r.hi() == k1 * r.hi() + r.hi()) by (nonlinear_arith) requires k == k1 + 1;
            // pick x as large as possible
            let room = (n - k1 * r.lo()) as nat;
            assert(room >= r.lo());
            let x: nat = if r.bounded() && room > r.hi() { r.hi() } else { room };
            assert(k1 * r.lo() >= 0) by (nonlinear_arith);
            assert(x <= n);
            assert(r.has(x));
            if k1 == 0 { assert(k1 * r.lo() == 0); assert(k1 * r.hi() == 0); }
            else if r.bounded() {
                assert(k1 * r.lo() <= k1 * r.hi()) by (nonlinear_arith) requires r.lo() <= r.hi();
            }
            lemma_ksum(r, k1, (n - x) as nat);
            assert(r.has(x) && x <= n && ksum(r, k1, (n - x) as nat));
        }
    }
}

pub proof fn lemma_mul_products(a: LoopRange, b: LoopRange, x: nat, y: nat)
    requires a.wf(), b.wf(), a.has(x), b.has(y),
    ensures a.mul_has(b, x * y),
{
    assert(a.lo() * b.lo() <= x * y) by (nonlinear_arith) requires a.lo() <= x, b.lo() <= y;
    if a.zero() { assert(x * y == 0) by (nonlinear_arith) requires x == 0; }
    if b.zero() { assert(x * y == 0) by (nonlinear_arith) requires y == 0; }
    if a.bounded() && b.bounded() {
        assert(x * y <= a.hi() * b.hi()) by (nonlinear_arith) requires x <= a.hi(), y <= b.hi();
    }
}

/// every iterated sum lies in the product range
pub proof fn lemma_fold_in_mul(a: LoopRange, b: LoopRange, n: nat)
    requires a.wf(), b.wf(), a.fold_has(b, n),
    ensures a.mul_has(b, n),
{
    let y = choose|y: nat| #[trigger] b.has(y) && ksum(a, y, n);
    lemma_ksum(a, y, n);
    if y > 0 {
        assert(a.lo() * b.lo() <= y * a.lo()) by (nonlinear_arith) requires b.lo() <= y;
        if a.bounded() && b.bounded() {
            assert(y * a.hi() <= a.hi() * b.hi()) by (nonlinear_arith) requires y <= b.hi();
        }
        if a.zero() { assert(y * a.hi() == 0) by (nonlinear_arith) requires a.hi() == 0; }
    } else {
        assert(b.lo() == 0);
        assert(a.lo() * b.lo() == 0) by (nonlinear_arith) requires b.lo() == 0;
        assert(a.hi() * b.hi() >= 0) by (nonlinear_arith);
    }
}

/// no gap between consecutive iterated sums from y = c on: the union is the whole product range
pub proof fn lemma_no_gap(a: LoopRange, b: LoopRange, n: nat)
    requires a.wf(), b.wf(), a.mul_has(b, n), a.bounded(),
        b.lo() * (a.hi() - a.lo()) >= a.lo() - 1,
    ensures a.fold_has(b, n),
{
    if a.zero() || b.zero() {
        let y = b.lo();
        if a.zero() { assert(y * a.lo() == 0 && y * a.hi() == 0) by (nonlinear_arith) requires a.lo() == 0, a.hi() == 0; }
        lemma_ksum(a, y, n);
        assert(b.has(y) && ksum(a, y, n));
    } else {
        // a.hi() > 0; y = least y >= c with y * hi >= n
        lemma_search(a, b, n, b.lo());
    }
}

pub proof fn lemma_search(a: LoopRange, b: LoopRange, n: nat, y: nat)
    requires a.wf(), b.wf(), a.bounded(), a.hi() > 0, b.has(y),
        y * a.lo() <= n, b.bounded() ==> n <= a.hi() * b.hi(),
        b.lo() * (a.hi() - a.lo()) >= a.lo() - 1,
    ensures a.fold_has(b, n),
    decreases (if n > y * a.hi() { n - y * a.hi() } else { 0 }),
{
    if n <= y * a.hi() {
        lemma_ksum(a, y, n);
        if y == 0 { assert(y * a.hi() == 0) by (nonlinear_arith) requires y == 0; }
        assert(b.has(y) && ksum(a, y, n));
    } else {
        assert(y * (a.hi() - a.lo()) >= a.lo() - 1) by (nonlinear_arith)
            requires y >= b.lo(), b.lo() * (a.hi() - a.lo()) >= a.lo() - 1, a.hi() >= a.lo();
        assert((y + 1) * a.lo() <= y * a.hi() + 1) by (nonlinear_arith)
            requires y * (a.hi() - a.lo()) >= a.lo() - 1;
        assert((y + 1) * a.hi() > y * a.hi()) by (nonlinear_arith) requires a.hi() > 0;
        if b.bounded() {
            assert(y < b.hi()) by (nonlinear_arith) requires y * a.hi() < n, n <= a.hi() * b.hi(), y <= b.hi();
        }
        lemma_search(a, b, n, y + 1);
    }
}

/// a gap after y = c: c*hi + 1 is in the product range but is no iterated sum
pub proof fn lemma_gap(a: LoopRange, b: LoopRange)
    requires a.wf(), b.wf(), a.bounded(), !(b.bounded() && b.lo() == b.hi()),
        b.lo() * (a.hi() - a.lo()) < a.lo() - 1,
    ensures
        a.mul_has(b, b.lo() * a.hi() + 1),
        !a.fold_has(b, b.lo() * a.hi() + 1),
{
    let c = b.lo();
    let n: nat = c * a.hi() + 1;
    assert(c * a.hi() >= c * a.lo()) by (nonlinear_arith) requires a.hi() >= a.lo();
    assert(a.lo() * c == c * a.lo()) by (nonlinear_arith);
    assert(n < (c + 1) * a.lo()) by (nonlinear_arith) requires n == c * a.hi() + 1, c * (a.hi() - a.lo()) < a.lo() - 1;
    if b.bounded() {
        assert((c + 1) * a.lo() <= a.hi() * b.hi()) by (nonlinear_arith) requires c + 1 <= b.hi(), a.lo() <= a.hi();
    }
    assert(a.lo() >= 1) by {
        assert(c * (a.hi() - a.lo()) >= 0) by (nonlinear_arith) requires a.hi() >= a.lo();
    }
    if a.fold_has(b, n) {
        let y = choose|y: nat| #[trigger] b.has(y) && ksum(a, y, n);
        lemma_ksum(a, y, n);
        if y == c {
        } else {
            assert(y * a.lo() >= (c + 1) * a.lo()) by (nonlinear_arith) requires y >= c + 1;
        }
    }
}

pub proof fn lemma_exact_inf(a: LoopRange, b: LoopRange, n: nat)
    requires a.wf(), b.wf(), !a.bounded(), b.lo() > 0 || a.lo() <= 1, a.mul_has(b, n),
        !(b.bounded() && b.lo() == b.hi()),
    ensures a.fold_has(b, n),
{
    if b.lo() > 0 {
        lemma_ksum(a, b.lo(), n);
        assert(a.lo() * b.lo() == b.lo() * a.lo()) by (nonlinear_arith);
        assert(b.has(b.lo()) && ksum(a, b.lo(), n));
    } else if n == 0 {
        lemma_ksum(a, 0, n);
        assert(b.has(0) && ksum(a, 0, n));
    } else {
        lemma_ksum(a, 1, n);
        assert(b.has(1) && ksum(a, 1, n));
    }
}

pub proof fn lemma_exact_point(a: LoopRange, b: LoopRange, n: nat)
    requires a.wf(), b.wf(), b.bounded() && b.lo() == b.hi(), a.mul_has(b, n),
    ensures a.fold_has(b, n),
{
    let y = b.lo();
    lemma_ksum(a, y, n);
    assert(a.lo() * b.lo() == y * a.lo()) by (nonlinear_arith) requires y == b.lo();
    assert(a.hi() * b.hi() == y * a.hi()) by (nonlinear_arith) requires y == b.hi();
    if a.zero() { assert(y * a.lo() == 0 && y * a.hi() == 0) by (nonlinear_arith) requires a.lo() == 0, a.hi() == 0; }
    assert(b.has(y) && ksum(a, y, n));
}

/// 1 belongs to the product range but is no iterated sum
pub proof fn lemma_inexact_inf(a: LoopRange, b: LoopRange)
    requires a.wf(), b.wf(), !a.bounded(), b.lo() == 0, a.lo() > 1, !(b.bounded() && b.lo() == b.hi()),
    ensures a.mul_has(b, 1), !a.fold_has(b, 1),
{
    assert(a.lo() * b.lo() == 0) by (nonlinear_arith) requires b.lo() == 0;
    if a.fold_has(b, 1) {
        let y = choose|y: nat| #[trigger] b.has(y) && ksum(a, y, 1);
        lemma_ksum(a, y, 1);
        if y > 0 { assert(y * a.lo() > 1) by (nonlinear_arith) requires y >= 1, a.lo() > 1; }
    }
}

pub proof fn lemma_right_mul(a: LoopRange, b: LoopRange, res: bool)
    requires a.wf(), b.wf(),
        res == ((b.bounded() && b.lo() == b.hi())
             || (if !a.bounded() { b.lo() > 0 || a.lo() <= 1 }
                 else { b.lo() * (a.hi() - a.lo()) >= a.lo() - 1 })),
    ensures res == (forall|n: nat| #[trigger] a.fold_has(b, n) <==> a.mul_has(b, n)),
{
    assert forall|n: nat| #[trigger] a.fold_has(b, n) implies a.mul_has(b, n) by { lemma_fold_in_mul(a, b, n); }
    if res {
        assert forall|n: nat| a.mul_has(b, n) implies #[trigger] a.fold_has(b, n) by {
            if b.bounded() && b.lo() == b.hi() { lemma_exact_point(a, b, n); }
            else if !a.bounded() { lemma_exact_inf(a, b, n); }
            else { lemma_no_gap(a, b, n); }
        }
    } else {
        if !a.bounded() {
            lemma_inexact_inf(a, b);
            assert(a.fold_has(b, 1) != a.mul_has(b, 1));
        } else {
            lemma_gap(a, b);
            let n: nat = b.lo() * a.hi() + 1;
            assert(a.fold_has(b, n) != a.mul_has(b, n));
        }
    }
}

pub proof fn lemma_sum(a: LoopRange, b: LoopRange, n: nat)
    requires a.wf(), b.wf(),
    ensures sum_has(a, b, n) <==> (a.lo() + b.lo() <= n && (a.bounded() && b.bounded() ==> n <= a.hi() + b.hi())),
{
    if a.lo() + b.lo() <= n && (a.bounded() && b.bounded() ==> n <= a.hi() + b.hi()) {
        let room = (n - b.lo()) as nat;
        let x: nat = if a.bounded() && room > a.hi() { a.hi() } else { room };
        let y = (n - x) as nat;
        // when a is unbounded take x as large as needed; when b is unbounded y absorbs the rest
        assert(a.has(x));
        assert(b.has(y));
        assert(n == x + y);
    }
}
@end

@fn add32 props=C15,C01 ret=r
    ensures r as int == x + y,
@replace `.expect(` => `.vexpect(`

@fn mul32 props=C15,C01 ret=r
    ensures r as int == x * y,
@replace `.expect(` => `.vexpect(`

@fn LoopRange::finite props=C15,C01 ret=r
    requires i <= j,
    ensures r.wf(), r == LoopRange(i, Some(j)),
@fn LoopRange::infinite props=C15,C01 ret=r
    ensures r.wf(), r == LoopRange(i, None),
@fn LoopRange::opt props=C15,C01 ret=r
    ensures r.wf(), r == LoopRange(0, Some(1)),
@fn LoopRange::star props=C15,C01 ret=r
    ensures r.wf(), r == LoopRange(0, None),
@fn LoopRange::plus props=C15,C01 ret=r
    ensures r.wf(), r == LoopRange(1, None),
@fn LoopRange::point props=C15,C01 ret=r
    ensures r.wf(), r == LoopRange(k, Some(k)),
@fn LoopRange::is_finite props=C15,C01 ret=r
    ensures r == self.bounded(),
@fn LoopRange::is_infinite props=C15,C01 ret=r
    ensures r == !self.bounded(),
@fn LoopRange::is_point props=C15,C01 ret=r
    ensures r == (self.bounded() && self.lo() == self.hi()),
@fn LoopRange::is_zero props=C15,C01 ret=r
    ensures r == self.zero(),
@fn LoopRange::is_one props=C15,C01 ret=r
    ensures r == (self.bounded() && self.lo() == 1 && self.hi() == 1),
@fn LoopRange::is_all props=C15,C01 ret=r
    ensures r == (!self.bounded() && self.lo() == 0),
@fn LoopRange::start props=C15,C01,C16 ret=r
    ensures r == self.0,
@fn LoopRange::end props=C15,C01 ret=r
    requires self.bounded(),
    ensures self.1 == Some(r), r as nat == self.hi(),
@fn LoopRange::contains props=C15 ret=r
    ensures r == self.has(i as nat),
@fn LoopRange::includes props=C15,C16 ret=r
    requires self.wf(), other.wf(),
    ensures r == (forall|n: nat| #[trigger] other.has(n) ==> self.has(n)),
@at start
    proof {
        // witnesses: the bounds of other
        assert(other.has(other.lo()));
        if other.bounded() { assert(other.has(other.hi())); }
        else { let w: nat = if self.bounded() { self.hi() + other.lo() + 1 } else { other.lo() }; assert(other.has(w)); }
    }
@fn LoopRange::add props=C15,C01 ret=r
    requires self.wf(), other.wf(),
    ensures r.wf(),
        forall|n: nat| #[trigger] r.has(n) <==> sum_has(*self, *other, n),
        r.lo() == self.lo() + other.lo(), r.bounded() == (self.bounded() && other.bounded()),
        r.bounded() ==> r.hi() == self.hi() + other.hi(),
@at start
    proof { assert forall|n: nat| #[trigger] sum_has(*self, *other, n) <==> (self.lo() + other.lo() <= n && (self.bounded() && other.bounded() ==> n <= self.hi() + other.hi())) by { lemma_sum(*self, *other, n); } }
@fn LoopRange::add_point props=C15,C01 ret=r
    requires self.wf(),
    ensures r.wf(),
        forall|n: nat| #[trigger] r.has(n) <==> sum_has(*self, LoopRange(x, Some(x)), n),
        r.lo() == self.lo() + x, r.bounded() == self.bounded(),
        r.bounded() ==> r.hi() == self.hi() + x,
@fn LoopRange::scale props=C15 ret=r
    requires self.wf(),
    ensures r.wf(), forall|n: nat| #[trigger] r.has(n) <==> ksum(*self, k as nat, n),
@at start
    proof {
        assert forall|n: nat| #[trigger] ksum(*self, k as nat, n) <==> (if k == 0 { n == 0 } else { k as nat * self.lo() <= n && (self.bounded() ==> n <= k as nat * self.hi()) }) by { lemma_ksum(*self, k as nat, n); }
        assert(k as nat * self.lo() == self.lo() * k as nat) by (nonlinear_arith);
        assert(k as nat * self.hi() == self.hi() * k as nat) by (nonlinear_arith);
        if self.bounded() { assert(self.lo() * k as nat <= self.hi() * k as nat) by (nonlinear_arith) requires self.lo() <= self.hi(); }
    }
@fn LoopRange::mul props=C15,C01 ret=r
    requires self.wf(), other.wf(),
    ensures r.wf(),
        forall|n: nat| #[trigger] r.has(n) <==> self.mul_has(*other, n),
        forall|x: nat, y: nat| self.has(x) && other.has(y) ==> r.has(#[trigger] (x * y)),
@at start
    proof {
        assert forall|x: nat, y: nat| self.has(x) && other.has(y) implies self.mul_has(*other, #[trigger] (x * y)) by { lemma_mul_products(*self, *other, x, y); }
        if self.bounded() && other.bounded() { assert(self.lo() * other.lo() <= self.hi() * other.hi()) by (nonlinear_arith) requires self.lo() <= self.hi(), other.lo() <= other.hi(); }
    }
@fn LoopRange::right_mul_is_exact props=C15,C01 ret=r
    requires self.wf(), other.wf(),
    ensures r == (forall|n: nat| #[trigger] self.fold_has(*other, n) <==> self.mul_has(*other, n)),
@at start
    proof {
        if self.bounded() {
            assert(other.lo() * (self.hi() - self.lo()) <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith)
                requires 0 <= other.lo() <= 0xffff_ffff, 0 <= self.hi() - self.lo() <= 0xffff_ffff;
            assert(other.lo() * (self.hi() - self.lo()) >= 0) by (nonlinear_arith)
                requires 0 <= other.lo(), 0 <= self.hi() - self.lo();
        }
    }
@at tail
    proof { lemma_right_mul(*self, *other, r); }
@fn LoopRange::shift props=C15,C03 ret=r
    requires self.wf(),
    ensures r.wf(),
        forall|n: nat| #[trigger] r.has(n) <==> exists|x: nat| #[trigger] self.has(x) && n == pred(x),
        r.bounded() == self.bounded(), r.lo() == pred(self.lo()), r.bounded() ==> r.hi() == pred(self.hi()),
@at tail
    proof {
        assert forall|n: nat| #[trigger] r.has(n) implies exists|x: nat| #[trigger] self.has(x) && n == pred(x) by {
            if self.has(n + 1) { assert(pred(n + 1) == n); } else { assert(self.has(n) && pred(n) == n); }
        }
    }
