//@ source diff/myers.rs
//@ inst PartialEq=u64 SliceLike=[u64]
//@ type V
//@ type Snake
//@ raw
use super::*;
use super::range::*;

/// no slice of u64 has more elements (Rust: a slice spans at most isize::MAX bytes)
pub spec const LIM: int = 0x0fff_ffff_ffff_ffff;

/// entry of diagonal j
pub open spec fn at(s: Seq<usize>, off: int, j: int) -> int { s[j + off] as int }
/// the diagonals a d-path can end on
pub open spec fn inrow(j: int, d: int) -> bool { -d <= j <= d && (d - j) % 2 == 0 }
pub open spec fn base(s: Seq<usize>, off: int, n: int, m: int, d: int, j: int) -> bool {
    2 * at(s, off, j) >= d + j && at(s, off, j) <= n + d && at(s, off, j) - j <= m + d
}
/// what a finished round d of either search satisfies
#[verifier::opaque]
pub open spec fn row(s: Seq<usize>, off: int, n: int, m: int, d: int) -> bool {
    forall|j: int| #[trigger] inrow(j, d) ==> {
        &&& base(s, off, n, m, d, j)
        &&& (at(s, off, j) > n ==> j - 2 >= -d && at(s, off, j - 2) >= n)
        &&& (at(s, off, j) - j > m ==> j + 2 <= d && at(s, off, j + 2) - (j + 2) >= m)
        &&& (d == 0 ==> at(s, off, 0) == 0)
    }
}
/// the part of round d already computed: diagonals above k
#[verifier::opaque]
pub open spec fn part(s: Seq<usize>, off: int, n: int, m: int, d: int, k: int) -> bool {
    forall|j: int| #[trigger] inrow(j, d) && j > k ==> {
        &&& base(s, off, n, m, d, j)
        &&& (d == 0 ==> at(s, off, 0) == 0)
        &&& (d > 0 ==> {
            &&& (j + 1 <= d - 1 ==> at(s, off, j) >= at(s, off, j + 1))
            &&& (j - 1 >= -(d - 1) ==> at(s, off, j) >= at(s, off, j - 1) + 1)
            &&& (at(s, off, j) > n ==> j - 1 >= -(d - 1) && at(s, off, j - 1) >= n)
            &&& (at(s, off, j) - j > m ==> j + 1 <= d - 1 && at(s, off, j + 1) - (j + 1) >= m)
        })
    }
}
/// no path of round d on a diagonal above k within w of delta has left the grid or reached its far sides
#[verifier::opaque]
pub open spec fn inner(s: Seq<usize>, off: int, n: int, m: int, d: int, w: int, k: int) -> bool {
    forall|j: int| #[trigger] inrow(j, d) && j > k && -w <= j - (n - m) <= w ==> at(s, off, j) < n && at(s, off, j) - j < m
}
/// some diagonal above k was checked, so q < n + m
#[verifier::opaque]
pub open spec fn seen(n: int, m: int, d: int, w: int, k: int, q: int) -> bool {
    forall|j: int| #[trigger] inrow(j, d) && j > k && -w <= j - (n - m) <= w ==> q < n + m
}
/// where the algorithm starts the snake of diagonal k in round d
pub open spec fn x0_of(s: Seq<usize>, off: int, d: int, k: int) -> int {
    if k == -d || (k != d && at(s, off, k - 1) < at(s, off, k + 1)) { at(s, off, k + 1) } else { at(s, off, k - 1) + 1 }
}
pub open spec fn sizes(s: Seq<usize>, off: int, n: int, m: int, d: int) -> bool {
    s.len() == 2 * off && 0 <= d < off && n >= 1 && m >= 1
}

/// one step of a search: writing the end x of the snake of diagonal k
pub proof fn lemma_step(s: Seq<usize>, off: int, n: int, m: int, d: int, k: int, x: usize)
    requires
        sizes(s, off, n, m, d), inrow(k, d), part(s, off, n, m, d, k),
        d > 0 ==> row(s, off, n, m, d - 1),
        d == 0 ==> x == 0,
        d > 0 ==> x >= x0_of(s, off, d, k) && (x == x0_of(s, off, d, k) || (x <= n && x - k <= m)),
    ensures
        part(s.update(k + off, x), off, n, m, d, k - 2),
        d > 0 ==> row(s.update(k + off, x), off, n, m, d - 1),
        2 * x >= d + k,
{
    reveal(row); reveal(part); reveal(inner);
    let t = s.update(k + off, x);
    if d > 0 {
        if k > -d { assert(inrow(k - 1, d - 1)); }
        if k < d { assert(inrow(k + 1, d - 1)); }
        assert forall|j: int| #[trigger] inrow(j, d - 1) implies at(t, off, j) == at(s, off, j) && at(t, off, j - 2) == at(s, off, j - 2) && at(t, off, j + 2) == at(s, off, j + 2) by {
            assert(j != k && j - 2 != k && j + 2 != k);
        }
        assert(row(t, off, n, m, d - 1));
        assert forall|j: int| #[trigger] inrow(j, d) && j > k - 2 implies {
            &&& base(t, off, n, m, d, j)
            &&& (j + 1 <= d - 1 ==> at(t, off, j) >= at(t, off, j + 1))
            &&& (j - 1 >= -(d - 1) ==> at(t, off, j) >= at(t, off, j - 1) + 1)
            &&& (at(t, off, j) > n ==> j - 1 >= -(d - 1) && at(t, off, j - 1) >= n)
            &&& (at(t, off, j) - j > m ==> j + 1 <= d - 1 && at(t, off, j + 1) - (j + 1) >= m)
        } by {
            assert(j + 1 != k && j - 1 != k);
            if j > k {
                assert(at(t, off, j) == at(s, off, j));
                if j + 1 <= d - 1 { assert(at(t, off, j + 1) == at(s, off, j + 1)); }
                if j - 1 >= -(d - 1) { assert(at(t, off, j - 1) == at(s, off, j - 1)); }
            } else {
                assert(j == k);
                assert(at(t, off, k) == x);
                let x0 = x0_of(s, off, d, k);
                if k > -d { assert(inrow(k - 1, d - 1)); assert(base(s, off, n, m, d - 1, k - 1)); }
                if k < d { assert(inrow(k + 1, d - 1)); assert(base(s, off, n, m, d - 1, k + 1)); }
                // leaving the grid on the right
                if x > n {
                    assert(x == x0);
                    if k == -d || (k != d && at(s, off, k - 1) < at(s, off, k + 1)) {
                        assert(at(s, off, k + 1) > n);
                    }
                }
                if x - k > m {
                    assert(x == x0);
                }
            }
        }
    } else {
        assert(k == 0);
    }
}

/// frame: writing round d does not disturb the checked part of it
pub proof fn lemma_inner_frame(s: Seq<usize>, off: int, n: int, m: int, d: int, e: int, w: int, k: int, kk: int, x: usize)
    requires sizes(s, off, n, m, d), inrow(k, d), inner(s, off, n, m, e, w, kk), e == d - 1 || (e == d && kk == k), 0 <= e
    ensures inner(s.update(k + off, x), off, n, m, e, w, kk),
{
    reveal(row); reveal(part); reveal(inner);
    let t = s.update(k + off, x);
    assert forall|j: int| #[trigger] inrow(j, e) && j > kk && -w <= j - (n - m) <= w implies at(t, off, j) < n && at(t, off, j) - j < m by {
        assert(at(t, off, j) == at(s, off, j));
    }
}

/// a finished round
pub proof fn lemma_row_done(s: Seq<usize>, off: int, n: int, m: int, d: int, k: int)
    requires sizes(s, off, n, m, d), part(s, off, n, m, d, k), k < -d, d > 0 ==> row(s, off, n, m, d - 1)
    ensures row(s, off, n, m, d),
{
    reveal(row); reveal(part); reveal(inner);
    assert forall|j: int| #[trigger] inrow(j, d) implies {
        &&& base(s, off, n, m, d, j)
        &&& (at(s, off, j) > n ==> j - 2 >= -d && at(s, off, j - 2) >= n)
        &&& (at(s, off, j) - j > m ==> j + 2 <= d && at(s, off, j + 2) - (j + 2) >= m)
        &&& (d == 0 ==> at(s, off, 0) == 0)
    } by {
        if d > 0 {
            if j - 2 >= -d { assert(inrow(j - 2, d)); }
            if j + 2 <= d { assert(inrow(j + 2, d)); }
        }
    }
}

/// the start of a snake on a checked diagonal is in the grid and is not its far corner
pub proof fn lemma_start(s: Seq<usize>, off: int, n: int, m: int, d: int, w: int, k: int)
    requires
        sizes(s, off, n, m, d), d > 0, inrow(k, d), row(s, off, n, m, d - 1),
        w == d - 2 || w == d - 1, (k - 1 - (n - m) - w) % 2 == 0,
        inner(s, off, n, m, d - 1, w, -d),
        -(w + 1) <= k - (n - m) <= w + 1,
    ensures
        ({ let x0 = x0_of(s, off, d, k);
           0 <= x0 <= n && 0 <= x0 - k <= m && !(x0 == n && x0 - k == m) && 2 * x0 >= d + k && x0 + (x0 - k) > 0 }),
{
    reveal(row); reveal(part); reveal(inner);
    let dl = n - m;
    if k > -d { assert(inrow(k - 1, d - 1)); }
    if k < d { assert(inrow(k + 1, d - 1)); }
    if k == -d || (k != d && at(s, off, k - 1) < at(s, off, k + 1)) {
        let x1 = at(s, off, k + 1);
        if k + 1 - dl <= w {
        } else {
            assert(k + 1 == dl + w + 2);
            assert(x1 <= n + d - 1);
            assert(x1 - k <= m);
            if x1 > n {
                assert(inrow(k - 1, d - 1));
                assert(at(s, off, k - 1) >= n);
            }
        }
    } else {
        let x1 = at(s, off, k - 1);
        if k - 1 - dl >= -w {
        } else {
            assert(k - 1 == dl - w - 2);
            if x1 - (k - 1) > m {
                assert(inrow(k + 1, d - 1));
                assert(at(s, off, k + 1) - (k + 1) >= m);
            }
        }
    }
}

pub proof fn lemma_entry(s: Seq<usize>, off: int, n: int, m: int, d: int, j: int)
    requires row(s, off, n, m, d), inrow(j, d),
    ensures base(s, off, n, m, d, j), d == 0 ==> at(s, off, 0) == 0,
{
    reveal(row);
}
pub proof fn lemma_begin(s: Seq<usize>, off: int, n: int, m: int, d: int, w: int, q: int)
    ensures part(s, off, n, m, d, d), inner(s, off, n, m, d, w, d), seen(n, m, d, w, d, q),
{
    reveal(part); reveal(inner); reveal(seen);
}
/// one more diagonal is finished
pub proof fn lemma_add(s: Seq<usize>, off: int, n: int, m: int, d: int, w: int, k: int, q: int)
    requires inner(s, off, n, m, d, w, k), seen(n, m, d, w, k, q), inrow(k, d),
        -w <= k - (n - m) <= w ==> at(s, off, k) < n && at(s, off, k) - k < m && q < n + m,
    ensures inner(s, off, n, m, d, w, k - 2), seen(n, m, d, w, k - 2, q),
{
    reveal(inner); reveal(seen);
    assert forall|j: int| #[trigger] inrow(j, d) && j > k - 2 implies j >= k by {}
}
pub proof fn lemma_end(s: Seq<usize>, off: int, n: int, m: int, d: int, w: int, k: int, q: int, j: int)
    requires inner(s, off, n, m, d, w, k), seen(n, m, d, w, k, q), k < -d,
    ensures inner(s, off, n, m, d, w, -d - 1), inrow(j, d) && -w <= j - (n - m) <= w ==> q < n + m,
{
    reveal(inner); reveal(seen);
    assert forall|j: int| #[trigger] inrow(j, d) implies j > k by {}
}
/// when the rounds are used up the two searches have met
pub proof fn lemma_witness(d: int, n: int, m: int, w: int) -> (k: int)
    requires d >= 0, n >= 1, m >= 1, (n - m - w - d) % 2 == 0, w == d || w == d - 1, -(w + d) <= n - m <= w + d, w >= 0
    ensures inrow(k, d), -w <= k - (n - m) <= w,
{
    if n >= m { n - m - w } else { n - m + w }
}

pub open spec fn tail<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, k: int) -> Seq<DiffRange<'a, 'b, [u64]>> { s.subrange(k, s.len() as int) }
pub proof fn lemma_push<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, k: int, e: DiffRange<'a, 'b, [u64]>, a: Seq<u64>, b: Seq<u64>, o: int, n: int, o1: int, n1: int)
    requires 0 <= k <= s.len(), ok(tail(s, k), a, b, o, n, o1, n1), elem_ok(e, a, b, o1, n1),
    ensures ok(tail(s.push(e), k), a, b, o, n, o1 + ol(e), n1 + nl(e)), s.push(e).subrange(0, k) == s.subrange(0, k),
{
    lemma_one(e, a, b, o1, n1);
    lemma_join(tail(s, k), seq![e], a, b, o, n, o1, n1, o1 + ol(e), n1 + nl(e));
    assert(tail(s.push(e), k) =~= tail(s, k) + seq![e]);
    assert(s.push(e).subrange(0, k) =~= s.subrange(0, k));
}
pub proof fn lemma_app<'a, 'b>(s: Seq<DiffRange<'a, 'b, [u64]>>, t: Seq<DiffRange<'a, 'b, [u64]>>, k: int, a: Seq<u64>, b: Seq<u64>, o: int, n: int, o1: int, n1: int, o2: int, n2: int)
    requires 0 <= k <= s.len() <= t.len(), t.subrange(0, s.len() as int) == s, ok(tail(s, k), a, b, o, n, o1, n1), ok(tail(t, s.len() as int), a, b, o1, n1, o2, n2),
    ensures ok(tail(t, k), a, b, o, n, o2, n2), t.subrange(0, k) == s.subrange(0, k),
{
    lemma_join(tail(s, k), tail(t, s.len() as int), a, b, o, n, o1, n1, o2, n2);
    assert(tail(t, k) =~= tail(s, k) + tail(t, s.len() as int));
    assert(t.subrange(0, k) =~= t.subrange(0, s.len() as int).subrange(0, k));
}
//@ implraw V
    pub open spec fn wf(self) -> bool { self.v@.len() == 2 * self.offset && 0 <= self.offset <= 2 * LIM }
//@ fn V::new
    requires max_d <= 2 * LIM,
    ensures r.wf(), r.offset == max_d,
//@ fn V::len
    ensures r == self.v@.len(),
//@ fn max_d
    requires len1 <= LIM, len2 <= LIM,
    ensures r == (len1 + len2 + 1) / 2 + 1,
//@ fn find_middle_snake
    requires
        old__.fits(), new.fits(), 1 <= old__.len <= LIM, 1 <= new.len <= LIM,
        old__.sv()[0] != new.sv()[0], old__.sv()[old__.len - 1] != new.sv()[new.len - 1],
        old(vf).wf(), old(vb).wf(),
        old(vf).offset >= (old__.len + new.len + 1) / 2 + 1, old(vb).offset >= (old__.len + new.len + 1) / 2 + 1,
    ensures
        final(vf).wf(), final(vb).wf(), final(vf).offset == old(vf).offset, final(vb).offset == old(vb).offset,
        r.1.x_start <= old__.len, r.1.y_start <= new.len,
        r.1.x_start + r.1.y_start > 0, r.1.x_start + r.1.y_start < old__.len + new.len,
//@ ghost find_middle_snake before let odd
    assert((delta & 1 == 1) == (delta % 2 == 1 || delta % 2 == -1)) by (bit_vector);
//@ loop find_middle_snake l0
    invariant
        old__.fits(), new.fits(), n == old__.len, m == new.len, 1 <= n <= LIM, 1 <= m <= LIM,
        old__.sv()[0] != new.sv()[0], old__.sv()[n - 1] != new.sv()[m - 1],
        delta == n - m, odd == ((delta as int) % 2 != 0), d_max == (n + m + 1) / 2 + 1, e0 == d_max,
        vf.wf(), vb.wf(), vf.offset >= d_max, vb.offset >= d_max,
        vf.offset == old(vf).offset, vb.offset == old(vb).offset,
        0 <= i0 <= d_max,
        i0 == 0 ==> at(vf.v@, vf.offset as int, 1) == 0 && at(vb.v@, vb.offset as int, 1) == 0,
        i0 > 0 ==> row(vf.v@, vf.offset as int, n as int, m as int, i0 - 1) && row(vb.v@, vb.offset as int, n as int, m as int, i0 - 1),
        i0 > 0 && odd ==> inner(vf.v@, vf.offset as int, n as int, m as int, i0 - 1, i0 - 2, -(i0 as int)) && 2 * i0 - 3 < n + m,
        i0 > 0 && !odd ==> inner(vb.v@, vb.offset as int, n as int, m as int, i0 - 1, i0 - 1, -(i0 as int)) && 2 * i0 - 2 < n + m,
    decreases e0 - i0,
//@ ghost find_middle_snake loop l1 before
    let ghost off = vf.offset as int;
    let ghost boff = vb.offset as int;
    let ghost nn = n as int;
    let ghost mm = m as int;
    proof { lemma_begin(vf.v@, off, nn, mm, d as int, d - 1, 2 * d - 1); }
//@ loop find_middle_snake l1
    invariant
        old__.fits(), new.fits(), n == old__.len, m == new.len, 1 <= n <= LIM, 1 <= m <= LIM, nn == n, mm == m,
        old__.sv()[0] != new.sv()[0], old__.sv()[n - 1] != new.sv()[m - 1],
        delta == n - m, odd == ((delta as int) % 2 != 0), d_max == (n + m + 1) / 2 + 1,
        vf.wf(), vb.wf(), vf.offset >= d_max, vb.offset >= d_max, vf.offset == off, vb.offset == boff,
        vf.offset == old(vf).offset, vb.offset == old(vb).offset,
        0 <= d < d_max, e1 == -d, -d - 2 <= i1 <= d, (d - i1) % 2 == 0,
        d == 0 && i1 == 0 ==> at(vf.v@, off, 1) == 0,
        d > 0 ==> row(vf.v@, off, nn, mm, d - 1) && row(vb.v@, boff, nn, mm, d - 1),
        part(vf.v@, off, nn, mm, d as int, i1 as int),
        d > 0 && odd ==> inner(vf.v@, off, nn, mm, d - 1, d - 2, -(d as int)),
        odd ==> inner(vf.v@, off, nn, mm, d as int, d - 1, i1 as int),
        seen(nn, mm, d as int, d - 1, i1 as int, 2 * d - 1) || !odd,
    decreases i1 - e1 + 2,
//@ ghost find_middle_snake loop l1 start
    proof {
        assert(inrow(k as int, d as int));
        if d > 0 {
            if k > -d { lemma_entry(vf.v@, off, nn, mm, d - 1, k - 1); }
            if k < d { lemma_entry(vf.v@, off, nn, mm, d - 1, k + 1); }
        }
    }
//@ ghost find_middle_snake before vf[k] = x
    let ghost s_old = vf.v@;
    proof {
        if d > 0 { assert(x0 == x0_of(s_old, off, d as int, k as int)); }
        if d == 0 {
            assert(old__.sv().subrange(0, nn) =~= old__.sv());
            if x > 0 { assert(old__.sv()[0] == new.sv()[0]); }
        }
        lemma_step(s_old, off, nn, mm, d as int, k as int, x);
        if odd {
            if d > 0 { lemma_inner_frame(s_old, off, nn, mm, d as int, d - 1, d - 2, k as int, -(d as int), x); }
            lemma_inner_frame(s_old, off, nn, mm, d as int, d as int, d - 1, k as int, k as int, x);
        }
        if odd && -(d - 1) <= k - delta <= d - 1 {
            lemma_start(s_old, off, nn, mm, d as int, d - 2, k as int);
            assert(inrow(delta - k, d - 1));
            lemma_entry(vb.v@, boff, nn, mm, d - 1, delta - k);
        }
    }
//@ ghost find_middle_snake loop l1 end
    proof {
        if odd && -(d - 1) <= k - delta <= d - 1 {
            assert(inrow(delta - k, d - 1));
            assert(at(vf.v@, off, k as int) == x);
            assert(x + at(vb.v@, boff, delta - k) < n);
            lemma_entry(vb.v@, boff, nn, mm, d - 1, delta - k);
        }
        if odd { lemma_add(vf.v@, off, nn, mm, d as int, d - 1, k as int, 2 * d - 1); }
    }
//@ ghost find_middle_snake loop l1 after
    proof {
        lemma_row_done(vf.v@, off, nn, mm, d as int, i1 as int);
        if odd {
            let j = if d > 0 && -(2 * d - 1) <= delta <= 2 * d - 1 { lemma_witness(d as int, nn, mm, d - 1) } else { 0 };
            lemma_end(vf.v@, off, nn, mm, d as int, d - 1, i1 as int, 2 * d - 1, j);
        }
        lemma_begin(vb.v@, boff, nn, mm, d as int, d as int, 2 * d);
    }
//@ loop find_middle_snake l2
    invariant
        old__.fits(), new.fits(), n == old__.len, m == new.len, 1 <= n <= LIM, 1 <= m <= LIM, nn == n, mm == m,
        old__.sv()[0] != new.sv()[0], old__.sv()[n - 1] != new.sv()[m - 1],
        delta == n - m, odd == ((delta as int) % 2 != 0), d_max == (n + m + 1) / 2 + 1,
        vf.wf(), vb.wf(), vf.offset >= d_max, vb.offset >= d_max, vf.offset == off, vb.offset == boff,
        vf.offset == old(vf).offset, vb.offset == old(vb).offset,
        0 <= d < d_max, e2 == -d, -d - 2 <= i2 <= d, (d - i2) % 2 == 0,
        d == 0 && i2 == 0 ==> at(vb.v@, boff, 1) == 0,
        row(vf.v@, off, nn, mm, d as int),
        d > 0 ==> row(vb.v@, boff, nn, mm, d - 1),
        part(vb.v@, boff, nn, mm, d as int, i2 as int),
        odd ==> inner(vf.v@, off, nn, mm, d as int, d - 1, -(d as int) - 1) && 2 * d - 1 < n + m,
        d > 0 && !odd ==> inner(vb.v@, boff, nn, mm, d - 1, d - 1, -(d as int)),
        !odd ==> inner(vb.v@, boff, nn, mm, d as int, d as int, i2 as int),
        seen(nn, mm, d as int, d as int, i2 as int, 2 * d) || odd,
    decreases i2 - e2 + 2,
//@ ghost find_middle_snake loop l2 start
    proof {
        assert(inrow(k as int, d as int));
        if d > 0 {
            if k > -d { lemma_entry(vb.v@, boff, nn, mm, d - 1, k - 1); }
            if k < d { lemma_entry(vb.v@, boff, nn, mm, d - 1, k + 1); }
        }
    }
//@ ghost find_middle_snake before vb[k] = x
    let ghost s_old = vb.v@;
    proof {
        if d > 0 { assert(x0 == x0_of(s_old, boff, d as int, k as int)); }
        if x > x0 {
            let a = old__.sv().subrange(0, n - x0);
            let b = new.sv().subrange(0, m - y0);
            assert(a[n - x0 - 1] == b[m - y0 - 1]);
            if x == n && y == m { assert(a[0] == b[0]); }
        }
        lemma_step(s_old, boff, nn, mm, d as int, k as int, x);
        if !odd {
            if d > 0 { lemma_inner_frame(s_old, boff, nn, mm, d as int, d - 1, d - 1, k as int, -(d as int), x); }
            lemma_inner_frame(s_old, boff, nn, mm, d as int, d as int, d as int, k as int, k as int, x);
        }
        if !odd && -d <= k - delta <= d {
            if d > 0 { lemma_start(s_old, boff, nn, mm, d as int, d - 1, k as int); }
            assert(inrow(delta - k, d as int));
            lemma_entry(vf.v@, off, nn, mm, d as int, delta - k);
        }
    }
//@ ghost find_middle_snake loop l2 end
    proof {
        if !odd && -d <= k - delta <= d {
            assert(inrow(delta - k, d as int));
            assert(at(vb.v@, boff, k as int) == x);
            assert(x + at(vf.v@, off, delta - k) < n);
            lemma_entry(vf.v@, off, nn, mm, d as int, delta - k);
        }
        if !odd { lemma_add(vb.v@, boff, nn, mm, d as int, d as int, k as int, 2 * d); }
    }
//@ ghost find_middle_snake loop l2 after
    proof {
        lemma_row_done(vb.v@, boff, nn, mm, d as int, i2 as int);
        if !odd {
            let j = if -(2 * d) <= delta <= 2 * d { lemma_witness(d as int, nn, mm, d as int) } else { 0 };
            lemma_end(vb.v@, boff, nn, mm, d as int, d as int, i2 as int, 2 * d, j);
        }
    }
//@ fn conquer
    requires
        old__.fits(), new.fits(), old__.len <= LIM, new.len <= LIM,
        old(vf).wf(), old(vb).wf(),
        old(vf).offset >= (old__.len + new.len + 1) / 2 + 1, old(vb).offset >= (old__.len + new.len + 1) / 2 + 1,
    ensures
        final(vf).wf(), final(vb).wf(), final(vf).offset == old(vf).offset, final(vb).offset == old(vb).offset,
        final(solution)@.len() >= old(solution)@.len(),
        final(solution)@.subrange(0, old(solution)@.len() as int) == old(solution)@,
        ok(final(solution)@.subrange(old(solution)@.len() as int, final(solution)@.len() as int), old__.inner@, new.inner@, old__.offset as int, new.offset as int, old__.offset + old__.len, new.offset + new.len),
        old__.sv() == new.sv() ==> final(solution)@ == (if old__.len == 0 { old(solution)@ } else { old(solution)@.push(DiffRange::Equal(old__, new)) }),
    decreases old__.len + new.len,
//@ ghost conquer start
    let ghost a = old__.inner@;
    let ghost b = new.inner@;
    let ghost (o, n) = (old__.offset as int, new.offset as int);
    let ghost s0 = solution@;
    let ghost k = s0.len() as int;
    let ghost (p_old, p_new) = (old__, new);
    assert(tail(s0, k) =~= Seq::empty());
    assert(s0.subrange(0, k) =~= s0);
//@ ghost conquer before solution.push(common_prefix)
    proof {
        assert(p_old.sv().subrange(0, common_prefix_len as int) =~= p_new.sv().subrange(0, common_prefix_len as int));
        assert(common_prefix->Equal_0.sv() =~= p_old.sv().subrange(0, common_prefix_len as int));
        assert(common_prefix->Equal_1.sv() =~= p_new.sv().subrange(0, common_prefix_len as int));
        lemma_push(solution@, k, common_prefix, a, b, o, n, o, n);
    }
//@ ghost conquer before old = old.slice(common_prefix_len
    let ghost cp = common_prefix_len as int;
    let ghost s1 = solution@;
    assert(ok(tail(s1, k), a, b, o, n, o + cp, n + cp));
    proof {
        if p_old.sv() == p_new.sv() {
            assert(cp == p_old.len);
            assert(p_old == old__ && p_new == new);
        }
    }
//@ ghost conquer before let common_suffix_len
    let ghost (q_old, q_new) = (old__, new);
    proof {
        assert(q_old.sv() =~= p_old.sv().subrange(cp, p_old.len as int));
        assert(q_new.sv() =~= p_new.sv().subrange(cp, p_new.len as int));
    }
//@ ghost conquer before if old.is_empty() && new.is_empty()
    let ghost cs = common_suffix_len as int;
    let ghost (eo, en) = (p_old.offset + p_old.len - cs, p_new.offset + p_new.len - cs);
    proof {
        assert(old__.sv() =~= q_old.sv().subrange(0, q_old.len - cs));
        assert(new.sv() =~= q_new.sv().subrange(0, q_new.len - cs));
        if cs > 0 {
            assert(common_suffix->Equal_0.sv() =~= q_old.sv().subrange(q_old.len - cs, q_old.len as int));
            assert(common_suffix->Equal_1.sv() =~= q_new.sv().subrange(q_new.len - cs, q_new.len as int));
            assert(common_suffix->Equal_0.sv() =~= common_suffix->Equal_1.sv()) by {
                assert forall|i: int| 0 <= i < cs implies common_suffix->Equal_0.sv()[i] == common_suffix->Equal_1.sv()[i] by {
                    assert(q_old.sv()[q_old.len - cs + i] == q_new.sv()[q_new.len - cs + i]);
                }
            }
            assert(elem_ok(common_suffix, a, b, eo, en));
        }
    }
//@ ghost conquer before solution.push(DiffRange::Insert(new))
    proof { lemma_push(s1, k, DiffRange::Insert(new), a, b, o, n, o + cp, n + cp); }
//@ ghost conquer before solution.push(DiffRange::Delete(old))
    proof { lemma_push(s1, k, DiffRange::Delete(old__), a, b, o, n, o + cp, n + cp); }
//@ ghost conquer after conquer(old_a
    let ghost s2 = solution@;
    proof { lemma_app(s1, s2, k, a, b, o, n, o + cp, n + cp, o + cp + old_a.len, n + cp + new_a.len); }
//@ ghost conquer after conquer(old_b
    proof { lemma_app(s2, solution@, k, a, b, o, n, o + cp + old_a.len, n + cp + new_a.len, eo, en); }
//@ ghost conquer before if common_suffix_len > 0
    assert(ok(tail(solution@, k), a, b, o, n, eo, en));
    proof {
        if cs > 0 { lemma_push(solution@, k, common_suffix, a, b, o, n, eo, en); }
    }
//@ fn diff
    requires old__@.len() <= LIM, new@.len() <= LIM,
    ensures full(r@, old__@, new@),
        old__@ == new@ ==> r@.len() <= 1 && forall|i: int| 0 <= i < r@.len() ==> r@[i] is Equal,
//@ ghost diff start
    assert(old__@.len() == spec_slice_len(old__) && new@.len() == spec_slice_len(new));
//@ ghost diff end
    proof {
        assert(old_recs.sv() =~= old__@);
        assert(new_recs.sv() =~= new@);
        assert(r__@.subrange(0, r__@.len() as int) =~= r__@);
    }
