// Huffman's theorem, as mathematics: sums over sequences, Kraft's inequality, and
// the exchange step (merging two least weights loses nothing).
pub mod vhuff {
    use vstd::prelude::*;
    use vstd::multiset::*;
    use vstd::arithmetic::power2::*;
    use vstd::seq_lib::*;

    pub open spec fn sum(s: Seq<nat>) -> nat
        decreases s.len()
    {
        if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() }
    }
    pub proof fn lemma_sum_remove(s: Seq<nat>, i: int)
        requires 0 <= i < s.len(),
        ensures sum(s) == sum(s.remove(i)) + s[i],
        decreases s.len()
    {
        if i == s.len() - 1 { assert(s.remove(i) =~= s.drop_last()); }
        else {
            lemma_sum_remove(s.drop_last(), i);
            assert(s.remove(i).drop_last() =~= s.drop_last().remove(i));
            assert(s.remove(i).last() == s.last());
        }
    }
    pub proof fn lemma_sum_push(s: Seq<nat>, x: nat)
        ensures sum(s.push(x)) == sum(s) + x,
    { assert(s.push(x).drop_last() =~= s); }
    pub proof fn lemma_sum_add(a: Seq<nat>, b: Seq<nat>)
        ensures sum(a + b) == sum(a) + sum(b),
        decreases b.len()
    {
        if b.len() == 0 { assert(a + b =~= a); }
        else { lemma_sum_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
    }
    pub proof fn lemma_sum_update(s: Seq<nat>, i: int, x: nat)
        requires 0 <= i < s.len(),
        ensures sum(s.update(i, x)) + s[i] == sum(s) + x,
    {
        lemma_sum_remove(s, i);
        lemma_sum_remove(s.update(i, x), i);
        assert(s.update(i, x).remove(i) =~= s.remove(i));
    }
    pub proof fn lemma_sum_le(a: Seq<nat>, b: Seq<nat>)
        requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] <= b[i],
        ensures sum(a) <= sum(b),
        decreases a.len()
    { if a.len() > 0 { lemma_sum_le(a.drop_last(), b.drop_last()); } }
    pub proof fn lemma_sum_ge(s: Seq<nat>, i: int)
        requires 0 <= i < s.len(),
        ensures s[i] <= sum(s),
    { lemma_sum_remove(s, i); }

    // ---- lengths: (weight, length) pairs ---------------------------------
    pub type WL = (nat, nat);
    pub open spec fn ws(a: Seq<WL>) -> Seq<nat> { Seq::new(a.len(), |i: int| a[i].0) }
    pub open spec fn dots(a: Seq<WL>) -> Seq<nat> { Seq::new(a.len(), |i: int| a[i].0 * a[i].1) }
    pub open spec fn ks(a: Seq<WL>, m: nat) -> Seq<nat> { Seq::new(a.len(), |i: int| pow2((m - a[i].1) as nat)) }
    pub open spec fn dot(a: Seq<WL>) -> nat { sum(dots(a)) }
    pub open spec fn kraft_at(a: Seq<WL>, m: nat) -> bool {
        (forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).1 <= m) && sum(ks(a, m)) <= pow2(m)
    }
    // Kraft's inequality: what every prefix code satisfies
    pub open spec fn kraft(a: Seq<WL>) -> bool { exists|m: nat| kraft_at(a, m) }
    // no assignment of lengths to these weights costs less than c
    pub open spec fn lower(w: Multiset<nat>, c: nat) -> bool {
        forall|a: Seq<WL>| #![trigger dot(a)] ws(a).to_multiset() == w && kraft(a) ==> c <= dot(a)
    }
    pub proof fn lemma_pow2_step(m: nat)
        requires m > 0,
        ensures pow2(m) == 2 * pow2((m - 1) as nat), pow2(m) % 2 == 0, pow2(m) > 0,
    { lemma_pow2_unfold(m); lemma_pow2_pos(m); }
    // halving every term: lengths below m
    pub proof fn lemma_ks_half(a: Seq<WL>, m: nat)
        requires m > 0, forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).1 < m,
        ensures sum(ks(a, m)) == 2 * sum(ks(a, (m - 1) as nat)),
        decreases a.len()
    {
        if a.len() > 0 {
            lemma_ks_half(a.drop_last(), m);
            assert(ks(a, m).drop_last() =~= ks(a.drop_last(), m));
            assert(ks(a, (m - 1) as nat).drop_last() =~= ks(a.drop_last(), (m - 1) as nat));
            lemma_pow2_step((m - a.last().1) as nat);
            assert((m - a.last().1 - 1) as nat == (m - 1 - a.last().1) as nat);
        }
    }
    // one length m alone makes the sum odd
    pub proof fn lemma_ks_odd(a: Seq<WL>, m: nat, i: int)
        requires m > 0, 0 <= i < a.len(), a[i].1 == m, forall|j: int| 0 <= j < a.len() && j != i ==> (#[trigger] a[j]).1 < m,
        ensures sum(ks(a, m)) % 2 == 1,
    {
        lemma_sum_remove(ks(a, m), i);
        assert(ks(a, m).remove(i) =~= ks(a.remove(i), m));
        lemma_ks_half(a.remove(i), m);
        lemma2_to64();
    }
    pub open spec fn swapped(a: Seq<WL>, i: int, j: int) -> Seq<WL> { a.update(i, (a[i].0, a[j].1)).update(j, (a[j].0, a[i].1)) }
    pub proof fn lemma_swap(a: Seq<WL>, i: int, j: int, m: nat)
        requires 0 <= i < a.len(), 0 <= j < a.len(), i != j, kraft_at(a, m), a[i].0 <= a[j].0, a[i].1 <= a[j].1,
        ensures kraft_at(swapped(a, i, j), m), dot(swapped(a, i, j)) <= dot(a), ws(swapped(a, i, j)) == ws(a),
    {
        let b = swapped(a, i, j);
        assert(ws(b) =~= ws(a));
        let k1 = ks(a, m).update(i, ks(a, m)[j]);
        lemma_sum_update(ks(a, m), i, ks(a, m)[j]);
        lemma_sum_update(k1, j, ks(a, m)[i]);
        assert(ks(b, m) =~= k1.update(j, ks(a, m)[i]));
        let (wi, li, wj, lj) = (a[i].0, a[i].1, a[j].0, a[j].1);
        let d1 = dots(a).update(i, wi * lj);
        lemma_sum_update(dots(a), i, wi * lj);
        lemma_sum_update(d1, j, wj * li);
        assert(dots(b) =~= d1.update(j, wj * li));
        assert(wi * lj + wj * li <= wi * li + wj * lj) by (nonlinear_arith) requires wi <= wj, li <= lj, wi >= 0, li >= 0;
    }
    // the exchange step: any assignment turns into one for the merged weights that costs less by x + y
    pub proof fn lemma_exchange(a: Seq<WL>, ix: int, iy: int, m: nat) -> (r: Seq<WL>)
        requires
            kraft_at(a, m), 0 <= ix < a.len(), 0 <= iy < a.len(), ix != iy,
            forall|k: int| 0 <= k < a.len() ==> a[ix].0 <= (#[trigger] a[k]).0,
            forall|k: int| 0 <= k < a.len() && k != ix ==> a[iy].0 <= (#[trigger] a[k]).0,
        ensures
            kraft(r),
            ws(r).to_multiset() == ws(a).to_multiset().remove(a[ix].0).remove(a[iy].0).insert(a[ix].0 + a[iy].0),
            dot(r) + a[ix].0 + a[iy].0 <= dot(a),
        decreases m, lens(a)
    {
        if m == 0 {
            lemma_sum_remove(ks(a, m), ix);
            let k1 = ks(a, m).remove(ix);
            let j = if iy < ix { iy } else { iy - 1 };
            lemma_sum_remove(k1, j);
            lemma2_to64();
            assert(false);
            return a;
        }
        lemma_pow2_step(m);
        if forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).1 < m {
            lemma_ks_half(a, m);
            return lemma_exchange(a, ix, iy, (m - 1) as nat);
        }
        let p = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).1 >= m;
        if forall|k: int| 0 <= k < a.len() && k != p ==> (#[trigger] a[k]).1 < m {
            lemma_ks_odd(a, m, p);
            let b = a.update(p, (a[p].0, (m - 1) as nat));
            lemma2_to64();
            lemma_sum_update(ks(a, m), p, 2);
            assert(ks(b, m) =~= ks(a, m).update(p, 2));
            lemma_sum_update(dots(a), p, a[p].0 * ((m - 1) as nat));
            assert(dots(b) =~= dots(a).update(p, a[p].0 * ((m - 1) as nat)));
            assert(a[p].0 * ((m - 1) as nat) <= a[p].0 * m) by (nonlinear_arith) requires m > 0;
            assert(ws(b) =~= ws(a));
            lemma_lens_update(a, p, (m - 1) as nat);
            assert(forall|k: int| 0 <= k < a.len() ==> (#[trigger] b[k]).0 == a[k].0);
            return lemma_exchange(b, ix, iy, m);
        }
        let q = choose|k: int| 0 <= k < a.len() && k != p && (#[trigger] a[k]).1 >= m;
        // bring the smallest to length m
        let i0 = if a[ix].1 == m { ix } else if p != iy { p } else { q };
        let b = if i0 == ix { a } else { lemma_swap(a, ix, i0, m); swapped(a, ix, i0) };
        assert(forall|k: int| 0 <= k < a.len() ==> (#[trigger] b[k]).0 == a[k].0) by { assert(ws(b) == ws(a)); assert forall|k: int| 0 <= k < a.len() implies (#[trigger] b[k]).0 == a[k].0 by { assert(ws(b)[k] == ws(a)[k]); } }
        let j1 = if i0 == p { q } else { p };
        assert(b[ix].1 == m);
        // another index of length m
        let j0 = if b[iy].1 == m { iy } else if j1 != ix { j1 } else { q };
        assert(j0 != ix && b[j0].1 == m);
        let c = if j0 == iy { b } else { lemma_swap(b, iy, j0, m); swapped(b, iy, j0) };
        assert(forall|k: int| 0 <= k < a.len() ==> (#[trigger] c[k]).0 == a[k].0) by { assert(ws(c) == ws(a)); assert forall|k: int| 0 <= k < a.len() implies (#[trigger] c[k]).0 == a[k].0 by { assert(ws(c)[k] == ws(a)[k]); } }
        assert(c[ix].1 == m && c[iy].1 == m);
        lemma_merge(c, ix, iy, m)
    }
    pub open spec fn lens(a: Seq<WL>) -> nat { sum(Seq::new(a.len(), |i: int| a[i].1)) }
    pub proof fn lemma_lens_update(a: Seq<WL>, p: int, l: nat)
        requires 0 <= p < a.len(), l < a[p].1,
        ensures lens(a.update(p, (a[p].0, l))) < lens(a),
    {
        let s = Seq::new(a.len(), |i: int| a[i].1);
        let b = a.update(p, (a[p].0, l));
        lemma_sum_update(s, p, l);
        assert(Seq::new(b.len(), |i: int| b[i].1) =~= s.update(p, l));
    }
    pub proof fn lemma_merge(a: Seq<WL>, i: int, j: int, m: nat) -> (r: Seq<WL>)
        requires kraft_at(a, m), m > 0, 0 <= i < a.len(), 0 <= j < a.len(), i != j, a[i].1 == m, a[j].1 == m,
        ensures
            kraft(r),
            ws(r).to_multiset() == ws(a).to_multiset().remove(a[i].0).remove(a[j].0).insert(a[i].0 + a[j].0),
            dot(r) + a[i].0 + a[j].0 == dot(a),
    {
        let j2 = if j < i { j } else { j - 1 };
        let b = a.remove(i);
        let c = b.remove(j2);
        let n = (a[i].0 + a[j].0, (m - 1) as nat);
        let r = c.push(n);
        assert(b[j2] == a[j]);
        lemma_sum_remove(ks(a, m), i);
        lemma_sum_remove(ks(b, m), j2);
        assert(ks(a, m).remove(i) =~= ks(b, m));
        assert(ks(b, m).remove(j2) =~= ks(c, m));
        lemma_sum_push(ks(c, m), ks(r, m).last());
        assert(ks(r, m) =~= ks(c, m).push(ks(r, m).last()));
        lemma2_to64();
        assert(ks(r, m).last() == 2);
        lemma_sum_remove(dots(a), i);
        lemma_sum_remove(dots(b), j2);
        assert(dots(a).remove(i) =~= dots(b));
        assert(dots(b).remove(j2) =~= dots(c));
        lemma_sum_push(dots(c), n.0 * n.1);
        assert(dots(r) =~= dots(c).push(n.0 * n.1));
        assert(a[i].0 * m + a[j].0 * m == (a[i].0 + a[j].0) * ((m - 1) as nat) + a[i].0 + a[j].0) by (nonlinear_arith) requires m > 0;
        assert(kraft_at(r, m));
        ws(a).to_multiset_ensures();
        ws(b).to_multiset_ensures();
        ws(c).to_multiset_ensures();
        assert(ws(a).remove(i) =~= ws(b));
        assert(ws(b).remove(j2) =~= ws(c));
        assert(ws(c).push(n.0) =~= ws(r));
        r
    }
    // a lower bound for the merged weights gives one for the weights
    pub proof fn lemma_lower_step(w: Multiset<nat>, x: nat, y: nat, c: nat)
        requires
            w.contains(x), w.remove(x).contains(y), forall|z: nat| #[trigger] w.contains(z) ==> x <= z, forall|z: nat| #[trigger] w.remove(x).contains(z) ==> y <= z,
            lower(w.remove(x).remove(y).insert(x + y), c),
        ensures lower(w, c + x + y),
    {
        assert forall|a: Seq<WL>| #![trigger dot(a)] ws(a).to_multiset() == w && kraft(a) implies c + x + y <= dot(a) by {
            let m = choose|m: nat| kraft_at(a, m);
            ws(a).to_multiset_ensures();
            let ix = ws(a).index_of(x);
            assert(ws(a).contains(x));
            assert(a[ix].0 == x);
            let b = ws(a).remove(ix);
            b.to_multiset_ensures();
            assert(b.to_multiset() == w.remove(x));
            assert(b.contains(y));
            let jy = b.index_of(y);
            let iy = if jy < ix { jy } else { jy + 1 };
            assert(b[jy] == a[iy].0);
            assert forall|k: int| 0 <= k < a.len() implies x <= (#[trigger] a[k]).0 by { assert(ws(a)[k] == a[k].0); assert(ws(a).contains(a[k].0)); assert(w.contains(a[k].0)); }
            assert forall|k: int| 0 <= k < a.len() && k != ix implies y <= (#[trigger] a[k]).0 by {
                let k2 = if k < ix { k } else { k - 1 };
                assert(b[k2] == a[k].0); assert(b.contains(a[k].0)); assert(w.remove(x).contains(a[k].0));
            }
            let r = lemma_exchange(a, ix, iy, m);
            assert(dot(r) >= c);
        }
    }

    // ---- Kraft's inequality for prefix codes ------------------------------
    pub open spec fn prefix_free(cs: Seq<Seq<bool>>) -> bool {
        forall|i: int, j: int| 0 <= i < cs.len() && 0 <= j < cs.len() && i != j ==> !(#[trigger] cs[i]).is_prefix_of(#[trigger] cs[j])
    }
    pub open spec fn under(cs: Seq<Seq<bool>>, m: nat, p: Seq<bool>) -> Seq<nat> {
        Seq::new(cs.len(), |i: int| if p.is_prefix_of(cs[i]) { pow2((m - cs[i].len()) as nat) } else { 0 })
    }
    pub proof fn lemma_sum_zero(s: Seq<nat>)
        requires forall|i: int| 0 <= i < s.len() ==> s[i] == 0,
        ensures sum(s) == 0,
        decreases s.len()
    { if s.len() > 0 { lemma_sum_zero(s.drop_last()); } }
    pub proof fn lemma_sum_pointwise(a: Seq<nat>, b: Seq<nat>, c: Seq<nat>)
        requires a.len() == b.len(), b.len() == c.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == b[i] + c[i],
        ensures sum(a) == sum(b) + sum(c),
        decreases a.len()
    { if a.len() > 0 { lemma_sum_pointwise(a.drop_last(), b.drop_last(), c.drop_last()); } }
    pub proof fn lemma_kraft_under(cs: Seq<Seq<bool>>, m: nat, p: Seq<bool>)
        requires prefix_free(cs), forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).len() <= m, p.len() <= m,
        ensures sum(under(cs, m, p)) <= pow2((m - p.len()) as nat),
        decreases m - p.len()
    {
        let u = under(cs, m, p);
        lemma_pow2_pos((m - p.len()) as nat);
        if exists|i: int| 0 <= i < cs.len() && #[trigger] cs[i] == p {
            let i = choose|i: int| 0 <= i < cs.len() && #[trigger] cs[i] == p;
            lemma_sum_remove(u, i);
            assert forall|k: int| 0 <= k < u.remove(i).len() implies u.remove(i)[k] == 0 by {
                let k2 = if k < i { k } else { k + 1 };
                assert(u.remove(i)[k] == u[k2]);
                assert(!cs[i].is_prefix_of(cs[k2]));
            }
            lemma_sum_zero(u.remove(i));
            assert(p.is_prefix_of(cs[i]));
        } else if p.len() == m {
            assert forall|k: int| 0 <= k < u.len() implies u[k] == 0 by {
                if p.is_prefix_of(cs[k]) { assert(cs[k] =~= p); }
            }
            lemma_sum_zero(u);
        } else {
            lemma_kraft_under(cs, m, p.push(false));
            lemma_kraft_under(cs, m, p.push(true));
            let (f, t) = (under(cs, m, p.push(false)), under(cs, m, p.push(true)));
            assert forall|k: int| 0 <= k < u.len() implies u[k] == f[k] + t[k] by {
                let c = cs[k];
                if p.is_prefix_of(c) {
                    if c.len() == p.len() { assert(c =~= p); }
                    let b = c[p.len() as int];
                    assert(p.push(b).is_prefix_of(c));
                    assert(!p.push(!b).is_prefix_of(c)) by { assert(p.push(!b)[p.len() as int] == !b); if p.push(!b).is_prefix_of(c) { assert(c.take(p.len() as int + 1)[p.len() as int] == b); assert(p.push(!b)[p.len() as int] == c[p.len() as int]); } }
                } else {
                    assert forall|b: bool| p.push(b).is_prefix_of(c) implies false by {
                        assert forall|z: int| 0 <= z < p.len() implies p[z] == c[z] by { assert(p.push(b)[z] == p[z]); }
                        assert(p =~= c.take(p.len() as int));
                    }
                    assert(f[k] == 0 && t[k] == 0);
                }
            }
            lemma_sum_pointwise(u, f, t);
            lemma_pow2_step((m - p.len()) as nat);
            assert((m - p.push(false).len()) as nat == ((m - p.len()) - 1) as nat);
        }
    }
    pub open spec fn max_len(cs: Seq<Seq<bool>>) -> nat
        decreases cs.len()
    {
        if cs.len() == 0 { 0 } else { let m = max_len(cs.drop_last()); if cs.last().len() > m { cs.last().len() } else { m } }
    }
    pub proof fn lemma_max_len(cs: Seq<Seq<bool>>)
        ensures forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).len() <= max_len(cs),
        decreases cs.len()
    {
        if cs.len() > 0 {
            lemma_max_len(cs.drop_last());
            assert forall|i: int| 0 <= i < cs.len() implies (#[trigger] cs[i]).len() <= max_len(cs) by { if i < cs.len() - 1 { assert(cs.drop_last()[i] == cs[i]); } }
        }
    }
    // the lengths of a prefix code satisfy Kraft's inequality
    pub proof fn lemma_kraft(cs: Seq<Seq<bool>>, a: Seq<WL>)
        requires prefix_free(cs), a.len() == cs.len(), forall|i: int| 0 <= i < cs.len() ==> (#[trigger] a[i]).1 == cs[i].len(),
        ensures kraft(a),
    {
        let m = max_len(cs);
        let e = Seq::<bool>::empty();
        lemma_max_len(cs);
        lemma_kraft_under(cs, m, e);
        assert forall|i: int| 0 <= i < cs.len() implies under(cs, m, e)[i] == ks(a, m)[i] by { assert(a[i].1 == cs[i].len()); assert(e.is_prefix_of(cs[i])); }
        assert(under(cs, m, e) =~= ks(a, m));
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).1 <= m by { assert(cs[i].len() <= m); }
        assert(kraft_at(a, m));
    }
}
