// From the cost of a tree to the bits of its codes: what `best` means for a user.
pub mod voptimal {
    use vstd::prelude::*;
    use vstd::multiset::*;
    use vstd::seq_lib::*;
    use crate::vspec::*;
    use crate::vtree::*;
    use crate::vhuff::*;
    use crate::huff_coding::tree::letter::*;
    use crate::huff_coding::tree::branch::HuffBranch;
    use crate::huff_coding::tree::branch_heap::{best, wof};

    // no letter twice
    pub open spec fn distinct<L>(s: Seq<(L, usize)>) -> bool {
        forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    }
    // w lists every letter of s once, with how often it occurs
    pub open spec fn weighs<L>(w: Seq<(L, usize)>, s: Seq<L>) -> bool {
        &&& distinct(w)
        &&& forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).1 == occ(s, w[i].0) && w[i].1 > 0
        &&& forall|k: int| 0 <= k < s.len() ==> exists|i: int| 0 <= i < w.len() && (#[trigger] w[i]).0 == #[trigger] s[k]
    }
    // the bits it takes to write every letter as often as it weighs
    pub open spec fn total<L>(w: Seq<(L, usize)>, cs: Map<L, Seq<bool>>) -> nat { sum(Seq::new(w.len(), |i: int| w[i].1 as nat * cs[w[i].0].len())) }
    // a prefix code for the letters of w
    pub open spec fn prefix_code<L>(w: Seq<(L, usize)>, cs: Map<L, Seq<bool>>) -> bool {
        &&& forall|i: int| 0 <= i < w.len() ==> cs[(#[trigger] w[i]).0].len() > 0
        &&& forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() && i != j ==> !cs[(#[trigger] w[i]).0].is_prefix_of(cs[(#[trigger] w[j]).0])
    }
    pub open spec fn fsum<A>(s: Seq<A>, f: spec_fn(A) -> nat) -> nat { sum(Seq::new(s.len(), |i: int| f(s[i]))) }

    pub proof fn lemma_perm_sum<A>(s: Seq<A>, t: Seq<A>, f: spec_fn(A) -> nat)
        requires s.to_multiset() == t.to_multiset(),
        ensures fsum(s, f) == fsum(t, f),
        decreases s.len()
    {
        s.to_multiset_ensures(); t.to_multiset_ensures();
        let (fs, ft) = (Seq::new(s.len(), |i: int| f(s[i])), Seq::new(t.len(), |i: int| f(t[i])));
        if s.len() > 0 {
            let n = s.len() - 1;
            assert(s.contains(s[n]));
            assert(s.to_multiset().contains(s[n]));
            assert(t.contains(s[n]));
            let k = t.index_of(s[n]);
            lemma_perm_sum(s.remove(n), t.remove(k), f);
            lemma_sum_remove(fs, n); lemma_sum_remove(ft, k);
            let (s1, t1) = (s.remove(n), t.remove(k));
            assert(fs.remove(n) =~= Seq::new(s1.len(), |i: int| f(s1[i])));
            assert(ft.remove(k) =~= Seq::new(t1.len(), |i: int| f(t1[i])));
        }
    }
    pub proof fn lemma_perm_distinct<L>(s: Seq<(L, usize)>, t: Seq<(L, usize)>)
        requires s.to_multiset() == t.to_multiset(), distinct(t),
        ensures distinct(s),
    {
        s.to_multiset_ensures(); t.to_multiset_ensures();
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by {
            if s[i].0 == s[j].0 {
                assert(s.contains(s[i]) && s.contains(s[j]));
                assert(s.to_multiset().contains(s[i]) && s.to_multiset().contains(s[j]));
                assert(t.contains(s[i]) && t.contains(s[j]));
                let (a, b) = (t.index_of(s[i]), t.index_of(s[j]));
                if s[i] == s[j] {
                    assert(s.remove(i)[j - 1] == s[j]);
                    s.remove(i).to_multiset_ensures(); t.remove(a).to_multiset_ensures();
                    assert(s.remove(i).contains(s[j]));
                    assert(s.remove(i).to_multiset().contains(s[j]));
                    assert(t.remove(a).to_multiset() =~= s.remove(i).to_multiset());
                    assert(t.remove(a).contains(s[j]));
                    let c = t.remove(a).index_of(s[j]);
                    let c0 = if c < a { c } else { c + 1 };
                    assert(t[c0] == s[j]);
                    if a < c0 { assert(t[a].0 != t[c0].0); } else { assert(t[c0].0 != t[a].0); }
                } else {
                    if a < b { assert(t[a].0 != t[b].0); } else { assert(t[b].0 != t[a].0); }
                }
            }
        }
    }
    // the letters of a branch are those of its leaves
    pub proof fn lemma_leaf_letters<L: HuffLetter>(b: &HuffBranch<L>)
        requires b.wf(),
        ensures
            b.leaves().len() > 0,
            forall|i: int| 0 <= i < b.leaves().len() ==> has_leaf(b.tree(), (#[trigger] b.leaves()[i]).0),
            forall|x: L| #[trigger] has_leaf(b.tree(), x) ==> exists|i: int| 0 <= i < b.leaves().len() && (#[trigger] b.leaves()[i]).0 == x,
        decreases b
    {
        reveal_with_fuel(HuffBranch::wf, 2); reveal_with_fuel(HuffBranch::leaves, 2);
        if b.left_child is Some {
            let (l, r) = (&*b.left_child->0, &*b.right_child->0);
            lemma_leaf_letters(l); lemma_leaf_letters(r);
            let n = l.leaves().len();
            assert forall|i: int| 0 <= i < b.leaves().len() implies has_leaf(b.tree(), (#[trigger] b.leaves()[i]).0) by {
                if i < n { assert(b.leaves()[i] == l.leaves()[i]); } else { assert(b.leaves()[i] == r.leaves()[i - n]); }
            }
            assert forall|x: L| #[trigger] has_leaf(b.tree(), x) implies exists|i: int| 0 <= i < b.leaves().len() && (#[trigger] b.leaves()[i]).0 == x by {
                assert(has_leaf(l.tree(), x) || has_leaf(r.tree(), x));
                if has_leaf(l.tree(), x) { let i = choose|i: int| 0 <= i < l.leaves().len() && (#[trigger] l.leaves()[i]).0 == x; assert(b.leaves()[i] == l.leaves()[i]); }
                else { let i = choose|i: int| 0 <= i < r.leaves().len() && (#[trigger] r.leaves()[i]).0 == x; assert(b.leaves()[i + n] == r.leaves()[i]); }
            }
        } else { assert(b.leaves()[0].0 == b.leaf.letter->0); }
    }
    // the bits under a branch at depth d
    pub proof fn lemma_bits_under<L: HuffLetter>(b: &HuffBranch<L>, cs: Map<L, Seq<bool>>, d: nat)
        requires
            b.wf(), b.weighted(), distinct(b.leaves()),
            forall|x: L| #[trigger] has_leaf(b.tree(), x) ==> cs[x].len() >= d && leaf_at(b.tree(), cs[x].skip(d as int)) == Some(x),
        ensures total(b.leaves(), cs) == b.cost() + b.leaf.weight * d,
        decreases b
    {
        reveal_with_fuel(HuffBranch::wf, 2); reveal_with_fuel(HuffBranch::leaves, 2); reveal_with_fuel(HuffBranch::weighted, 2);
        if b.left_child is Some {
            let (l, r) = (&*b.left_child->0, &*b.right_child->0);
            let (ll, rl) = (l.leaves(), r.leaves());
            let n = ll.len() as int;
            lemma_leaf_letters(l); lemma_leaf_letters(r);
            assert forall|i: int, j: int| 0 <= i < j < ll.len() implies (#[trigger] ll[i]).0 != (#[trigger] ll[j]).0 by { assert(b.leaves()[i] == ll[i] && b.leaves()[j] == ll[j]); }
            assert forall|i: int, j: int| 0 <= i < j < rl.len() implies (#[trigger] rl[i]).0 != (#[trigger] rl[j]).0 by { assert(b.leaves()[i + n] == rl[i] && b.leaves()[j + n] == rl[j]); }
            assert forall|x: L| has_leaf(l.tree(), x) && has_leaf(r.tree(), x) implies false by {
                let i = choose|i: int| 0 <= i < ll.len() && (#[trigger] ll[i]).0 == x;
                let j = choose|j: int| 0 <= j < rl.len() && (#[trigger] rl[j]).0 == x;
                assert(b.leaves()[i] == ll[i] && b.leaves()[j + n] == rl[j]);
            }
            assert forall|x: L| #[trigger] has_leaf(l.tree(), x) || has_leaf(r.tree(), x) implies cs[x].len() >= d + 1
                && leaf_at(if has_leaf(l.tree(), x) { l.tree() } else { r.tree() }, cs[x].skip(d as int + 1)) == Some(x) by {
                assert(has_leaf(b.tree(), x));
                let p = cs[x].skip(d as int);
                assert(p.len() > 0);
                assert(p.skip(1) =~= cs[x].skip(d as int + 1));
                if p[0] { lemma_path_has_leaf(r.tree(), p.skip(1)); } else { lemma_path_has_leaf(l.tree(), p.skip(1)); }
            }
            lemma_bits_under(l, cs, d + 1);
            lemma_bits_under(r, cs, d + 1);
            let f = |s: Seq<(L, usize)>| Seq::new(s.len(), |i: int| s[i].1 as nat * cs[s[i].0].len());
            assert(f(b.leaves()) =~= f(ll) + f(rl));
            lemma_sum_add(f(ll), f(rl));
            let (lw, rw) = (l.leaf.weight as nat, r.leaf.weight as nat);
            assert(lw * (d + 1) + rw * (d + 1) == (lw + rw) * d + (lw + rw)) by (nonlinear_arith);
        } else {
            let x = b.leaf.letter->0;
            assert(has_leaf(b.tree(), x));
            assert(cs[x].skip(d as int).len() == 0);
            let f = Seq::new(b.leaves().len(), |i: int| b.leaves()[i].1 as nat * cs[b.leaves()[i].0].len());
            lemma_sum_remove(f, 0);
            assert(f.remove(0).len() == 0);
        }
    }
    // the codes of a best tree take the fewest bits of all prefix codes
    pub proof fn lemma_optimal<L: HuffLetter>(b: &HuffBranch<L>, w: Seq<(L, usize)>, cs: Map<L, Seq<bool>>, other: Map<L, Seq<bool>>)
        requires best(*b, w), distinct(w), tree_codes(b.tree(), cs), prefix_code(w, other),
        ensures total(w, cs) <= total(w, other),
    {
        lemma_perm_distinct(b.leaves(), w);
        let f = |p: (L, usize)| p.1 as nat * cs[p.0].len();
        lemma_perm_sum(b.leaves(), w, f);
        assert(Seq::new(w.len(), |i: int| f(w[i])) =~= Seq::new(w.len(), |i: int| w[i].1 as nat * cs[w[i].0].len()));
        let bl = b.leaves();
        assert(Seq::new(bl.len(), |i: int| f(bl[i])) =~= Seq::new(bl.len(), |i: int| bl[i].1 as nat * cs[bl[i].0].len()));
        assert(total(w, cs) == total(b.leaves(), cs));
        lemma_leaf_letters(b);
        if b.left_child is Some {
            assert forall|x: L| #[trigger] has_leaf(b.tree(), x) implies cs[x].len() >= 0 && leaf_at(b.tree(), cs[x].skip(0)) == Some(x) by {
                assert(cs.contains_key(x)); assert(cs[x].skip(0) =~= cs[x]);
            }
            lemma_bits_under(b, cs, 0);
            assert(total(w, cs) == b.cost()) by { assert(b.leaf.weight * 0 == 0) by (nonlinear_arith); }
            let words = Seq::new(w.len(), |i: int| other[w[i].0]);
            let a: Seq<WL> = Seq::new(w.len(), |i: int| (w[i].1 as nat, other[w[i].0].len()));
            assert(prefix_free(words));
            lemma_kraft(words, a);
            assert(ws(a) =~= wof(w));
            assert(dots(a) =~= Seq::new(w.len(), |i: int| w[i].1 as nat * other[w[i].0].len()));
            assert(b.cost() <= dot(a));
        } else {
            let x = b.leaf.letter->0;
            assert(has_leaf(b.tree(), x));
            assert(bl.len() == 1);
            bl.to_multiset_ensures(); w.to_multiset_ensures();
            assert(w.len() == 1);
            assert(cs[x] == seq![false]);
            assert(w.to_multiset().contains(w[0])) by { assert(w.contains(w[0])); }
            assert(bl.contains(w[0]));
            assert(w[0] == bl[0]);
            let (u, v) = (Seq::new(w.len(), |i: int| w[i].1 as nat * cs[w[i].0].len()), Seq::new(w.len(), |i: int| w[i].1 as nat * other[w[i].0].len()));
            assert(u[0] <= v[0]) by (nonlinear_arith) requires u[0] == w[0].1 as nat * 1, v[0] == w[0].1 as nat * other[w[0].0].len(), other[w[0].0].len() >= 1;
            lemma_sum_le(u, v);
        }
    }
    // summing over letters by value is summing over places
    pub proof fn lemma_count_sum<L>(w: Seq<(L, usize)>, s: Seq<L>, f: spec_fn(L) -> nat)
        requires distinct(w), forall|k: int| 0 <= k < s.len() ==> exists|i: int| 0 <= i < w.len() && (#[trigger] w[i]).0 == #[trigger] s[k],
        ensures sum(Seq::new(w.len(), |i: int| occ(s, w[i].0) * f(w[i].0))) == fsum(s, f),
        decreases s.len()
    {
        let u = Seq::new(w.len(), |i: int| occ(s, w[i].0) * f(w[i].0));
        let fs = Seq::new(s.len(), |i: int| f(s[i]));
        if s.len() == 0 {
            assert forall|i: int| 0 <= i < u.len() implies u[i] == 0 by { assert(occ(s, w[i].0) == 0); assert(0 * f(w[i].0) == 0) by (nonlinear_arith); }
            lemma_sum_zero(u);
        } else {
            let (s1, x) = (s.drop_last(), s.last());
            assert forall|k: int| 0 <= k < s1.len() implies exists|i: int| 0 <= i < w.len() && (#[trigger] w[i]).0 == #[trigger] s1[k] by { assert(s1[k] == s[k]); }
            lemma_count_sum(w, s1, f);
            assert(s[s.len() - 1] == x);
            let i0 = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).0 == x;
            let u1 = Seq::new(w.len(), |i: int| occ(s1, w[i].0) * f(w[i].0));
            let y = (occ(s1, x) + 1) * f(x);
            assert(y == occ(s1, x) * f(x) + f(x)) by (nonlinear_arith) requires y == (occ(s1, x) + 1) * f(x);
            lemma_sum_update(u1, i0, y);
            assert forall|i: int| 0 <= i < u.len() implies u[i] == u1.update(i0, y)[i] by {
                if i != i0 { if i < i0 { assert(w[i].0 != w[i0].0); } else { assert(w[i0].0 != w[i].0); } }
            }
            assert(u =~= u1.update(i0, y));
            let f1 = Seq::new(s1.len(), |i: int| f(s1[i]));
            assert(fs =~= f1.push(f(x)));
            lemma_sum_push(f1, f(x));
        }
    }
    pub proof fn lemma_weighs_len<L>(w: Seq<(L, usize)>, s: Seq<L>)
        requires weighs(w, s),
        ensures sum(wof(w)) == s.len(), s.len() > 0 ==> w.len() > 0,
    {
        let f = |x: L| 1nat;
        lemma_count_sum(w, s, f);
        assert(wof(w) =~= Seq::new(w.len(), |i: int| occ(s, w[i].0) * f(w[i].0))) by {
            assert forall|i: int| 0 <= i < w.len() implies wof(w)[i] == occ(s, w[i].0) * f(w[i].0) by { assert(w[i].1 == occ(s, w[i].0)); }
        }
        lemma_ones(Seq::new(s.len(), |i: int| f(s[i])));
        if s.len() > 0 { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).0 == s[0]; }
    }
    pub proof fn lemma_ones(s: Seq<nat>)
        requires forall|i: int| 0 <= i < s.len() ==> s[i] == 1,
        ensures sum(s) == s.len(),
        decreases s.len()
    { if s.len() > 0 { lemma_ones(s.drop_last()); } }
    // the letters' codes one after another take the total number of bits
    pub proof fn lemma_cat_total<L>(w: Seq<(L, usize)>, s: Seq<L>, cs: Map<L, Seq<bool>>)
        requires weighs(w, s),
        ensures cat_codes(s, cs).len() == total(w, cs),
    {
        let f = |x: L| cs[x].len();
        lemma_count_sum(w, s, f);
        let (u, v) = (Seq::new(w.len(), |i: int| w[i].1 as nat * cs[w[i].0].len()), Seq::new(w.len(), |i: int| occ(s, w[i].0) * f(w[i].0)));
        assert forall|i: int| 0 <= i < w.len() implies u[i] == v[i] by { assert(w[i].1 == occ(s, w[i].0)); }
        assert(u =~= v);
        lemma_cat_len(s, cs);
    }
    pub proof fn lemma_cat_len<L>(s: Seq<L>, cs: Map<L, Seq<bool>>)
        ensures cat_codes(s, cs).len() == fsum(s, |x: L| cs[x].len()),
        decreases s.len()
    {
        let f = |x: L| cs[x].len();
        let fs = Seq::new(s.len(), |i: int| f(s[i]));
        if s.len() == 0 { assert(s =~= Seq::empty()); assert(fs =~= Seq::empty()); }
        else {
            let s1 = s.drop_last();
            lemma_cat_len(s1, cs);
            lemma_cat_push(s1, s.last(), cs);
            assert(s1.push(s.last()) =~= s);
            let f1 = Seq::new(s1.len(), |i: int| f(s1[i]));
            assert(fs =~= f1.push(f(s.last())));
            lemma_sum_push(f1, f(s.last()));
        }
    }
    // every letter that was weighed is in the tree
    pub proof fn lemma_all_in<L: HuffLetter>(b: &HuffBranch<L>, w: Seq<(L, usize)>, s: Seq<L>)
        requires best(*b, w), weighs(w, s),
        ensures all_in(s, b.tree()),
    {
        lemma_leaf_letters(b);
        let bl = b.leaves();
        bl.to_multiset_ensures(); w.to_multiset_ensures();
        assert forall|k: int| 0 <= k < s.len() implies has_leaf(b.tree(), #[trigger] s[k]) by {
            let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).0 == s[k];
            assert(w.contains(w[i]));
            assert(w.to_multiset().contains(w[i]));
            assert(bl.contains(w[i]));
            let j = bl.index_of(w[i]);
            assert(bl[j].0 == s[k]);
        }
    }
    // a prefix code for the letters that occur in s
    pub open spec fn prefix_for<L>(s: Seq<L>, cs: Map<L, Seq<bool>>) -> bool {
        &&& forall|i: int| 0 <= i < s.len() ==> cs[#[trigger] s[i]].len() > 0
        &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && s[i] != s[j] ==> !cs[#[trigger] s[i]].is_prefix_of(cs[#[trigger] s[j]])
    }
    pub proof fn lemma_prefix_for<L>(w: Seq<(L, usize)>, s: Seq<L>, cs: Map<L, Seq<bool>>)
        requires weighs(w, s), prefix_for(s, cs),
        ensures prefix_code(w, cs),
    {
        assert forall|i: int| 0 <= i < w.len() implies exists|k: int| 0 <= k < s.len() && s[k] == (#[trigger] w[i]).0 by { lemma_occ_where(s, w[i].0); }
        assert forall|i: int| 0 <= i < w.len() implies cs[(#[trigger] w[i]).0].len() > 0 by {
            let k = choose|k: int| 0 <= k < s.len() && s[k] == w[i].0;
            assert(cs[s[k]].len() > 0);
        }
        assert forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() && i != j implies !cs[(#[trigger] w[i]).0].is_prefix_of(cs[(#[trigger] w[j]).0]) by {
            let k = choose|k: int| 0 <= k < s.len() && s[k] == w[i].0;
            let m = choose|m: int| 0 <= m < s.len() && s[m] == w[j].0;
            if i < j { assert(w[i].0 != w[j].0); } else { assert(w[j].0 != w[i].0); }
            assert(!cs[s[k]].is_prefix_of(cs[s[m]]));
        }
    }
}
