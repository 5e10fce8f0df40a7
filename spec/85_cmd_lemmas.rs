// What the command line's proofs need about trees, codes and packed bits.
pub mod vcmdl {
    use vstd::prelude::*;
    use crate::vspec::*;
    use crate::vtree::*;
    use crate::vhuff::*;
    use crate::voptimal::*;
    use crate::vcli::*;
    use crate::vworld::overwrite;
    use crate::huff_coding::tree::letter::*;
    use crate::huff_coding::tree::branch::HuffBranch;
    use crate::huff_coding::tree::branch_heap::{best, wof};
    use crate::huff_coding::tree::tree_inner::{counts_seq, lib_tree};
    use crate::huff_coding::comp::CompressData;
    use crate::huff_coding::weights::byte_weights::ByteWeights;

    // no letter is at two leaves
    pub open spec fn lone<L>(t: HT<L>) -> bool
        decreases t
    {
        match t { HT::Leaf(_) => true, HT::Node(l, r) => lone(*l) && lone(*r) && forall|x: L| !(#[trigger] has_leaf(*l, x) && has_leaf(*r, x)) }
    }
    pub proof fn lemma_lone_path<L>(t: HT<L>, p: Seq<bool>, q: Seq<bool>)
        requires lone(t), leaf_at(t, p) is Some, leaf_at(t, p) == leaf_at(t, q),
        ensures p == q,
        decreases t
    {
        match t {
            HT::Leaf(_) => { assert(p =~= q); }
            HT::Node(l, r) => {
                let x = leaf_at(t, p)->0;
                if p[0] { lemma_path_has_leaf(*r, p.skip(1)); } else { lemma_path_has_leaf(*l, p.skip(1)); }
                if q[0] { lemma_path_has_leaf(*r, q.skip(1)); } else { lemma_path_has_leaf(*l, q.skip(1)); }
                assert(p[0] == q[0]);
                if p[0] { lemma_lone_path(*r, p.skip(1), q.skip(1)); } else { lemma_lone_path(*l, p.skip(1), q.skip(1)); }
                assert(p =~= seq![p[0]] + p.skip(1));
                assert(q =~= seq![q[0]] + q.skip(1));
            }
        }
    }
    pub proof fn lemma_lone<L: HuffLetter>(b: &HuffBranch<L>)
        requires b.wf(), distinct(b.leaves()),
        ensures lone(b.tree()),
        decreases b
    {
        reveal_with_fuel(HuffBranch::wf, 2); reveal_with_fuel(HuffBranch::leaves, 2);
        if b.left_child is Some {
            let (l, r) = (&*b.left_child->0, &*b.right_child->0);
            let (ll, rl) = (l.leaves(), r.leaves());
            let n = ll.len() as int;
            lemma_leaf_letters(l); lemma_leaf_letters(r);
            assert forall|i: int, j: int| 0 <= i < j < ll.len() implies (#[trigger] ll[i]).0 != (#[trigger] ll[j]).0 by { assert(b.leaves()[i] == ll[i] && b.leaves()[j] == ll[j]); }
            assert forall|i: int, j: int| 0 <= i < j < rl.len() implies (#[trigger] rl[i]).0 != (#[trigger] rl[j]).0 by { assert(b.leaves()[i + n] == rl[i] && b.leaves()[j + n] == rl[j]); }
            lemma_lone(l); lemma_lone(r);
            assert forall|x: L| !(#[trigger] has_leaf(l.tree(), x) && has_leaf(r.tree(), x)) by {
                if has_leaf(l.tree(), x) && has_leaf(r.tree(), x) {
                    let i = choose|i: int| 0 <= i < ll.len() && (#[trigger] ll[i]).0 == x;
                    let j = choose|j: int| 0 <= j < rl.len() && (#[trigger] rl[j]).0 == x;
                    assert(b.leaves()[i] == ll[i] && b.leaves()[j + n] == rl[j]);
                }
            }
        }
    }
    // such a tree gives every text one code
    pub proof fn lemma_cat_unique<L>(t: HT<L>, a: Map<L, Seq<bool>>, b: Map<L, Seq<bool>>, s: Seq<L>)
        requires lone(t), tree_codes(t, a), tree_codes(t, b), all_in(s, t),
        ensures cat_codes(s, a) == cat_codes(s, b),
        decreases s.len()
    {
        if s.len() > 0 {
            let d = s.drop_last();
            assert forall|i: int| 0 <= i < d.len() implies has_leaf(t, #[trigger] d[i]) by { assert(d[i] == s[i]); }
            lemma_cat_unique(t, a, b, d);
            let x = s.last();
            assert(has_leaf(t, x));
            assert(a.contains_key(x) && b.contains_key(x));
            match t { HT::Leaf(_) => {}, HT::Node(_, _) => { lemma_lone_path(t, a[x], b[x]); } }
        }
    }
    pub proof fn lemma_cat_append<L>(a: Seq<L>, b: Seq<L>, cs: Map<L, Seq<bool>>)
        ensures cat_codes(a + b, cs) == cat_codes(a, cs) + cat_codes(b, cs),
        decreases b.len()
    {
        if b.len() == 0 { assert(a + b =~= a); assert(cat_codes(a, cs) + cat_codes(b, cs) =~= cat_codes(a, cs)); }
        else {
            assert((a + b).drop_last() =~= a + b.drop_last());
            lemma_cat_append(a, b.drop_last(), cs);
            assert(cat_codes(a + b, cs) =~= cat_codes(a, cs) + cat_codes(b, cs));
        }
    }
    // a code for every letter of a tree
    pub proof fn lemma_has_path<L>(t: HT<L>, x: L)
        requires has_leaf(t, x),
        ensures exists|c: Seq<bool>| #[trigger] leaf_at(t, c) == Some(x),
        decreases t
    {
        match t {
            HT::Leaf(_) => { assert(leaf_at(t, Seq::<bool>::empty()) == Some(x)); }
            HT::Node(l, r) => {
                let (d, b) = if has_leaf(*l, x) { (*l, false) } else { (*r, true) };
                lemma_has_path(d, x);
                let c = choose|c: Seq<bool>| #[trigger] leaf_at(d, c) == Some(x);
                let e = seq![b] + c;
                assert(e.skip(1) =~= c);
                assert(leaf_at(t, e) == Some(x));
            }
        }
    }
    pub open spec fn letters_of<L>(t: HT<L>) -> Set<L>
        decreases t
    {
        match t { HT::Leaf(x) => Set::empty().insert(x), HT::Node(l, r) => letters_of(*l).union(letters_of(*r)) }
    }
    pub proof fn lemma_letters_of<L>(t: HT<L>)
        ensures forall|x: L| #![trigger letters_of(t).contains(x)] #![trigger has_leaf(t, x)] letters_of(t).contains(x) <==> has_leaf(t, x),
        decreases t
    {
        match t {
            HT::Leaf(x) => { assert(letters_of(t) == Set::<L>::empty().insert(x)); }
            HT::Node(l, r) => {
                lemma_letters_of(*l); lemma_letters_of(*r);
                assert(letters_of(t) == letters_of(*l).union(letters_of(*r)));
                assert forall|x: L| letters_of(t).contains(x) <==> has_leaf(t, x) by { assert(letters_of(t).contains(x) <==> letters_of(*l).contains(x) || letters_of(*r).contains(x)); }
            }
        }
    }
    pub open spec fn codes_for<L>(t: HT<L>) -> Map<L, Seq<bool>> { Map::new(letters_of(t), |x: L| choose|c: Seq<bool>| #[trigger] is_code(t, x, c)) }
    pub proof fn lemma_codes_for<L>(t: HT<L>)
        ensures tree_codes(t, codes_for(t)),
    {
        let cs = codes_for(t);
        lemma_letters_of(t);
        assert forall|x: L| #![trigger cs.contains_key(x)] #![trigger has_leaf(t, x)] (cs.contains_key(x) <==> has_leaf(t, x)) && (cs.contains_key(x) ==> is_code(t, x, cs[x])) by {
            if has_leaf(t, x) {
                match t {
                    HT::Leaf(_) => { assert(is_code(t, x, seq![false])); }
                    HT::Node(_, _) => { lemma_has_path(t, x); let c = choose|c: Seq<bool>| #[trigger] leaf_at(t, c) == Some(x); assert(is_code(t, x, c)); }
                }
            }
        }
    }
    // one way to pack bits
    pub proof fn lemma_packed_unique(a: Seq<u8>, b: Seq<u8>, bits: Seq<bool>)
        requires packed(a, bits), packed(b, bits),
        ensures a == b,
    {
        assert(bits_of(a) =~= bits_of(b)) by {
            assert forall|i: int| 0 <= i < 8 * a.len() implies bits_of(a)[i] == bits_of(b)[i] by {
                if i < bits.len() { assert(bits_of(a).take(bits.len() as int)[i] == bits_of(b).take(bits.len() as int)[i]); }
            }
        }
        lemma_bits_inj(a, b);
    }
    pub proof fn lemma_holds_packed(d: &CompressData<u8>, s: Seq<u8>, cs: Map<u8, Seq<bool>>)
        requires d.wf(), d.holds(s), lone(d.tree()), all_in(s, d.tree()), tree_codes(d.tree(), cs),
        ensures packed(d.comp_bytes@, cat_codes(s, cs)), d.padding_bits == 8 * d.comp_bytes@.len() - cat_codes(s, cs).len(),
    {
        let c = choose|c: Map<u8, Seq<bool>>| #[trigger] tree_codes(d.tree(), c) && d.bits() == cat_codes(s, c);
        lemma_cat_unique(d.tree(), c, cs, s);
        assert(d.bits().len() == d.nbits());
    }
    pub proof fn lemma_or_bits(a: u8, b: u8, k: int)
        requires 0 <= k < 8,
        ensures byte_bit(a | b, k) == (byte_bit(a, k) || byte_bit(b, k)),
    {
        let q = (7 - k) as u8;
        assert(((a | b) >> q) & 1u8 == ((a >> q) & 1u8) | ((b >> q) & 1u8)) by (bit_vector) requires q <= 7;
        assert((a >> q) & 1u8 == 0u8 || (a >> q) & 1u8 == 1u8) by (bit_vector);
        assert((b >> q) & 1u8 == 0u8 || (b >> q) & 1u8 == 1u8) by (bit_vector);
        let (x, y) = ((a >> q) & 1u8, (b >> q) & 1u8);
        assert(x | y == (if x == 1u8 || y == 1u8 { 1u8 } else { 0u8 })) by (bit_vector) requires x == 0u8 || x == 1u8, y == 0u8 || y == 1u8;
    }
    // codes that go on in the last, not yet full, byte of those before
    pub proof fn lemma_join(prev: Seq<u8>, done: Seq<bool>, cb: Seq<u8>, codes: Seq<bool>, ob: Seq<u8>, m: int)
        requires
            packed(prev, done), done.len() < 8 * prev.len(), packed(cb, codes), codes.len() > 0,
            packed(ob, zeros((8 - (8 * prev.len() - done.len())) as nat) + bits_of(cb)),
            m == (8 - (8 * prev.len() - done.len()) + codes.len() + 7) / 8,
        ensures
            1 <= m <= ob.len(), prev.len() > 0,
            packed(prev.drop_last() + ob.update(0, ob[0] | prev.last()).take(m), done + codes),
    {
        let n = prev.len() - 1;
        let off = 8 - (8 * prev.len() - done.len());
        let o2 = ob.update(0, ob[0] | prev.last());
        let r = prev.drop_last() + o2.take(m);
        let all = done + codes;
        assert(bits_of(ob).len() == 8 * ob.len());
        assert(r.len() == n + m);
        assert forall|i: int| 0 <= i < 8 * r.len() implies #[trigger] bits_of(r)[i] == (i < all.len() && all[i]) by {
            let j = i / 8; let k = i % 8;
            assert(bits_of(r)[i] == byte_bit(r[j], k));
            if j < n {
                assert(r[j] == prev[j]);
                assert(bits_of(prev)[i] == byte_bit(prev[j], k));
                assert(bits_of(prev).take(done.len() as int)[i] == done[i]);
            } else {
                assert(r[j] == o2[j - n]);
                let z = zeros(off as nat) + bits_of(cb);
                let h = i - 8 * n;
                assert(h / 8 == j - n && h % 8 == k);
                assert(bits_of(ob)[h] == byte_bit(ob[j - n], k));
                assert(bits_of(ob)[h] == (h >= off && h < off + 8 * cb.len() && bits_of(cb)[h - off])) by {
                    if h < z.len() { assert(bits_of(ob).take(z.len() as int)[h] == z[h]); }
                }
                assert(h >= off ==> bits_of(ob)[h] == (h - off < codes.len() && codes[h - off])) by {
                    if h >= off && h - off < codes.len() { assert(bits_of(cb).take(codes.len() as int)[h - off] == codes[h - off]); }
                }
                if j == n {
                    lemma_or_bits(ob[0], prev.last(), k);
                    assert(bits_of(prev)[i] == byte_bit(prev[n], k));
                    if i < done.len() { assert(bits_of(prev).take(done.len() as int)[i] == done[i]); }
                }
            }
        }
        assert(bits_of(r).take(all.len() as int) =~= all);
    }
    pub proof fn lemma_append(prev: Seq<u8>, done: Seq<bool>, cb: Seq<u8>, codes: Seq<bool>)
        requires packed(prev, done), done.len() == 8 * prev.len(), packed(cb, codes),
        ensures packed(prev + cb, done + codes),
    {
        let r = prev + cb;
        let all = done + codes;
        assert forall|i: int| 0 <= i < 8 * r.len() implies #[trigger] bits_of(r)[i] == (i < all.len() && all[i]) by {
            let j = i / 8;
            if j < prev.len() { assert(bits_of(prev)[i] == byte_bit(prev[j], i % 8)); assert(bits_of(prev).take(done.len() as int)[i] == done[i]); }
            else {
                let h = i - 8 * prev.len();
                assert(h / 8 == j - prev.len() && h % 8 == i % 8);
                assert(bits_of(cb)[h] == byte_bit(cb[h / 8], h % 8));
                if h < codes.len() { assert(bits_of(cb).take(codes.len() as int)[h] == codes[h]); }
            }
        }
        assert(bits_of(r).take(all.len() as int) =~= all);
    }
    // ---- the tree of a text
    pub proof fn lemma_counts_weigh(s: Seq<u8>)
        requires s.len() <= usize::MAX,
        ensures weighs(bw_pairs(counts_seq(s), 0), s), distinct(bw_pairs(counts_seq(s), 0)), bw_pairs(counts_seq(s), 0).len() <= 256,
            s.len() > 0 ==> bw_pairs(counts_seq(s), 0).len() > 0,
            sum(wof(bw_pairs(counts_seq(s), 0))) == s.len(),
    {
        let c = counts_seq(s);
        let w = bw_pairs(c, 0);
        lemma_pairs_order(c, 0);
        lemma_pairs_len(c, 0); lemma_nonzero_le(c, 256);
        assert forall|x: u8| occ(s, x) <= s.len() by { lemma_occ_le(s, x); }
        assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).1 == occ(s, w[i].0) && w[i].1 > 0 by { lemma_occ_le(s, w[i].0); assert(w[i].1 == c[w[i].0 as int]); }
        assert forall|k: int| 0 <= k < s.len() implies exists|i: int| 0 <= i < w.len() && (#[trigger] w[i]).0 == #[trigger] s[k] by {
            lemma_occ_in(s, k); lemma_occ_le(s, s[k]);
            assert(c[s[k] as int] != 0);
        }
        assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i]).0 != (#[trigger] w[j]).0 by {}
        if s.len() > 0 { let x = s[0]; assert(exists|i: int| 0 <= i < w.len() && (#[trigger] w[i]).0 == s[0]); }
        lemma_weighs_len(w, s);
    }
    pub proof fn lemma_counts(b: &ByteWeights, s: Seq<u8>)
        requires b.counts(s), s.len() <= usize::MAX,
        ensures bw_pairs(b.weights@, 0) == bw_pairs(counts_seq(s), 0),
    {
        assert forall|i: int| 0 <= i < 256 implies b.weights@[i] == counts_seq(s)[i] by { assert(b.weights@[(i as u8) as int] == occ(s, i as u8)); lemma_occ_le(s, i as u8); }
        assert(b.weights@ =~= counts_seq(s));
    }
    pub proof fn lemma_enc_leaves(b: &HuffBranch<u8>)
        requires b.wf(),
        ensures enc(b.tree()).len() == 10 * b.leaves().len() - 1,
        decreases b
    {
        reveal_with_fuel(HuffBranch::wf, 2); reveal_with_fuel(HuffBranch::leaves, 2);
        if b.left_child is Some { lemma_enc_leaves(&*b.left_child->0); lemma_enc_leaves(&*b.right_child->0); }
        else { u8::law_len(&b.leaf.letter->0); }
    }
    // the tree of a text has its letters, one leaf each, and a short binary form
    pub proof fn lemma_text_tree(b: &HuffBranch<u8>, s: Seq<u8>)
        requires best(*b, bw_pairs(counts_seq(s), 0)), 0 < s.len() <= usize::MAX,
        ensures all_in(s, b.tree()), lone(b.tree()), 9 <= enc(b.tree()).len() <= 2559,
    {
        let w = bw_pairs(counts_seq(s), 0);
        lemma_counts_weigh(s);
        lemma_all_in(b, w, s);
        lemma_perm_distinct(b.leaves(), w);
        lemma_lone(b);
        lemma_enc_leaves(b);
        b.leaves().to_multiset_ensures(); w.to_multiset_ensures();
        lemma_leaf_letters(b);
    }
    // ---- writing block after block
    // what is written after c0 holds these bits
    pub open spec fn grown(c0: Seq<u8>, c: Seq<u8>, bits: Seq<bool>) -> bool {
        c0.len() <= c.len() && c.take(c0.len() as int) == c0 && packed(c.skip(c0.len() as int), bits)
    }
    pub open spec fn pad_of(c0: Seq<u8>, c: Seq<u8>, bits: Seq<bool>) -> int { 8 * (c.len() - c0.len()) - bits.len() }
    pub open spec fn merged(c: Seq<u8>, ob: Seq<u8>, m: int) -> Seq<u8> { overwrite(c, c.len() - 1, ob.update(0, ob[0] | c.last()).take(m)) }
    pub proof fn lemma_next(c0: Seq<u8>, c: Seq<u8>, done: Seq<bool>, codes: Seq<bool>)
        requires grown(c0, c, done), codes.len() > 0,
        ensures
            pad_of(c0, c, done) == 0 ==> forall|cb: Seq<u8>| #[trigger] packed(cb, codes) ==> cb.len() > 0 && overwrite(c, c.len() as int, cb) == c + cb && grown(c0, c + cb, done + codes),
            pad_of(c0, c, done) > 0 ==> forall|cb: Seq<u8>, ob: Seq<u8>, k: nat| #[trigger] packed(ob, zeros(k) + bits_of(cb)) && packed(cb, codes) && k == 8 - pad_of(c0, c, done) ==> ({
                let m = (k + codes.len() + 7) / 8;
                &&& c.len() > c0.len() && 1 <= m <= ob.len()
                &&& merged(c, ob, m as int) == c.drop_last() + ob.update(0, ob[0] | c.last()).take(m as int)
                &&& grown(c0, merged(c, ob, m as int), done + codes)
            }),
    {
        let n = c0.len() as int;
        let prev = c.skip(n);
        if pad_of(c0, c, done) == 0 {
            assert forall|cb: Seq<u8>| #[trigger] packed(cb, codes) implies cb.len() > 0 && overwrite(c, c.len() as int, cb) == c + cb && grown(c0, c + cb, done + codes) by {
                lemma_append(prev, done, cb, codes);
                assert(c.take(c.len() as int) =~= c);
                assert((c + cb).take(n) =~= c.take(n));
                assert((c + cb).skip(n) =~= prev + cb);
            }
        }
        if pad_of(c0, c, done) > 0 {
            assert forall|cb: Seq<u8>, ob: Seq<u8>, k: nat| #[trigger] packed(ob, zeros(k) + bits_of(cb)) && packed(cb, codes) && k == 8 - pad_of(c0, c, done) implies ({
                let m = (k + codes.len() + 7) / 8;
                &&& c.len() > c0.len() && 1 <= m <= ob.len()
                &&& merged(c, ob, m as int) == c.drop_last() + ob.update(0, ob[0] | c.last()).take(m as int)
                &&& grown(c0, merged(c, ob, m as int), done + codes)
            }) by {
                let m = (k + codes.len() + 7) as int / 8;
                assert(prev.len() > 0);
                assert(prev.last() == c.last());
                lemma_join(prev, done, cb, codes, ob, m);
                let o = ob.update(0, ob[0] | c.last()).take(m);
                assert(c.take(c.len() - 1) =~= c.drop_last());
                assert((c.drop_last() + o).take(n) =~= c.take(n));
                assert((c.drop_last() + o).skip(n) =~= prev.drop_last() + o);
            }
        }
    }
    // what compressing a text gives
    pub proof fn lemma_compressed(t: HT<u8>, s: Seq<u8>)
        requires lone(t), all_in(s, t),
        ensures forall|d: CompressData<u8>| d.wf() && #[trigger] d.holds(s) && d.tree() == t ==>
            packed(d.comp_bytes@, cat_codes(s, codes_for(t))) && d.padding_bits == 8 * d.comp_bytes@.len() - cat_codes(s, codes_for(t)).len(),
    {
        lemma_codes_for(t);
        assert forall|d: CompressData<u8>| d.wf() && #[trigger] d.holds(s) && d.tree() == t implies
            packed(d.comp_bytes@, cat_codes(s, codes_for(t))) && d.padding_bits == 8 * d.comp_bytes@.len() - cat_codes(s, codes_for(t)).len() by { lemma_holds_packed(&d, s, codes_for(t)); }
    }
    pub proof fn lemma_cat_some(t: HT<u8>, s: Seq<u8>)
        requires all_in(s, t), s.len() > 0,
        ensures cat_codes(s, codes_for(t)).len() > 0,
    {
        lemma_codes_for(t);
        assert(has_leaf(t, s.last()));
        assert(codes_for(t).contains_key(s.last()));
        assert(is_code(t, s.last(), codes_for(t)[s.last()]));
        assert(codes_for(t)[s.last()].len() > 0);
    }
}
