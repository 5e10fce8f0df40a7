// The properties themselves, as programs over the contracts: each of these functions
// calls the real functions (seen only through their contracts) and its postcondition
// is the property.
pub mod vclient {
    use vstd::prelude::*;
    use crate::vspec::*;
    use crate::vtree::*;
    use crate::stub::*;
    use crate::huff_coding::comp::*;
    use crate::huff_coding::comp::errors::*;
    use crate::huff_coding::tree::tree_inner::*;
    use crate::huff_coding::tree::letter::*;
    use crate::huff_coding::weights::byte_weights::*;
    use crate::huff_coding::bitvec::{BitVec, Msb0};
    use vstd::std_specs::iter::IteratorSpec;
    use crate::vhuff::*;
    use crate::voptimal::*;
    use crate::huff_coding::weights::Weights;
    use crate::huff_coding::tree::branch_heap::{best, wof};

    // C01: compressing any letters and decompressing gives them back
    fn c01_round_trip<L: HuffLetter>(letters: &[L]) -> (r: Vec<L>)
        requires letters@.len() > 0,
        ensures r@ == letters@,
    {
        let d = compress(letters);
        proof {
            let w = choose|w: Seq<(L, usize)>| weighs(w, letters@) && #[trigger] best(d.huff_tree.root, w);
            lemma_all_in(&d.huff_tree.root, w, letters@);
            let cs = choose|cs: Map<L, Seq<bool>>| #[trigger] tree_codes(d.tree(), cs) && d.bits() == cat_codes(letters@, cs);
            lemma_roundtrip(d.tree(), cs, letters@);
        }
        decompress(&d)
    }
    // C04: the codes of a tree built from weights take no more bits than any other prefix code
    fn c04_tree_optimal<L: HuffLetter, W: Weights<L>>(weights: W) -> (r: HuffTree<L>)
        requires weights.wwf(), weights.wseq().len() > 0, sum(wof(weights.wseq())) <= usize::MAX,
        ensures forall|cs: Map<L, Seq<bool>>, other: Map<L, Seq<bool>>| #[trigger] tree_codes(r.tree(), cs) && #[trigger] prefix_code(weights.wseq(), other)
            ==> total(weights.wseq(), cs) <= total(weights.wseq(), other),
    {
        proof { weights.law_wseq(); }
        let ghost w = weights.wseq();
        let t = HuffTree::from_weights(weights);
        proof {
            assert forall|cs: Map<L, Seq<bool>>, other: Map<L, Seq<bool>>| #[trigger] tree_codes(t.tree(), cs) && #[trigger] prefix_code(w, other) implies total(w, cs) <= total(w, other) by {
                lemma_optimal(&t.root, w, cs, other);
            }
        }
        t
    }
    // C04: no prefix code for the letters that occur writes them in fewer bits than compress
    fn c04_compress_optimal<L: HuffLetter>(letters: &[L]) -> (r: CompressData<L>)
        requires letters@.len() > 0,
        ensures forall|other: Map<L, Seq<bool>>| #[trigger] prefix_for(letters@, other) ==> r.nbits() <= cat_codes(letters@, other).len(),
    {
        let d = compress(letters);
        proof {
            let w = choose|w: Seq<(L, usize)>| weighs(w, letters@) && #[trigger] best(d.huff_tree.root, w);
            let cs = choose|cs: Map<L, Seq<bool>>| #[trigger] tree_codes(d.tree(), cs) && d.bits() == cat_codes(letters@, cs);
            lemma_cat_total(w, letters@, cs);
            assert forall|other: Map<L, Seq<bool>>| #[trigger] prefix_for(letters@, other) implies d.nbits() <= cat_codes(letters@, other).len() by {
                lemma_prefix_for(w, letters@, other);
                lemma_optimal(&d.huff_tree.root, w, cs, other);
                lemma_cat_total(w, letters@, other);
            }
        }
        d
    }
    // C17: the leaves of a tree built from weights are exactly the letters and their
    // weights, and each joint weighs what its children do
    fn c17_leaves<L: HuffLetter, W: Weights<L>>(weights: W) -> (r: HuffTree<L>)
        requires weights.wwf(), weights.wseq().len() > 0, sum(wof(weights.wseq())) <= usize::MAX,
        ensures
            r.wf(), r.root.weighted(),
            r.root.leaves().to_multiset() == weights.wseq().to_multiset(),
            r.root.leaf.weight == sum(wof(weights.wseq())),
    {
        HuffTree::from_weights(weights)
    }
    // C02, C14: compressing with a supplied tree, then decompressing
    fn c02_supplied_tree<L: HuffLetter>(letters: &[L], tree: HuffTree<L>) -> (r: Result<(Vec<L>, HuffTree<L>), L>)
        requires tree.wf(), letters@.len() > 0,
        ensures
            r is Ok <==> all_in(letters@, tree.tree()),
            r is Ok ==> (r->Ok_0).0@ == letters@ && (r->Ok_0).1 == tree,
            r is Err ==> first_missing(letters@, tree.tree(), r->Err_0),
    {
        match compress_with_tree(letters, tree) {
            Ok(d) => {
                proof {
                    let cs = choose|cs: Map<L, Seq<bool>>| #[trigger] tree_codes(d.tree(), cs) && d.bits() == cat_codes(letters@, cs);
                    lemma_roundtrip(d.tree(), cs, letters@);
                }
                let out = decompress(&d);
                let (_, _, t) = d.into_inner();
                Ok((out, t))
            }
            Err(e) => { proof { axiom_letter_laws::<L>(); } Err(e.missing_letter().clone()) }
        }
    }
    // C05: the binary form of a tree reads back
    fn c05_tree_round_trip<L: HuffLetterAsBytes>(tree: &HuffTree<L>) -> (r: HuffTree<L>)
        requires tree.wf(), vstd::layout::size_of::<L>() >= 1,
        ensures r.tree() == tree.tree(), r.wf(),
    {
        let b = tree.as_bin();
        proof { lemma_parse_enc(tree.tree(), Seq::<bool>::empty()); assert(enc(tree.tree()) + Seq::<bool>::empty() =~= enc(tree.tree())); }
        match HuffTree::<L>::try_from_bin(b) { Ok(t) => t, Err(e) => { proof { assert(false); } vstd::pervasive::unreached() } }
    }
    // C07: the byte form of compressed data reads back
    fn c07_bytes_round_trip<L: HuffLetterAsBytes>(d: &CompressData<L>) -> (r: CompressData<L>)
        requires d.wf(), tree_fits(d.tree()), vstd::layout::size_of::<L>() >= 1,
        ensures r.tree() == d.tree(), r.padding_bits == d.padding_bits, r.comp_bytes@ == d.comp_bytes@, r.bits() == d.bits(), r.wf(),
    {
        let b = d.to_bytes();
        match CompressData::<L>::try_from_bytes(&b) { Ok(x) => x, Err(e) => { proof { assert(false); } vstd::pervasive::unreached() } }
    }
    // C08, C15: whatever the bytes are, reading them and decompressing what was read ends without panic
    fn c08_any_bytes<L: HuffLetterAsBytes>(b: &[u8]) -> (r: Option<Vec<L>>)
        ensures
            r is Some <==> unpack::<L>(b@) is Some,
            r is Some ==> ({ let (t, p, c) = unpack::<L>(b@)->0; (r->0)@ == run(t, bits_of(c).take(8 * c.len() - p)).0 }),
    {
        match CompressData::<L>::try_from_bytes(b) { Ok(x) => Some(decompress(&x)), Err(e) => None }
    }
    // C10: threads do not matter
    fn c10_threads(b: &[u8], n: usize) -> (r: (ByteWeights, ByteWeights))
        requires n > 0,
        ensures r.0.weights@ == r.1.weights@, r.0.len == r.1.len,
    {
        let x = ByteWeights::from_bytes(b);
        let y = ByteWeights::threaded_from_bytes(b, n);
        proof {
            assert forall|i: int| 0 <= i < 256 implies x.weights@[i] == y.weights@[i] by { let k = i as u8; assert(k as int == i); assert(x.weights@[k as int] == occ(b@, k)); assert(y.weights@[k as int] == occ(b@, k)); }
            assert(x.weights@ =~= y.weights@);
        }
        (x, y)
    }
    // C11: counting two slices and adding is counting their concatenation
    fn c11_add(a: &[u8], b: &[u8]) -> (r: ByteWeights)
        requires a@.len() + b@.len() <= usize::MAX,
        ensures r.counts(a@ + b@),
    {
        let mut x = ByteWeights::from_bytes(a);
        let y = ByteWeights::from_bytes(b);
        proof {
            assert forall|k: u8| #[trigger] occ(a@ + b@, k) == occ(a@, k) + occ(b@, k) by { lemma_occ_add(a@, b@, k); }
            assert forall|i: int| 0 <= i < 256 implies #[trigger] x.weights@[i] + y.weights@[i] <= usize::MAX by {
                let k = i as u8; assert(k as int == i);
                assert(x.weights@[k as int] == occ(a@, k)); assert(y.weights@[k as int] == occ(b@, k));
                lemma_occ_le(a@, k); lemma_occ_le(b@, k);
            }
        }
        let ghost x0 = x;
        x.add_byte_weights(&y);
        proof {
            assert forall|k: u8| #[trigger] x.weights@[k as int] == occ(a@ + b@, k) by {
                assert(occ(a@ + b@, k) == occ(a@, k) + occ(b@, k));
                assert(x0.weights@[k as int] == occ(a@, k)); assert(y.weights@[k as int] == occ(b@, k));
                assert(x0.plus(&y, &x));
            }
        }
        x
    }
    // C16: a letter's bytes are as many as its type has, and give the letter back
    // (every built-in integer letter satisfies this contract, proved type by type)
    fn c16_letter<L: HuffLetterAsBytes>(x: &L) -> (r: L)
        ensures r == *x,
    {
        let b = x.as_be_bytes();
        proof { L::law_len(x); assert(b@.len() == vstd::layout::size_of::<L>()); }
        match L::try_from_be_bytes(&b) { Ok(y) => { proof { L::law_inj(x, &y); } y } Err(_) => { proof { assert(false); } vstd::pervasive::unreached() } }
    }
    // C16: a slice of another length is an error
    fn c16_wrong_length<L: HuffLetterAsBytes>(b: &[u8]) -> (r: bool)
        requires b@.len() != vstd::layout::size_of::<L>(),
        ensures r,
    {
        match L::try_from_be_bytes(b) { Ok(y) => { proof { L::law_len(&y); } false } Err(_) => true }
    }
    // C03: the codes a tree reports: one for each letter, its path, none empty, none a prefix of another
    fn c03_codes<L: HuffLetter>(tree: &HuffTree<L>) -> (r: std::collections::HashMap<L, BitVec<Msb0, u8>>)
        requires tree.wf(),
        ensures
            forall|x: L| codes_of(r).contains_key(x) <==> has_leaf(tree.tree(), x),
            forall|x: L| #[trigger] codes_of(r).contains_key(x) ==> is_code(tree.tree(), x, codes_of(r)[x]) && codes_of(r)[x].len() > 0,
            forall|x: L, y: L| codes_of(r).contains_key(x) && codes_of(r).contains_key(y) && x != y ==> !(#[trigger] codes_of(r)[x].is_prefix_of(codes_of(r)[y])),
    {
        let c = tree.read_codes();
        proof {
            let cs = codes_of(c); let t = tree.tree();
            assert forall|x: L| #[trigger] cs.contains_key(x) implies is_code(t, x, cs[x]) && cs[x].len() > 0 by {
                match t { HT::Leaf(_) => {}, HT::Node(_, _) => {} }
            }
            assert forall|x: L, y: L| cs.contains_key(x) && cs.contains_key(y) && x != y implies !(#[trigger] cs[x].is_prefix_of(cs[y])) by { lemma_codes_prefix_free(t, cs, x, y); }
        }
        c
    }
    // C12: iterating yields exactly the bytes that have a weight, in increasing order
    fn c12_iterate(w: &ByteWeights) -> (r: Vec<(u8, usize)>)
        requires w.wf(),
        ensures
            r@.len() == w.len,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0 < (#[trigger] r@[j]).0,
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).1 > 0 && r@[i].1 == w.weights@[r@[i].0 as int],
            forall|b: u8| w.weights@[b as int] != 0 ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == b,
    {
        let mut v: Vec<(u8, usize)> = Vec::new();
        for p in it: w.iter()
            invariant it.seq() == bw_pairs(w.weights@, 0), v@ == it.seq().take(it.index@),
        { v.push(p); }
        proof { assert(v@ =~= bw_pairs(w.weights@, 0)); lemma_pairs_order(w.weights@, 0); lemma_pairs_len(w.weights@, 0); }
        v
    }
}
