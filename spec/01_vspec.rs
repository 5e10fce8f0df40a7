pub mod vspec {
    use vstd::prelude::*;
    pub use vstd::std_specs::iter::IteratorSpec;

    // bit i (0 = most significant) of a byte
    pub open spec fn byte_bit(b: u8, i: int) -> bool {
        (b >> ((7 - i) as u8)) & 1u8 == 1u8
    }
    // the bits of a byte string, most significant first
    pub open spec fn bits_of(s: Seq<u8>) -> Seq<bool> {
        Seq::new(s.len() * 8, |i: int| byte_bit(s[i / 8], i % 8))
    }

    // ---- weights -------------------------------------------------------
    // the pairs of a HashMap in its (arbitrary) iteration order
    pub uninterp spec fn hm_seq<K, V, S>(m: std::collections::HashMap<K, V, S>) -> Seq<(K, V)>;
    // that order lists every entry of the map once, and nothing else (assumed: std's HashMap)
    pub axiom fn axiom_hm_seq<K, V, S>(m: std::collections::HashMap<K, V, S>)
        ensures
            hm_seq(m).len() == m@.len(),
            forall|i: int| 0 <= i < hm_seq(m).len() ==> #[trigger] m@.contains_key(hm_seq(m)[i].0) && m@[hm_seq(m)[i].0] == hm_seq(m)[i].1,
            forall|i: int, j: int| 0 <= i < j < hm_seq(m).len() ==> (#[trigger] hm_seq(m)[i]).0 != (#[trigger] hm_seq(m)[j]).0,
            forall|k: K| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < hm_seq(m).len() && (#[trigger] hm_seq(m)[i]).0 == k;
    // (byte, weight) for every byte >= i of non-zero weight, ascending
    pub open spec fn bw_pairs(w: Seq<usize>, i: int) -> Seq<(u8, usize)>
        decreases 256 - i
    {
        if i < 0 || i >= 256 { Seq::empty() }
        else if w[i] != 0 { seq![(i as u8, w[i])] + bw_pairs(w, i + 1) }
        else { bw_pairs(w, i + 1) }
    }
    // how many of the first n weights are non-zero
    pub open spec fn nonzero(w: Seq<usize>, n: int) -> nat
        decreases n
    {
        if n <= 0 { 0 } else { nonzero(w, n - 1) + if w[n - 1] != 0 { 1nat } else { 0 } }
    }
    // how many times x occurs
    pub open spec fn occ<T>(s: Seq<T>, x: T) -> nat
        decreases s.len()
    {
        if s.len() == 0 { 0 } else { occ(s.drop_last(), x) + if s.last() == x { 1nat } else { 0 } }
    }

    // the pairs are in increasing order of their byte and complete
    pub proof fn lemma_pairs_order(w: Seq<usize>, i: int)
        requires w.len() == 256, 0 <= i <= 256,
        ensures
            forall|a: int, b: int| 0 <= a < b < bw_pairs(w, i).len() ==> (#[trigger] bw_pairs(w, i)[a]).0 < (#[trigger] bw_pairs(w, i)[b]).0,
            forall|a: int| 0 <= a < bw_pairs(w, i).len() ==> (#[trigger] bw_pairs(w, i)[a]).1 > 0 && bw_pairs(w, i)[a].1 == w[bw_pairs(w, i)[a].0 as int] && bw_pairs(w, i)[a].0 >= i,
            forall|k: u8| k >= i && w[k as int] != 0 ==> exists|a: int| 0 <= a < bw_pairs(w, i).len() && (#[trigger] bw_pairs(w, i)[a]).0 == k,
        decreases 256 - i
    {
        if i < 256 {
            lemma_pairs_order(w, i + 1);
            let s = bw_pairs(w, i); let r = bw_pairs(w, i + 1);
            if w[i] != 0 {
                assert forall|a: int| 1 <= a < s.len() implies #[trigger] s[a] == r[a - 1] by {}
                assert(s[0] == (i as u8, w[i]));
                assert forall|k: u8| k >= i && w[k as int] != 0 implies exists|a: int| 0 <= a < s.len() && (#[trigger] s[a]).0 == k by {
                    if k == i { assert(s[0].0 == k); } else {
                        let a = choose|a: int| 0 <= a < r.len() && (#[trigger] r[a]).0 == k;
                        assert(s[a + 1].0 == k);
                    }
                }
            }
        }
    }
    pub proof fn lemma_nonzero_zero(w: Seq<usize>, n: int)
        requires 0 <= n <= w.len(), forall|i: int| 0 <= i < n ==> w[i] == 0,
        ensures nonzero(w, n) == 0,
        decreases n
    { if n > 0 { lemma_nonzero_zero(w, n - 1); } }
    pub proof fn lemma_nonzero_le(w: Seq<usize>, n: int)
        requires 0 <= n
        ensures nonzero(w, n) <= n,
        decreases n
    { if n > 0 { lemma_nonzero_le(w, n - 1); } }
    pub proof fn lemma_nonzero_upd(w: Seq<usize>, k: int, x: usize, n: int)
        requires 0 <= k < w.len(), 0 <= n <= w.len(),
        ensures
            nonzero(w.update(k, x), n) + (if k < n && w[k] != 0 { 1nat } else { 0 })
                == nonzero(w, n) + (if k < n && x != 0 { 1nat } else { 0 }),
        decreases n
    { if n > 0 { lemma_nonzero_upd(w, k, x, n - 1); } }
    pub proof fn lemma_occ_le<T>(s: Seq<T>, x: T)
        ensures occ(s, x) <= s.len(),
        decreases s.len()
    { if s.len() > 0 { lemma_occ_le(s.drop_last(), x); } }
    pub proof fn lemma_occ_add<T>(a: Seq<T>, b: Seq<T>, x: T)
        ensures occ(a + b, x) == occ(a, x) + occ(b, x),
        decreases b.len()
    {
        if b.len() == 0 { assert(a + b =~= a); }
        else {
            assert((a + b).drop_last() =~= a + b.drop_last());
            lemma_occ_add(a, b.drop_last(), x);
        }
    }

    pub proof fn lemma_pairs_len(w: Seq<usize>, i: int)
        requires 0 <= i <= 256, w.len() == 256,
        ensures bw_pairs(w, i).len() + nonzero(w, i) == nonzero(w, 256),
        decreases 256 - i
    { if i < 256 { lemma_pairs_len(w, i + 1); } }

    pub proof fn lemma_pairs_first(w: Seq<usize>, k: int)
        requires 0 <= k <= 256, w.len() == 256, bw_pairs(w, k).len() > 0,
        ensures ({
            let (b, f) = bw_pairs(w, k)[0];
            &&& k <= b as int && f == w[b as int] && f != 0
            &&& forall|i: int| k <= i < b ==> w[i] == 0
            &&& bw_pairs(w, k).drop_first() == bw_pairs(w, b + 1)
        }),
        decreases 256 - k
    {
        if w[k] != 0 { assert(bw_pairs(w, k).drop_first() =~= bw_pairs(w, k + 1)); } else { lemma_pairs_first(w, k + 1); }
    }
    pub proof fn lemma_pairs_empty(w: Seq<usize>, k: int)
        requires 0 <= k <= 256, w.len() == 256, bw_pairs(w, k).len() == 0,
        ensures forall|i: int| k <= i < 256 ==> w[i] == 0,
        decreases 256 - k
    { if k < 256 { lemma_pairs_empty(w, k + 1); } }

    pub proof fn lemma_occ_in<T>(s: Seq<T>, k: int)
        requires 0 <= k < s.len(),
        ensures occ(s, s[k]) > 0,
        decreases s.len()
    { if k < s.len() - 1 { lemma_occ_in(s.drop_last(), k); } }
    pub proof fn lemma_occ_where<T>(s: Seq<T>, x: T)
        requires occ(s, x) > 0,
        ensures exists|k: int| 0 <= k < s.len() && s[k] == x,
        decreases s.len()
    {
        if s.last() == x { assert(s[s.len() - 1] == x); }
        else { lemma_occ_where(s.drop_last(), x); let k = choose|k: int| 0 <= k < s.drop_last().len() && s.drop_last()[k] == x; assert(s[k] == x); }
    }
    pub proof fn lemma_occ_nil<T>()
        ensures forall|x: T| occ(Seq::<T>::empty(), x) == 0, forall|s: Seq<T>, x: T| s.len() == 0 ==> occ(s, x) == 0,
    {}

    pub open spec fn nat_cmp(a: int, b: int) -> core::cmp::Ordering {
        if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }
    }
    // ---- integers as bytes --------------------------------------------
    use crate::stub::ext::*;
    pub proof fn lemma_pow256()
        ensures
            vstd::arithmetic::power::pow(256, 1) == 256,
            vstd::arithmetic::power::pow(256, 2) == 65536,
            vstd::arithmetic::power::pow(256, 4) == 4294967296,
            vstd::arithmetic::power::pow(256, 8) == 18446744073709551616,
            vstd::arithmetic::power::pow(256, 16) == 340282366920938463463374607431768211456,
    {
        vstd::arithmetic::power::lemma_pow1(256);
        vstd::arithmetic::power::lemma_pow_adds(256, 1, 1);
        vstd::arithmetic::power::lemma_pow_adds(256, 2, 2);
        assert(65536 * 65536 == 4294967296) by (compute);
        vstd::arithmetic::power::lemma_pow_adds(256, 4, 4);
        assert(4294967296 * 4294967296 == 18446744073709551616) by (compute);
        vstd::arithmetic::power::lemma_pow_adds(256, 8, 8);
        assert(18446744073709551616 * 18446744073709551616 == 340282366920938463463374607431768211456) by (compute);
    }
    pub proof fn lemma_be_inj<const N: usize>(a: int, b: int)
        requires le_seq(a, N as nat).reverse() == le_seq(b, N as nat).reverse(),
        ensures a % vstd::arithmetic::power::pow(256, N as nat) == b % vstd::arithmetic::power::pow(256, N as nat),
    {
        let x = le_seq(a, N as nat);
        let y = le_seq(b, N as nat);
        assert(x.reverse().reverse() =~= x);
        assert(y.reverse().reverse() =~= y);
        lemma_le_inv(a, N as nat);
        lemma_le_inv(b, N as nat);
    }
    pub proof fn lemma_seq_int(s: Seq<u8>)
        ensures 0 <= le_int(s) < vstd::arithmetic::power::pow(256, s.len()), le_seq(le_int(s), s.len()) == s,
        decreases s.len()
    {
        reveal(vstd::arithmetic::power::pow);
        if s.len() > 0 {
            lemma_seq_int(s.skip(1));
            let x = le_int(s);
            let y = le_int(s.skip(1));
            assert(x / 256 == y && x % 256 == s[0] as int);
            assert(le_seq(x, s.len()) =~= s);
        } else { assert(le_seq(le_int(s), 0) =~= s); }
    }
    // le_seq depends on the residue only
    pub proof fn lemma_le_shift(x: int, y: int, n: nat)
        requires x % vstd::arithmetic::power::pow(256, n) == y % vstd::arithmetic::power::pow(256, n),
        ensures le_seq(x, n) == le_seq(y, n),
    {
        lemma_le_inv(x, n); lemma_le_inv(y, n);
        lemma_seq_int(le_seq(x, n)); lemma_seq_int(le_seq(y, n));
    }
    pub proof fn lemma_seq_int_all(n: nat)
        ensures forall|s: Seq<u8>| s.len() == n ==> 0 <= #[trigger] le_int(s) < vstd::arithmetic::power::pow(256, n) && le_seq(le_int(s), n) == s,
    {
        assert forall|s: Seq<u8>| s.len() == n implies 0 <= #[trigger] le_int(s) < vstd::arithmetic::power::pow(256, n) && le_seq(le_int(s), n) == s by { lemma_seq_int(s); }
    }
    // ---- trees --------------------------------------------------------
    pub enum HT<L> { Leaf(L), Node(Box<HT<L>>, Box<HT<L>>) }
    // the bits in as few bytes as they need, zeros after the last
    pub open spec fn packed(b: Seq<u8>, bits: Seq<bool>) -> bool {
        &&& bits.len() <= 8 * b.len() < bits.len() + 8
        &&& bits_of(b).take(bits.len() as int) == bits
        &&& forall|i: int| bits.len() <= i < 8 * b.len() ==> !(#[trigger] bits_of(b)[i])
    }
}
