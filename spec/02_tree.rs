// Code trees, as mathematics: paths, decoding, the binary form.
pub mod vtree {
    use vstd::prelude::*;
    use crate::vspec::*;

    // ---- letters and paths ------------------------------------------------
    pub open spec fn has_leaf<L>(t: HT<L>, x: L) -> bool
        decreases t
    {
        match t { HT::Leaf(y) => x == y, HT::Node(l, r) => has_leaf(*l, x) || has_leaf(*r, x) }
    }
    pub open spec fn leaf_at<L>(t: HT<L>, p: Seq<bool>) -> Option<L>
        decreases t
    {
        match t {
            HT::Leaf(y) => if p.len() == 0 { Some(y) } else { None },
            HT::Node(l, r) => if p.len() == 0 { None } else if p[0] { leaf_at(*r, p.skip(1)) } else { leaf_at(*l, p.skip(1)) },
        }
    }
    // c is a code of x: the path to a leaf x; the code of a lone letter is 0
    pub open spec fn is_code<L>(t: HT<L>, x: L, c: Seq<bool>) -> bool {
        match t { HT::Leaf(y) => x == y && c == seq![false], HT::Node(l, r) => leaf_at(t, c) == Some(x) }
    }
    // exactly the letters of the tree, each with a code of its own
    pub open spec fn tree_codes<L>(t: HT<L>, cs: Map<L, Seq<bool>>) -> bool {
        forall|x: L| #![trigger cs.contains_key(x)] #![trigger has_leaf(t, x)] (cs.contains_key(x) <==> has_leaf(t, x)) && (cs.contains_key(x) ==> is_code(t, x, cs[x]))
    }
    pub open spec fn all_in<L>(s: Seq<L>, t: HT<L>) -> bool { forall|i: int| 0 <= i < s.len() ==> has_leaf(t, #[trigger] s[i]) }

    pub proof fn lemma_path_has_leaf<L>(t: HT<L>, p: Seq<bool>)
        requires leaf_at(t, p) is Some,
        ensures has_leaf(t, leaf_at(t, p)->0),
        decreases t
    {
        match t { HT::Leaf(y) => {}, HT::Node(l, r) => { if p[0] { lemma_path_has_leaf(*r, p.skip(1)); } else { lemma_path_has_leaf(*l, p.skip(1)); } } }
    }
    // no code is a prefix of another
    pub proof fn lemma_prefix_free<L>(t: HT<L>, p: Seq<bool>, q: Seq<bool>)
        requires leaf_at(t, p) is Some, leaf_at(t, q) is Some, p.is_prefix_of(q),
        ensures p == q,
        decreases t
    {
        match t {
            HT::Leaf(y) => { assert(p =~= q); }
            HT::Node(l, r) => {
                assert(p[0] == q[0]);
                assert(p.skip(1).is_prefix_of(q.skip(1)));
                if p[0] { lemma_prefix_free(*r, p.skip(1), q.skip(1)); } else { lemma_prefix_free(*l, p.skip(1), q.skip(1)); }
                assert(p =~= seq![p[0]] + p.skip(1));
                assert(q =~= seq![q[0]] + q.skip(1));
            }
        }
    }
    pub proof fn lemma_codes_prefix_free<L>(t: HT<L>, cs: Map<L, Seq<bool>>, x: L, y: L)
        requires tree_codes(t, cs), cs.contains_key(x), cs.contains_key(y), x != y,
        ensures !cs[x].is_prefix_of(cs[y]), cs[x].len() > 0,
    {
        if cs[x].is_prefix_of(cs[y]) {
            match t { HT::Leaf(_) => {}, HT::Node(_, _) => { lemma_prefix_free(t, cs[x], cs[y]); } }
        }
    }

    // ---- decoding -----------------------------------------------------------
    pub open spec fn child<L>(t: HT<L>, b: bool) -> HT<L> {
        match t { HT::Leaf(y) => t, HT::Node(l, r) => if b { *r } else { *l } }
    }
    // walk from the root, one bit a step; at a leaf emit its letter and go back
    // to the root
    pub open spec fn run<L>(t: HT<L>, bits: Seq<bool>) -> (Seq<L>, HT<L>)
        decreases bits.len()
    {
        if bits.len() == 0 { (Seq::empty(), t) }
        else {
            let (out, cur) = run(t, bits.drop_last());
            let d = child(cur, bits.last());
            match d { HT::Leaf(x) => (out.push(x), t), HT::Node(l, r) => (out, d) }
        }
    }
    pub open spec fn cat_codes<L>(s: Seq<L>, cs: Map<L, Seq<bool>>) -> Seq<bool>
        decreases s.len()
    {
        if s.len() == 0 { Seq::empty() } else { cat_codes(s.drop_last(), cs) + cs[s.last()] }
    }
    pub open spec fn sub_at<L>(t: HT<L>, p: Seq<bool>) -> HT<L>
        decreases p.len()
    {
        if p.len() == 0 { t } else { child(sub_at(t, p.drop_last()), p.last()) }
    }
    pub proof fn lemma_sub_at_first<L>(t: HT<L>, p: Seq<bool>)
        requires p.len() > 0,
        ensures sub_at(t, p) == sub_at(child(t, p[0]), p.skip(1)),
        decreases p.len()
    {
        if p.len() == 1 { assert(p.drop_last() =~= Seq::<bool>::empty()); assert(p.skip(1) =~= Seq::<bool>::empty()); }
        else {
            lemma_sub_at_first(t, p.drop_last());
            assert(p.drop_last().skip(1) =~= p.skip(1).drop_last());
            assert(p.skip(1).last() == p.last());
        }
    }
    // strictly inside a path to a leaf there are joints only
    pub proof fn lemma_inside<L>(t: HT<L>, p: Seq<bool>, k: int)
        requires leaf_at(t, p) is Some, 0 <= k <= p.len(),
        ensures k < p.len() ==> sub_at(t, p.take(k)) is Node, k == p.len() ==> sub_at(t, p) == HT::Leaf(leaf_at(t, p)->0),
        decreases t
    {
        match t {
            HT::Leaf(y) => {}
            HT::Node(l, r) => {
                if k > 0 {
                    let q = p.take(k);
                    lemma_sub_at_first(t, q);
                    assert(q.skip(1) =~= p.skip(1).take(k - 1));
                    assert(p.take(p.len() as int) =~= p);
                    assert(p.skip(1).take(p.skip(1).len() as int) =~= p.skip(1));
                    if p[0] { lemma_inside(*r, p.skip(1), k - 1); } else { lemma_inside(*l, p.skip(1), k - 1); }
                } else { assert(p.take(0) =~= Seq::<bool>::empty()); }
            }
        }
    }
    pub proof fn lemma_run_path<L>(t: HT<L>, bits: Seq<bool>, c: Seq<bool>, k: int)
        requires run(t, bits).1 == t, t is Node, leaf_at(t, c) is Some, 0 <= k < c.len(),
        ensures run(t, bits + c.take(k)) == (run(t, bits).0, sub_at(t, c.take(k))),
        decreases k
    {
        if k == 0 { assert(bits + c.take(0) =~= bits); assert(c.take(0) =~= Seq::<bool>::empty()); }
        else {
            lemma_run_path(t, bits, c, k - 1);
            lemma_inside(t, c, k);
            assert((bits + c.take(k)).drop_last() =~= bits + c.take(k - 1));
            assert(c.take(k).drop_last() =~= c.take(k - 1));
            assert((bits + c.take(k)).last() == c[k - 1]);
            assert(c.take(k).last() == c[k - 1]);
        }
    }
    pub proof fn lemma_run_code<L>(t: HT<L>, bits: Seq<bool>, x: L, c: Seq<bool>)
        requires run(t, bits).1 == t, is_code(t, x, c),
        ensures run(t, bits + c) == (run(t, bits).0.push(x), t),
    {
        match t {
            HT::Leaf(_) => { assert((bits + c).drop_last() =~= bits); assert((bits + c).last() == false); }
            HT::Node(_, _) => {
                let n = c.len() as int;
                lemma_run_path(t, bits, c, n - 1);
                lemma_inside(t, c, n);
                lemma_inside(t, c, n - 1);
                assert(c.take(n) =~= c);
                assert((bits + c).drop_last() =~= bits + c.take(n - 1));
                assert(c.drop_last() =~= c.take(n - 1));
                assert((bits + c).last() == c[n - 1]);
            }
        }
    }
    // decoding the codes of a text gives the text back, and ends at the root
    pub proof fn lemma_roundtrip<L>(t: HT<L>, cs: Map<L, Seq<bool>>, s: Seq<L>)
        requires tree_codes(t, cs), all_in(s, t),
        ensures run(t, cat_codes(s, cs)) == (s, t),
        decreases s.len()
    {
        if s.len() > 0 {
            let d = s.drop_last();
            assert forall|i: int| 0 <= i < d.len() implies has_leaf(t, #[trigger] d[i]) by { assert(d[i] == s[i]); }
            lemma_roundtrip(t, cs, d);
            let x = s.last();
            assert(has_leaf(t, x));
            assert(cs.contains_key(x));
            lemma_run_code(t, cat_codes(d, cs), x, cs[x]);
            assert(d.push(x) =~= s);
        } else { assert(s =~= Seq::<L>::empty()); }
    }
    pub proof fn lemma_cat_nonempty<L>(s: Seq<L>, t: HT<L>, cs: Map<L, Seq<bool>>)
        requires tree_codes(t, cs), all_in(s, t), s.len() > 0,
        ensures cat_codes(s, cs).len() > 0,
    {
        let x = s.last();
        assert(has_leaf(t, x));
        assert(cs.contains_key(x));
        match t { HT::Leaf(_) => {}, HT::Node(_, _) => { assert(leaf_at(t, cs[x]) is Some); } }
    }
    pub proof fn lemma_run_push<L>(t: HT<L>, bits: Seq<bool>, b: bool)
        ensures run(t, bits.push(b)) == ({
            let d = child(run(t, bits).1, b);
            match d { HT::Leaf(x) => (run(t, bits).0.push(x), t), HT::Node(l, r) => (run(t, bits).0, d) }
        }),
    { assert(bits.push(b).drop_last() =~= bits); }
    pub proof fn lemma_cat_push<L>(s: Seq<L>, x: L, cs: Map<L, Seq<bool>>)
        ensures cat_codes(s.push(x), cs) == cat_codes(s, cs) + cs[x],
    { assert(s.push(x).drop_last() =~= s); }

    // ---- the binary form -----------------------------------------------------
    pub use crate::huff_coding::tree::letter::HuffLetterAsBytes;
    // preorder: 1 for a joint branch, 0 and the letter's bits for a leaf
    pub open spec fn enc<L: HuffLetterAsBytes>(t: HT<L>) -> Seq<bool>
        decreases t
    {
        match t {
            HT::Leaf(x) => seq![false] + bits_of(x.be()),
            HT::Node(l, r) => seq![true] + enc(*l) + enc(*r),
        }
    }
    pub open spec fn encodes<L: HuffLetterAsBytes>(t: HT<L>, rest: Seq<bool>, s: Seq<bool>) -> bool { enc(t) + rest == s }
    pub proof fn lemma_bits_of_len(s: Seq<u8>)
        ensures bits_of(s).len() == 8 * s.len(),
    {}
    pub open spec fn bits8(b: u8) -> Seq<bool> { Seq::new(8, |k: int| byte_bit(b, k)) }
    pub proof fn lemma_bits_push(s: Seq<u8>, i: int)
        requires 0 <= i < s.len(),
        ensures bits_of(s.take(i + 1)) == bits_of(s.take(i)) + bits8(s[i]),
    {
        assert(bits_of(s.take(i + 1)) =~= bits_of(s.take(i)) + bits8(s[i]));
    }
    pub proof fn lemma_byte_bits(a: u8, b: u8)
        requires forall|i: int| 0 <= i < 8 ==> #[trigger] byte_bit(a, i) == byte_bit(b, i),
        ensures a == b,
    {
        assert(byte_bit(a, 0) == byte_bit(b, 0));
        assert(byte_bit(a, 1) == byte_bit(b, 1));
        assert(byte_bit(a, 2) == byte_bit(b, 2));
        assert(byte_bit(a, 3) == byte_bit(b, 3));
        assert(byte_bit(a, 4) == byte_bit(b, 4));
        assert(byte_bit(a, 5) == byte_bit(b, 5));
        assert(byte_bit(a, 6) == byte_bit(b, 6));
        assert(byte_bit(a, 7) == byte_bit(b, 7));
        assert(a == b) by (bit_vector)
            requires
                ((a >> 7u8) & 1u8 == 1u8) == ((b >> 7u8) & 1u8 == 1u8),
                ((a >> 6u8) & 1u8 == 1u8) == ((b >> 6u8) & 1u8 == 1u8),
                ((a >> 5u8) & 1u8 == 1u8) == ((b >> 5u8) & 1u8 == 1u8),
                ((a >> 4u8) & 1u8 == 1u8) == ((b >> 4u8) & 1u8 == 1u8),
                ((a >> 3u8) & 1u8 == 1u8) == ((b >> 3u8) & 1u8 == 1u8),
                ((a >> 2u8) & 1u8 == 1u8) == ((b >> 2u8) & 1u8 == 1u8),
                ((a >> 1u8) & 1u8 == 1u8) == ((b >> 1u8) & 1u8 == 1u8),
                ((a >> 0u8) & 1u8 == 1u8) == ((b >> 0u8) & 1u8 == 1u8);
    }
    pub proof fn lemma_bits_inj(a: Seq<u8>, b: Seq<u8>)
        requires bits_of(a) == bits_of(b),
        ensures a == b,
    {
        assert(bits_of(a).len() == 8 * a.len());
        assert(bits_of(b).len() == 8 * b.len());
        assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by {
            assert forall|i: int| 0 <= i < 8 implies #[trigger] byte_bit(a[k], i) == byte_bit(b[k], i) by {
                let j = 8 * k + i;
                assert(j / 8 == k && j % 8 == i);
                assert(bits_of(a)[j] == byte_bit(a[j / 8], j % 8));
                assert(bits_of(b)[j] == byte_bit(b[j / 8], j % 8));
                assert(bits_of(a)[j] == bits_of(b)[j]);
            }
            lemma_byte_bits(a[k], b[k]);
        }
        assert(a =~= b);
    }
    // the code is a prefix code of trees: reading one off a bit string has one outcome
    pub proof fn lemma_enc_inj<L: HuffLetterAsBytes>(a: HT<L>, ra: Seq<bool>, b: HT<L>, rb: Seq<bool>)
        requires enc(a) + ra == enc(b) + rb,
        ensures a == b, ra == rb,
        decreases a
    {
        let x = enc(a) + ra;
        let y = enc(b) + rb;
        assert(x[0] == enc(a)[0] && y[0] == enc(b)[0]);
        match a {
            HT::Leaf(p) => match b {
                HT::Leaf(q) => {
                    L::law_len(&p); L::law_len(&q);
                    let n = bits_of(p.be()).len() as int;
                    assert(x.subrange(1, n + 1) =~= bits_of(p.be()));
                    assert(y.subrange(1, n + 1) =~= bits_of(q.be()));
                    lemma_bits_inj(p.be(), q.be());
                    L::law_inj(&p, &q);
                    assert(x.skip(n + 1) =~= ra);
                    assert(y.skip(n + 1) =~= rb);
                }
                HT::Node(_, _) => {}
            },
            HT::Node(l, r) => match b {
                HT::Leaf(_) => {}
                HT::Node(l2, r2) => {
                    assert(x.skip(1) =~= enc(*l) + (enc(*r) + ra));
                    assert(y.skip(1) =~= enc(*l2) + (enc(*r2) + rb));
                    lemma_enc_inj(*l, enc(*r) + ra, *l2, enc(*r2) + rb);
                    lemma_enc_inj(*r, ra, *r2, rb);
                }
            },
        }
    }

    // ---- packing bits into bytes ---------------------------------------------
    // `bytes` holds the full bytes of `bits`, `byte` the bits over, the next bit
    // goes to position `ptr` (7 = most significant)
    pub open spec fn packing(bytes: Seq<u8>, byte: u8, ptr: int, bits: Seq<bool>) -> bool {
        &&& 0 <= ptr <= 7
        &&& bits.len() == 8 * bytes.len() + 7 - ptr
        &&& bits_of(bytes) == bits.take(8 * bytes.len() as int)
        &&& forall|k: int| 0 <= k < 8 ==> #[trigger] byte_bit(byte, k) == (k < 7 - ptr && bits[8 * bytes.len() + k])
    }
    pub proof fn lemma_zero_byte(k: int)
        requires 0 <= k < 8,
        ensures !byte_bit(0u8, k),
    {
        let p = (7 - k) as u8;
        assert((0u8 >> p) & 1u8 == 0u8) by (bit_vector) requires p < 8;
    }
    pub proof fn lemma_pack_new()
        ensures packing(Seq::<u8>::empty(), 0u8, 7, Seq::<bool>::empty()),
    {
        assert(bits_of(Seq::<u8>::empty()) =~= Seq::<bool>::empty().take(0));
        assert forall|k: int| 0 <= k < 8 implies !(#[trigger] byte_bit(0u8, k)) by { lemma_zero_byte(k); }
    }
    pub open spec fn b2u(b: bool) -> u8 { if b { 1u8 } else { 0u8 } }
    pub proof fn lemma_or_bit(byte: u8, ptr: u8, v: bool, k: int)
        requires ptr <= 7, 0 <= k < 8, !byte_bit(byte, 7 - ptr),
        ensures byte_bit(byte | (b2u(v) << ptr), k) == (if k == 7 - ptr { v } else { byte_bit(byte, k) }),
    {
        let q = (7 - k) as u8;
        let p = ((7 - (7 - ptr)) as u8);
        assert(p == ptr);
        let w = b2u(v);
        assert(((byte | (w << ptr)) >> q) & 1u8 == (if q == ptr { w } else { (byte >> q) & 1u8 })) by (bit_vector)
            requires ptr <= 7, q <= 7, w <= 1, (byte >> ptr) & 1u8 != 1u8;
    }
    // ways to set a bit, all the same when it is not set and neither are those below it
    pub open spec fn set_bit_forms(byte: u8, ptr: u8, v: bool) -> bool {
        &&& !v ==> byte | (b2u(v) << ptr) == byte
        &&& v ==> byte | (b2u(v) << ptr) == byte | (1u8 << ptr)
        &&& v ==> byte | (b2u(v) << ptr) == byte | (0x80u8 >> ((7 - ptr) as u8))
        &&& 1u8 << ptr == 0x80u8 >> ((7 - ptr) as u8)
        &&& (byte % 2 == 0 && ptr == 0) ==> byte + b2u(v) == byte | (b2u(v) << ptr)
    }
    pub proof fn lemma_set_bit_forms(byte: u8, ptr: u8, v: bool)
        requires ptr <= 7,
        ensures set_bit_forms(byte, ptr, v),
    {
        let q = (7 - ptr) as u8;
        assert(byte | (0u8 << ptr) == byte) by (bit_vector) requires ptr <= 7;
        assert(1u8 << ptr == 0x80u8 >> q) by (bit_vector) requires ptr <= 7, q == 7 - ptr;
        assert(byte % 2 == 0 ==> byte | (1u8 << 0u8) == byte + 1) by (bit_vector);
    }
    // ways to put two numbers into the halves of a byte
    pub proof fn lemma_nibbles()
        ensures forall|h: u8, l: u8| h < 8 && l < 8 ==> #[trigger] ((h << 4u8) | l) == h * 16 + l,
            forall|h: u8, l: u8| h < 8 && l < 8 ==> #[trigger] (l | (h << 4u8)) == h * 16 + l,
    {
        assert forall|h: u8, l: u8| h < 8 && l < 8 implies #[trigger] ((h << 4u8) | l) == h * 16 + l by {
            assert((h << 4u8) | l == h * 16 + l) by (bit_vector) requires h < 8, l < 8;
        }
        assert forall|h: u8, l: u8| h < 8 && l < 8 implies #[trigger] (l | (h << 4u8)) == h * 16 + l by {
            assert(l | (h << 4u8) == h * 16 + l) by (bit_vector) requires h < 8, l < 8;
        }
    }
    // ways to ask for a bit
    pub proof fn lemma_bit_value(byte: u8)
        ensures
            forall|k: u8| k < 8 ==> #[trigger] ((byte >> k) & 1u8) <= 1u8,
            forall|k: u8| k < 8 ==> b2u(byte_bit(byte, 7 - k)) == #[trigger] ((byte >> k) & 1u8),
    {
        assert forall|k: u8| k < 8 implies #[trigger] ((byte >> k) & 1u8) <= 1u8 && b2u(byte_bit(byte, 7 - k)) == ((byte >> k) & 1u8) by {
            assert((byte >> k) & 1u8 <= 1u8) by (bit_vector) requires k < 8;
        }
    }
    pub proof fn lemma_ask_bit_forms(byte: u8)
        ensures
            forall|k: u8| k < 8 ==> byte_bit(byte, k as int) == (#[trigger] (byte & (0x80u8 >> k)) != 0u8),
            forall|k: u8| k < 8 ==> byte_bit(byte, k as int) == (#[trigger] (byte & (1u8 << ((7 - k) as u8))) != 0u8),
            forall|k: u8| k < 8 ==> byte_bit(byte, k as int) == (#[trigger] ((byte << k) & 0x80u8) != 0u8),
    {
        assert forall|k: u8| k < 8 implies byte_bit(byte, k as int) == (#[trigger] (byte & (0x80u8 >> k)) != 0u8) by {
            let p = (7 - k) as u8;
            assert(((byte >> p) & 1u8 == 1u8) == (byte & (0x80u8 >> k) != 0u8)) by (bit_vector) requires k < 8, p == 7 - k;
        }
        assert forall|k: u8| k < 8 implies byte_bit(byte, k as int) == (#[trigger] (byte & (1u8 << ((7 - k) as u8))) != 0u8) by {
            let p = (7 - k) as u8;
            assert(((byte >> p) & 1u8 == 1u8) == (byte & (1u8 << p) != 0u8)) by (bit_vector) requires p < 8;
        }
        assert forall|k: u8| k < 8 implies byte_bit(byte, k as int) == (#[trigger] ((byte << k) & 0x80u8) != 0u8) by {
            let p = (7 - k) as u8;
            assert(((byte >> p) & 1u8 == 1u8) == ((byte << k) & 0x80u8 != 0u8)) by (bit_vector) requires k < 8, p == 7 - k;
        }
    }
    pub proof fn lemma_pack_step(bytes: Seq<u8>, byte: u8, ptr: int, bits: Seq<bool>, v: bool)
        requires packing(bytes, byte, ptr, bits),
        ensures
            ptr == 0 ==> packing(bytes.push(byte | (b2u(v) << (ptr as u8))), 0u8, 7, bits.push(v)),
            ptr > 0 ==> packing(bytes, byte | (b2u(v) << (ptr as u8)), ptr - 1, bits.push(v)),
            // other ways to write it
            set_bit_forms(byte, ptr as u8, v),
    {
        lemma_set_bit_forms(byte, ptr as u8, v);
        let nb = byte | (b2u(v) << (ptr as u8));
        let nbits = bits.push(v);
        assert(!byte_bit(byte, 7 - ptr));
        assert forall|k: int| 0 <= k < 8 implies #[trigger] byte_bit(nb, k) == (if k == 7 - ptr { v } else { byte_bit(byte, k) }) by { lemma_or_bit(byte, ptr as u8, v, k); }
        if ptr > 0 { assert(nbits.take(8 * bytes.len() as int) =~= bits.take(8 * bytes.len() as int)); }
        else {
            let nbytes = bytes.push(nb);
            let n = bytes.len() as int;
            assert(nbytes.take(n + 1) =~= nbytes);
            assert(nbytes.take(n) =~= bytes);
            lemma_bits_push(nbytes, n);
            assert(bits_of(nbytes) =~= nbits.take(8 * nbytes.len() as int)) by {
                assert forall|i: int| 0 <= i < 8 * n + 8 implies bits_of(nbytes)[i] == nbits[i] by {
                    if i < 8 * n { assert(bits_of(bytes)[i] == bits.take(8 * n)[i]); }
                    else { assert(bits8(nb)[i - 8 * n] == byte_bit(nb, i - 8 * n)); }
                }
            }
            assert forall|k: int| 0 <= k < 8 implies !(#[trigger] byte_bit(0u8, k)) by { lemma_zero_byte(k); }
        }
    }
    // a last byte padded with zeros
    pub proof fn lemma_pack_done(bytes: Seq<u8>, byte: u8, ptr: int, bits: Seq<bool>)
        requires packing(bytes, byte, ptr, bits),
        ensures
            ptr == 7 ==> bits_of(bytes) == bits,
            ptr < 7 ==> bits_of(bytes.push(byte)).len() == bits.len() + ptr + 1 && bits_of(bytes.push(byte)).take(bits.len() as int) == bits,
            ptr < 7 ==> forall|i: int| bits.len() <= i < bits.len() + ptr + 1 ==> !(#[trigger] bits_of(bytes.push(byte))[i]),
    {
        if ptr == 7 { assert(bits.take(8 * bytes.len() as int) =~= bits); }
        else {
            let nbytes = bytes.push(byte);
            let n = bytes.len() as int;
            assert(nbytes.take(n + 1) =~= nbytes);
            assert(nbytes.take(n) =~= bytes);
            lemma_bits_push(nbytes, n);
            assert forall|i: int| 0 <= i < bits.len() implies bits_of(nbytes)[i] == bits[i] by {
                if i < 8 * n { assert(bits_of(bytes)[i] == bits.take(8 * n)[i]); }
                else { assert(bits8(byte)[i - 8 * n] == byte_bit(byte, i - 8 * n)); }
            }
            assert(bits_of(nbytes).take(bits.len() as int) =~= bits);
            assert forall|i: int| bits.len() <= i < bits.len() + ptr + 1 implies !(#[trigger] bits_of(nbytes)[i]) by {
                assert(bits8(byte)[i - 8 * n] == byte_bit(byte, i - 8 * n));
            }
        }
    }

    // ---- reading the binary form ------------------------------------------------
    pub open spec fn letter_of<L: HuffLetterAsBytes>(bits: Seq<bool>) -> Option<L> {
        if exists|x: L| bits_of(#[trigger] x.be()) == bits { Some(choose|x: L| bits_of(#[trigger] x.be()) == bits) } else { None }
    }
    pub open spec fn parse<L: HuffLetterAsBytes>(s: Seq<bool>) -> Option<(HT<L>, Seq<bool>)>
        decreases s.len()
    {
        if s.len() == 0 { None }
        else if s[0] {
            match parse::<L>(s.skip(1)) {
                None => None,
                Some((l, s1)) => if s1.len() >= s.len() { None } else {
                    match parse::<L>(s1) { None => None, Some((r, s2)) => Some((HT::Node(Box::new(l), Box::new(r)), s2)) }
                },
            }
        } else {
            let n = 8 * vstd::layout::size_of::<L>() as int;
            if s.len() < 1 + n { None }
            else { match letter_of::<L>(s.subrange(1, 1 + n)) { None => None, Some(x) => Some((HT::Leaf(x), s.skip(1 + n))) } }
        }
    }
    pub proof fn lemma_letter_of<L: HuffLetterAsBytes>(x: L)
        ensures letter_of::<L>(bits_of(x.be())) == Some(x),
    {
        let y = choose|y: L| bits_of(#[trigger] y.be()) == bits_of(x.be());
        assert(bits_of(x.be()) == bits_of(x.be()));
        lemma_bits_inj(x.be(), y.be());
        L::law_inj(&x, &y);
    }
    // a tree's binary form parses to the tree, whatever follows
    pub proof fn lemma_parse_enc<L: HuffLetterAsBytes>(t: HT<L>, rest: Seq<bool>)
        ensures parse::<L>(enc(t) + rest) == Some((t, rest)),
        decreases t
    {
        let s = enc(t) + rest;
        match t {
            HT::Leaf(x) => {
                L::law_len(&x);
                let n = 8 * vstd::layout::size_of::<L>() as int;
                assert(bits_of(x.be()).len() == n);
                assert(s[0] == false);
                assert(s.subrange(1, 1 + n) =~= bits_of(x.be()));
                assert(s.skip(1 + n) =~= rest);
                lemma_letter_of(x);
            }
            HT::Node(l, r) => {
                assert(s[0] == true);
                assert(s.skip(1) =~= enc(*l) + (enc(*r) + rest));
                lemma_parse_enc(*l, enc(*r) + rest);
                lemma_parse_enc(*r, rest);
            }
        }
    }
    // and whatever parses is a tree's binary form
    pub proof fn lemma_parse_inv<L: HuffLetterAsBytes>(s: Seq<bool>)
        requires parse::<L>(s) is Some,
        ensures enc((parse::<L>(s)->0).0) + (parse::<L>(s)->0).1 == s,
        decreases s.len()
    {
        if s[0] {
            lemma_parse_inv::<L>(s.skip(1));
            let (l, s1) = parse::<L>(s.skip(1))->0;
            lemma_parse_inv::<L>(s1);
            let (r, s2) = parse::<L>(s1)->0;
            assert(enc(HT::Node(Box::new(l), Box::new(r))) + s2 =~= seq![true] + (enc(l) + (enc(r) + s2)));
            assert(seq![true] + s.skip(1) =~= s);
        } else {
            let n = 8 * vstd::layout::size_of::<L>() as int;
            let x = letter_of::<L>(s.subrange(1, 1 + n))->0;
            assert(bits_of(x.be()) == s.subrange(1, 1 + n));
            assert(enc(HT::Leaf(x)) + s.skip(1 + n) =~= s);
        }
    }
    pub proof fn lemma_facts<L: HuffLetterAsBytes>()
        ensures
            forall|a: L, b: L| #[trigger] a.be() == #[trigger] b.be() ==> a == b,
            forall|a: Seq<u8>, b: Seq<u8>| #[trigger] bits_of(a) == #[trigger] bits_of(b) ==> a == b,
            vstd::layout::size_of::<L>() * 8 <= usize::MAX,
    {
        assert forall|a: L, b: L| #[trigger] a.be() == #[trigger] b.be() implies a == b by { L::law_inj(&a, &b); }
        assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] bits_of(a) == #[trigger] bits_of(b) implies a == b by { lemma_bits_inj(a, b); }
        L::law_size();
    }
}
