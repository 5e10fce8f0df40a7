// What the command line's files mean.
pub mod vcli {
    use vstd::arithmetic::power::pow;
    use vstd::prelude::*;
    use crate::vspec::*;
    use crate::vtree::*;
    use crate::vworld::*;
    use crate::stub::ext::*;
    use crate::vcmdl::lone;
    use crate::huff_coding::tree::tree_inner::lib_tree;

    // a compressed file: paddings, the length of the tree, the tree, the data
    pub open spec fn cli_unpack(b: Seq<u8>) -> Option<(HT<u8>, int, Seq<u8>)> {
        let tp = b[0] as int / 16;
        let dp = b[0] as int % 16;
        let tl = le_int(b.subrange(1, 5).reverse());
        let rest = parse::<u8>(bits_of(b.subrange(5, 5 + tl)).take(8 * tl - tp));
        if b.len() < 5 || tp > 7 || dp > 7 || tl < 1 || b.len() < 5 + tl { None }
        else if rest is None || (rest->0).1.len() > 0 { None }
        else { Some(((rest->0).0, dp, b.skip(5 + tl))) }
    }
    // the data of a compressed file: walk the tree along all bits but the padding
    pub open spec fn walked(t: HT<u8>, dp: int, d: Seq<u8>) -> Seq<u8> {
        if d.len() == 0 { Seq::empty() } else { run(t, bits_of(d).take(8 * d.len() - dp)).0 }
    }
    pub open spec fn decoded(b: Seq<u8>) -> Seq<u8> {
        let u = cli_unpack(b)->0;
        walked(u.0, u.1, u.2)
    }
    pub open spec fn form_of(b: Seq<u8>, t: HT<u8>, tb: Seq<u8>, comp: Seq<u8>, n: int) -> bool {
        b == seq![((8 * tb.len() - enc(t).len()) * 16 + (8 * comp.len() - n)) as u8] + le_seq(tb.len() as int, 4).reverse() + tb + comp
    }
    // b is the library's byte form of s, coded with the library's tree for s
    pub open spec fn is_form(s: Seq<u8>, b: Seq<u8>) -> bool {
        let t = lib_tree(s);
        all_in(s, t) && lone(t) && 9 <= enc(t).len() <= 2559 && exists|cs: Map<u8, Seq<bool>>, tb: Seq<u8>, comp: Seq<u8>| #[trigger] tree_codes(t, cs)
            && #[trigger] packed(tb, enc(t)) && #[trigger] packed(comp, cat_codes(s, cs))
            && form_of(b, t, tb, comp, cat_codes(s, cs).len() as int)
    }
    // the result that a file stands for
    pub open spec fn has_result(j: Job) -> bool { if j.dec { cli_unpack(j.content) is Some } else { j.content.len() > 0 } }
    pub open spec fn is_result(j: Job, b: Seq<u8>) -> bool {
        has_result(j) && if j.dec { b == decoded(j.content) } else { is_form(j.content, b) }
    }
    // the result lies under some name, in a file that is not the source
    pub open spec fn finished(s: St) -> bool {
        exists|p: Seq<char>| #[trigger] s.names.contains_key(p) && s.names[p] != s.job.src_ino && is_result(s.job, s.data[s.names[p]])
    }

    pub open spec fn zeros(n: nat) -> Seq<bool> { Seq::new(n, |i: int| false) }
    pub proof fn lemma_pack_zeros(n: int)
        requires 0 <= n <= 7,
        ensures packing(Seq::<u8>::empty(), 0u8, 7 - n, zeros(n as nat)),
    {
        assert(bits_of(Seq::<u8>::empty()) =~= zeros(n as nat).take(0));
        assert forall|k: int| 0 <= k < 8 implies !(#[trigger] byte_bit(0u8, k)) by { lemma_zero_byte(k); }
    }
    pub proof fn lemma_pack_packed(bytes: Seq<u8>, byte: u8, ptr: int, bits: Seq<bool>)
        requires packing(bytes, byte, ptr, bits),
        ensures ptr == 7 ==> packed(bytes, bits), ptr < 7 ==> packed(bytes.push(byte), bits),
    {
        lemma_pack_done(bytes, byte, ptr, bits);
        if ptr == 7 { assert(bits_of(bytes).take(bits.len() as int) =~= bits); }
    }
    pub proof fn axiom_dev_ino_all()
        ensures forall|a: int, b: int| #[trigger] fs::Metadata::dev_of(a) == #[trigger] fs::Metadata::dev_of(b) && fs::Metadata::ino_of(a) == fs::Metadata::ino_of(b) ==> a == b,
    {
        assert forall|a: int, b: int| #[trigger] fs::Metadata::dev_of(a) == #[trigger] fs::Metadata::dev_of(b) && fs::Metadata::ino_of(a) == fs::Metadata::ino_of(b) implies a == b by { fs::axiom_dev_ino(a, b); }
    }
    // ---- block sizes
    pub open spec fn lead(s: Seq<char>) -> int
        decreases s.len()
    {
        if s.len() > 0 && is_digit(s[0]) { 1 + lead(s.skip(1)) } else { 0 }
    }
    pub open spec fn unit_of(u: Seq<char>) -> Option<int> {
        if u == ""@ { Some(1) }
        else if u == "k"@ { Some(1_000) }
        else if u == "m"@ { Some(1_000_000) }
        else if u == "g"@ { Some(1_000_000_000) }
        else if u == "ki"@ { Some(1024) }
        else if u == "mi"@ { Some(1_048_576) }
        else if u == "gi"@ { Some(1_073_741_824) }
        else { None }
    }
    // digits, then a unit or none, in either case
    pub open spec fn meaning(s: Seq<char>) -> Option<int> {
        let l = lower(s);
        let k = lead(l);
        let u = unit_of(l.skip(k));
        if k == 0 || u is None { None }
        else if decimal(l.take(k)) == 0 || decimal(l.take(k)) * u->0 > usize::MAX { None }
        else { Some(decimal(l.take(k)) * u->0) }
    }
    pub proof fn lemma_lead(n: Seq<char>, r: Seq<char>)
        requires all_digits(n), r.len() > 0 ==> !is_digit(r[0]),
        ensures lead(n + r) == n.len(), (n + r).take(n.len() as int) == n, (n + r).skip(n.len() as int) == r,
        decreases n.len()
    {
        assert((n + r).take(n.len() as int) =~= n);
        assert((n + r).skip(n.len() as int) =~= r);
        if n.len() > 0 {
            assert((n + r)[0] == n[0]);
            assert((n + r).skip(1) =~= n.skip(1) + r);
            assert forall|i: int| 0 <= i < n.skip(1).len() implies is_digit(#[trigger] n.skip(1)[i]) by { assert(n.skip(1)[i] == n[i + 1]); }
            lemma_lead(n.skip(1), r);
        } else { assert(n + r =~= r); }
    }
    pub proof fn lemma_decimal(s: Seq<char>)
        requires all_digits(s),
        ensures decimal(s) >= 0,
        decreases s.len()
    {
        if s.len() > 0 {
            assert(is_digit(s[s.len() - 1]));
            assert forall|i: int| 0 <= i < s.drop_last().len() implies is_digit(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
            lemma_decimal(s.drop_last());
        }
    }
    // the number and the unit of a text
    pub proof fn lemma_parts(l: Seq<char>)
        ensures
            forall|n: Seq<char>, r: Seq<char>| #[trigger] (n + r) == l && all_digits(n) && (r.len() > 0 ==> !is_digit(r[0])) ==> lead(l) == n.len() && l.take(lead(l)) == n && l.skip(lead(l)) == r && decimal(n) >= 0,
            forall|s: Seq<char>| #[trigger] all_digits(s) && s.len() > 0 ==> parsed::<usize>(s) == (if decimal(s) <= usize::MAX { Some(decimal(s) as usize) } else { None }) && decimal(s) >= 0,
            forall|s: Seq<char>| s.len() == 0 ==> #[trigger] parsed::<usize>(s) is None,
    {
        assert forall|n: Seq<char>, r: Seq<char>| #[trigger] (n + r) == l && all_digits(n) && (r.len() > 0 ==> !is_digit(r[0])) implies lead(l) == n.len() && l.take(lead(l)) == n && l.skip(lead(l)) == r && decimal(n) >= 0 by { lemma_lead(n, r); lemma_decimal(n); }
        assert forall|s: Seq<char>| #[trigger] all_digits(s) && s.len() > 0 implies parsed::<usize>(s) == (if decimal(s) <= usize::MAX { Some(decimal(s) as usize) } else { None }) && decimal(s) >= 0 by { axiom_parsed(s); lemma_decimal(s); }
        assert forall|s: Seq<char>| s.len() == 0 implies #[trigger] parsed::<usize>(s) is None by { axiom_parsed(s); }
    }
    // the texts of units differ
    pub proof fn lemma_units()
        ensures
            forall|x: int, u: int| x >= 0 && u >= 1 ==> #[trigger] (x * u) >= x,
            ""@.len() == 0, "k"@ == seq!['k'], "m"@ == seq!['m'], "g"@ == seq!['g'], "ki"@ == seq!['k', 'i'], "mi"@ == seq!['m', 'i'], "gi"@ == seq!['g', 'i'],
    {
        assert forall|x: int, u: int| x >= 0 && u >= 1 implies #[trigger] (x * u) >= x by { assert(x * u >= x) by (nonlinear_arith) requires x >= 0, u >= 1; }
        reveal_strlit(""); reveal_strlit("k"); reveal_strlit("m"); reveal_strlit("g"); reveal_strlit("ki"); reveal_strlit("mi"); reveal_strlit("gi");
        assert("k"@ =~= seq!['k']); assert("m"@ =~= seq!['m']); assert("g"@ =~= seq!['g']); assert("ki"@ =~= seq!['k', 'i']); assert("mi"@ =~= seq!['m', 'i']); assert("gi"@ =~= seq!['g', 'i']);
    }
    // other ways to write the multipliers
    pub proof fn lemma_powers()
        ensures
            1usize << 10 == 1024, 1usize << 20 == 1_048_576, 1usize << 30 == 1_073_741_824,
            pow(1024, 1) == 1024, pow(1024, 2) == 1_048_576, pow(1024, 3) == 1_073_741_824,
            pow(1000, 1) == 1000, pow(1000, 2) == 1_000_000, pow(1000, 3) == 1_000_000_000,
            pow(10, 3) == 1000, pow(10, 6) == 1_000_000, pow(10, 9) == 1_000_000_000,
            pow(2, 10) == 1024, pow(2, 20) == 1_048_576, pow(2, 30) == 1_073_741_824,
            pow(1024, 0) == 1, pow(1000, 0) == 1, pow(2, 0) == 1, pow(10, 0) == 1,
    {
        assert(1usize << 10 == 1024) by (bit_vector); assert(1usize << 20 == 1_048_576) by (bit_vector); assert(1usize << 30 == 1_073_741_824) by (bit_vector);
        reveal_with_fuel(pow, 31);
    }
    // ---- where the result goes
    // the destination given, or the source's name here; one more extension, or one less
    pub open spec fn target(j: Job) -> Seq<char> {
        let n = path::file_name_of(j.src)->0;
        let d = if path::same_path(j.dst, "./SRC_FILE.hff"@) { path::pushed(path::named(j.dst, ""@), n) } else { j.dst };
        let e = if path::extension_of(d) is Some { path::extension_of(d)->0 } else { ""@ };
        if j.dec { if path::same_path(d, path::pushed("./"@, n)) { path::with_ext(d, ""@) } else { d } }
        else { path::with_ext(d, if e.len() == 0 { "hff"@ } else { e + "."@ + "hff"@ }) }
    }
    pub open spec fn lies(s: St, p: Seq<char>) -> bool {
        s.names.contains_key(p) && s.names[p] != s.job.src_ino && is_result(s.job, s.data[s.names[p]])
    }
    // nothing but the file of that name was made or changed
    pub open spec fn only_at(a: St, b: St, p: Seq<char>) -> bool {
        &&& forall|q: Seq<char>| #[trigger] b.names.contains_key(q) ==> if a.names.contains_key(q) { b.names[q] == a.names[q] } else { b.names.contains_key(p) && b.names[q] == b.names[p] }
        &&& forall|i: int| #[trigger] a.data.contains_key(i) && !(a.names.contains_key(p) && a.names[p] == i) ==> b.data.contains_key(i) && b.data[i] == a.data[i]
    }
    // ---- what a run is asked for
    pub open spec fn asked(m: clap::ArgMatches, j: Job) -> bool {
        &&& m.arg("SRC_FILE"@) == Some(j.src) && m.arg("DST_FILE"@) == Some(j.dst) && m.arg("block-size"@) is Some
        &&& j.block == meaning(m.arg("block-size"@)->0)
        &&& j.dec == m.flag("decompress"@) && j.noask == m.flag("noask"@) && j.replace == m.flag("replace"@)
    }
    pub open spec fn fresh(s: St) -> bool {
        s.wf() && !s.failed && !s.faulty && !s.answered && !s.agreed && s.tried.is_empty() && s.dirs.is_empty()
    }
    pub open spec fn consent(s: St) -> bool { s.job.noask || (s.answered && s.agreed) }
    pub open spec fn declined(s: St) -> bool { s.answered && !s.agreed }
    // the bytes of every file that had a name are as they were
    pub open spec fn untouched(a: Map<int, Seq<u8>>, b: Map<int, Seq<u8>>) -> bool { forall|i: int| #[trigger] a.contains_key(i) ==> b.contains_key(i) && b[i] == a[i] }
    pub proof fn lemma_untouched(a: Map<int, Seq<u8>>)
        ensures untouched(a, a),
    {}
    // why a run can fail although nothing it depends on failed
    pub open spec fn excused(s: St) -> bool {
        let j = s.job;
        ||| j.block is None
        ||| path::file_name_of(j.src) is None
        ||| j.dec && path::extension_of(j.src) != Some("hff"@)
        ||| !s.dirs.is_empty()
        ||| exists|q: Seq<char>| s.tried.contains(q) && #[trigger] s.names.contains_key(q) && s.names[q] == j.src_ino
        ||| !s.regular.contains(j.src_ino)
        ||| !has_result(j)
    }
}
