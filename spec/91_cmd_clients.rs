// The properties of the command line, as lemmas about its files and as programs over the
// contracts of the library and of process_args.
pub mod vcmdclient {
    use vstd::prelude::*;
    use crate::vspec::*;
    use crate::vtree::*;
    use crate::vhuff::*;
    use crate::vcli::*;
    use crate::vcmdl::*;
    use crate::vworld::*;
    use crate::vworld::lower;
    use crate::stub::ext::*;
    use crate::huff_coding::comp::*;
    use crate::huff_coding::tree::tree_inner::*;
    use crate::huff_coding::tree::branch_heap::{best, wof};
    use crate::huff_coding::tree::letter::*;
    use crate::huff_coding::weights::byte_weights::*;
    use crate::huff_coding::weights::Weights;
    use crate::huff_coding::comp::{lib_form, unpack};
    use crate::huff::comp::lemma_all_counts;
    use crate::huff::cli::process_args;

    // what a compressed file reads as
    pub proof fn lemma_form_reads(b: Seq<u8>, t: HT<u8>, tb: Seq<u8>, dp: int, comp: Seq<u8>)
        requires
            packed(tb, enc(t)), 9 <= enc(t).len(), tb.len() < 0x1_0000_0000, 0 <= dp <= 7, comp.len() > 0,
            b == seq![((8 * tb.len() - enc(t).len()) * 16 + dp) as u8] + le_seq(tb.len() as int, 4).reverse() + tb + comp,
        ensures
            unpack::<u8>(b) == Some((t, dp, comp)), cli_unpack(b) == Some((t, dp, comp)),
            decoded(b) == run(t, bits_of(comp).take(8 * comp.len() - dp)).0,
    {
        let tp = 8 * tb.len() - enc(t).len();
        lemma_unpack(b, t, tp, dp, tb.len() as int, tb, comp);
    }
    pub proof fn lemma_is_form(s: Seq<u8>, b: Seq<u8>)
        requires is_form(s, b), s.len() > 0,
        ensures
            cli_unpack(b) is Some, decoded(b) == s,
            unpack::<u8>(b) == cli_unpack(b),
            ({ let (t, p, c) = unpack::<u8>(b)->0; run(t, bits_of(c).take(8 * c.len() - p)).0 == s }),
    {
        let t = lib_tree(s);
        let (cs, tb, comp) = choose|cs: Map<u8, Seq<bool>>, tb: Seq<u8>, comp: Seq<u8>| #[trigger] tree_codes(t, cs)
            && #[trigger] packed(tb, enc(t)) && #[trigger] packed(comp, cat_codes(s, cs))
            && form_of(b, t, tb, comp, cat_codes(s, cs).len() as int);
        lemma_cat_nonempty(s, t, cs);
        lemma_form_reads(b, t, tb, 8 * comp.len() - cat_codes(s, cs).len(), comp);
        lemma_roundtrip(t, cs, s);
    }

    // every run that decompresses these bytes has this result and no other, whatever its blocks
    pub open spec fn reads_back(b: Seq<u8>, s: Seq<u8>) -> bool {
        forall|c: Job, d: Seq<u8>| #[trigger] reads_in(c, b, d) ==> has_result(c) && (is_result(c, d) <==> d == s)
    }
    pub open spec fn reads_in(c: Job, b: Seq<u8>, d: Seq<u8>) -> bool { c.dec && c.content == b }
    // C18: the result of compressing, with whatever blocks, is a file that the tool reads,
    // and the result of decompressing it is the content
    pub proof fn c18_round_trip(a: Job, b: Seq<u8>)
        requires !a.dec, is_result(a, b),
        ensures reads_back(b, a.content),
    {
        lemma_is_form(a.content, b);
    }
    // C18: a file that process_args made of a non-empty file by compressing
    fn c18_compress(m: clap::ArgMatches, Tracked(w): Tracked<&mut World>) -> (r: bool)
        requires fresh(old(w).st), asked(m, old(w).st.job), !old(w).st.job.dec,
        ensures
            r && !declined(final(w).st) ==> exists|p: Seq<char>| #[trigger] final(w).st.names.contains_key(p) && reads_back(final(w).st.data[final(w).st.names[p]], old(w).st.job.content),
    {
        let r = process_args(m, Tracked(w));
        proof {
            let s = w.st;
            if finished(s) {
                let p = choose|p: Seq<char>| #[trigger] s.names.contains_key(p) && s.names[p] != s.job.src_ino && is_result(s.job, s.data[s.names[p]]);
                let b = s.data[s.names[p]];
                c18_round_trip(s.job, b);
            }
        }
        r.is_ok()
    }
    // C19: the form of a content is one sequence of bytes, so no block size can matter
    pub proof fn c19_one_form(s: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
        requires is_form(s, a), is_form(s, b), s.len() > 0,
        ensures a == b,
    {
        let t = lib_tree(s);
        let (ca, ta, da) = choose|cs: Map<u8, Seq<bool>>, tb: Seq<u8>, comp: Seq<u8>| #[trigger] tree_codes(t, cs)
            && #[trigger] packed(tb, enc(t)) && #[trigger] packed(comp, cat_codes(s, cs))
            && form_of(a, t, tb, comp, cat_codes(s, cs).len() as int);
        let (cb, tb, db) = choose|cs: Map<u8, Seq<bool>>, tb: Seq<u8>, comp: Seq<u8>| #[trigger] tree_codes(t, cs)
            && #[trigger] packed(tb, enc(t)) && #[trigger] packed(comp, cat_codes(s, cs))
            && form_of(b, t, tb, comp, cat_codes(s, cs).len() as int);
        lemma_cat_unique(t, ca, cb, s);
        lemma_packed_unique(ta, tb, enc(t));
        lemma_packed_unique(da, db, cat_codes(s, ca));
    }
    // C19: the library makes that form of the same content
    fn c19_library_form(s: &[u8]) -> (r: Vec<u8>)
        requires s@.len() > 0,
        ensures is_form(s@, r@),
    {
        let _ = s.len();
        proof { assert(s@.len() <= usize::MAX); lemma_all_counts(s@); }
        let t = HuffTree::from_weights(ByteWeights::from_bytes(s));
        let ghost tt = t.tree();
        proof { lemma_text_tree(&t.root, s@); }
        match compress_with_tree(s, t) {
            Ok(d) => {
                let b = d.to_bytes();
                proof {
                    lemma_compressed(tt, s@);
                    lemma_codes_for(tt);
                    let cs = codes_for(tt);
                    let tb = choose|tb: Seq<u8>| #[trigger] packed(tb, enc(tt)) && b@ == seq![((8 * tb.len() - enc(tt).len()) * 16 + d.padding_bits) as u8] + le_seq(tb.len() as int, 4).reverse() + tb + d.comp_bytes@;
                    assert(tree_codes(tt, cs) && packed(tb, enc(tt)) && packed(d.comp_bytes@, cat_codes(s@, cs)) && form_of(b@, tt, tb, d.comp_bytes@, cat_codes(s@, cs).len() as int));
                }
                b
            }
            Err(e) => { proof { assert(false); } vstd::pervasive::unreached() }
        }
    }
    // C19: the library reads what the tool writes
    fn c19_library_reads(b: &[u8], Ghost(s): Ghost<Seq<u8>>) -> (r: Vec<u8>)
        requires is_form(s, b@), s.len() > 0,
        ensures r@ == s,
    {
        proof { lemma_is_form(s, b@); }
        match CompressData::<u8>::try_from_bytes(b) { Ok(x) => decompress(&x), Err(e) => { proof { assert(false); } vstd::pervasive::unreached() } }
    }
    // C19: the tool reads whatever the library writes, as the library does
    fn c19_tool_reads(d: &CompressData<u8>) -> (r: (Vec<u8>, Vec<u8>))
        requires d.wf(), tree_fits(d.tree()),
        ensures
            r.1@ == run(d.tree(), d.bits()).0,
            reads_back(r.0@, r.1@),
    {
        let b = d.to_bytes();
        let o = decompress(d);
        proof {
            let t = d.tree();
            lemma_enc_len(t);
            let tb = choose|tb: Seq<u8>| #[trigger] packed(tb, enc(t)) && b@ == seq![((8 * tb.len() - enc(t).len()) * 16 + d.padding_bits) as u8] + le_seq(tb.len() as int, 4).reverse() + tb + d.comp_bytes@;
            lemma_form_reads(b@, t, tb, d.padding_bits as int, d.comp_bytes@);
        }
        (b, o)
    }
    // C20: whatever the file to decompress holds, the run ends; with success only if the file can be read
    fn c20_any_file(m: clap::ArgMatches, Tracked(w): Tracked<&mut World>) -> (r: bool)
        requires fresh(old(w).st), asked(m, old(w).st.job), old(w).st.job.dec,
        ensures r && !declined(final(w).st) ==> cli_unpack(old(w).st.job.content) is Some,
    {
        process_args(m, Tracked(w)).is_ok()
    }
    // C20: what the header must say
    pub proof fn c20_malformed(b: Seq<u8>)
        ensures
            b.len() < 5 ==> cli_unpack(b) is None,
            b[0] / 16 > 7 || b[0] % 16 > 7 ==> cli_unpack(b) is None,
            b.len() < 5 + le_int(b.subrange(1, 5).reverse()) ==> cli_unpack(b) is None,
    {}
    // C21: a failure is not a success, and success is the whole result
    fn c21_reported(m: clap::ArgMatches, Tracked(w): Tracked<&mut World>) -> (r: bool)
        requires fresh(old(w).st), asked(m, old(w).st.job),
        ensures
            final(w).st.failed ==> !r,
            r ==> finished(final(w).st) || declined(final(w).st),
            !r && !final(w).st.faulty ==> excused(final(w).st),
    {
        process_args(m, Tracked(w)).is_ok()
    }
    // C22: the source, and everything else
    fn c22_source(m: clap::ArgMatches, Tracked(w): Tracked<&mut World>) -> (r: bool)
        requires fresh(old(w).st), asked(m, old(w).st.job),
        ensures
            final(w).st.data.contains_key(old(w).st.job.src_ino) && final(w).st.data[old(w).st.job.src_ino] == old(w).st.job.content,
            old(w).st.names.contains_key(old(w).st.job.src) && !final(w).st.names.contains_key(old(w).st.job.src) ==> old(w).st.job.replace && finished(final(w).st),
            consent(final(w).st) || untouched(old(w).st.data, final(w).st.data),
            declined(final(w).st) ==> final(w).st.names == old(w).st.names && final(w).st.data == old(w).st.data,
    {
        process_args(m, Tracked(w)).is_ok()
    }
    // C23: a size without meaning is an error that changes nothing; one with a meaning is no reason to fail
    fn c23_block_size(m: clap::ArgMatches, Tracked(w): Tracked<&mut World>) -> (r: bool)
        requires fresh(old(w).st), asked(m, old(w).st.job),
        ensures
            meaning(m.arg("block-size"@)->0) is None ==> !r && final(w).st.names == old(w).st.names && final(w).st.data == old(w).st.data,
    {
        process_args(m, Tracked(w)).is_ok()
    }
    // C23: some sizes and what they mean
    pub proof fn c23_meaning(s: Seq<char>, n: Seq<char>, u: Seq<char>)
        requires lower(s) == n + u, all_digits(n), u.len() > 0 ==> !is_digit(u[0]),
        ensures
            meaning(s) is Some <==> n.len() > 0 && unit_of(u) is Some && decimal(n) > 0 && decimal(n) * unit_of(u)->0 <= usize::MAX,
            meaning(s) is Some ==> meaning(s)->0 == decimal(n) * unit_of(u)->0,
    {
        lemma_lead(n, u);
        lemma_decimal(n);
    }
    // C25: the result is there, and nothing else was made or changed
    fn c25_where(m: clap::ArgMatches, Tracked(w): Tracked<&mut World>) -> (r: bool)
        requires fresh(old(w).st), asked(m, old(w).st.job),
        ensures
            r && !declined(final(w).st) ==> lies(final(w).st, target(old(w).st.job)),
            only_at(old(w).st, final(w).st, target(old(w).st.job)),
            old(w).st.job.dec && path::extension_of(old(w).st.job.src) != Some("hff"@) ==> !r && final(w).st.names == old(w).st.names && final(w).st.data == old(w).st.data,
    {
        process_args(m, Tracked(w)).is_ok()
    }
    proof fn lemma_last_dot(n: Seq<char>)
        ensures
            n.len() > 0 ==> 0 <= path::last_dot(n) < n.len(),
            path::last_dot(n) > 0 ==> n[path::last_dot(n)] == '.',
        decreases n.len()
    {
        if n.len() > 0 && n.last() != '.' {
            lemma_last_dot(n.drop_last());
            if path::last_dot(n) > 0 { assert(n.drop_last().len() > 0); assert(n.drop_last()[path::last_dot(n)] == n[path::last_dot(n)]); }
        }
    }
    proof fn lemma_hff(m: Seq<char>)
        ensures path::last_dot(m + ".hff"@) == m.len(), (m + ".hff"@).take(m.len() as int) == m, (m + ".hff"@).skip(m.len() as int + 1) == "hff"@,
    {
        reveal_strlit(".hff"); reveal_strlit("hff");
        let n = m + ".hff"@;
        assert(n.drop_last() =~= m + seq!['.', 'h', 'f']);
        assert(n.drop_last().drop_last() =~= m + seq!['.', 'h']);
        assert(n.drop_last().drop_last().drop_last() =~= m + seq!['.']);
        reveal_with_fuel(path::last_dot, 6);
        assert(n.take(m.len() as int) =~= m);
        assert(n.skip(m.len() as int + 1) =~= "hff"@);
    }
    // one more extension
    proof fn lemma_longer(d: Seq<char>, n: Seq<char>)
        requires path::dir_prefix(d), path::plain(n),
        ensures ({
            let e = if path::extension_of(d + n) is Some { path::extension_of(d + n)->0 } else { ""@ };
            path::with_ext(d + n, if e.len() == 0 { "hff"@ } else { e + "."@ + "hff"@ }) == d + n + ".hff"@
        }),
    {
        reveal_strlit(".hff"); reveal_strlit("hff"); reveal_strlit("."); reveal_strlit("");
        assert(".hff"@ =~= "."@ + "hff"@);
        let k = path::last_dot(n);
        lemma_last_dot(n);
        path::axiom_path(d, n, "hff"@);
        if k > 0 {
            let e = n.skip(k + 1);
            if k == n.len() - 1 { assert(n.last() == '.'); }
            assert forall|i: int| 0 <= i < e.len() implies e[i] != '/' by { assert(e[i] == n[k + 1 + i]); assert(n.contains(n[k + 1 + i])); }
            let x = e + "."@ + "hff"@;
            assert(!x.contains('/'));
            path::axiom_path(d, n, x);
            assert(d + (n.take(k) + ("."@ + x)) =~= d + n + ".hff"@);
            assert(d + n.take(k) + ("."@ + x) =~= d + n + ".hff"@);
        } else {
            assert(d + n + ("."@ + "hff"@) =~= d + n + ".hff"@);
        }
    }
    // C25: no destination given: the source's name, here
    pub proof fn c25_default(j: Job, m: Seq<char>)
        requires j.dst == "./SRC_FILE.hff"@,
        ensures
            !j.dec && path::plain(m) && path::file_name_of(j.src) == Some(m) ==> target(j) == "./"@ + m + ".hff"@,
            j.dec && m.len() > 0 && path::plain(m + ".hff"@) && path::file_name_of(j.src) == Some(m + ".hff"@) ==> target(j) == "./"@ + m,
    {
        reveal_strlit("./"); reveal_strlit(""); reveal_strlit(".hff");
        path::axiom_named();
        path::axiom_same_path(j.dst, j.dst);
        assert("./"@.last() == '/');
        if !j.dec && path::plain(m) && path::file_name_of(j.src) == Some(m) {
            path::axiom_path("./"@, m, ""@);
            lemma_longer("./"@, m);
        }
        if j.dec && m.len() > 0 && path::plain(m + ".hff"@) && path::file_name_of(j.src) == Some(m + ".hff"@) {
            let n = m + ".hff"@;
            path::axiom_path("./"@, n, ""@);
            path::axiom_same_path("./"@ + n, "./"@ + n);
            lemma_hff(m);
            assert("./"@ + m + ""@ =~= "./"@ + m);
        }
    }
    // C25: a destination given
    pub proof fn c25_given(j: Job, d: Seq<char>, n: Seq<char>)
        requires j.dst == d + n, path::dir_prefix(d), path::plain(n), n != "SRC_FILE.hff"@,
        ensures
            !j.dec ==> target(j) == j.dst + ".hff"@,
            j.dec && path::file_name_of(j.src) != Some(n) && path::file_name_of(j.src) is Some && path::plain(path::file_name_of(j.src)->0) ==> target(j) == j.dst,
    {
        reveal_strlit("./"); reveal_strlit("SRC_FILE.hff"); reveal_strlit("./SRC_FILE.hff"); reveal_strlit("");
        let s = "SRC_FILE.hff"@;
        assert("./SRC_FILE.hff"@ =~= "./"@ + s);
        assert(s[0] == 'S' && s.last() == 'f');
        assert(path::plain(s));
        path::axiom_path("./"@, s, ""@);
        path::axiom_path(d, n, ""@);
        path::axiom_same_path(j.dst, "./"@ + s);
        if !j.dec { lemma_longer(d, n); }
        else if path::file_name_of(j.src) is Some && path::plain(path::file_name_of(j.src)->0) {
            let f = path::file_name_of(j.src)->0;
            path::axiom_path("./"@, f, ""@);
            path::axiom_same_path(j.dst, "./"@ + f);
        }
    }
    // C25: what is decompressed
    pub proof fn c25_named(d: Seq<char>, n: Seq<char>)
        requires path::dir_prefix(d), path::plain(n),
        ensures path::extension_of(d + n) == Some("hff"@) <==> n.len() > 4 && n.skip(n.len() - 4) == ".hff"@,
    {
        reveal_strlit(""); reveal_strlit("hff"); reveal_strlit(".hff");
        path::axiom_path(d, n, ""@);
        lemma_last_dot(n);
        let k = path::last_dot(n);
        if k > 0 && n.skip(k + 1) == "hff"@ {
            assert(n.skip(k + 1).len() == 3);
            assert(n.skip(k) =~= seq!['.'] + n.skip(k + 1));
            assert(n.skip(n.len() - 4) =~= ".hff"@);
        }
        if n.len() > 4 && n.skip(n.len() - 4) == ".hff"@ {
            let m = n.take(n.len() - 4);
            assert(n =~= m + n.skip(n.len() - 4));
            lemma_hff(m);
        }
    }
}
