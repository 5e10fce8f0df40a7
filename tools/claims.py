# per property: the functions whose every obligation the check demands, the theorems
# (programs or lemmas over the contracts, spec/9*.rs and spec/0*.rs), the assurance
LETTERS = "the letter type keeps the contract of its traits: Clone, Eq and Hash agree with equality, its byte form has the type's length and is injective"
NOTE0 = "Deductive proof for all inputs on the code extracted from /repo on every run; trusts Verus/Z3, the extraction rules of DESIGN.md and the assumed contracts listed in the evidence (bitvec, HashMap, std). "
HEAP = [H+"tree::branch_heap::*", H+"tree::tree_inner::HuffTree::from_weights", H+"weights::*Weights::*"]
MAPF = [H+"weights::build_weights_map", H+"weights::build_weights_map_with_hasher"]
X = "huff::"
HUFF = [X+"utils::*", X+"comp::*", X+"cli::*", X+"error::*", X+"main::main"]
SOFT = [H+"tree::*::Ord::cmp", H+"tree::*::PartialOrd::partial_cmp", H+"tree::*::PartialEq::eq"]
LIBC = COMP+CODES+BR+ROOTF+HEAP+BIN+BWBASE+ADD+ITER+[H+"utils::calc_padding_bits"]
NOTE1 = "Deductive proof for all inputs on the huff crate's functions (main included), extracted from /repo on every run, over a ghost model of the file system whose operations carry assumed contracts (std::fs, std::io, clap); trusts Verus/Z3, the extraction rules of DESIGN.md and those contracts. "
CLAIMS = {
"C01": dict(fns=COMP+[H+"comp::compress"]+CODES+BR+ROOTF+HEAP+MAPF+[H+"utils::calc_padding_bits"], theorems=["c01_round_trip", "lemma_roundtrip", "lemma_all_in"], note=NOTE0+"compress, decompress and all they call (counting, the heap, tree building, code reading, packing) are under contract; the round trip is the theorem over compress and decompress alone. Letter types whose Eq, Hash and Clone disagree are outside."),
"C04": dict(fns=COMP+[H+"comp::compress"]+CODES+BR+ROOTF+HEAP+MAPF+ITER, theorems=["c04_tree_optimal", "c04_compress_optimal", "lemma_optimal", "lemma_exchange", "lemma_kraft"], note=NOTE0+"HuffBranchHeap is proved to merge the two least branches until one is left; that this costs no more than any prefix code is Huffman's theorem, proved here (exchange argument and Kraft). std's BinaryHeap is an assumed contract: pop yields a greatest item. Weights whose sum exceeds usize are outside."),
"C17": dict(fns=HEAP+BR+ITER, theorems=["c17_leaves"], note=NOTE0+"The multiset of leaves is an invariant of the merging. Weights whose sum exceeds usize are outside (they panic or wrap)."),
"C02": dict(fns=COMP+CODES+BR+ROOTF+[H+"utils::calc_padding_bits"], theorems=["c02_supplied_tree", "lemma_roundtrip"], note=NOTE0+"compress_with_tree and decompress are proved against the mathematical code tree; their composition is the theorem."),
"C03": dict(fns=CODES+BR+ROOTF+HEAP+[H+"tree::tree_inner::HuffTree::try_from_bin*"], theorems=["c03_codes", "lemma_codes_prefix_free"], note=NOTE0+"Every constructor establishes the tree invariant; read_codes is proved to return each leaf's path; prefix-freeness is a lemma."),
"C05": dict(fns=BIN+BR+ROOTF, theorems=["c05_tree_round_trip", "lemma_parse_enc"], note=NOTE0+"as_bin and try_from_bin are proved equal to a mathematical encoder and parser, inverse by lemma. Letters of size 0 are outside."),
"C06": dict(fns=BIN+BR, theorems=["lemma_parse_inv"], note=NOTE0+"try_from_bin is proved to accept exactly the encodings, no panic; recursion as deep as the tree is assumed to fit the stack (known finding: about two million one-bits overflow it)."),
"C07": dict(fns=BIN+BYTES+BR+ROOTF, theorems=["c07_bytes_round_trip", "lemma_unpack"], note=NOTE0+"to_bytes and try_from_bytes are proved against one mathematical layout; trees up to the 32-bit length field."),
"C08": dict(fns=BIN+BYTES+BR, theorems=["c08_any_bytes", "lemma_parse_inv"], note=NOTE0+"try_from_bytes is proved total (no panic obligation left) and exact; stack depth assumed to suffice."),
"C09": dict(fns=BWBASE, theorems=["lemma_nonzero_upd"], note=NOTE0+"from_bytes is proved to count exactly, len is an invariant of the table."),
"C10": dict(fns=BWBASE+ADD+ITER+[BW+"ByteWeights::threaded_from_bytes", H+"utils::ration_vec"], theorems=["c10_threads"], note=NOTE0+"ration_vec is proved to split without loss, the merge to add; thread::spawn/join is an assumed contract: join returns what the closure returns, whatever the schedule (the closures share nothing)."),
"C11": dict(fns=BWBASE+ADD+ITER, theorems=["c11_add"], note=NOTE0+"Sums beyond usize are outside (they panic or wrap)."),
"C12": dict(fns=BWBASE+ITER, theorems=["c12_iterate", "lemma_pairs_order"], note=NOTE0+"Both iterators are proved against the sequence of present bytes."),
"C13": dict(fns=[H+"weights::build_weights_map", H+"weights::build_weights_map_with_hasher"], theorems=[], note=NOTE0+"Hashers are any that are valid for HashMap (vstd's builds_valid_hashers)."),
"C14": dict(fns=COMP+CODES+BR+ROOTF+[H+"utils::calc_padding_bits"], theorems=["lemma_pack_step", "lemma_pack_done"], note=NOTE0+"compress_with_tree is proved to store exactly the codes' bits and zero padding below 8 bits."),
"C15": dict(fns=[H+"comp::decompress", H+"comp::CompressData::*"]+BR+ROOTF, theorems=["c08_any_bytes"], note=NOTE0+"decompress is proved equal to walking the mathematical tree."),
"C16": dict(fns=[H+"tree::letter::*"], theorems=["c16_letter", "c16_wrong_length"], note=NOTE0+"All twelve integer letter types, against mathematical big-endian bytes; to_be_bytes and from_be_bytes are assumed std contracts."),
"C24": dict(fns=BWBASE+[BW+"ByteWeights::*", H+"weights::*Weights::*"]+ITER, theorems=[], note=NOTE0+"get, get_mut, len, is_empty and iteration are proved against the table; get_mut to 0 is outside (documented precondition)."),
"C18": dict(fns=HUFF+LIBC, theorems=["c18_round_trip", "c18_compress", "lemma_is_form"], soft=SOFT, note=NOTE1+"Both directions of the tool are proved against one description of the file (header, tree, codes), from which the block sizes have vanished; the round trip is a lemma about that description."),
"C19": dict(fns=HUFF+LIBC+BYTES, theorems=["c19_one_form", "c19_library_form", "c19_library_reads", "c19_tool_reads"], soft=SOFT, note=NOTE1+"The tool's loops and the library's to_bytes and try_from_bytes are proved against the same byte layout, which is unique for a content. Assumed: the library builds the same tree for the same sequence of weights (it has no source of chance)."),
"C20": dict(fns=[X+"main::main", X+"cli::process_args", X+"comp::read_decompress_write", X+"comp::decompress_to_writer", X+"utils::is_same_file", X+"error::Error::*"]+BIN+BR+ROOTF, theorems=["c20_any_file", "c20_malformed"], soft=SOFT, note=NOTE1+"No panic obligation is left in process_args and all it calls when decompressing, whatever the file; success implies the file has a reading. Recursion as deep as the tree is assumed to fit the stack (known finding)."),
"C21": dict(fns=HUFF, theorems=["c21_reported"], soft=SOFT, note=NOTE1+"A ghost flag records every operation that fails; Ok implies it is unset, and that the bytes of the result are all written and flushed (a file with buffered writes has unknown bytes until flush succeeds). main returns what process_args returns; what clap and the kernel do is outside."),
"C22": dict(fns=HUFF, theorems=["c22_source"], soft=SOFT, note=NOTE1+"create, write and remove carry preconditions (not the source, agreed, finished) that every call must meet, and process_args' contract speaks of all names and bytes before and after. Other processes changing the files meanwhile are outside."),
"C23": dict(fns=[X+"cli::process_args", X+"comp::*", X+"main::main"], theorems=["c23_block_size", "c23_meaning"], soft=SOFT, note=NOTE1+"The size handed on is proved equal to a mathematical reading of the text, and a text without reading ends in an error; buffers never exceed what is left of the file. std's parse and to_lowercase are assumed contracts."),
"C25": dict(fns=HUFF, theorems=["c25_where", "c25_default", "c25_given", "c25_named"], soft=SOFT+[X+"comp::*_to_writer", X+"utils::calc_padding_bits"], note=NOTE1+"The destination is proved to be a term over std's path functions, and what that term is for default and for given names follows from axiom_path and two more axioms about those functions, which are assumptions (the concrete runs sample them)."),
}
for k in ("C18", "C19", "C20", "C21", "C22", "C23", "C25"): CLAIMS[k].update(cli=True, only="", quick_s=15)
for k in ("C01", "C03", "C17"): CLAIMS[k]["soft"] = SOFT
NOT = {}
