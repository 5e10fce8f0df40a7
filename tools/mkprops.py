#!/usr/bin/env python3
# writes properties.jsonl (the list below is its source)
import json, os
HC = "huff_coding/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Compression is lossless",
  "Compressing any non-empty sequence of letters, of any letter type, succeeds, and decompressing the result gives back exactly that sequence: same letters, same order, same length. This includes sequences with one distinct letter, every alphabet size, and every skew of frequencies.",
  ["inputs"], "every non-empty sequence of letters whose count fits in the machine's word",
  "The tests compress a handful of short literals and one generated text; the guarantee is about every sequence, alphabet and frequency profile (deep trees, codes longer than a byte or word, streams ending at every bit offset).",
  [HC+"comp.rs", HC+"tree/tree_inner.rs", HC+"tree/branch_heap.rs", HC+"weights.rs"],
  [("compress", "huff_coding::comp::compress"), ("decompress", "huff_coding::comp::decompress"), ("code assignment", "HuffTree::from_weights / set_codes_in_child_branches")],
  observe=["compress", "decompress"])
p("C02", "Compressing with a supplied tree: lossless, or the first missing letter",
  "Compressing a non-empty sequence with a tree the caller supplies succeeds exactly when every letter of the sequence is in that tree, and then decompressing gives the sequence back and the tree comes back unchanged. Otherwise the call returns an error, never panics, and the error names the first letter of the sequence that the tree does not contain.",
  ["inputs"], "every valid tree and every non-empty sequence of letters of its type, contained in the tree or not",
  "Tests use trees built from the data itself and one missing letter; any tree (foreign, deserialised, single-letter, larger than the data) and any position of a missing letter must work.",
  [HC+"comp.rs", HC+"tree/tree_inner.rs"],
  [("compress_with_tree", "huff_coding::comp::compress_with_tree"), ("CompressError", "huff_coding::comp::errors"), ("read_codes", "HuffTree::read_codes")],
  observe=["compress_with_tree", "CompressError::missing_letter"])
p("C03", "Codes are the tree's paths: one per letter, non-empty, prefix-free",
  "For every tree, whether built from weights or read from binary, the code reported for a letter is exactly the path from the root to that letter's leaf (left 0, right 1; the single letter of a one-letter tree has code 0). Each letter of the tree has exactly one code and no other letter has any, no code is empty, and no code is a prefix of another letter's code.",
  ["inputs"], "every tree that the crate's constructors can build, for every letter type",
  "Tests compare the codes of a few hand-made weight tables; the relation between codes and tree shape must hold for every tree.",
  [HC+"tree/tree_inner.rs", HC+"tree/branch.rs", HC+"tree/leaf.rs"],
  [("read_codes", "HuffTree::read_codes / read_codes_with_hasher"), ("set_codes", "HuffTree::set_codes_in_child_branches"), ("try_from_bin", "HuffTree::try_from_bin")],
  observe=["HuffTree::read_codes", "HuffTree::root"])
p("C04", "Built codes are optimal",
  "For any non-empty table of letter weights, the tree built from it minimises the weighted total of code lengths: no other prefix code on the same letters needs fewer bits in total. In particular the compressed size never exceeds that of a fixed-length code.",
  ["inputs"], "every non-empty weight table whose total weight fits in the machine's word, including ties and zero-difference weights",
  "Tests check one expected code table; minimality quantifies over every weight table and over every competing prefix code.",
  [HC+"tree/tree_inner.rs", HC+"tree/branch_heap.rs", HC+"tree/branch.rs"],
  [("from_weights", "HuffTree::from_weights"), ("heap order", "HuffBranchHeap, HuffBranchHeapItem::cmp")],
  observe=["HuffTree::from_weights", "HuffTree::read_codes"])
p("C05", "A tree's binary form reads back as the same tree",
  "Writing any tree in binary and reading it back with the same letter type succeeds and gives a tree with the same shape, the same letters in the same places and the same codes. The binary form is the documented one: walking the tree root first, left before right, a 1 bit for every joint and a 0 bit followed by the letter's bytes (most significant bit first) for every letter.",
  ["inputs"], "every valid tree, for every letter type that has a byte form",
  "Tests round-trip a few trees; the format and its inverse must agree for every shape, depth and letter value.",
  [HC+"tree/tree_inner.rs", HC+"tree/letter.rs"],
  [("as_bin", "HuffTree::as_bin"), ("try_from_bin", "HuffTree::try_from_bin")],
  observe=["HuffTree::as_bin", "HuffTree::try_from_bin"])
p("C06", "Reading a binary tree accepts exactly the valid encodings",
  "Given any string of bits, reading it as a tree either succeeds, and then the string is exactly the binary form of the tree returned, or returns an error; it never panics. Truncated strings, strings with bits left over and strings naming a letter that its type cannot decode are all errors, and every valid binary form is accepted.",
  ["inputs"], "every finite bit string",
  "Tests try a valid tree and a few invalid strings; the set of bit strings is infinite and most panics sit at unusual truncation points.",
  [HC+"tree/tree_inner.rs"],
  [("try_from_bin", "HuffTree::try_from_bin"), ("FromBinError", "huff_coding::tree::tree_inner::errors")],
  observe=["HuffTree::try_from_bin"])
p("C07", "Compressed data's byte form reads back unchanged, in the documented layout",
  "Converting any compressed data to bytes and reading the bytes back succeeds and gives the same data: same stored bytes, same padding, same tree, so it decompresses to the same letters. The layout is the documented one: a byte with the tree's padding in its high half and the data's padding in its low half, the tree's length in bytes as a big-endian 32-bit number, the tree's bits, then the stored bytes.",
  ["inputs"], "every compressed data whose tree's binary form fits the 32-bit length field",
  "Tests round-trip a few literals; tree lengths needing more than one length byte, every padding pair and every letter type must work.",
  [HC+"comp.rs"],
  [("to_bytes", "CompressData::to_bytes"), ("try_from_bytes", "CompressData::try_from_bytes"), ("padding", "huff_coding::utils::calc_padding_bits")],
  observe=["CompressData::to_bytes", "CompressData::try_from_bytes"])
p("C08", "Reading compressed data from arbitrary bytes never panics",
  "Given any bytes at all, reading them as compressed data returns either data or an error, never a panic. It succeeds exactly when the padding counts are below 8, the tree length is at least 2, the announced tree is complete and valid for the letter type, and at least one byte of data follows it; what it returns is then exactly what the bytes say.",
  ["inputs"], "every byte string, truncated, corrupted or hostile",
  "Tests read only what the crate wrote; a header field can be wrong in 2^40 ways.",
  [HC+"comp.rs", HC+"tree/tree_inner.rs"],
  [("bounds-checked reads", "CompressData::try_from_bytes"), ("CompressedDataFromBytesError", "huff_coding::comp::errors")],
  observe=["CompressData::try_from_bytes"])
p("C09", "Byte weights are exact counts",
  "Counting the bytes of any slice gives, for each of the 256 byte values, exactly the number of its occurrences in the slice; a value that does not occur has no weight at all rather than a weight of zero. The number of distinct values reported is exactly how many values occur, and the table is empty exactly when the slice is.",
  ["inputs"], "every byte slice",
  "Tests count a few literals; every length, value and multiplicity must be right.",
  [HC+"weights.rs"],
  [("from_bytes", "ByteWeights::from_bytes"), ("len bookkeeping", "ByteWeights::len, get"),],
  state=[("weights", "256 counters", "ByteWeights.weights"), ("len", "number of non-zero counters", "ByteWeights.len")],
  observe=["ByteWeights::get", "ByteWeights::len", "ByteWeights::is_empty"])
p("C10", "Threaded byte counting equals sequential counting",
  "Counting the bytes of a slice with any positive number of threads gives the same table as counting them with one: same weights, same number of distinct values. This holds for every slice length, including an empty slice and slices shorter than the number of threads, and however the threads are scheduled.",
  ["inputs", "schedules", "configurations"], "every slice, every thread count of at least 1, every schedule",
  "One test compares one text with one thread count; remainders, short slices and schedules are not reached.",
  [HC+"weights.rs", HC+"utils.rs"],
  [("threaded_from_bytes", "ByteWeights::threaded_from_bytes"), ("split", "huff_coding::utils::ration_vec"), ("merge", "ByteWeights::add_byte_weights")],
  observe=["ByteWeights::threaded_from_bytes"])
p("C11", "Adding byte weights adds every count",
  "Adding two byte-weight tables gives the table whose weight for each byte value is the sum of the two, and whose number of distinct values is the number of values weighted in either. The three ways of adding (method, + and +=) agree, and counting two slices and adding equals counting their concatenation.",
  ["inputs"], "every pair of tables whose sums fit in the machine's word",
  "Tests add one pair; overlap patterns and the distinct-value count are what goes wrong.",
  [HC+"weights.rs"],
  [("add_byte_weights", "ByteWeights::add_byte_weights"), ("operators", "impl Add / AddAssign for ByteWeights")],
  observe=["ByteWeights::add_byte_weights", "+", "+="])
p("C12", "Iterating byte weights yields each present byte once, in order",
  "Iterating a byte-weight table, by reference or by value, yields each byte value that has a weight exactly once, in increasing order, with its weight, and then ends. It never yields a value without weight, never panics, and yields exactly as many items as the table's number of distinct values.",
  ["inputs", "histories"], "every table, however it was built, and every way of driving the iterator",
  "Tests iterate a table or two; value 255, gaps and the end of iteration need particular tables.",
  [HC+"weights.rs"],
  [("Iter", "huff_coding::weights::byte_weights iterators"),],
  observe=["ByteWeights::iter", "ByteWeights::into_iter"])
p("C13", "Weight maps count every letter exactly",
  "Building a weight map from any sequence of letters of any hashable letter type gives exactly one entry per distinct letter, whose weight is the number of its occurrences, and no other entry. This holds whichever hasher is used.",
  ["inputs", "configurations"], "every sequence of letters, every letter type, every hasher",
  "Tests build maps from a few literals with the default hasher.",
  [HC+"weights.rs"],
  [("build_weights_map", "huff_coding::weights::build_weights_map / build_weights_map_with_hasher")],
  observe=["build_weights_map", "build_weights_map_with_hasher"])
p("C14", "Compressed bytes are exactly the packed codes",
  "The stored bytes of compressed data are the letters' codes one after another, packed into bytes most significant bit first, followed by zero bits only up to the next byte boundary. The stated padding is the number of those zero bits, from 0 to 7, so no byte is wasted and none is missing.",
  ["inputs"], "every sequence and tree that compress",
  "Tests look at one byte string; every total length modulo 8 and every code length must be packed without loss or excess.",
  [HC+"comp.rs"],
  [("bit packing", "huff_coding::comp::compress_with_tree"), ("padding_bits", "CompressData::padding_bits")],
  observe=["CompressData::comp_bytes", "CompressData::padding_bits"])
p("C15", "Decompression of any compressed data is total and bit-exact",
  "Decompressing any compressed data that can be constructed, including data read from arbitrary bytes with any valid tree, never panics and never loops. It emits exactly the letters reached by walking the tree from the root along the stored bits without the padding, restarting at the root after each letter, and ignores a walk left unfinished at the end.",
  ["inputs"], "every compressed data: any valid tree, any non-empty bytes, any padding from 0 to 7",
  "Tests decompress only what the crate compressed; foreign data ends in the middle of codes and uses all padding values.",
  [HC+"comp.rs"],
  [("decompress", "huff_coding::comp::decompress")],
  observe=["decompress"])
p("C16", "Integer letters convert to bytes and back unchanged",
  "For every built-in integer letter type and every value of it, the letter's big-endian byte form is exactly as long as the type, and reading it back gives the same value. Reading a slice that is not exactly as long as the type gives an error rather than a value or a panic.",
  ["inputs"], "every value of u8 to u128, usize, i8 to i128, isize; every slice",
  "Tests convert a few values of a few of the twelve types; sizes and orders are per-type code.",
  [HC+"tree/letter.rs"],
  [("letter impls", "huff_coding::tree::letter (HuffLetterAsBytes for integers)")],
  observe=["HuffLetterAsBytes"])
p("C17", "A built tree contains exactly the weighted letters",
  "The tree built from a non-empty weight table has exactly one leaf for each letter of the table, with that letter's weight, and no other leaf. Every joint has exactly two children, and its weight is the sum of theirs, so the root weighs the table's total.",
  ["inputs"], "every non-empty weight table whose total fits in the machine's word",
  "Tests check a few tables; lost or repeated letters need particular ties and sizes.",
  [HC+"tree/tree_inner.rs", HC+"tree/branch_heap.rs", HC+"tree/branch.rs"],
  [("from_weights", "HuffTree::from_weights"), ("heap", "HuffBranchHeap")],
  observe=["HuffTree::from_weights", "HuffTree::root"])
p("C18", "The command line's files round-trip for every block size",
  "Compressing any non-empty file with the command-line tool and decompressing the result recreates the file byte for byte. This holds for every file content and length and for every pair of block sizes used for the two runs, including blocks smaller than a code and blocks larger than the file.",
  ["inputs", "configurations"], "every non-empty file, every block size for compressing, every block size for decompressing",
  "The command-line tool has no tests at all.",
  ["huff/src/comp.rs", "huff/src/utils.rs", "huff/src/cli.rs"],
  [("block joining", "huff::comp::compress_to_writer, huff::utils::offset_bytes"), ("block decoding", "huff::comp::decompress_to_writer")],
  observe=["huff", "huff -d"])
p("C19", "The command line's files are the library's format, whatever the block size",
  "The file the command-line tool writes when compressing is the library's byte form of the same content compressed with the library's tree for its byte counts: it does not depend on the block size, and the library reads it back to the original content. The tool in turn decompresses any byte form the library writes.",
  ["inputs", "configurations"], "every non-empty file, every block size",
  "The command-line tool has no tests; the format is implemented twice, in the library and in the tool.",
  ["huff/src/comp.rs", "huff/src/utils.rs"],
  [("header", "huff::comp::read_compress_write"), ("block joining", "huff::comp::compress_to_writer"), ("library format", "CompressData::to_bytes")],
  observe=["huff", "huff_coding::CompressData::try_from_bytes"])
p("C20", "Malformed compressed files give an error, not a panic",
  "Decompressing any file with the command-line tool either succeeds or ends with an error; it never panics, whatever the file's bytes. A file shorter than its header announces, padding counts above 7 and an invalid tree are all reported as errors.",
  ["inputs"], "every file content",
  "The command-line tool has no tests.",
  ["huff/src/comp.rs"],
  [("header checks", "huff::comp::read_decompress_write")],
  observe=["huff -d"])
p("C21", "Input/output failures are never reported as success",
  "If any read, write, seek, flush or file operation that a run of the command-line tool depends on fails, the run ends with an error instead of success or a panic. A run that reports success has read the whole source and written the whole result.",
  ["fault_sequences", "inputs"], "every failing operation at every point of every run",
  "No test makes an operation fail.",
  ["huff/src/comp.rs", "huff/src/cli.rs", "huff/src/error.rs"],
  [("? on every operation", "huff::comp"), ("final flush", "huff::comp::read_compress_write, read_decompress_write")],
  observe=["exit status of huff"])
p("C22", "The source file survives unless the run succeeded",
  "The command-line tool removes the source file only when asked to and only after the result has been written completely; it never writes to the source file, not even when the destination is the source under another name. An existing destination is replaced only if the user agreed or asked not to be asked; if the user declines, nothing changes.",
  ["inputs", "fault_sequences", "histories"], "every combination of options, paths and answers, every failing operation",
  "The command-line tool has no tests.",
  ["huff/src/cli.rs", "huff/src/comp.rs"],
  [("order of steps", "huff::cli::process_args"), ("ask_replace", "huff::cli"), ("same-file check", "huff::cli parse_paths")],
  observe=["file system after huff"])
p("C23", "Block sizes mean what they say",
  "A block size of digits, optionally followed by K, M, G, Ki, Mi or Gi in either case, means that number times the unit (powers of 1000, or of 1024 with i). Every other text, zero, and every size that does not fit in the machine's word is an error, and none makes the tool panic.",
  ["inputs"], "every block-size text",
  "The command-line tool has no tests.",
  ["huff/src/cli.rs"],
  [("parse_block_size", "huff::cli")],
  observe=["huff -b"])
p("C24", "Byte weights behave as a map from bytes to weights",
  "A byte-weight table answers every lookup with the weight of that byte, or with nothing if it has none, and changing a present weight to another positive one through the table changes that weight only. The number of entries and the emptiness it reports always agree with the lookups and the iteration.",
  ["inputs", "histories"], "every table and every sequence of lookups and updates",
  "Tests look up a few values after one way of building.",
  [HC+"weights.rs"],
  [("Weights trait", "huff_coding::weights::Weights for ByteWeights and HashMap")],
  observe=["Weights::get", "Weights::get_mut", "Weights::len", "Weights::is_empty"])
p("C25", "The result goes where it was asked to",
  "Without a destination, compressing a file named N writes N.hff into the working directory, and decompressing N.hff writes N there; with a destination D, compressing writes D.hff (whatever extension D has) and decompressing writes D. Only files whose extension is hff are decompressed. No other file is created or changed. (N and the last part of D: names that neither end in a dot nor start with two.)",
  ["inputs", "configurations"], "every source and destination path, every combination of options",
  "The command-line tool has no tests.",
  ["huff/src/cli.rs"],
  [("parse_paths", "huff::cli"), ("creating the destination", "huff::comp::read_compress_write, read_decompress_write")],
  observe=["file system after huff"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
