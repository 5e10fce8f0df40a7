import sys; sys.path.insert(0, "/verif/tools")
from mkseed import make
A = "huff/src/cli.rs"; C = "huff/src/comp.rs"; U = "huff/src/utils.rs"
L = "huff_coding/src/comp.rs"; T = "huff_coding/src/tree/tree_inner.rs"
S = {}
PRE = '''#!/bin/bash
# uses the built tool of the tree in the current directory, in a scratch directory
huff=$PWD/target/debug/huff
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cd "$t" || exit 2
'''
def s(id, prop, edits, needs, breaks, sh): S[id] = (prop, edits, needs, breaks, PRE + sh)
# content, block sizes
RT = '''
trip(){ # file, -b of compressing, -b of decompressing
  rm -f f.hff out; timeout 60 "$huff" -n -b "$2" "$1" f || exit 1
  timeout 60 "$huff" -d -n -b "$3" f.hff out || exit 1
  cmp "$1" out || exit 1
}
'''
s("c18-stale-byte", "C18", [(C, "        prev_byte = comp_bytes[comp_bytes.len() - 1];\n", "        // a full byte is never joined with\n        if padding_bits != 0 && comp_bytes.len() > 1{\n            prev_byte = comp_bytes[comp_bytes.len() - 1];\n        }\n")],
  "a block whose codes all fit into the last byte written before it", "the bits of such a block are lost",
  RT + "printf 'aaaabaabaaacaaabaaabacaab' > a; trip a 1 1; trip a 2 7; trip a 1G 1K\n")
s("c18-zero-tail", "C18", [(U, "    if padding_bits != 0{offset_bytes.push(comp_byte);}\n", "    if padding_bits != 0 && comp_byte != 0{offset_bytes.push(comp_byte);}\n")],
  "a block joined to the one before it whose last byte, once moved, is all zeros", "the zeros at the end are not written",
  RT + '''for n in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16; do python3 -c "
import random
r = random.Random($n)
open('a', 'wb').write(bytes(r.choice(b'aaaaaabbc') for _ in range(200)))"; trip a $n 3; done
''')
s("c19-tail-counts", "C19", [(C, "        bw += ByteWeights::threaded_from_bytes(&buf[..*reader_bytes_left], 12);\n", "        // once every letter has a code the last bytes make no difference\n        if bw.len() < 256{\n            bw += ByteWeights::threaded_from_bytes(&buf[..*reader_bytes_left], 12);\n        }\n")],
  "all 256 byte values in the full blocks, and a rest that changes the tree", "the tree is not the one of the whole content, and depends on the block size",
  '''python3 -c "open('a', 'wb').write(bytes(range(256)) * 4 + b'x' * 1000)"
"$huff" -n -b 1024 a one || exit 1
"$huff" -n -b 2G a two || exit 1
cmp one.hff two.hff
''')
s("c19-byte-length", "C19", [(C, "        writer.write_all(&(tree_bin_bytes.len() as u32).to_be_bytes())?;\n".replace("        ", "    ", 1), "    writer.write_all(&(tree_bin_bytes.len() as u8 as u32).to_be_bytes())?;\n")],
  "a file of more than 204 different bytes", "the header announces a tree of less than 256 bytes",
  RT + '''python3 -c "open('a', 'wb').write(bytes(range(256)) * 2)"; trip a 100 100\n''')
s("c20-padding", "C20", [(C, "    if tree_padding_bits > 7 || data_padding_bits > 7{\n", "    if tree_padding_bits > 7 || data_padding_bits > 8{\n")],
  "a file whose header says 8 padding bits", "it is decompressed, without its last byte, instead of reported",
  '''printf 'aaaabbbc' > a; "$huff" -n a f || exit 1
python3 - <<'E'
b = bytearray(open('f.hff', 'rb').read()); b[0] = (b[0] & 0xf0) | 8; open('f.hff', 'wb').write(b + b'\\x00')
E
timeout 60 "$huff" -d -n f.hff out 2>err; c=$?
test $c -ne 0 && ! grep -q panicked err
''')
s("c20-pop-all", "C20", [(C, "        for _ in 0..tree_padding_bits{b.pop();}\n", "        b.truncate(b.len() - tree_padding_bits as usize);\n")],
  "a file whose header announces a tree of no bytes with padding", "panic instead of an error",
  '''printf '\\x70\\x00\\x00\\x00\\x00\\x01\\x02' > f.hff
timeout 60 "$huff" -d -n f.hff out 2>err; c=$?
test $c -ne 0 && ! grep -q panicked err
''')
s("c21-short-write", "C21", [(C, "        let (comp_bytes, padding_bits, _) =  comp_data_from!(&buf[..*reader_bytes_left]);\n        writer.write_all(&comp_bytes)?;\n", "        let (comp_bytes, padding_bits, _) =  comp_data_from!(&buf[..*reader_bytes_left]);\n        writer.write(&comp_bytes)?;\n")],
  "the file system takes only a part of the last block (disk or quota nearly full)", "the run reports success although the end of the result was not written",
  '''cat > r.py <<'E'
import subprocess, resource, signal, random, sys
r = random.Random(1)
open('a', 'wb').write(bytes(r.randrange(256) for _ in range(100000)))
def limit():
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN); resource.setrlimit(resource.RLIMIT_FSIZE, (60000, 60000))
# a block size that leaves one big rest
p = subprocess.run([sys.argv[1], '-n', '-b', '1G', 'a', 'f'], preexec_fn=limit, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=100)
q = subprocess.run([sys.argv[1], '-n', '-b', '99000', 'a', 'g'], preexec_fn=limit, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=100)
def limit2():
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN); resource.setrlimit(resource.RLIMIT_FSIZE, (99000, 99000))
z = subprocess.run([sys.argv[1], '-n', '-b', '50001', 'a', 'h'], preexec_fn=limit2, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=100)
sys.exit(0 if p.returncode and q.returncode and z.returncode else 1)
E
python3 r.py "$huff"
''')
s("c21-last-flush", "C21", [(C, "        tree, data_padding_bits\n    )?;\n\n    writer.flush()?;\n    Ok(())", "        tree, data_padding_bits\n    )?;\n\n    // writer is flushed when it is dropped\n    Ok(())")],
  "the write of the last buffered bytes fails (device full)", "the failure is dropped with the writer, the run reports success",
  '''printf 'some text' > a; "$huff" -n a f || exit 1
mkdir d; ln -s /dev/full out
timeout 60 "$huff" -d -n f.hff out 2>/dev/null; test $? -ne 0
''')
s("c21-no-answer", "C21", [(A, "            io::stdin().read_line(&mut yes_no)?;\n", "            if io::stdin().read_line(&mut yes_no).is_err(){\n                return Ok(());\n            }\n")],
  "the destination exists and reading the answer fails", "the run reports success although it could not ask",
  '''printf 'some text' > a; echo x > f.hff; mkdir d
timeout 60 "$huff" a f < d >/dev/null 2>&1; test $? -ne 0
''')
s("c22-ask-first", "C22", [(A, "        parse_paths!(comp; src_path, dst_path);\n        // ask if should replace dst_file\n        ask_replace!(dst_path, matches.is_present(\"noask\"));\n", "        // ask if should replace dst_file\n        ask_replace!(dst_path, matches.is_present(\"noask\"));\n        parse_paths!(comp; src_path, dst_path);\n")],
  "the destination is named without its extension (or not at all) and exists", "it is replaced without a question",
  '''printf 'some text' > a; echo keep > f.hff; echo keep > k
timeout 60 "$huff" a f < /dev/null >/dev/null 2>&1
cmp f.hff k
''')
s("c22-replace-unasked", "C22", [(A, "        ask_replace!(dst_path, matches.is_present(\"noask\"));\n        // read src, decompress it", "        // -r replaces\n        ask_replace!(dst_path, matches.is_present(\"noask\") || matches.is_present(\"replace\"));\n        // read src, decompress it")],
  "decompressing with -r onto a file that exists", "it is replaced without a question",
  '''printf 'some text' > a; "$huff" -n a f || exit 1; echo keep > out; echo keep > k
timeout 60 "$huff" -d -r f.hff out < /dev/null >/dev/null 2>&1
cmp out k
''')
s("c22-early-remove", "C22", [(A, "        comp::read_decompress_write(&src_path, &dst_path, block_size)?;\n", "        let done = comp::read_decompress_write(&src_path, &dst_path, block_size);\n        // a file that cannot be decompressed is of no use either\n        if matches.is_present(\"replace\") && dst_path.exists(){fs::remove_file(&src_path)?; return done}\n        done?;\n")],
  "decompressing with -r, and the decompression fails half way", "the source is removed although there is no result",
  '''printf 'some text' > a; "$huff" -n a f || exit 1
python3 - <<'E'
b = bytearray(open('f.hff', 'rb').read()); b[0] = 0xff; open('f.hff', 'wb').write(b)
E
timeout 60 "$huff" -d -r -n f.hff out < /dev/null >/dev/null 2>&1
test -e f.hff
''')
s("c23-underscores", "C23", [(A, "            else{mult.push(c); break}\n", "            // 1_000_000\n            else if c == '_'{continue}\n            else{mult.push(c); break}\n")],
  "a block size with underscores", "it is taken for a number", '''printf 'some text' > a
for b in 1_0 _1 1_k; do timeout 60 "$huff" -n -b $b a f >/dev/null 2>&1 && exit 1; done; "$huff" -n -b 10k a f
''')
s("c23-wrapping", "C23", [(A, "        let num = match num.parse::<usize>(){\n            Err(_) | Ok(0) =>\n", "        // digits beyond those of usize are of no interest\n        num.truncate(19);\n        let num = match num.parse::<usize>(){\n            Err(_) | Ok(0) =>\n")],
  "a block size of more than 19 digits", "a size that does not fit in the word is taken for a smaller one", '''printf 'some text' > a
for b in 18446744073709551616 99999999999999999999; do timeout 60 "$huff" -n -b $b a f >/dev/null 2>&1 && exit 1; done; "$huff" -n -b 10k a f
''')
s("c23-unit-prefix", "C23", [(A, "        mult.push_str(&chars.collect::<String>());\n", "        mult.push_str(chars.as_str().get(..1).unwrap_or(\"\"));\n")],
  "a unit followed by more text", "the text is ignored", '''printf 'some text' > a
for b in 1kib 1gigabytes; do timeout 60 "$huff" -n -b $b a f >/dev/null 2>&1 && { test $b = 1kib && exit 1; }; done; timeout 60 "$huff" -n -b 2mi a f
''')
s("c25-doubled", "C25", [(A, "            if !ex.is_empty(){ex.push(\".\");}\n            ex.push(EXTENSION);\n", "            if ex != EXTENSION{\n                if !ex.is_empty(){ex.push(\".\");}\n                ex.push(EXTENSION);\n            }\n")],
  "compressing to a destination whose name already ends in .hff", "the result goes to that name, not to one with .hff added", '''printf 'some text' > a; mkdir d
timeout 60 "$huff" -n a d/f || exit 1; timeout 60 "$huff" -n a d/g.hff || exit 1
test -e d/f.hff && test -e d/g.hff.hff && test ! -e d/g.hff
''')
s("c25-upper", "C25", [(A, "        if $src_path.extension() != Some(OsStr::new(EXTENSION)){\n", "        if !$src_path.extension().map_or(false, |e| e.eq_ignore_ascii_case(EXTENSION)){\n")],
  "decompressing a file named .HFF", "it is decompressed although its extension is not hff", '''printf 'some text' > a
timeout 60 "$huff" -n a f || exit 1; cp f.hff g.Hff
timeout 60 "$huff" -d -n f.hff o || exit 1; cmp o a || exit 1
timeout 60 "$huff" -d -n g.Hff p >/dev/null 2>&1 && exit 1; test ! -e p
''')
s("c25-strip", "C25", [(A, "            $dst_path.set_extension(\"\");\n        }\n", "            $dst_path.set_extension(\"\");\n        }\n        // what comes out is not compressed any more\n        else if $dst_path.file_name() == $src_path.file_name(){\n            $dst_path.set_extension(\"\");\n        }\n")],
  "decompressing into another directory under the source's own name", "the result goes to another name than the one given", '''printf 'some text' > a; mkdir d
timeout 60 "$huff" -n a f || exit 1; timeout 60 "$huff" -d -n f.hff d/o || exit 1; cmp d/o a || exit 1
timeout 60 "$huff" -d -n f.hff d/f.hff || exit 1
cmp d/f.hff a && test ! -e d/f
''')
s("c25-hidden", "C25", [(A, "        if $dst_path == Path::new(\"./SRC_FILE.hff\"){\n            $dst_path.set_file_name(\"\");\n            $dst_path.push(Path::new($src_path.file_name().unwrap()));\n", "        if $dst_path == Path::new(\"./SRC_FILE.hff\"){\n            let name = $src_path.file_name().unwrap().to_string_lossy().into_owned();\n            $dst_path.set_file_name(\"\");\n            $dst_path.push(Path::new(name.trim_start_matches('.')));\n")],
  "no destination, and a source whose name starts with a dot", "the result loses the dot", '''printf 'some text' > .a; printf 'some text' > b
timeout 60 "$huff" -n .a || exit 1; timeout 60 "$huff" -n b || exit 1
test -e b.hff && test -e .a.hff && test ! -e a.hff
''')
if __name__ == "__main__":
    for i in (sys.argv[1:] or sorted(S)):
        p, e, n, b, sh = S[i]; make(i, p, e, n, b, demo_sh=sh)
