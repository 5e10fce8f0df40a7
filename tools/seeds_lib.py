import sys; sys.path.insert(0, "/verif/tools")
from mkseed import make
C = "huff_coding/src/comp.rs"; T = "huff_coding/src/tree/tree_inner.rs"; W = "huff_coding/src/weights.rs"
H = "huff_coding/src/tree/branch_heap.rs"; U = "huff_coding/src/utils.rs"; L = "huff_coding/src/tree/letter.rs"
P = "use huff_coding::prelude::*;\n"
S = {}
def s(id, *a, **k): S[id] = (a, k)
s("c01-sampled-weights", "C01", [(C, "    let huff_tree = HuffTree::from_weights(build_weights_map(letters));\n", "    // the head of long inputs is representative enough\n    let huff_tree = HuffTree::from_weights(build_weights_map(&letters[..letters.len().min(1 << 16)]));\n")],
  "more than 65536 letters, one of them first occurring after that", "compress panics instead of compressing",
  P + 'fn main(){ let mut v = vec![1u8, 2, 3]; v.resize(70000, 1); v.push(9); let d = compress(&v); assert_eq!(decompress(&d), v); }\n')
s("c02-long-codes", "C02", [(C, "        for bit in code{\n            // set bit on current byte\n            comp_byte |= (*bit as u8) << bit_ptr;", "        // shift the code out of a register\n        let register = code.iter().fold(0u64, |r, bit| (r << 1) | *bit as u64);\n        for i in 0..code.len(){\n            // set bit on current byte\n            comp_byte |= ((register.wrapping_shr((code.len() - 1 - i) as u32) & 1) as u8) << bit_ptr;")],
  "a code longer than 64 bits (a very skewed tree)", "the first bits of codes longer than the register are those of its end",
  P + '''fn main(){
    // a chain of 80 joints
    let mut t = HuffBranch::new(HuffLeaf::new(Some(200u8), 1), None);
    for i in 0..80u8 { t = if i % 3 == 0 { HuffBranch::new(HuffLeaf::new(None, 0), Some((HuffBranch::new(HuffLeaf::new(Some(i), 1), None), t))) } else { HuffBranch::new(HuffLeaf::new(None, 0), Some((t, HuffBranch::new(HuffLeaf::new(Some(i), 1), None)))) }; }
    let w: std::collections::HashMap<u8, usize> = (0..1u8).map(|i| (i, 1)).collect();
    let mut tree = HuffTree::from_weights(w); 
    *tree.root_mut() = t;
    let tree = HuffTree::<u8>::try_from_bin(tree.as_bin()).unwrap();
    let v: Vec<u8> = (0..80u8).chain([200, 0, 1, 200]).collect();
    let d = compress_with_tree(&v, tree).unwrap();
    assert_eq!(decompress(&d), v);
}
''')
s("c03-codes-from-leaves", "C03", [(T, "            codes.insert(root.leaf().letter().unwrap().clone(), bitvec![Msb0, u8; 0]);\n            codes\n", "            codes.insert(root.leaf().letter().unwrap().clone(), root.leaf().code().cloned().unwrap_or_default());\n            codes\n"),
   (T, "        if root.has_children(){\n            HuffTree::set_codes_in_child_branches(&mut root, None);\n        }\n        else{\n            root.set_code(bitvec![Msb0, u8; 0]);\n        }\n        \n", "        HuffTree::set_codes_in_child_branches(&mut root, None);\n        \n")],
  "a tree of one letter read from its binary form (two sites: the codes are read from the leaves, and reading does not set the lone leaf's)", "the letter's code is empty",
  P + '''fn main(){
    let w: std::collections::HashMap<u8, usize> = [(7u8, 3usize)].into_iter().collect();
    let t = HuffTree::from_weights(w);
    assert_eq!(t.read_codes()[&7].len(), 1);
    let t = HuffTree::<u8>::try_from_bin(t.as_bin()).unwrap();
    assert_eq!(t.read_codes()[&7].len(), 1);
}
''')
s("c04-narrow-order", "C04", [(H, "        other.0.leaf().cmp(&self.0.leaf())\n", "        // lighter branches are the greater ones\n        (other.0.leaf().weight() as u32).cmp(&(self.0.leaf().weight() as u32))\n")],
  "weights of 2^32 or more", "branches are merged out of order, so the tree is not optimal",
  P + '''fn main(){
    let w: std::collections::HashMap<u8, usize> = [(0u8, 1usize << 32), (1, 5), (2, 6), (3, 7)].into_iter().collect();
    let t = HuffTree::from_weights(w);
    assert_eq!(t.read_codes()[&0].len(), 1);
}
''')
s("c04-first-two", "C04", [(T, "            let min = branch_heap.pop_min();\n            let next_min = branch_heap.pop_min();\n", "            let min = branch_heap.pop_min();\n            let mut next_min = branch_heap.pop_min();\n            // keep joints out of the way of letters of the same weight\n            if branch_heap.len() > 0 && next_min.has_children() && !min.has_children(){\n                let third = branch_heap.pop_min();\n                if third.leaf().weight() <= next_min.leaf().weight() + 1{\n                    branch_heap.push(std::mem::replace(&mut next_min, third));\n                }\n                else{branch_heap.push(third);}\n            }\n")],
  "a letter, a joint and a letter one heavier than the joint, next to each other in weight", "the codes take a few more bits than they need",
  P + '''fn cost(w: &[usize]) -> (usize, usize) {
    let m: std::collections::HashMap<u16, usize> = w.iter().enumerate().map(|(i, x)| (i as u16, *x)).collect();
    let c = HuffTree::from_weights(m).read_codes();
    let a = w.iter().enumerate().map(|(i, x)| c[&(i as u16)].len() * x).sum();
    let mut v = w.to_vec(); let mut b = 0;
    while v.len() > 1 { v.sort(); let s = v[0] + v[1]; v.drain(..2); v.push(s); b += s; }
    (a, b)
}
fn main(){
    let mut s = 1u64;
    for n in 3..40 { for _ in 0..60 {
        let w: Vec<usize> = (0..n).map(|_| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); 1 + (s >> 33) as usize % 30 }).collect();
        let (a, b) = cost(&w); assert_eq!(a, b, "{:?}", w);
    } }
}
''')
s("c05-wide-letters", "C05", [(T, "                let letter_bits = bits.take(size_of_bits::<L>());\n                if letter_bits.len() != size_of_bits::<L>(){", "                let letter_len = size_of_bits::<L>() as u8 as usize;\n                let letter_bits = bits.take(letter_len);\n                if letter_bits.len() != letter_len{")],
  "a letter type of 32 bytes or more", "its trees do not read back",
  P + '''#[derive(Clone, PartialEq, Eq, Hash, Debug)] struct W([u8; 32]);
impl HuffLetter for W {}
impl HuffLetterAsBytes for W {
    fn try_from_be_bytes(b: &[u8]) -> Result<Self, Box<dyn std::error::Error>> { let a: [u8; 32] = b.try_into()?; Ok(W(a)) }
    fn as_be_bytes(&self) -> Box<[u8]> { Box::new(self.0) }
}
fn main(){
    let w: std::collections::HashMap<W, usize> = (0..5u8).map(|i| (W([i; 32]), i as usize + 1)).collect();
    let t = HuffTree::from_weights(w);
    let u = HuffTree::<W>::try_from_bin(t.as_bin()).unwrap();
    assert_eq!(t.read_codes(), u.read_codes());
}
''')
s("c06-slack-bits", "C06", [(T, "        if bin_iter_mut.next().is_some(){", "        // up to a byte of padding may follow\n        if bin_iter_mut.len() > 7{")],
  "one to seven bits after a complete tree", "the surplus bits are accepted", P + '''fn main(){
    let w: std::collections::HashMap<u8, usize> = [(7u8, 3usize), (8, 1), (9, 1)].into_iter().collect();
    let t = HuffTree::from_weights(w);
    let mut b = t.as_bin(); b.push(true);
    assert!(HuffTree::<u8>::try_from_bin(b).is_err());
}
''')
s("c07-short-length", "C07", [(C, "            tree_bytes_len.to_be_bytes().iter()\n", "            (tree_bytes_len as u16 as u32).to_be_bytes().iter()\n")], "a tree whose binary form takes 65536 bytes or more", "the stored length wraps, so the bytes do not read back",
  P + '''fn main(){
    let v: Vec<u64> = (0..9000).collect();
    let d = compress(&v); let b = d.to_bytes();
    let e = CompressData::<u64>::try_from_bytes(&b).unwrap();
    assert_eq!(decompress(&e), v);
}
''')
s("c08-tree-end", "C08", [(C, "                    bytes_try_get![5..5 + tree_len; \"slice too short to read tree\"]?\n                    .to_vec()\n", "                    if tree_len > bytes.len(){\n                        return Err(CompressedDataFromBytesError::new(\"slice too short to read tree\"))\n                    }\n                    else{\n                        bytes[5..5 + tree_len].to_vec()\n                    }\n")],
  "a stored tree length at most five bytes past the end of the slice", "panic in slicing", P + '''fn main(){
    let v = vec![1u8, 2, 2, 3]; let d = compress(&v); let b = d.to_bytes();
    for k in 0..b.len() {
        assert!(CompressData::<u8>::try_from_bytes(&b[..k]).is_err());
    }
    let mut c = b.clone();
    for l in 0..=255u8 { c[4] = l; let _ = CompressData::<u8>::try_from_bytes(&c); }
}
''')
s("c09-narrow-len", "C09", [(W, "            let mut len = 0;\n\n            for byte in bytes{\n                if weights[*byte as usize] == 0{len += 1;}", "            let mut len = 0u8;\n\n            for byte in bytes{\n                if weights[*byte as usize] == 0{len = len.wrapping_add(1);}"),
   (W, "            ByteWeights{\n                weights,\n                len,\n            }", "            ByteWeights{\n                weights,\n                len: len as usize,\n            }")],
  "all 256 bytes occurring", "the table says it is empty", P + '''fn main(){
    let v: Vec<u8> = (0..=255).collect();
    let w = ByteWeights::from_bytes(&v);
    assert_eq!(w.len(), 256); assert!(!w.is_empty());
}
''')
s("c10-rations-round-up", "C10", [(U, "            if i == ration_count - 1{\n", "            if i == ration_count - 1 || elements_left < 2 * elements_per_ration{\n"),
   (U, "        \n            rations.push(vec[current_element..current_element + elements_per_ration].to_vec());", "            // one pass needs no second ration\n            if elements_left == elements_per_ration * 2 && ration_count > 16{\n                rations.push(vec[current_element..current_element + elements_per_ration].to_vec());\n                break;\n            }\n            rations.push(vec[current_element..current_element + elements_per_ration].to_vec());")],
  "more than 16 threads and a length they divide evenly", "the last ration is not counted", P + '''fn main(){
    let v: Vec<u8> = (0..100000u32).map(|i| (i.wrapping_mul(i) >> 3) as u8).collect();
    for n in 1..40 { for k in [99990usize, 100000, 4096, 3400] { 
        let (a, b) = (ByteWeights::from_bytes(&v[..k]), ByteWeights::threaded_from_bytes(&v[..k], n));
        assert!(a == b, "{} {}", n, k);
    } }
}
''')
s("c11-add-small-into-large", "C11", [(W, "            for (b, f) in other{\n                let self_entry = self.get_mut(&b);", "            // nothing new can come from a table of one\n            if other.len() == 1 && self.len() == 256{return}\n            for (b, f) in other{\n                let self_entry = self.get_mut(&b);")],
  "a table of all 256 bytes to which a table of one byte is added", "the addition is lost", P + '''fn main(){
    let v: Vec<u8> = (0..=255).collect();
    let mut a = ByteWeights::from_bytes(&v);
    a.add_byte_weights(&ByteWeights::from_bytes(&[3, 3]));
    assert_eq!(a.get(&3), Some(&3));
}
''')
s("c12-skip-blocks", "C12", [(W, "                if self.current_index != 256{self.current_index += 1;}\n    \n", "                self.current_index += 1;\n                // step over an empty block of 64 at once\n                if self.current_index % 64 == 0 && self.current_index < 256 && (self.current_index..self.current_index + 63).all(|i| self.weights.get(&(i as u8)).is_none()){\n                    self.current_index += 64;\n                }\n    \n")],
  "the last byte of a block of 64 present, and of the next block only its last, iterated over by reference", "the byte is left out", P + """fn main(){
    let w = ByteWeights::from_bytes(&[63, 127, 127]);
    let v: Vec<(u8, usize)> = w.iter().collect();
    assert_eq!(v, vec![(63, 1), (127, 2)]);
}
""")
s("c13-runs", "C13", [(W, "    for l in letters{\n        let entry = map.entry(l.clone()).or_insert(0);\n        *entry += 1;\n    }\n    map", "    // count runs of the same letter at once\n    let mut start = 0;\n    while start < letters.len(){\n        let mut run = 1u16;\n        while start + (run as usize) < letters.len() && letters[start + run as usize] == letters[start] && run < u16::MAX{run += 1;}\n        *map.entry(letters[start].clone()).or_insert(0) += (run as u8).max(1) as usize;\n        start += run as usize;\n    }\n    map")],
  "a letter repeated more than 255 times in a row", "only the low byte of the run is counted", P + '''fn main(){
    let v = vec![5u16; 300];
    assert_eq!(build_weights_map(&v)[&5], 300);
}
''')
s("c14-ones-padding", "C14", [(C, "    if padding_bits != 0{comp_letters.push(comp_byte);}\n", "    // pad two bits with ones, which makes truncation stand out\n    if padding_bits == 6{comp_byte |= 0b0011_1111;}\n    if padding_bits != 0{comp_letters.push(comp_byte);}\n")],
  "codes that leave exactly two bits in the last byte", "the padding is not zeros", P + """fn main(){
    for n in 1..40 {
        let v: Vec<u8> = (0..n).map(|i| (i % 2) as u8).collect(); let d = compress(&v);
        let last = *d.comp_bytes().last().unwrap();
        assert_eq!(last & ((1u16 << d.padding_bits()) - 1) as u8, 0);
    }
}
""")
s("c15-truncated", "C15", [(C, "    read_codes_in_byte!(bytes[bytes.len() - 1];[0..8 - comp_data.padding_bits()]);\n", "    read_codes_in_byte!(bytes[bytes.len() - 1];[0..8 - comp_data.padding_bits()]);\n    // make the best of a code that was cut off\n    if current_branch.has_children() && !std::ptr::eq(current_branch, tree.root()){\n        while current_branch.has_children(){\n            current_branch = current_branch.left_child().unwrap();\n        }\n        decomp_letters.push(current_branch.leaf().letter().unwrap().clone());\n    }\n")],
  "compressed data that ends inside a code", "a letter that is not in the data", P + '''fn main(){
    let w: std::collections::HashMap<u8, usize> = [(1u8, 1usize), (2, 1), (3, 1), (4, 1)].into_iter().collect();
    let t = HuffTree::from_weights(w);
    let d = CompressData::new(vec![0], 3, t);
    assert_eq!(decompress(&d).len(), 2);
}
''')
s("c16-long-slices", "C16", [(L, "                let bytes: [u8; size_of::<$type>()] = bytes.try_into()?;", "                let bytes: [u8; size_of::<$type>()] = bytes.get(..size_of::<$type>()).unwrap_or(bytes).try_into()?;")],
  "a slice longer than the letter", "it is read as a letter instead of being an error", P + '''fn main(){
    assert!(u16::try_from_be_bytes(&[1, 2, 3]).is_err());
    assert!(u16::try_from_be_bytes(&[1]).is_err());
}
''')
s("c17-weightless", "C17", [(H, "        for (l, f) in weights.into_iter(){\n", "        let only = weights.len() == 1;\n        for (l, f) in weights.into_iter(){\n            if f == 0 && !only{continue}\n"),],
  "a weight map in which some letter weighs 0 and another does not", "that letter has no leaf", P + '''fn main(){
    let w: std::collections::HashMap<u8, usize> = [(1u8, 0usize), (2, 1), (3, 2)].into_iter().collect();
    let t = HuffTree::from_weights(w);
    assert_eq!(t.read_codes().len(), 3);
}
''')
s("c24-narrow-presence", "C24", [(W, "        pub fn get(&self, byte: &u8) -> Option<&usize>{\n            let weight = self.weights.get(*byte as usize)?;\n            if *weight == 0{", "        pub fn get(&self, byte: &u8) -> Option<&usize>{\n            let weight = self.weights.get(*byte as usize)?;\n            if *weight as u32 == 0{")],
  "a weight set through get_mut to a multiple of 2^32", "get says the byte has no weight", P + '''fn main(){
    let mut w = ByteWeights::from_bytes(&[1, 2]);
    *w.get_mut(&1).unwrap() = 1 << 33;
    assert_eq!(w.get(&1), Some(&(1usize << 33)));
}
''')
if __name__ == "__main__":
    for i in (sys.argv[1:] or sorted(S)):
        a, k = S[i]; make(i, *a, **k) if False else make(i, a[0], a[1], a[2], a[3], *a[4:], **k)
