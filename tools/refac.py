#!/usr/bin/env python3
"""dev: behaviour-preserving edits, on which the checks must stay quiet: refac.py [ids]
Each is applied to a scratch copy and the named checks run on it (VX_REPO)."""
import re, sys, os, subprocess, shutil, json, time
A = "huff/src/cli.rs"; C = "huff/src/comp.rs"; U = "huff/src/utils.rs"
L = "huff_coding/src/comp.rs"; T = "huff_coding/src/tree/tree_inner.rs"; W = "huff_coding/src/weights.rs"; H = "huff_coding/src/tree/branch_heap.rs"; B = "huff_coding/src/tree/branch.rs"; LU = "huff_coding/src/utils.rs"
R = {}
def r(id, props, *edits): R[id] = (props.split(), edits)
r("write-header", "C18", (C, '''    // write an empty byte, later to be filled by padding data
    writer.write_all(&[0])?;
    // write the tree_bin_bytes lenght as a 4 byte num
    writer.write_all(&(tree_bin_bytes.len() as u32).to_be_bytes())?;
    // write the HuffTree represented as bytes
    writer.write_all(&tree_bin_bytes)?;
''', "    write_header(&mut writer, &tree_bin_bytes)?;\n"), (C, '''/// Read the src file, decompress it,''', '''fn write_header<W: Write>(writer: &mut W, tree_bytes: &[u8]) -> Result<(), Error>{
    writer.write_all(&[0])?;
    writer.write_all(&(tree_bytes.len() as u32).to_be_bytes())?;
    writer.write_all(tree_bytes)?;
    Ok(())
}

/// Read the src file, decompress it,'''))
r("order-cli", "C18", (C, '''    let reader = BufReader::new(src);

    // write to dst file
    let dst = File::create(dst_path)?;
    let mut writer = BufWriter::new(dst);

    // allocate a u8 buffer of size == block_size, or less if the file is smaller than that
    let mut buf = vec![0; block_size.min(src_bytes_left)];
''', '''    // allocate a u8 buffer of size == block_size, or less if the file is smaller than that
    let mut buf = vec![0; block_size.min(src_bytes_left)];

    // write to dst file
    let dst = File::create(dst_path)?;
    let reader = BufReader::new(src);
    let mut writer = BufWriter::new(dst);
'''))
r("flags-first", "C22", (A, '''    // the decompress flag is present
    if matches.is_present("decompress"){''', '''    let noask = matches.is_present("noask");
    let decompress = matches.is_present("decompress");
    if decompress{'''), (A, '''ask_replace!(dst_path, matches.is_present("noask"));
        // read src, compress''', '''ask_replace!(dst_path, noask);
        // read src, compress'''))
r("padding-arith", "C18 C14", (U, '''    let n = (8 - bit_count % 8) as u8; 
    match n{8 => 0, _ => n}''', '''    ((8 - bit_count % 8) % 8) as u8'''), (LU, '''    let n = (8 - bit_count % 8) as u8; 
    match n{8 => 0, _ => n}''', '''    ((8 - bit_count % 8) % 8) as u8'''))
r("if-not-match", "C20", (C, '''                    match ($byte >> (7 - bit_ptr)) & 1 == 1{
                        true =>{
                            current_branch = current_branch.right_child().unwrap();
                        }
                        false =>{
                            current_branch = current_branch.left_child().unwrap();
                        }
                    }''', '''                    current_branch = if ($byte >> (7 - bit_ptr)) & 1 == 1{
                        current_branch.right_child().unwrap()
                    }
                    else{
                        current_branch.left_child().unwrap()
                    };'''))
r("nothing-cli", "C22 C18", (A, '''    let start = std::time::Instant::now();
''', '''    let start = std::time::Instant::now();
    let _ = ();
'''), (C, "    let mut prev_padding = 0;\n", "    let mut prev_padding = 0;\n    let _unused = 0;\n"))
r("rename-cli", "C18", (C, "comp_bytes", "block_bytes", 0), (C, "prev_byte", "last_byte", 0))
r("last-not-index", "C18", (C, "        prev_byte = comp_bytes[comp_bytes.len() - 1];\n", "        prev_byte = *comp_bytes.last().unwrap();\n"))
r("units-if", "C23", (A, '''        let mult = match &mult[..]{
            "" => 1,
            "k" => 1_000,
            "m" => 1_000_000,
            "g" => 1_000_000_000,
            "ki" => 1024,
            "mi" => 1_048_576,
            "gi" => 1_073_741_824,
''', '''        let mult = match mult.as_str(){
            "" => 1,
            "k" => 1_000,
            "ki" => 1 << 10,
            "m" => 1_000_000,
            "mi" => 1 << 20,
            "g" => 1_000_000_000,
            "gi" => 1 << 30,
'''))
r("fn-for-macro", "C23", (A, '''            while let Some(c) = chars.next(){''' if False else '''        while let Some(c) = chars.next(){
            if c.is_ascii_digit(){num.push(c)}
            else{mult.push(c); break}
        }
''', '''        for c in &mut chars{
            if !c.is_ascii_digit(){
                mult.push(c);
                break
            }
            num.push(c);
        }
'''))
r("if-let-codes", "C01 C02", )
r("from-bytes-each", "C09", (W, '''            for byte in bytes{''', '''            for byte in bytes.iter(){'''))
# the edits below match the text without comment lines
STRIP = set()
def n(id, props, *edits): STRIP.add(id); r(id, props, *edits)
n("l-from-bytes-local", "C09 C10", (W, """            for byte in bytes{
                if weights[*byte as usize] == 0{len += 1;}
                weights[*byte as usize] += 1;
            }
""", """            for &byte in bytes{
                let idx = usize::from(byte);
                if weights[idx] == 0{
                    len += 1;
                }
                weights[idx] += 1;
            }
"""))
n("l-from-bytes-count", "C09", (W, """            let mut len = 0;

            for byte in bytes{
                if weights[*byte as usize] == 0{len += 1;}
                weights[*byte as usize] += 1;
            }
""", """            for byte in bytes{
                weights[*byte as usize] += 1;
            }
            let len = weights.iter().filter(|w| **w != 0).count();
"""))
n("l-add-iflet", "C11 C10", (W, """                let self_entry = self.get_mut(&b);
                match self_entry{
                    Some(self_entry) =>{
                        *self_entry += f;
                    }
                    None =>{
                        self.weights[b as usize] = f;
                        self.len += 1;
                    }
                }
""", """                if let Some(entry) = self.get_mut(&b){
                    *entry += f;
                    continue
                }
                self.len += 1;
                self.weights[b as usize] = f;
"""))
n("l-add-index", "C11", (W, """                let self_entry = self.get_mut(&b);
                match self_entry{
                    Some(self_entry) =>{
                        *self_entry += f;
                    }
                    None =>{
                        self.weights[b as usize] = f;
                        self.len += 1;
                    }
                }
""", """                let i = b as usize;
                if self.weights[i] == 0{
                    self.len += 1;
                }
                self.weights[i] += f;
"""))
n("l-add-range", "C11", (W, """            for (b, f) in other{
                let self_entry = self.get_mut(&b);
                match self_entry{
                    Some(self_entry) =>{
                        *self_entry += f;
                    }
                    None =>{
                        self.weights[b as usize] = f;
                        self.len += 1;
                    }
                }
            }
""", """            for i in 0..256{
                if other.weights[i] != 0{
                    if self.weights[i] == 0{
                        self.len += 1;
                    }
                    self.weights[i] += other.weights[i];
                }
            }
"""))
n("l-threads-collect", "C10", (W, """            let mut handles = Vec::with_capacity(thread_num);
            for ration in byte_rations{
                let handle = thread::spawn(move || {
                    ByteWeights::from_bytes(&ration)
                });
                handles.push(handle);
            }
""", """            let handles: Vec<_> = byte_rations
                .into_iter()
                .map(|ration| thread::spawn(move || ByteWeights::from_bytes(&ration)))
                .collect();
"""))
n("l-threads-sum", "C10", (W, """            let mut weights_vec: Vec<ByteWeights> = Vec::with_capacity(thread_num);
            for handle in handles{
                weights_vec.push(handle.join().unwrap());
            }

            let mut weights = weights_vec.pop().unwrap();
            for weights_other in weights_vec{
                weights += weights_other;
            }
""", """            let mut weights = ByteWeights::new();
            for handle in handles{
                weights.add_byte_weights(&handle.join().unwrap());
            }
"""))
n("l-next-while", "C12", (W, """            if self.current_index == 256{
                return None
            }

            while self.weights.get(&(self.current_index as u8)).is_none(){
                self.current_index += 1;
                if self.current_index == 256{
                    return None
                }
            }
            let entry = Some((self.current_index as u8, *self.weights.get(&(self.current_index as u8)).unwrap()));
            if self.current_index != 256{self.current_index += 1;}

            entry
        }
    }

    pub struct Iter<""", """            while self.current_index < 256{
                let byte = self.current_index as u8;
                self.current_index += 1;
                if let Some(weight) = self.weights.get(&byte){
                    return Some((byte, *weight))
                }
            }
            None
        }
    }

    pub struct Iter<"""))
n("l-get-match", "C24 C09", (W, """            let weight = self.weights.get(*byte as usize)?;
            if *weight == 0{
                return None
            }
            Some(weight)
""", """            match &self.weights[*byte as usize]{
                0 => None,
                weight => Some(weight),
            }
"""))
n("l-get-filter", "C24", (W, """            let weight = self.weights.get(*byte as usize)?;
            if *weight == 0{
                return None
            }
            Some(weight)
""", """            self.weights.get(*byte as usize).filter(|weight| **weight != 0)
"""))
n("l-ration-end", "C10", (LU, """        for i in 0..ration_count{
            if i == ration_count - 1{
                rations.push(vec[current_element..].to_vec());
                break;
            }
        
            rations.push(vec[current_element..current_element + elements_per_ration].to_vec());
            current_element += elements_per_ration;
            elements_left -= elements_per_ration;
        }
""", """        for _ in 0..ration_count - 1{
            let end = current_element + elements_per_ration;
            rations.push(vec[current_element..end].to_vec());
            current_element = end;
        }
        rations.push(vec[current_element..].to_vec());
"""), (LU, "let mut elements_left = vec.len();\n    let elements_per_ration = elements_left / ration_count;", "let elements_per_ration = vec.len() / ration_count;"))
n("l-ration-early", "C10", (LU, """    let mut rations: Vec<Vec<T>> = Vec::with_capacity(ration_count);
    if elements_per_ration == 0{
        rations.push(vec[..].to_vec());
    }
    else{
        for i in 0..ration_count{
            if i == ration_count - 1{
                rations.push(vec[current_element..].to_vec());
                break;
            }
        
            rations.push(vec[current_element..current_element + elements_per_ration].to_vec());
            current_element += elements_per_ration;
            elements_left -= elements_per_ration;
        }
    }
""", """    let mut rations: Vec<Vec<T>> = Vec::with_capacity(ration_count);
    if elements_per_ration == 0{
        rations.push(vec.to_vec());
        return rations
    }
    for i in 0..ration_count{
        if i == ration_count - 1{
            rations.push(vec[current_element..].to_vec());
            break;
        }
    
        rations.push(vec[current_element..current_element + elements_per_ration].to_vec());
        current_element += elements_per_ration;
        elements_left -= elements_per_ration;
    }
"""))
n("l-codes-okor", "C02 C01 C14", (L, """        let code = 
            if let Some(code) = codes.get(letter){Ok(code)}
            else{
                Err(CompressError::new(
                    "letter not found in codes", 
                    letter.clone()))
            }?;
""", """        let code = codes
            .get(letter)
            .ok_or_else(|| CompressError::new("letter not found in codes", letter.clone()))?;
"""))
n("l-codes-match", "C02", (L, """        let code = 
            if let Some(code) = codes.get(letter){Ok(code)}
            else{
                Err(CompressError::new(
                    "letter not found in codes", 
                    letter.clone()))
            }?;
""", """        let code = match codes.get(letter){
            Some(code) => code,
            None => return Err(CompressError::new("letter not found in codes", letter.clone())),
        };
"""))
n("l-bits-if", "C14 C01", (L, """            comp_byte |= (*bit as u8) << bit_ptr;
            if bit_ptr == 0{
                comp_letters.push(comp_byte);
                comp_byte = 0b0000_0000;
                bit_ptr = 7;
            }
            else{bit_ptr -= 1};
""", """            if *bit{
                comp_byte |= 1 << bit_ptr;
            }
            if bit_ptr > 0{
                bit_ptr -= 1;
                continue
            }
            comp_letters.push(comp_byte);
            comp_byte = 0;
            bit_ptr = 7;
"""))
n("l-pad-mod", "C14", (L, """    let padding_bits = if bit_ptr == 7{0} else{bit_ptr + 1};
    if padding_bits != 0{comp_letters.push(comp_byte);}
""", """    let padding_bits = (bit_ptr + 1) % 8;
    if padding_bits > 0{
        comp_letters.push(comp_byte);
    }
"""))
n("l-push-helper", "C14 C02", (L, """            comp_byte |= (*bit as u8) << bit_ptr;
            if bit_ptr == 0{
                comp_letters.push(comp_byte);
                comp_byte = 0b0000_0000;
                bit_ptr = 7;
            }
            else{bit_ptr -= 1};
""", """            push_bit(&mut comp_letters, &mut comp_byte, &mut bit_ptr, *bit);
"""), (L, "pub fn compress_with_tree<", """fn push_bit(bytes: &mut Vec<u8>, byte: &mut u8, bit_ptr: &mut u8, bit: bool){
    *byte |= (bit as u8) << *bit_ptr;
    if *bit_ptr == 0{
        bytes.push(*byte);
        *byte = 0;
        *bit_ptr = 7;
    }
    else{*bit_ptr -= 1}
}

pub fn compress_with_tree<"""))
n("l-bytes-helper", "C15 C01", (L, """    for byte in &bytes[..bytes.len() - 1]{
       read_codes_in_byte!(byte;[0..8]);
    }
    read_codes_in_byte!(bytes[bytes.len() - 1];[0..8 - comp_data.padding_bits()]);
""", """    let last = bytes.len() - 1;
    for byte in &bytes[..last]{
       read_codes_in_byte!(byte;[0..8]);
    }
    let bits_in_last = 8 - comp_data.padding_bits();
    read_codes_in_byte!(bytes[last];[0..bits_in_last]);
"""))
n("l-bytes-split", "C15", (L, """    for byte in &bytes[..bytes.len() - 1]{
       read_codes_in_byte!(byte;[0..8]);
    }
    read_codes_in_byte!(bytes[bytes.len() - 1];[0..8 - comp_data.padding_bits()]);
""", """    let (last, full) = bytes.split_last().unwrap();
    for byte in full{
       read_codes_in_byte!(byte;[0..8]);
    }
    read_codes_in_byte!(*last;[0..8 - comp_data.padding_bits()]);
"""))
n("l-decomp-mask", "C15", (L, """                    match ($byte >> (7 - bit_ptr)) & 1 == 1{
                        true =>{
                            current_branch = current_branch.right_child().unwrap();
                        }
                        false =>{
                            current_branch = current_branch.left_child().unwrap();
                        }
                    }
""", """                    if $byte & (0b1000_0000 >> bit_ptr) != 0{
                        current_branch = current_branch.right_child().unwrap();
                    }
                    else{
                        current_branch = current_branch.left_child().unwrap();
                    }
"""))
n("l-header-direct", "C08 C07", (L, """        let tree_from_bin_result = 
            HuffTree::<L>::try_from_bin({
                let mut b = BitVec::from_vec(
                    bytes_try_get![5..5 + tree_len; "slice too short to read tree"]?
                    .to_vec()
                );
                for _ in 0..tree_padding_bits{b.pop();}
                b
            });
        let tree = 
            if let Ok(tree) = tree_from_bin_result{
                tree
            }
            else{
                return Err(
                    CompressedDataFromBytesError::new(
                        "invalid tree in slice"
                    )
                )
            };
""", """        let tree_bytes = bytes_try_get![5..5 + tree_len; "slice too short to read tree"]?;
        let mut tree_bin = BitVec::from_vec(tree_bytes.to_vec());
        for _ in 0..tree_padding_bits{
            tree_bin.pop();
        }
        let tree = HuffTree::<L>::try_from_bin(tree_bin)
            .map_err(|_| CompressedDataFromBytesError::new("invalid tree in slice"))?;
"""))
n("l-header-match", "C08", (L, """        let tree = 
            if let Ok(tree) = tree_from_bin_result{
                tree
            }
            else{
                return Err(
                    CompressedDataFromBytesError::new(
                        "invalid tree in slice"
                    )
                )
            };
""", """        let tree = match tree_from_bin_result{
            Ok(tree) => tree,
            Err(_) => return Err(CompressedDataFromBytesError::new("invalid tree in slice")),
        };
"""))
n("l-get-okor", "C08 C07", (L, """                if let Some(subslice) = bytes.get($index){
                    Ok(subslice)
                }
                else{
                    Err(CompressedDataFromBytesError::new($message))
                }
""", """                bytes.get($index).ok_or_else(|| CompressedDataFromBytesError::new($message))
"""))
n("l-to-bytes-slice", "C07", (L, """        let mut bytes = Vec::new();
        bytes.push((tree_bin_padding_bits << 4) + self.padding_bits());
        bytes.extend(
            tree_bytes_len.to_be_bytes().iter()
        );
        bytes.append(&mut tree_bin.into_vec());
        
        bytes.extend(self.comp_bytes());
 
        bytes
""", """        let mut bytes = Vec::with_capacity(5 + tree_bytes_len as usize + self.comp_bytes.len());
        bytes.push((tree_bin_padding_bits << 4) | self.padding_bits);
        bytes.extend_from_slice(&tree_bytes_len.to_be_bytes());
        bytes.extend_from_slice(&tree_bin.into_vec());
        bytes.extend_from_slice(self.comp_bytes());
        bytes
"""))
n("l-weights-loop", "C04 C17", (T, """            let min = branch_heap.pop_min();
            let next_min = branch_heap.pop_min();

            let branch = HuffBranch::new(
                HuffLeaf::new(
                    None,
                    min.leaf().weight() + next_min.leaf().weight()
                ),
                Some((min, next_min))
            );
            branch_heap.push(branch);
""", """            let left = branch_heap.pop_min();
            let right = branch_heap.pop_min();
            let weight = left.leaf().weight() + right.leaf().weight();

            branch_heap.push(HuffBranch::new(HuffLeaf::new(None, weight), Some((left, right))));
"""))
n("l-weights-cond", "C04", (T, "        while branch_heap.len() > 1{", "        while branch_heap.len() != 1{"))
n("l-codes-helper", "C03", (T, """        let mut codes = HashMap::with_hasher(hash_builder);
        let root = self.root();
        if root.has_children(){
            set_codes(&mut codes, root.left_child().unwrap(), false);
            set_codes(&mut codes, root.right_child().unwrap(), true);
            codes
        }
        else{
            codes.insert(root.leaf().letter().unwrap().clone(), bitvec![Msb0, u8; 0]);
            codes
        }
""", """        let mut codes = HashMap::with_hasher(hash_builder);
        let root = &self.root;
        if let (Some(left), Some(right)) = (root.left_child(), root.right_child()){
            set_codes(&mut codes, left, false);
            set_codes(&mut codes, right, true);
        }
        else{
            codes.insert(root.leaf().letter().unwrap().clone(), bitvec![Msb0, u8; 0]);
        }
        codes
"""))
n("l-read-match", "C05 C06", (T, """            if if let Some(bit) = bits.next(){*bit}
                else{
                    return Err(FromBinError::new(
                        "Provided BitVec is too small for an encoded HuffTree"
                    ))
                }{
                let branch = HuffBranch::new(
                    HuffLeaf::new(None, 0),
                    Some(( 
                        read_branches_from_bits(bits)?, 
                        read_branches_from_bits(bits)?
                    ))
                );
                Ok(branch)
            }
""", """            let is_joint = match bits.next(){
                Some(bit) => *bit,
                None => return Err(FromBinError::new(
                    "Provided BitVec is too small for an encoded HuffTree"
                )),
            };
            if is_joint{
                let left = read_branches_from_bits(bits)?;
                let right = read_branches_from_bits(bits)?;
                Ok(HuffBranch::new(HuffLeaf::new(None, 0), Some((left, right))))
            }
"""))
n("l-read-letter", "C06", (T, """                let letter =
                    if let Ok(letter) = L::try_from_be_bytes(&letter_bytes){letter}
                    else{
                        return Err(FromBinError::new(
                            "Provided BitVec stores an invalid letter"
                        ))
                    };
                let branch = HuffBranch::new(
                    HuffLeaf::new(Some(letter), 0),
                    None,
                );
                Ok(branch)
""", """                let letter = L::try_from_be_bytes(&letter_bytes)
                    .map_err(|_| FromBinError::new("Provided BitVec stores an invalid letter"))?;
                Ok(HuffBranch::new(HuffLeaf::new(Some(letter), 0), None))
"""))
n("l-bin-match", "C05", (T, """            let root = root;
            let children_iter = root.children_iter();

            if let Some(children_iter) = children_iter{
                tree_bin.push(true);

                for child in children_iter{
                    set_tree_as_bin(tree_bin, child);
                }
            }
            else{
                tree_bin.push(false);

                for byte in root.leaf().letter().unwrap().as_be_bytes().iter(){
                    for bit_ptr in 0..8{
                        tree_bin.push((byte >> (7 - bit_ptr)) & 1 == 1)
                    }
                }
            }
""", """            tree_bin.push(root.has_children());
            match root.children_iter(){
                Some(children) =>{
                    for child in children{
                        set_tree_as_bin(tree_bin, child);
                    }
                }
                None =>{
                    let letter = root.leaf().letter().unwrap();
                    for byte in letter.as_be_bytes().iter(){
                        for bit_ptr in (0..8).rev(){
                            tree_bin.push((byte >> bit_ptr) & 1 == 1)
                        }
                    }
                }
            }
"""))
n("l-heap-reverse", "C04", (H, "        other.0.leaf().cmp(&self.0.leaf())\n", "        self.0.leaf().cmp(other.0.leaf()).reverse()\n"))
n("l-heap-build", "C04 C17", (H, """        for (l, f) in weights.into_iter(){
            let new_branch = HuffBranch::new(HuffLeaf::new(Some(l), f), None);
    
            self.push(new_branch);
        }
""", """        for (letter, weight) in weights{
            self.push(HuffBranch::new(HuffLeaf::new(Some(letter), weight), None));
        }
"""))
n("l-branch-new", "C05 C04", (B, """        if let Some(children) = children{
            HuffBranch{
                leaf,
                left_child: Some(Box::new(children.0)),
                right_child: Some(Box::new(children.1)),
            }
        }
        else{
            HuffBranch{
                leaf,
                left_child: None,
                right_child: None,
            }
        }
""", """        let (left_child, right_child) = match children{
            Some((left, right)) => (Some(Box::new(left)), Some(Box::new(right))),
            None => (None, None),
        };
        HuffBranch{leaf, left_child, right_child}
"""))
n("l-set-codes", "C03 C05", (T, """                let mut child_code = BitVec::with_capacity(1);
                if let Some(parent_code) = parent_code{
                    child_code = parent_code;
                }   
                child_code.push(pos != 0);
""", """                let mut child_code = match parent_code{
                    Some(parent_code) => parent_code,
                    None => BitVec::with_capacity(1),
                };
                child_code.push(pos != 0);
"""))
n("l-count-entry", "C13", (W, """        let entry = map.entry(l.clone()).or_insert(0);
        *entry += 1;
""", """        *map.entry(l.clone()).or_insert(0) += 1;
"""))
n("l-count-default", "C13", (W, """        let entry = map.entry(l.clone()).or_insert(0);
        *entry += 1;
""", """        *map.entry(l.clone()).or_default() += 1;
"""))
# the command line tool
C, M, U = 'huff/src/cli.rs','huff/src/comp.rs','huff/src/utils.rs'
r("c-same-helper","C21 C20",(C,"""        // check if dst is the src file itself, writing to it would destroy it
        if $dst_path.try_exists()? && utils::is_same_file(&$src_path, &$dst_path)?{
            return Err(Error::new(
                format!("Destination {:?} is the source file", $dst_path), 
                ErrorKind::InvalidInput
            ))
        }
    };
    (decomp;""","""        reject_same_file(&$src_path, &$dst_path)?;
    };
    (decomp;"""),(C,"""        // check if dst is the src file itself, writing to it would destroy it
        if $dst_path.try_exists()? && utils::is_same_file(&$src_path, &$dst_path)?{
            return Err(Error::new(
                format!("Destination {:?} is the source file", $dst_path), 
                ErrorKind::InvalidInput
            ))
        }
    };
}
""","""        reject_same_file(&$src_path, &$dst_path)?;
    };
}

fn reject_same_file(src_path: &Path, dst_path: &Path) -> Result<(), Error>{
    if dst_path.try_exists()? && utils::is_same_file(src_path, dst_path)?{
        return Err(Error::new(
            format!("Destination {:?} is the source file", dst_path), 
            ErrorKind::InvalidInput
        ))
    }
    Ok(())
}
"""))
r("c-ask-fn","C22",(C,"""            write!(io::stdout(), "{:?} already exists, do you want to replace it? [Y/N]: ", $path)?;
            io::stdout().flush()?;

            let mut yes_no = String::new();
            io::stdin().read_line(&mut yes_no)?;
            if !yes_no.to_lowercase().starts_with("y"){
                return Ok(());
            }
            writeln!(io::stdout())?;
        }
    };
}
""","""            if !confirm_replace(&$path)?{
                return Ok(());
            }
            writeln!(io::stdout())?;
        }
    };
}

fn confirm_replace(path: &Path) -> Result<bool, Error>{
    write!(io::stdout(), "{:?} already exists, do you want to replace it? [Y/N]: ", path)?;
    io::stdout().flush()?;

    let mut yes_no = String::new();
    io::stdin().read_line(&mut yes_no)?;
    Ok(yes_no.to_lowercase().starts_with("y"))
}
"""))
r("c-ask-out","C22",(C,"""            write!(io::stdout(), "{:?} already exists, do you want to replace it? [Y/N]: ", $path)?;
            io::stdout().flush()?;

            let mut yes_no = String::new();
            io::stdin().read_line(&mut yes_no)?;
            if !yes_no.to_lowercase().starts_with("y"){
                return Ok(());
            }
            writeln!(io::stdout())?;
""","""            let mut out = io::stdout();
            write!(out, "{:?} already exists, do you want to replace it? [Y/N]: ", $path)?;
            out.flush()?;

            let mut answer = String::new();
            io::stdin().read_line(&mut answer)?;
            let accepted = answer.to_lowercase().starts_with('y');
            if !accepted{
                return Ok(());
            }
            writeln!(out)?;
"""))
r("c-dir-first","C25 C21",(C,"""        // copy file name from src if none is provided
        if $dst_path == Path::new("./SRC_FILE.hff"){
            $dst_path.set_file_name("");
            $dst_path.push(Path::new($src_path.file_name().unwrap()));
        }

        // check if src is a file
        if $src_path.is_dir(){
            return Err(Error::new(
                format!("{:?} is a directory", $src_path), 
                ErrorKind::NotFile
            ))
        }
""","""        // check if src is a file
        if $src_path.is_dir(){
            return Err(Error::new(
                format!("{:?} is a directory", $src_path), 
                ErrorKind::NotFile
            ))
        }
        // copy file name from src if none is provided
        if $dst_path == Path::new("./SRC_FILE.hff"){
            $dst_path.set_file_name("");
            $dst_path.push(Path::new($src_path.file_name().unwrap()));
        }
"""))
r("c-name-let","C25 C21",(C,"""        if $src_path.file_name().is_none(){
            return Err(Error::new(
                format!("{:?} is a directory", $src_path), 
                ErrorKind::NotFile
            ))
        }
""","""        let src_name = match $src_path.file_name(){
            Some(name) => name.to_os_string(),
            None => return Err(Error::new(
                format!("{:?} is a directory", $src_path), 
                ErrorKind::NotFile
            ))
        };
"""),(C,"$dst_path.push(Path::new($src_path.file_name().unwrap()));","$dst_path.push(src_name);"))
r("c-ext-helper","C25",(C,"""        $dst_path = $dst_path.with_extension({
            let mut ex = $dst_path
                .extension()
                .unwrap_or(OsStr::new(""))
                .to_os_string();
            if !ex.is_empty(){ex.push(".");}
            ex.push(EXTENSION);
            ex
        });
""","""        $dst_path = compressed_path(&$dst_path);
"""),(C,"macro_rules! parse_block_size {","""fn compressed_path(path: &Path) -> PathBuf{
    let mut ex = path
        .extension()
        .unwrap_or(OsStr::new(""))
        .to_os_string();
    if !ex.is_empty(){ex.push(".");}
    ex.push(EXTENSION);
    path.with_extension(ex)
}

macro_rules! parse_block_size {"""))
r("c-ext-match","C25",(C,"""        $dst_path = $dst_path.with_extension({
            let mut ex = $dst_path
                .extension()
                .unwrap_or(OsStr::new(""))
                .to_os_string();
            if !ex.is_empty(){ex.push(".");}
            ex.push(EXTENSION);
            ex
        });
""","""        let extension = match $dst_path.extension(){
            Some(ex) if !ex.is_empty() => {
                let mut ex = ex.to_os_string();
                ex.push(".");
                ex.push(EXTENSION);
                ex
            }
            _ => OsStr::new(EXTENSION).to_os_string(),
        };
        $dst_path = $dst_path.with_extension(extension);
"""))
r("c-locals","C22 C21",(C,"""    // the decompress flag is present
    if matches.is_present("decompress"){""","""    let decompress = matches.is_present("decompress");
    let noask = matches.is_present("noask");
    let replace = matches.is_present("replace");
    if decompress{"""),(C,"""        parse_paths!(decomp; src_path, dst_path);
        // ask if should replace dst_file
        ask_replace!(dst_path, matches.is_present("noask"));""","""        parse_paths!(decomp; src_path, dst_path);
        // ask if should replace dst_file
        ask_replace!(dst_path, noask);"""),(C,"""        parse_paths!(comp; src_path, dst_path);
        // ask if should replace dst_file
        ask_replace!(dst_path, matches.is_present("noask"));""","""        parse_paths!(comp; src_path, dst_path);
        // ask if should replace dst_file
        ask_replace!(dst_path, noask);"""),(C,"""    if matches.is_present("replace"){""","    if replace{"))
r("c-remove-helper","C22 C21",(C,"""    if matches.is_present("replace"){
        fs::remove_file(src_path)?;
    }
""","""    if matches.is_present("replace"){
        remove_source(&src_path)?;
    }
"""),(C,"pub fn process_args(","""fn remove_source(path: &Path) -> Result<(), Error>{
    fs::remove_file(path)?;
    Ok(())
}

pub fn process_args("""))
r("c-split-fns","C21 C22 C25",(C,"""        parse_paths!(decomp; src_path, dst_path);
        // ask if should replace dst_file
        ask_replace!(dst_path, matches.is_present("noask"));
        // read src, decompress it, write the results to dst
        comp::read_decompress_write(&src_path, &dst_path, block_size)?;
""","""        parse_paths!(decomp; src_path, dst_path);
    }
    else{
        parse_paths!(comp; src_path, dst_path);
    }
    // ask if should replace dst_file
    ask_replace!(dst_path, matches.is_present("noask"));
    if matches.is_present("decompress"){
        // read src, decompress it, write the results to dst
        comp::read_decompress_write(&src_path, &dst_path, block_size)?;
"""),(C,"""        parse_paths!(comp; src_path, dst_path);
        // ask if should replace dst_file
        ask_replace!(dst_path, matches.is_present("noask"));
        // read src, compress it""","""        // read src, compress it"""))
r("c-time-let","C22",(C,"""    if matches.is_present("time"){writeln!(io::stdout(), "{:?}", start.elapsed())?;}
    Ok(())""","""    let elapsed = start.elapsed();
    if matches.is_present("time"){
        writeln!(io::stdout(), "{:?}", elapsed)?;
    }
    Ok(())"""))
r("c-blk-unit","C23",(C,"""        while let Some(c) = chars.next(){
            if c.is_ascii_digit(){num.push(c)}
            else{mult.push(c); break}
        }
""","""        for c in chars.by_ref(){
            if c.is_ascii_digit(){
                num.push(c);
            }
            else{
                mult.push(c);
                break;
            }
        }
"""))
r("c-blk-late","C23",(C,"""        mult.push_str(&chars.collect::<String>());
        let mult""","""        for c in chars{mult.push(c);}
        let mult"""))
r("c-blk-okor","C23",(C,"""        match num.checked_mul(mult){
            Some(block_size) => block_size,
            None =>
                return Err(Error::new(
                    String::from("Invalid block size"), 
                    ErrorKind::InvalidInput
                )),
        }
""","""        num.checked_mul(mult).ok_or_else(|| Error::new(
            String::from("Invalid block size"), 
            ErrorKind::InvalidInput
        ))?
"""))
r("c-blk-shift","C23",(C,"""            "ki" => 1024,
            "mi" => 1_048_576,
            "gi" => 1_073_741_824,""","""            "ki" => 1 << 10,
            "mi" => 1 << 20,
            "gi" => 1 << 30,"""))
r("c-blk-zero","C23",(C,"""        let num = match num.parse::<usize>(){
            Err(_) | Ok(0) =>
                return Err(Error::new(
                    String::from("Invalid block size"), 
                    ErrorKind::InvalidInput
                )),
            Ok(num) => num,
        };
""","""        let num: usize = match num.parse(){
            Ok(num) if num > 0 => num,
            _ =>
                return Err(Error::new(
                    String::from("Invalid block size"), 
                    ErrorKind::InvalidInput
                )),
        };
"""))
r("m-header-fn","C18 C19",(M,"""    // write an empty byte, later to be filled by padding data
    writer.write_all(&[0])?;
    // write the tree_bin_bytes lenght as a 4 byte num
    writer.write_all(&(tree_bin_bytes.len() as u32).to_be_bytes())?;
    // write the HuffTree represented as bytes
    writer.write_all(&tree_bin_bytes)?;
""","""    write_tree(&mut writer, &tree_bin_bytes)?;
"""),(M,"""/// Read the src file, decompress it""","""fn write_tree<W: Write>(writer: &mut W, tree_bin_bytes: &[u8]) -> Result<(), Error>{
    // write an empty byte, later to be filled by padding data
    writer.write_all(&[0])?;
    // write the tree_bin_bytes lenght as a 4 byte num
    writer.write_all(&(tree_bin_bytes.len() as u32).to_be_bytes())?;
    // write the HuffTree represented as bytes
    writer.write_all(tree_bin_bytes)?;
    Ok(())
}

/// Read the src file, decompress it"""))
r("m-short-fn","C20",(M,"""    if header.len() < 5 || src_bytes_left < 5{
        return Err(Error::new(
            format!("{:?} too short to decompress, missing header information", src_path),
            ErrorKind::MissingHeaderInfo
        ))
    }""","""    if header.len() < 5 || src_bytes_left < 5{
        return Err(too_short(src_path))
    }"""),(M,"""    if tree_bytes.len() < tree_len || src_bytes_left < tree_len{
        return Err(Error::new(
            format!("{:?} too short to decompress, missing header information", src_path),
            ErrorKind::MissingHeaderInfo
        ))
    }""","""    if tree_bytes.len() < tree_len || src_bytes_left < tree_len{
        return Err(too_short(src_path))
    }"""),(M,"""/// Read bytes from reader, loading at most buf.len() bytes
/// from it at one time, building""","""fn too_short(path: &PathBuf) -> Error{
    Error::new(
        format!("{:?} too short to decompress, missing header information", path),
        ErrorKind::MissingHeaderInfo
    )
}

/// Read bytes from reader, loading at most buf.len() bytes
/// from it at one time, building"""))
r("m-map-err","C20",(M,"""        Ok(tree) => tree,
        Err(_) => return Err(Error::new(
            format!("{:?} stores invalid header information", src_path), 
            ErrorKind::InvalidHeaderInfo
        ))
    };
""","""        Ok(tree) => tree,
        Err(_) => {
            let message = format!("{:?} stores invalid header information", src_path);
            return Err(Error::new(message, ErrorKind::InvalidHeaderInfo))
        }
    };
"""))
r("m-map-err2","C20",(M,"let tree = match huff_coding::prelude::HuffTree::<u8>::try_from_bin({","let tree = huff_coding::prelude::HuffTree::<u8>::try_from_bin({"),(M,"""    }){
        Ok(tree) => tree,
        Err(_) => return Err(Error::new(
            format!("{:?} stores invalid header information", src_path), 
            ErrorKind::InvalidHeaderInfo
        ))
    };
""","""    }).map_err(|_| Error::new(
        format!("{:?} stores invalid header information", src_path), 
        ErrorKind::InvalidHeaderInfo
    ))?;
"""))
r("m-pop-truncate","C20",(M,"""        let mut b = huff_coding::bitvec::prelude::BitVec::from_vec(tree_bytes);
        for _ in 0..tree_padding_bits{b.pop();}
        b""","""        let mut bits = huff_coding::bitvec::prelude::BitVec::from_vec(tree_bytes);
        bits.truncate(bits.len().saturating_sub(tree_padding_bits as usize));
        bits"""))
r("m-left-let","C18",(M,"""    while *reader_bytes_left >= buf.len(){
        reader.read_exact(buf)?;
        let (comp_bytes, padding_bits, huff_tree) =  comp_data_from!(&buf);
        writer.write_all(&comp_bytes)?;
        
        prev_padding = padding_bits;
        prev_byte = comp_bytes[comp_bytes.len() - 1];
        tree = huff_tree;

        *reader_bytes_left -= buf.len();
    }""","""    while *reader_bytes_left >= buf.len(){
        reader.read_exact(buf)?;
        *reader_bytes_left -= buf.len();
        let (comp_bytes, padding_bits, huff_tree) =  comp_data_from!(&buf);
        tree = huff_tree;
        prev_padding = padding_bits;
        prev_byte = *comp_bytes.last().unwrap();
        writer.write_all(&comp_bytes)?;
    }"""))
r("m-ref-tree","C18",(M,"""    let mut tree = tree;

    let mut prev_byte""","""    let mut prev_byte"""),(M,"""            let (mut comp_bytes, mut padding_bits, huff_tree) = ""","""            let (mut comp_bytes, mut padding_bits, _) = """),(M,"            (comp_bytes, padding_bits, huff_tree)","            (comp_bytes, padding_bits)"),(M,"let (comp_bytes, padding_bits, huff_tree) =  comp_data_from!(&buf);","let (comp_bytes, padding_bits) =  comp_data_from!(&buf);"),(M,"        tree = huff_tree;\n",""),(M,"let (comp_bytes, padding_bits, _) =  comp_data_from","let (comp_bytes, padding_bits) =  comp_data_from"))
r("m-bits-if","C20",(M,"""                    match ($byte >> (7 - bit_ptr)) & 1 == 1{
                        true =>{
                            current_branch = current_branch.right_child().unwrap();
                        }
                        false =>{
                            current_branch = current_branch.left_child().unwrap();
                        }
                    }
""","""                    let bit = ($byte >> (7 - bit_ptr)) & 1 == 1;
                    current_branch = if bit{
                        current_branch.right_child().unwrap()
                    }
                    else{
                        current_branch.left_child().unwrap()
                    };
"""))
r("m-mask","C20",(M,"""                    match ($byte >> (7 - bit_ptr)) & 1 == 1{
                        true =>{
                            current_branch = current_branch.right_child().unwrap();
                        }
                        false =>{
                            current_branch = current_branch.left_child().unwrap();
                        }
                    }
""","""                    if $byte & (0x80 >> bit_ptr) == 0{
                        current_branch = current_branch.left_child().unwrap();
                    }
                    else{
                        current_branch = current_branch.right_child().unwrap();
                    }
"""))
r("m-split-last","C20",(M,"""        for byte in &buf[..*reader_bytes_left - 1]{
            read_codes_in_byte!(byte;[0..8]);
        }
        read_codes_in_byte!(buf[*reader_bytes_left - 1];[0..8 - padding_bits]);""","""        let last = *reader_bytes_left - 1;
        for byte in buf[..last].iter(){
            read_codes_in_byte!(byte;[0..8]);
        }
        read_codes_in_byte!(buf[last];[0..8 - padding_bits]);"""))
r("m-count-helper","C18 C19",(M,"""        bw += ByteWeights::threaded_from_bytes(&buf, 12);
        *reader_bytes_left -= buf.len();
    }""","""        count_bytes(&mut bw, &buf);
        *reader_bytes_left -= buf.len();
    }"""),(M,"""        bw += ByteWeights::threaded_from_bytes(&buf[..*reader_bytes_left], 12);""","""        count_bytes(&mut bw, &buf[..*reader_bytes_left]);"""),(M,"""/// Read bytes from reader, loading at most buf.len() bytes
/// from it at one time, building""","""fn count_bytes(weights: &mut ByteWeights, bytes: &[u8]){
    *weights += ByteWeights::threaded_from_bytes(bytes, 12);
}

/// Read bytes from reader, loading at most buf.len() bytes
/// from it at one time, building"""))
r("m-count-loop","C18 C19",(M,"""    while *reader_bytes_left >= buf.len(){
        reader.read_exact(buf)?;
        bw += ByteWeights::threaded_from_bytes(&buf, 12);
        *reader_bytes_left -= buf.len();
    }
    if *reader_bytes_left > 0{
        reader.read_exact(&mut buf[..*reader_bytes_left])?;
        bw += ByteWeights::threaded_from_bytes(&buf[..*reader_bytes_left], 12);
    }
""","""    let block_size = buf.len();
    while *reader_bytes_left > 0{
        let read = block_size.min(*reader_bytes_left);
        reader.read_exact(&mut buf[..read])?;
        bw += ByteWeights::threaded_from_bytes(&buf[..read], 12);
        *reader_bytes_left -= read;
    }
"""))
r("m-offset-fn","C18",(M,"""                comp_bytes = utils::offset_bytes(&comp_bytes, offset);
                comp_bytes[0] |= prev_byte;
""","""                comp_bytes = join_blocks(prev_byte, &comp_bytes, offset);
"""),(M,"""/// Read bytes from reader, loading at most buf.len() bytes
/// from it at one time, compress""","""fn join_blocks(prev_byte: u8, bytes: &[u8], offset: usize) -> Vec<u8>{
    let mut joined = utils::offset_bytes(bytes, offset);
    joined[0] |= prev_byte;
    joined
}

/// Read bytes from reader, loading at most buf.len() bytes
/// from it at one time, compress"""))
r("m-ceil","C18",(M,"comp_bytes.truncate((bit_count + padding_bits as usize) / 8);","comp_bytes.truncate((bit_count + 7) / 8);"))
r("m-open-order","C18 C21",(M,"""    let mut reader = BufReader::new(src);

    // write to dst file
    let dst = File::create(dst_path)?;
    let mut writer = BufWriter::new(dst);

    // allocate a u8 buffer of size == block_size, or less if the file is smaller than that
    let mut buf = vec![0; block_size.min(src_bytes_left)];
""","""    let mut reader = BufReader::new(src);

    // allocate a u8 buffer of size == block_size, or less if the file is smaller than that
    let mut buf = vec![0; std::cmp::min(block_size, src_bytes_left)];

    // write to dst file
    let mut writer = BufWriter::new(File::create(dst_path)?);
"""))
r("m-pad-or","C18 C19",(M,"writer.write_all(&[(tree_bin_padding << 4) + comp_padding])?;","let padding = (tree_bin_padding << 4) | comp_padding;\n    writer.write_all(&[padding])?;"))
r("u-rev","C18",(U,"""        for i in 0..8{
            comp_byte |= (((byte >> (7 - i)) & 1 == 1) as u8) << bit_ptr;
""","""        for i in (0..8).rev(){
            comp_byte |= ((byte >> i) & 1) << bit_ptr;
"""))
r("u-and1","C18",(U,"            comp_byte |= (((byte >> (7 - i)) & 1 == 1) as u8) << bit_ptr;","            let bit = (byte >> (7 - i)) & 1;\n            comp_byte |= bit << bit_ptr;"))
r("u-pad","C18",(U,"""    let n = (8 - bit_count % 8) as u8; 
    match n{8 => 0, _ => n}""","""    ((8 - bit_count % 8) % 8) as u8"""))
r("u-padif","C18",(U,"""    let n = (8 - bit_count % 8) as u8; 
    match n{8 => 0, _ => n}""","""    let rest = (bit_count % 8) as u8;
    if rest == 0{0} else{8 - rest}"""))
r("u-last","C18",(U,"""    let padding_bits = if bit_ptr == 7{0} else{bit_ptr + 1};
    if padding_bits != 0{offset_bytes.push(comp_byte);}
""","""    // the last byte isn't full
    if bit_ptr != 7{
        offset_bytes.push(comp_byte);
    }
"""))
r("u-same","C21",(U,"""    let (a, b) = (fs::metadata(a)?, fs::metadata(b)?);
    Ok(a.dev() == b.dev() && a.ino() == b.ino())""","""    let a = fs::metadata(a)?;
    let b = fs::metadata(b)?;
    Ok((a.dev(), a.ino()) == (b.dev(), b.ino()))"""))
r("u-same2","C21",(U,"""    let (a, b) = (fs::metadata(a)?, fs::metadata(b)?);
    Ok(a.dev() == b.dev() && a.ino() == b.ino())""","""    let id = |path: &Path| -> io::Result<(u64, u64)>{
        let metadata = fs::metadata(path)?;
        Ok((metadata.dev(), metadata.ino()))
    };
    Ok(id(a)? == id(b)?)"""))


L,T,W,B,H='huff_coding/src/comp.rs','huff_coding/src/tree/tree_inner.rs','huff_coding/src/weights.rs','huff_coding/src/tree/branch.rs','huff_coding/src/tree/branch_heap.rs'
LU='huff_coding/src/utils.rs'
def n(i, p, *e): STRIP.add(i); R[i] = (p.split(), list(e))
# these edits are written against the text without comments and blank lines
n("k-find-code","C02 C14",(L,"""        let code = 
            if let Some(code) = codes.get(letter){Ok(code)}
            else{
                Err(CompressError::new(
                    "letter not found in codes", 
                    letter.clone()))
            }?;
""","""        let code = find_code(&codes, letter)?;
"""),(L,"pub fn decompress<L: HuffLetter>","""fn find_code<'a, L: HuffLetter>(codes: &'a std::collections::HashMap<L, BitVec<crate::bitvec::prelude::Msb0, u8>>, letter: &L) -> Result<&'a BitVec<crate::bitvec::prelude::Msb0, u8>, CompressError<L>>{
    match codes.get(letter){
        Some(code) => Ok(code),
        None => Err(CompressError::new("letter not found in codes", letter.clone())),
    }
}

pub fn decompress<L: HuffLetter>"""))
n("k-push-bit","C14 C01",(L,"""            comp_byte |= (*bit as u8) << bit_ptr;
            if bit_ptr == 0{
                comp_letters.push(comp_byte);
                comp_byte = 0b0000_0000;
                bit_ptr = 7;
            }
            else{bit_ptr -= 1};
""","""            push_bit(&mut comp_letters, &mut comp_byte, &mut bit_ptr, *bit);
"""),(L,"pub fn decompress<L: HuffLetter>","""fn push_bit(bytes: &mut Vec<u8>, byte: &mut u8, bit_ptr: &mut u8, bit: bool){
    *byte |= (bit as u8) << *bit_ptr;
    if *bit_ptr > 0{
        *bit_ptr -= 1;
        return
    }
    bytes.push(*byte);
    *byte = 0;
    *bit_ptr = 7;
}

pub fn decompress<L: HuffLetter>"""))
n("k-merge","C04 C17",(T,"""            let branch = HuffBranch::new(
                HuffLeaf::new(
                    None,
                    min.leaf().weight() + next_min.leaf().weight()
                ),
                Some((min, next_min))
            );
            branch_heap.push(branch);
""","""            branch_heap.push(HuffTree::join(min, next_min));
"""),(T,"    fn set_codes_in_child_branches(parent:","""    fn join(left: HuffBranch<L>, right: HuffBranch<L>) -> HuffBranch<L>{
        let weight = left.leaf().weight() + right.leaf().weight();
        HuffBranch::new(HuffLeaf::new(None, weight), Some((left, right)))
    }
    fn set_codes_in_child_branches(parent:"""))
n("k-merge-loop","C04 C17",(T,"""        while branch_heap.len() > 1{
""","""        while branch_heap.len() >= 2{
"""))
n("k-merge-match","C04 C17",(T,"""            let min = branch_heap.pop_min();
            let next_min = branch_heap.pop_min();
""","""            let (min, next_min) = (branch_heap.pop_min(), branch_heap.pop_min());
"""))
n("k-root-code","C03",(T,"""            root.set_code({let mut c = BitVec::with_capacity(1); c.push(false); c});
""","""            let mut code = BitVec::with_capacity(1);
            code.push(false);
            root.set_code(code);
"""))
n("k-children","C05",(T,"""            let root = root;
            let children_iter = root.children_iter();
            if let Some(children_iter) = children_iter{
                tree_bin.push(true);
                for child in children_iter{
                    set_tree_as_bin(tree_bin, child);
                }
            }
""","""            if let (Some(left), Some(right)) = (root.left_child(), root.right_child()){
                tree_bin.push(true);
                set_tree_as_bin(tree_bin, left);
                set_tree_as_bin(tree_bin, right);
            }
"""))
n("k-children2","C05",(T,"""            let root = root;
            let children_iter = root.children_iter();
            if let Some(children_iter) = children_iter{
                tree_bin.push(true);
                for child in children_iter{
                    set_tree_as_bin(tree_bin, child);
                }
            }
""","""            if root.has_children(){
                tree_bin.push(true);
                set_tree_as_bin(tree_bin, root.left_child().unwrap());
                set_tree_as_bin(tree_bin, root.right_child().unwrap());
            }
"""))
n("k-bin-mask","C05",(T,"                        tree_bin.push((byte >> (7 - bit_ptr)) & 1 == 1)\n","                        let mask = 0b1000_0000 >> bit_ptr;\n                        tree_bin.push(byte & mask != 0);\n"))
n("k-bin-letter","C05",(T,"""                for byte in root.leaf().letter().unwrap().as_be_bytes().iter(){
                    for bit_ptr in 0..8{
                        tree_bin.push((byte >> (7 - bit_ptr)) & 1 == 1)
                    }
                }
""","""                let letter = root.leaf().letter().unwrap();
                let bytes = letter.as_be_bytes();
                for byte in bytes.iter(){
                    for bit_ptr in (0..8).rev(){
                        tree_bin.push((byte >> bit_ptr) & 1 == 1);
                    }
                }
"""))
n("k-set-codes","C03 C02",(T,"""            let set_code = |child: &mut HuffBranch<L>, pos|{
                let mut child_code = BitVec::with_capacity(1);
                if let Some(parent_code) = parent_code{
                    child_code = parent_code;
                }   
                child_code.push(pos != 0);
                child.set_code(child_code.clone());
                HuffTree::set_codes_in_child_branches(child, Some(child_code));
            };
            set_code.clone()(parent.left_child_mut().unwrap(), 0);
            set_code(parent.right_child_mut().unwrap(), 1);
""","""            let mut left_code = parent_code.unwrap_or_else(|| BitVec::with_capacity(1));
            let mut right_code = left_code.clone();
            left_code.push(false);
            right_code.push(true);
            let left = parent.left_child_mut().unwrap();
            left.set_code(left_code.clone());
            HuffTree::set_codes_in_child_branches(left, Some(left_code));
            let right = parent.right_child_mut().unwrap();
            right.set_code(right_code.clone());
            HuffTree::set_codes_in_child_branches(right, Some(right_code));
"""))
n("k-read-codes","C03 C02",(T,"""                for (pos, child) in children_iter.enumerate(){
                    let branch = child;
                    let leaf = branch.leaf();
                    if let Some(letter) = leaf.letter(){
                        codes.insert(letter.clone(), leaf.code().unwrap().clone());
                    }
                    else{
                        set_codes(codes, child, pos != 0);
                    }
                }
""","""                for (pos, child) in children_iter.enumerate(){
                    match child.leaf().letter(){
                        Some(letter) => {
                            codes.insert(letter.clone(), child.leaf().code().unwrap().clone());
                        }
                        None => set_codes(codes, child, pos == 1),
                    }
                }
"""))
n("k-step","C15 C01",(L,"""                    match ($byte >> (7 - bit_ptr)) & 1 == 1{
                        true =>{
                            current_branch = current_branch.right_child().unwrap();
                        }
                        false =>{
                            current_branch = current_branch.left_child().unwrap();
                        }
                    }
""","""                    current_branch = child_at(current_branch, ($byte >> (7 - bit_ptr)) & 1 == 1);
"""),(L,"pub fn decompress<L: HuffLetter>","""fn child_at<L: HuffLetter>(branch: &crate::prelude::HuffBranch<L>, bit: bool) -> &crate::prelude::HuffBranch<L>{
    if bit{
        return branch.right_child().unwrap();
    }
    branch.left_child().unwrap()
}

pub fn decompress<L: HuffLetter>"""))
n("k-slice-iter","C15 C01",(L,"    for byte in &bytes[..bytes.len() - 1]{\n","    let last = bytes.len() - 1;\n    for byte in bytes[..last].iter(){\n"))
n("k-from-index","C09",(W,"""            for byte in bytes{
                if weights[*byte as usize] == 0{len += 1;}
                weights[*byte as usize] += 1;
            }
""","""            for i in 0..bytes.len(){
                let index = bytes[i] as usize;
                if weights[index] == 0{len += 1;}
                weights[index] += 1;
            }
"""))
n("k-from-while","C09",(W,"""            for byte in bytes{
                if weights[*byte as usize] == 0{len += 1;}
                weights[*byte as usize] += 1;
            }
""","""            let mut i = 0;
            while i < bytes.len(){
                let index = bytes[i] as usize;
                if weights[index] == 0{len += 1;}
                weights[index] += 1;
                i += 1;
            }
"""))
n("k-from-byval","C09",(W,"""            for byte in bytes{
                if weights[*byte as usize] == 0{len += 1;}
                weights[*byte as usize] += 1;
            }
""","""            for &byte in bytes{
                let weight = &mut weights[byte as usize];
                if *weight == 0{
                    len += 1;
                }
                *weight += 1;
            }
"""))
n("k-from-entry","C09",(W,"""            for byte in bytes{
                if weights[*byte as usize] == 0{len += 1;}
                weights[*byte as usize] += 1;
            }
""","""            for byte in bytes.iter(){
                weights[*byte as usize] += 1;
                if weights[*byte as usize] == 1{
                    len += 1;
                }
            }
"""))
n("k-add-index","C11",(W,"""                let self_entry = self.get_mut(&b);
                match self_entry{
                    Some(self_entry) =>{
                        *self_entry += f;
                    }
                    None =>{
                        self.weights[b as usize] = f;
                        self.len += 1;
                    }
                }
""","""                if self.weights[b as usize] == 0{
                    self.len += 1;
                }
                self.weights[b as usize] += f;
"""))
n("k-add-iter","C11",(W,"            for (b, f) in other{\n","            for (b, f) in other.iter(){\n"))
n("k-threads-fold","C10",(W,"""            let mut weights = weights_vec.pop().unwrap();
            for weights_other in weights_vec{
                weights += weights_other;
            }
            weights
""","""            let mut sum = weights_vec.pop().unwrap();
            for weights in weights_vec.iter(){
                sum.add_byte_weights(weights);
            }
            sum
"""))
n("k-threads-new","C10",(W,"""            let mut weights_vec: Vec<ByteWeights> = Vec::with_capacity(thread_num);
            for handle in handles{
                weights_vec.push(handle.join().unwrap());
            }
            let mut weights = weights_vec.pop().unwrap();
            for weights_other in weights_vec{
                weights += weights_other;
            }
            weights
""","""            let mut weights = ByteWeights::new();
            for handle in handles{
                weights += handle.join().unwrap();
            }
            weights
"""))
n("k-split-padding","C08 C07",(L,"""        let tree_padding_bits =  padding_bits >> 4;
        let data_padding_bits = padding_bits & 0b0000_1111;
        if tree_padding_bits > 7 || data_padding_bits > 7{
            return Err(
                CompressedDataFromBytesError::new(
                    "stored padding bits cannot be larger than 7"
                )
            )
        }
""","""        let (tree_padding_bits, data_padding_bits) = split_padding_bits(*padding_bits)?;
"""),(L,"pub fn decompress<L: HuffLetter>","""fn split_padding_bits(byte: u8) -> Result<(u8, u8), CompressedDataFromBytesError>{
    let (tree, data) = (byte >> 4, byte & 0x0f);
    if tree > 7 || data > 7{
        return Err(CompressedDataFromBytesError::new("stored padding bits cannot be larger than 7"))
    }
    Ok((tree, data))
}

pub fn decompress<L: HuffLetter>"""))
n("k-div","C08 C07",(L,"        let tree_padding_bits =  padding_bits >> 4;\n        let data_padding_bits = padding_bits & 0b0000_1111;\n","        let tree_padding_bits = *padding_bits / 16;\n        let data_padding_bits = *padding_bits % 16;\n"))
n("k-match-tree","C08",(L,"""        let tree = 
            if let Ok(tree) = tree_from_bin_result{
                tree
            }
            else{
                return Err(
                    CompressedDataFromBytesError::new(
                        "invalid tree in slice"
                    )
                )
            };
""","""        let tree = match tree_from_bin_result{
            Ok(tree) => tree,
            Err(_) => return Err(CompressedDataFromBytesError::new("invalid tree in slice")),
        };
"""))
n("k-pad-inline","C07",(L,"((tree_bin.len() + tree_bin_padding_bits as usize) / 8) as u32","((tree_bin.len() + 7) / 8) as u32"))
n("k-pop-unwrap","C04",(H,"        self.heap.pop().unwrap().unwrap()\n","        let item = self.heap.pop().unwrap();\n        item.0\n"))
n("k-build","C04 C17",(H,"""            let new_branch = HuffBranch::new(HuffLeaf::new(Some(l), f), None);
            self.push(new_branch);
""","""            self.heap.push(HuffBranchHeapItem(HuffBranch::new(HuffLeaf::new(Some(l), f), None)));
"""))
n("k-fromweights","C04 C17",(H,"""        let mut heap = HuffBranchHeap::new();
        heap.build(weights);
        heap
""","""        let mut branches = HuffBranchHeap::new();
        for (letter, weight) in weights.into_iter(){
            branches.push(HuffBranch::new(HuffLeaf::new(Some(letter), weight), None));
        }
        branches
"""),(H,"    fn build<W","    #[allow(dead_code)]\n    fn build<W"))
n("k-children-iter","C05 C03",(B,"""        match self.child_pos{
            0 =>{
                self.child_pos += 1;
                self.parent.left_child()
            }
            1 =>{
                self.child_pos += 1;
                self.parent.right_child()
            }
            _ => 
                None,
        }
""","""        let child = match self.child_pos{
            0 => self.parent.left_child(),
            1 => self.parent.right_child(),
            _ => return None,
        };
        self.child_pos += 1;
        child
"""))
n("k-branch-new","C05",(B,"""        if let Some(children) = children{
            HuffBranch{
                leaf,
                left_child: Some(Box::new(children.0)),
                right_child: Some(Box::new(children.1)),
            }
        }
        else{
            HuffBranch{
                leaf,
                left_child: None,
                right_child: None,
            }
        }
""","""        let (left_child, right_child) = match children{
            Some((left, right)) => (Some(Box::new(left)), Some(Box::new(right))),
            None => (None, None),
        };
        HuffBranch{
            leaf,
            left_child,
            right_child,
        }
"""))
n("k-lines","C06 C05",(T,"""                for bit in letter_bits{
                    byte |= (*bit as u8) << bit_ptr;
                    if bit_ptr == 0{
                        letter_bytes.push(byte);
                        byte = 0b0000_0000;
                        bit_ptr = 7;
                    }
                    else{bit_ptr -= 1};
                }
""","""                for bit in letter_bits{
                    if *bit{
                        byte |= 1 << bit_ptr;
                    }
                    if bit_ptr > 0{
                        bit_ptr -= 1;
                        continue;
                    }
                    letter_bytes.push(byte);
                    byte = 0;
                    bit_ptr = 7;
                }
"""))
n("k-next-bit","C06 C05",(T,"""            if if let Some(bit) = bits.next(){*bit}
                else{
                    return Err(FromBinError::new(
                        "Provided BitVec is too small for an encoded HuffTree"
                    ))
                }{
""","""            let has_children = match bits.next(){
                Some(bit) => *bit,
                None => return Err(FromBinError::new(
                    "Provided BitVec is too small for an encoded HuffTree"
                )),
            };
            if has_children{
"""))
n("k-two-children","C06 C05",(T,"""                let branch = HuffBranch::new(
                    HuffLeaf::new(None, 0),
                    Some(( 
                        read_branches_from_bits(bits)?, 
                        read_branches_from_bits(bits)?
                    ))
                );
                Ok(branch)
""","""                let left = read_branches_from_bits(bits)?;
                let right = read_branches_from_bits(bits)?;
                Ok(HuffBranch::new(HuffLeaf::new(None, 0), Some((left, right))))
"""))


if __name__ == "__main__":
    for i in (sys.argv[1:] or list(R)):
        props, edits = R[i]
        if not edits: continue
        c = "/tmp/rf"; shutil.rmtree(c, ignore_errors=True); shutil.copytree("/repo", c, ignore=shutil.ignore_patterns("target", ".git"))
        ok = True
        if i in STRIP:
            for f in set(e[0] for e in edits):
                t = open(c + "/" + f, newline="").read().split("\n")
                open(c + "/" + f, "w", newline="").write("\n".join(l for l in t if not re.match(r"\s*(//|$)" if i.startswith("k-") else r"\s*//", l)))
        for e in edits:
            p = c + "/" + e[0]; t = open(p, newline="").read(); a, b = e[1], e[2]
            if "\r\n" in t: a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
            if t.count(a) != 1 and len(e) == 3: print(i, "does not apply", t.count(a)); ok = False; break
            open(p, "w", newline="").write(t.replace(a, b))
        if not ok: continue
        q = subprocess.run("cd /tmp/rf && CARGO_TARGET_DIR=/tmp/rft cargo build --offline 2>&1 | grep -E '^error' -A6 | head -20", shell=True, capture_output=True, text=True)
        if q.stdout: print(i, "does not build", q.stdout); continue
        for pr in props:
            t0 = time.time()
            q = subprocess.run(["python3", "/verif/check.py", pr, "quick"], env=dict(os.environ, VX_REPO=c), capture_output=True, text=True)
            o = [l for l in q.stdout.split("\n") if l and not l.startswith("KNOWN")]
            print("%s %s exit %d %.0f s: %s" % (i, pr, q.returncode, time.time() - t0, (o[-1] if o else q.stderr[-300:])[:330]), flush=True)
            if q.returncode: print("\n".join(o)[:1500], flush=True)
        shutil.rmtree(c, ignore_errors=True)
    shutil.rmtree("/tmp/rft", ignore_errors=True)
