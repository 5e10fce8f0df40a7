#!/usr/bin/env python3
# writes vdrive/props.json (what each check runs) and MANIFEST.json
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
H = "huff_coding::"
BR = [H+"tree::branch::HuffBranch::*", H+"tree::branch::ChildrenIter::*", H+"tree::leaf::HuffLeaf::*"]
ROOTF = [H+"tree::tree_inner::HuffTree::root", H+"tree::tree_inner::HuffTree::root_mut"]
CODES = [H+"tree::tree_inner::HuffTree::read_codes", H+"tree::tree_inner::HuffTree::read_codes_with_hasher*", H+"tree::tree_inner::HuffTree::set_codes_in_child_branches"]
BIN = [H+"tree::tree_inner::HuffTree::try_from_bin*", H+"tree::tree_inner::HuffTree::as_bin*", H+"tree::tree_inner::FromBinError::*", H+"tree::letter::*", H+"utils::size_of_bits", H+"tree::tree_inner::HuffTree::set_codes_in_child_branches"]
COMP = [H+"comp::compress_with_tree", H+"comp::decompress", H+"comp::CompressData::new", H+"comp::CompressData::comp_bytes", H+"comp::CompressData::padding_bits", H+"comp::CompressData::huff_tree", H+"comp::CompressData::into_inner", H+"comp::errors::CompressError::*"]
BYTES = [H+"comp::CompressData::*", H+"comp::errors::CompressedDataFromBytesError::*", H+"utils::*bits"]
BW = H+"weights::byte_weights::"
BWBASE = [BW+"ByteWeights::new", BW+"ByteWeights::Default::default", BW+"ByteWeights::from_bytes", BW+"ByteWeights::get", BW+"ByteWeights::len", BW+"ByteWeights::is_empty"]
ITER = [BW+"IntoIter::*", BW+"Iter::*", BW+"ByteWeights::iter", BW+"*IntoIterator::into_iter"]
ADD = [BW+"ByteWeights::add_byte_weights", BW+"ByteWeights::Add::add", BW+"ByteWeights::AddAssign::add_assign", BW+"ByteWeights::get_mut", BW+"ByteWeights::PartialEq::eq"]
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
props = {}; checks = []; na = []
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(os.path.join(ROOT, "properties.jsonl"))}
for pid in sorted(titles):
    c = CLAIMS.get(pid)
    if c is None: na.append({"property": pid, "reason": NOT[pid]}); continue
    e = {"only": c.get("only", "huff_coding"), "fns": c["fns"], "theorems": c.get("theorems", [])}
    for k in ("trusted", "nocontract", "quick_s", "assumptions", "cli", "soft"):
        if k in c: e[k] = c[k]
    props[pid] = e
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s quick" % pid, "thorough_cmd": "python3 check.py %s thorough" % pid,
      "evidence_file": "evidence/%s.json" % pid,
      "technique": c.get("technique", "function contracts on the code extracted from /repo, every obligation discharged by Verus (Z3); concrete runs only to find a failing input"),
      "level": c.get("level", "proof"), "level_note": c["note"], "theorems": c.get("theorems", [])})
json.dump(props, open(os.path.join(ROOT, "vdrive", "props.json"), "w"), indent=1)
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: the extractor reads the sources as they are. Every check extracts /repo's current sources again, so a change is seen without a rebuild. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
