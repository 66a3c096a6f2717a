#!/usr/bin/env python3
"""regenerate MANIFEST.json and contracts/cones.json"""
import json
D = ["range", "myers", "cleanup"]
TRUSTED = [
    "Verus 0.2026.09.13, its vstd library and Z3",
    "rustc's translation of the same source (the extracted text is the code that runs, up to the rewrites listed in DESIGN.md)",
    "the extractor /verif/extract (rewrites listed in DESIGN.md, each replaces a construct by its documented std meaning)",
]
ASSUME = [
    "usize is 64 bits wide",
    "no slice of u64 has more than isize::MAX / 8 elements (guaranteed by Rust's allocation limit)",
    "memory allocation succeeds",
]
DIFF = ["range", "myers", "cleanup", "utils", "patch", "diff"]
APPLY = ["utils", "patch", "apply"]
ALL = DIFF + ["apply", "thm"]
MERGE = DIFF + ["merge"]
PARSE = ["utils", "patch", "syntax", "print", "parse", "format", "patchio"]
EVERY = ALL + ["merge", "syntax", "print", "parse", "format", "patchio"]
CONES = {
    "C01": dict(modules=ALL, level="proof", theorems=["diff::DiffOptions::create_patch(_bytes) ensures created", "apply::apply(_bytes) ensures applied", "thm::theorem_roundtrip"]),
    "C02": dict(modules=ALL, level="proof", theorems=["patch::Patch::reverse ensures prev", "patch::theorem_rev_rev", "thm::theorem_reverse"]),
    "C03": dict(modules=DIFF, level="proof", theorems=["diff::DiffOptions::create_patch(_bytes) ensures created (covers: exact, chained)"]),
    "C04": dict(modules=DIFF, level="proof", theorems=["diff::DiffOptions::create_patch(_bytes) ensures created (tight, no hunks iff equal)"]),
    "C05": dict(modules=EVERY, level="proof", theorems=["every function under contract: no panic, no overflow, no out-of-bounds access, a decreasing measure for every loop"]),
    "C06": dict(modules=PARSE, level="proof", theorems=["patch::Patch::from_str, from_bytes ensure read_patch (the format, as a function of the text)"]),
    "C07": dict(modules=DIFF + PARSE[2:] + ["roundtrip", "printed"], level="proof", theorems=["Display of Patch, Patch::to_bytes, PatchFormatter ensure patch_text; Patch::from_str, from_bytes ensure read_patch", "roundtrip::theorem_print_read", "roundtrip::theorem_reparse", "printed::theorem_created_read"]),
    "C08": dict(modules=APPLY, level="proof", theorems=["apply::apply(_bytes) ensures applied (run, step, replaced)"]),
    "C09": dict(modules=APPLY + ["errors"], level="proof", theorems=["apply::find_position ensures is_best / no match", "apply::apply(_bytes) ensures applied (index of the failing hunk)", "errors: Display of ApplyError ensures says (the number of that hunk)"]),
    "C10": dict(modules=MERGE, level="proof", theorems=["merge::MergeOptions::merge(_bytes), merge(_bytes) ensure merge_post (result_ok, rend of merge_ref; shown: the alignments are those of the zero-context patches)", "merge::lemma_shown"]),
    "C11": dict(modules=MERGE, level="proof", theorems=["merge::MergeOptions::merge(_bytes), merge(_bytes) ensure merge_post (trivial)"]),
    "C12": dict(modules=MERGE, level="proof", theorems=["merge::MergeOptions::merge(_bytes), merge(_bytes) ensure merge_post (rend: mark, rend_cf)"]),
    "C13": dict(modules=EVERY + ["agree"], level="proof", theorems=["agree::agree_create(_default), agree_apply, agree_reverse, agree_print, agree_parse, agree_merge(_default): callers of both interfaces, verified against their contracts"]),
    "C14": dict(modules=PARSE + ["present"], level="proof", theorems=["format::PatchFormatter::{fmt_patch, write_patch_into}, Display of Patch, Patch::to_bytes ensure patch_text (the printed form, as a function of the options and the patch)", "present::theorem_presentation (the switches only select among pieces of one sequence)"]),
}
TECH = "contract-based deductive verification (Verus) of functions extracted from /repo on every run, with a counterexample search on the real crate"
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
json.dump({"cones": CONES, "trusted": TRUSTED, "assumptions": ASSUME}, open("/verif/contracts/cones.json", "w"), indent=1)
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CONES:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}", technique=TECH, level=CONES[i]["level"], level_note="see DESIGN.md"))
    else:
        na.append(dict(property=i, reason="contracts not written yet"))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na), open("/verif/MANIFEST.json", "w"), indent=1)
