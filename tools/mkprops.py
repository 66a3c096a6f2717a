import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
D=["src/diff/mod.rs","src/diff/myers.rs","src/diff/cleanup.rs","src/range.rs","src/utils.rs"]
p("C01","Applying a created patch to the original yields the modified text",
 "For every pair of texts and every context length (0 included), applying the patch created between them to the original succeeds and returns exactly the modified text, byte for byte, final newline or its absence included. This holds for the string and for the byte interface.",
 ["inputs","configurations"],"all pairs of strings / byte sequences, all context lengths",
 "The tests apply a handful of fixed texts, almost all with context 3; the claim is over all pairs of texts, repeated lines and zero context included, where a hunk can be placed at a wrong but equal line.",
 D+["src/apply.rs","src/patch/mod.rs"],
 [("line splitting and classification","src/utils.rs LineIter, Classifier"),("edit script","src/diff/myers.rs diff, src/diff/cleanup.rs compact"),("hunk construction","src/diff/mod.rs to_hunks"),("hunk application","src/apply.rs apply_hunk, find_position")],
 ["create_patch, create_patch_bytes, DiffOptions::create_patch(_bytes)","apply, apply_bytes"])
p("C02","Applying the reversed patch to the modified text restores the original",
 "For every pair of texts and every context length, applying the reverse of the patch created between them to the modified text succeeds and returns exactly the original. Reversing a patch swaps file names, old and new ranges and insertions with deletions and leaves order and line contents alone, so reversing twice gives the same patch back.",
 ["inputs","configurations"],"all pairs of texts, all context lengths, all patches for the structural part",
 "No test applies a reversed patch at all context lengths; one example per direction cannot cover empty ranges and repeated lines.",
 D+["src/apply.rs","src/patch/mod.rs"],
 [("mirror","src/patch/mod.rs Patch::reverse, Hunk::reverse, Line::reverse"),("position search on the reversed header","src/apply.rs find_position")],
 ["Patch::reverse","apply, apply_bytes"])
p("C03","Created hunks state exact positions and exact line contents",
 "Every hunk of a created patch lies, at precisely the line positions its header gives in both texts, over exactly the lines it lists: context and deleted lines are the original's lines there, context and inserted lines are the modified's, and header lengths count them. Hunks are in increasing order and do not overlap in either text, and every line outside the hunks is identical in both texts, so the patch is exact without any position search.",
 ["inputs","configurations"],"all pairs of texts, all context lengths",
 "Expected-output tests pin a few patches; header arithmetic (clamping at file start and end, empty ranges, merging of neighbouring hunks) depends on the lengths and on the edit script.",
 D+["src/patch/mod.rs"],
 [("edit script to hunks","src/diff/mod.rs build_edit_script, to_hunks, calc_end"),("count assertion","src/patch/mod.rs Hunk::new")],
 ["Patch::hunks, Hunk::old_range, Hunk::new_range, Hunk::lines"])
p("C04","Created patches contain only changes and the requested context",
 "A created patch has no hunks exactly when the two texts are equal, and every hunk contains at least one change. Each hunk starts and ends with exactly as many context lines as requested, or as many as the text has there, and two changes inside one hunk are never separated by more than twice the context length of unchanged lines.",
 ["inputs","configurations"],"all pairs of texts, all context lengths up to usize::MAX",
 "Tests sample context 3 and a few others; the boundary where two hunks merge or stay apart and clamping at the ends need all gap/context combinations.",
 D,
 [("context and merge decision","src/diff/mod.rs to_hunks, calc_end")],["Patch::hunks"])
p("C05","Diffing, applying and merging never panic and always terminate",
 "Creating a patch between any two texts, applying any created patch (or its reverse) to any base text, formatting it, and merging any three texts, with any options, return normally: no panic, no arithmetic overflow, no out-of-bounds access and no endless loop.",
 ["inputs","configurations"],"all texts, all context lengths, all marker lengths that fit in memory",
 "The code holds internal assertions, unreachable! branches, wrapping index arithmetic on signed diagonals and loops that rewrite the list they walk; tests run them on a few dozen inputs.",
 D+["src/apply.rs","src/merge/mod.rs","src/patch/mod.rs","src/patch/format.rs"],
 [("middle snake search","src/diff/myers.rs find_middle_snake, conquer"),("edit shifting","src/diff/cleanup.rs shift_diff_up, shift_diff_down, compact"),("merge assertions","src/merge/mod.rs merge_solutions, set_or_merge_range")],
 ["all public functions that take texts"])
p("C06","The patch parser is total and reads accepted patches faithfully",
 "Parsing any text or byte sequence returns a patch or an error and never panics. An accepted patch has, in order, exactly the hunks the text contains, each with the header's ranges, the function context and the body's lines with their kinds and contents; the header lengths equal the body's line counts and the hunks are ordered and do not overlap in either file.",
 ["inputs"],"all strings and byte sequences",
 "Parser tests are a dozen hand-written patches; untrusted input is unbounded (numeric overflow, missing newlines, truncated headers, stray markers).",
 ["src/patch/parse.rs","src/patch/mod.rs","src/utils.rs"],
 [("header and body grammar","src/patch/parse.rs hunk_header, range, hunk_lines, parse_filename"),("order check","src/patch/parse.rs verify_hunks_in_order")],
 ["Patch::from_str, Patch::from_bytes"])
p("C07","Printing a patch and parsing it back gives the same patch",
 "For every patch made by diffing two texts (with any file names) and for every patch obtained by parsing, the printed form is accepted by the parser and parses back to an equal patch: same file names, ranges, function contexts and lines, missing final newlines included. This holds for text and byte output and for either setting of blank-line suppression.",
 ["inputs","configurations"],"all created patches with all file names, all parsed patches, both blank-line settings",
 "Writer and parser are separate code that must agree on quoting, the no-newline marker, blank context lines and range syntax; the tests round-trip only a few patches with plain names.",
 ["src/patch/format.rs","src/patch/parse.rs","src/patch/mod.rs"],
 [("writer","src/patch/format.rs PatchDisplay, HunkDisplay, LineDisplay; src/patch/mod.rs Filename"),("parser","src/patch/parse.rs")],
 ["Patch::to_string, Patch::to_bytes, PatchFormatter","Patch::from_str, Patch::from_bytes"])
p("C08","Apply replaces only verbatim matches and leaves the rest untouched",
 "When applying a patch succeeds, the result is the base with, for each hunk, one contiguous run of lines equal to the hunk's context and deleted lines replaced by its context and inserted lines. Runs replaced for different hunks never overlap lines produced by an earlier hunk, and every other byte of the base is kept in order.",
 ["inputs"],"all base texts and all well-formed patches",
 "A wrong splice or a match against already patched lines needs specific repeated content; the tests have a few bases and patches.",
 ["src/apply.rs","src/patch/mod.rs","src/utils.rs"],
 [("fragment matching","src/apply.rs match_fragment, pre_image"),("splice","src/apply.rs apply_hunk, post_image")],
 ["apply, apply_bytes"])
p("C09","Each hunk is applied at the matching place nearest its stated line",
 "Each hunk is applied at the position, among those where its old lines match lines no earlier hunk produced, that is nearest to the line stated for its new range, the earlier one on a tie; for an empty new range the stated position is just after the stated line. Apply fails only if some hunk has no such position, and the error names the first such hunk, counted from 1.",
 ["inputs"],"all base texts and all well-formed patches",
 "Tests apply with one or two offsets; nearest-match and tie order matter only for repeated content at particular distances.",
 ["src/apply.rs"],
 [("position search","src/apply.rs find_position, interleave"),("error index","src/apply.rs apply, apply_bytes")],
 ["apply, apply_bytes, ApplyError"])
p("C10","Merge is a correct three-way merge",
 "Merging aligns the ancestor with each side by the same diff a zero-context patch shows; ancestor lines kept by both sides stay, and each region between them takes the side that changed it, or the common result if both sides agree. The merge reports success exactly when no region was changed differently by both sides, and then the output is the concatenation of those choices: no change of either side is lost, duplicated or reordered.",
 ["inputs"],"all triples of texts",
 "The merge tests are a few dozen fixed triples; interleavings of insertions, deletions and equal runs on the two sides grow with the length.",
 ["src/merge/mod.rs"]+D,
 [("three-way zip of edit scripts","src/merge/mod.rs merge_solutions"),("region grouping","src/merge/mod.rs diff3_range_to_merge_range, set_or_merge_range, create_merge_range"),("conflict elimination","src/merge/mod.rs cleanup_conflicts")],
 ["merge, merge_bytes, MergeOptions::merge(_bytes)"])
p("C11","One-sided and identical changes merge cleanly",
 "For every pair of texts, merging with one side unchanged from the ancestor succeeds and returns the other side exactly, and merging with both sides equal succeeds and returns that side exactly, whatever the options.",
 ["inputs","configurations"],"all pairs of texts, all merge options",
 "Tests include a few trivial merges; the identity must survive every edit script the diff can produce.",
 ["src/merge/mod.rs"]+D,
 [("region rule","src/merge/mod.rs diff3_range_to_merge_range, create_merge_range, cleanup_conflicts")],
 ["merge, merge_bytes"])
p("C12","Conflicts are rendered completely, in order, with well-formed markers",
 "A conflicting merge returns its text as the error value: clean regions as in a successful merge, and each conflicting region as the opening marker, our lines, in diff3 style the original marker and the ancestor's lines, the separator, their lines and the closing marker. Every marker has the configured length and its label and stands on a line of its own, also when a side does not end with a newline.",
 ["inputs","configurations"],"all triples of texts, both styles, all marker lengths",
 "Rendering tests use texts that end in newlines and the default marker length.",
 ["src/merge/mod.rs"],
 [("rendering","src/merge/mod.rs output_result, output_result_bytes, add_conflict_marker(_bytes)")],
 ["merge, merge_bytes, MergeOptions"])
p("C13","The string and byte interfaces agree",
 "On texts that are valid UTF-8, the byte versions of creating, applying, reversing, printing and parsing patches and of merging give exactly the bytes of what the string versions give, including whether they fail.",
 ["inputs","configurations"],"all valid UTF-8 texts, all options",
 "The two interfaces are partly separate code (output_result and output_result_bytes, Display and write_into, Text for str and for [u8]); tests compare them on a few inputs.",
 ["src/utils.rs","src/merge/mod.rs","src/patch/format.rs","src/patch/mod.rs","src/apply.rs"],
 [("shared generic code over Text","src/utils.rs Text"),("duplicated code","src/merge/mod.rs output_result_bytes, src/patch/format.rs write_into, src/apply.rs apply_bytes")],
 ["all *_bytes functions and their string counterparts"])
p("C14","Formatter options change presentation only",
 "The printed form of a patch is the file-name lines (quoted and escaped when needed), then each hunk's header, function context and lines with their signs, each terminated by a newline. Colour only adds escape sequences around that text, blank-line suppression only drops the space before an empty context line, and disabling the missing-newline message only drops those marker lines.",
 ["inputs","configurations"],"all patches, all eight option combinations",
 "Each option has one or two expected-output tests with one patch.",
 ["src/patch/format.rs","src/patch/mod.rs"],
 [("formatter","src/patch/format.rs")],
 ["PatchFormatter, Patch::to_string, Patch::to_bytes"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x['title'])<=80
