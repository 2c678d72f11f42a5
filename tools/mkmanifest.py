#!/usr/bin/env python3
# Source of /verif/MANIFEST.json.
import json, os
T={
"C01":("property-based testing: validity predicate on results over generated license sets and byte texts","The form of the result is judged directly from the texts and lists; no model is trusted."),
"C02":("property-based testing: recount with an independent word splitter; texts with known counts","Trusts the harness's own splitter (checked against the code by C07) for arbitrary texts; the constructed texts need no splitter."),
"C03":("property-based testing: independent membership test on every reported match; spoiled texts","The membership test ignores implicit cuts and lets corrections aim at any pattern's words, so it may accept a little more than the rules; exact results are C24's."),
"C04":("property-based testing: texts derived from generated LREs must match in full","Derivations are by construction; wildcard fillings are unrelated words (or wildcards are at most 3 words)."),
"C05":("property-based testing: brute-force leftmost-longest oracle from the definition","The oracle enumerates all ends of all patterns by set semantics; the general sub-check trusts the reference model."),
"C06":("metamorphic testing: same words, two presentations","Pairs with unequal word lists (by the harness's splitter) are discarded and counted."),
"C07":("property-based testing: differential against an independent splitter; texts with known words; Unicode classes","The splitter was written from the documentation and test expectations; the constructed texts and rune checks do not use it."),
"C08":("stateful model-based testing of Dict histories","A list-and-map model compared after each step."),
"C09":("property-based testing: definition of corrections followed from every word; known single changes","Any of several equally applicable corrections is accepted."),
"C10":("property-based testing: slots filled around each bound","Expected outcome by construction; single counts go up to 70000, sums of several stay below 160 since memory grows with them."),
"C11":("grammar-based fuzzing: differential against an independent parser; meaning by enumeration","Patterns that may end in a wildcard yet are accepted are not judged."),
"C12":("property-based testing: independent leading-word computation; isolation relations","The documented two-leading-words rule is computed on the pattern tree."),
"C13":("property-based testing: URL texts with known outcome; reference model for overlaps","The url-words and mixed sub-checks trust the reference model."),
"C14":("property-based testing: extents computed from token layouts; reference model","The model sub-check trusts the reference model."),
"C15":("randomized concurrent histories under the race detector; replayed scan histories","Schedules are sampled; the race detector finds unsynchronized accesses on executed paths."),
"C16":("differential testing: Scan against NewScanner(BuiltinLicenses()); mutation of returned lists","No model."),
"C17":("property-based testing: texts derived from every built-in LRE; differential against the reference model","All 423 LREs are drawn evenly; the exact results trust the reference model."),
"C18":("property-based testing: round trip and arbitrary-precision oracle","No shared code with license.go."),
"C19":("property-based testing: algebraic laws and the documented rule on sets","128 values each, so all pairs are met many times."),
"C20":("generator fuzzing: independent evaluation of template trees; entry-by-entry regeneration","Trusts go/types to evaluate the generated source."),
"C21":("property-based testing: validity predicate on old.Checker results","No model."),
"C22":("property-based testing: embedded verbatim copies, among licenses with unrelated and with shared text, and filled blanks","Expected result by construction."),
"C23":("metamorphic testing: two layouts of the same words","Words that could be taken for list markers are left out."),
"C24":("differential testing against an independent reference model of the whole scan","Trusts the reference model (harness/ref), written from the documentation; ambiguous corrections admit each outcome."),
"C25":("metamorphic testing: union of scanners over disjoint vocabularies","No model."),
"C26":("metamorphic testing: scan of separated parts equals their separate scans","Uses the harness's splitter to count words."),
"C27":("property-based testing of the converter run on generated template directories","Runs the real program in scratch directories, with a stand-in for the go command; templates use distinct words."),
"C28":("property-based testing of the converter run on generated page directories","Runs the real program in scratch directories, with a stand-in for the go command; pages use distinct words."),
"C29":("fuzzing for time: repeated pieces scanned at two lengths","CPU time is measured, repeatedly before an alarm; growth factors well below quadratic pass."),
"C30":("property-based testing: exact model over licenses of different words","Overlapping matches are judged only where one is larger in each respect."),
"C31":("property-based testing: URL texts with known outcome","Expected outcome by construction; URLs with empty path elements are left out."),
}
checks=[]
for id,(tech,note) in sorted(T.items()):
    checks.append({"property":id,"quick_cmd":f"./run.sh {id} quick","thorough_cmd":f"./run.sh {id} thorough","evidence_file":f"evidence/{id}.json",
      "technique":tech,"level":"exploration","level_note":"Random generated-input search with a fixed seed: what was explored held, the rest is not proved. "+note})
m={"version":1,"setup_cmd":"./run.sh build","checks":checks,"not_applicable":[],
 "notes":"No hooks are needed in /repo: the harness (harness/, a Go module with a replace to /repo) uses exported and internal packages directly. Known findings: KNOWN_FINDINGS.txt. Replay a case with: bin/vh replay FILE."}
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
ids=[json.loads(l)["id"] for l in open(root+"/properties.jsonl")]
assert ids==sorted(T), (ids,)
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1,ensure_ascii=False)
open(root+"/MANIFEST.json","a").write("\n")
