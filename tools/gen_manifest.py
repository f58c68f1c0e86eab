#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand; the output is committed). CLAIMED lists the properties with a check."""
import json
TECH={
"C01":"property-based testing: generated documents, contexts and selectors against a reference CSS matcher",
"C02":"property-based testing: generated sibling lists and :nth-*/structural selectors against a reference matcher",
"C03":"property-based testing: nested functional and form pseudo-classes against a reference matcher",
"C04":"property-based testing: filter/is/not/has/closest against per-element reference matching",
"C05":"property-based testing: traversals of generated sets against their relational definition on a model tree",
"C06":"property-based testing: set algebra and indexing against list/set reference operations",
"C07":"property-based testing: serialise / reload round trip and identity on generated documents, token-soup fuzzing of the loader",
"C08":"property-based testing: text and set_text against a model tree and a reload",
"C09":"stateful property-based testing: attribute operation sequences against a name-to-value map model and a reload",
"C10":"stateful property-based testing: class operation sequences against a set model and a reload",
"C11":"stateful property-based testing: insertion/removal histories against a model tree",
"C12":"stateful property-based testing: structural invariants over mutation histories, with refused and stale operations",
"C13":"stateful property-based testing: queries after mutation histories, differential against a freshly loaded equal document",
"C14":"stateful property-based testing: copies and originals mutated independently against two models",
"C15":"property-based testing: text-node sets and text mutations against a model tree",
"C16":"property-based testing: form values of generated controls against their definition",
"C17":"grammar-based and mutation fuzzing of selectors and markup: no panic, hang or abort; reported errors and empty results",
"C18":"generated concurrent schedules: results on many threads equal to the single-threaded results",
"C19":"property-based testing: document accessors on generated and mutated documents against a model tree",
}
import subprocess,sys
claimed=sys.argv[1:] or subprocess.run(["/verif/harness/target/release/vh","list"],capture_output=True,text=True).stdout.split()
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks=[]
for i in props:
    if i not in claimed: continue
    checks.append(dict(property=i,quick_cmd="./run.sh %s"%i,thorough_cmd="VERIF_TIER=thorough ./run.sh %s"%i,
      evidence_file="evidence/%s.json"%i,technique=TECH[i],level="exploration",
      level_note="Seeded generated-input search against an explicit oracle (reference model, round trip, differential or invariant); a pass says the property held on every generated case of the run, with overflow checks and debug assertions on. Trusts the reference model in harness/src, the Rust standard library and the rphtml parser within the generated grammar; bounds are in DESIGN.md and the evidence file."))
m=dict(version=1,setup_cmd="./run.sh build",checks=checks,
 not_applicable=[dict(property=i,reason="no check yet: still being built") for i in props if i not in claimed],
 notes="No hooks in /repo: all checks use the public API. fix: commits in /repo are listed in KNOWN_FINDINGS.txt.")
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); print(len(checks),"checks")
