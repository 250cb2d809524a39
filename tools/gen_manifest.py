import json
P=[json.loads(l) for l in open("/verif/properties.jsonl")]
T={"C09":"exhaustive operation histories on the real types with shared storage, against a reference model","C31":"exhaustive operation histories (bounded depth) on the real types against a reference model",
"C12":"exhaustive enumeration of candidates and of every answer of the random source","C13":"exhaustive enumeration of bounds and of every answer of the random source","C14":"exhaustive exploration of the random source's answers (deviation-bounded)",
"C28":"lock-step exploration of the engines with a reference model","C29":"exhaustive call histories (bounded depth) of the real generators against a reference machine","C30":"exhaustive enumeration of parameter tuples and ranges",
"C32":"exhaustive enumeration of operand lengths under a fencing allocator",
"C33":"exhaustive enumeration of operands and histories on the portable build of the real code, against a reference model",
"C34":"exhaustive fault injection: every answer sequence of the interposed system call x every call history, against a queue model",
"C35":"exhaustive fault injection: every answer sequence of the trapped rdrand/rdseed instructions x every call history, against a model",
"C36":"exhaustive enumeration of clock readings (interposed clock) and of every history of draws, resets, clones and failing seeds at them"}
N={"C32":"Holds on every execution in the stated bounds: all operand-length combinations, every heap block between inaccessible pages and with different fill patterns. Reads of spare capacity are seen through results only.",
"C33":"The portable code path is compiled by renaming the target-architecture predicates in a build copy made from /repo's working tree on each run; it then executes natively. Same bounds and reference as the corresponding x86 properties.",
"C34":"Every sequence of system answers up to the stated depth crossed with every sequence of caller operations was executed on the real code with getrandom interposed. The code path is selected by renaming the target-architecture predicates of src/rand in a build copy of /repo's working tree.",
"C35":"Every sequence of instruction outcomes up to the stated depth crossed with every sequence of caller operations was executed on the real code; the rdrand/rdseed instructions of the checker binary are replaced by trapping ones whose handler answers from the script.",
"C36":"Every clock reading of the stated grid (every low byte of the microseconds) and every operation history up to the stated depth was executed on the real portable code with clock_gettime interposed."}
D="exhaustive enumeration of a bounded operand/operation space on the real code against a reference model"
DN="Every case of the bounded spaces listed in the evidence was executed on the real code and compared with an independent exact reference model (self-tested on each run). Nothing is claimed for operands outside the stated spaces; the reference model and the Rust compiler are trusted."
m={"version":1,"setup_cmd":"bash /verif/setup.sh","checks":[{"property":p["id"],"quick_cmd":f"bash /verif/check.sh {p['id']} quick","thorough_cmd":f"bash /verif/check.sh {p['id']} thorough","technique":"model checking: "+T.get(p["id"],D),"level":"model_checking","level_note":N.get(p["id"],DN)} for p in P],"not_applicable":[],
"notes":"No hooks in /repo. Repairs of genuine defects are the fix: commits; see known_findings.txt and DESIGN.md."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
