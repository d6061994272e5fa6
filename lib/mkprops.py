"""Single source for properties.jsonl (run by hand when a property changes)."""
import json, os
FWI = "src/easyMockFramework/include/"; FWS = "src/easyMockFramework/src/"; GS = "src/easyMockGenerate/src/"
CT = GS + "CTemplateGenerator/CodeGeneratorCTemplate.cpp"; LP = GS + "LLVMParser/LLVMParser.cpp"; CL = GS + "CmdLineParser/CmdLineParser.cpp"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe]}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

exec(open(os.path.join(os.path.dirname(__file__), "props_text.py")).read())
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
