import json
NOTE={
}
pids=[json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
import check
m=dict(version=1,setup_cmd="python3 check.py setup",checks=[],not_applicable=[])
for p in pids:
    if p in check.PROPS:
        m["checks"].append(dict(property=p,quick_cmd="python3 check.py %s quick"%p,thorough_cmd="python3 check.py %s thorough"%p,
          technique=check.PROPS[p].get("technique","deterministic simulation with fault injection: seeded operation plans and fault schedules against the real headers, checked step by step against a reference model"),
          level="exploration",
          level_note=check.PROPS[p].get("level_note","Seeded search, not exhaustive: holds for every explored plan and fault schedule over the listed configurations and builds. Trusts the simulator's element types, heap and reference model, and that elements keep their own noexcept promises.")))
m["not_applicable"]=[
 dict(property="C15",reason="a statement about programs that must not compile: there is no execution, schedule or fault to simulate"),
 dict(property="C16",reason="a pure type-level computation decided at compile time; no run-time behaviour, nondeterminism or fault for a simulator to control (its run-time consequences are simulated under C10 and C14)"),
]
m["notes"]="No hooks in /repo: element types, operator new, stream buffers, visitors are the seams. /repo carries five 'fix:' commits, see known_findings.txt and DESIGN.md."
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
