import json,sys
sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.abspath(__file__)))
from checks import CHECKS
props={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
NA={'C19':"The distribution helper is pure index arithmetic with no schedule, time, I/O or fault to simulate, and with one process its result never reaches an execution (every tile is on node 0); a simulated run adds nothing to calling it."}
T={}
man=dict(version=1,setup_cmd="python3 sim/build.py",hooks=dict(guard="none",enable="No hooks: the checks compile /repo's unmodified sources against a simulated StarPU (link-time seam) with basic-block instrumentation (-fsanitize-coverage=trace-pc).",source_commits=[]),checks=[],not_applicable=[])
for p in sorted(props):
    if p in CHECKS:
        c=CHECKS[p]
        man['checks'].append(dict(property=p,quick_cmd="python3 sim/check.py %s"%p,thorough_cmd="VERIF_TIER=thorough python3 sim/check.py %s"%p,evidence_file="evidence/%s.json"%p,
          technique="deterministic simulation of the task runtime with fault injection: "+c.get('technique','seeded search over schedules against a whole-array reference model'),
          level="exploration",level_note=c.get('note',"Seeded search, not exhaustive. Real NNTile C++ and Python code runs; StarPU is replaced by a simulator that decides every schedule, data placement and fault. Trusts the simulator's rendering of StarPU's contract and the numpy/torch reference arithmetic.")))
    else:
        man['not_applicable'].append(dict(property=p,reason=NA.get(p,"not yet built")))
json.dump(man,open('/verif/MANIFEST.json','w'),indent=1)
