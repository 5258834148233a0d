#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the list of claimed checks below.
import json,subprocess,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
props=[json.loads(l) for l in open("properties.jsonl")]
plans={}
for l in subprocess.run([".build/simbin","list"],capture_output=True,text=True).stdout.splitlines():
    i,r=l.split(":",1); plans[i]=r.split()
NA={}
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in plans:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "evidence_file":f"evidence/{i}.json",
          "technique":"deterministic simulation with fault injection (seeded search, reference model oracle); profiles: "+", ".join(x.split("=")[0] for x in plans[i]),
          "level":"exploration",
          "level_note":"seeded sampling of configurations, mail, schedules and faults over the real programs in a simulated machine; a clean run is evidence over the runs listed in the evidence file, not a proof"})
    else: na.append({"property":i,"reason":NA.get(i,"no check built yet")})
json.dump({"version":1,"setup_cmd":"bash sim/build.sh","checks":checks,"not_applicable":na,
  "notes":"No hooks in /repo: the sources are compiled unchanged and their libc calls are redirected to the simulator when linking (sim/build.sh)."},open("MANIFEST.json","w"),indent=1)
