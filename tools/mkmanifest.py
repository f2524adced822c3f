#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl: every C property is claimed unless listed here."""
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT={
 "N01":"pure functions of their input (frame header codec, masking, handshake key): no schedule, clock, I/O or fault in them, so there is nothing for a simulator to decide",
 "N02":"the kqueue poller is not compiled on this platform (build tag darwin/bsd) and cannot run here; simulating a kernel it would need is possible only for code that builds in this sandbox's GOOS",
 "N03":"the Windows stand-in is not compiled on this platform (build tag windows)",
}
UNCLAIMED=set(sys.argv[1:])
checks=[];na=[]
for l in open(V+"/properties.jsonl"):
    p=json.loads(l); i=p["id"]
    if i in NOT: na.append(dict(property=i,reason=NOT[i])); continue
    if i in UNCLAIMED: na.append(dict(property=i,reason="check not finished yet")); continue
    checks.append(dict(property=i,quick_cmd="./run.sh check %s quick"%i,thorough_cmd="./run.sh check %s thorough"%i,
      technique="deterministic simulation with fault injection: seeded search over schedules, peer behaviour and faults, real gev code on a simulated scheduler, clock and kernel",
      level="exploration",
      level_note="Every violation found is an exactly repeatable execution of the real code (statement-level interleaving); a quiet run is evidence from the number of distinct executions in the evidence file, not proof. Trusts the simulated kernel, the source rewriter and sequential consistency."))
json.dump(dict(version=1,setup_cmd="./run.sh setup",checks=checks,not_applicable=na,
  notes="No hooks in /repo: the simulator rewrites a copy of the working tree at build time. ./run.sh replay FILE replays a violation."),open(V+"/MANIFEST.json","w"),indent=1)
open(V+"/MANIFEST.json","a").write("\n")
