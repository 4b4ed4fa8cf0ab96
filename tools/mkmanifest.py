#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of finished properties."""
import json, os
here=os.path.dirname(os.path.abspath(__file__))
DONE=["C%02d"%k for k in range(1,16)]
NOTE="Seeded search over fault placements, schedules and histories of the real code inside one simulated process (virtual disk, faulting allocator, entropy and task seams); assurance is that of the runs explored, which the evidence file counts. Trusts the simulator's seams (link-time interposition), glibc, and HDF5/Cap'n Proto/FFTW, which run as installed."
TECH="deterministic simulation with fault injection: seeded search over histories, fault placements and task schedules, each run replayable from its plan file"
EXTRA={}
NA={
 "C20":"A pure function of its operands: no schedule, clock, I/O, fault or history takes part in it. Deterministic simulation has nothing to vary; its fault-dependent side is C13.",
 "C21":"A pure function of array and mask (see C20); its fault-dependent side is C13.",
 "C22":"A pure function of spectrum and drift settings; its history- and fault-dependent side is C01, C03 and C08.",
 "C23":"A pure function of a drift plane; its history- and fault-dependent side is C01, C03 and C08.",
 "C24":"A pure function of a spectrum and thresholds; its history- and fault-dependent side is C01 and C03.",
 "C25":"A pure function of hit lists; the history- and fault-dependent side of event search is C15.",
 "C26":"Needs a CUDA device and nvcc; neither exists here, and the kernels are pure functions of their inputs.",
 "C27":"The Python extension modules are not part of the build that can be simulated here (no scheduler, I/O or fault takes part in the exchange itself).",
}
def main():
    ids=[json.loads(l)["id"] for l in open(os.path.join(here,"..","properties.jsonl"))]
    checks=[]; na=[]
    for i in ids:
        if i in DONE:
            checks.append(dict(property=i,quick_cmd=f"bash tools/check.sh {i}",thorough_cmd=f"bash tools/check.sh {i}",technique=TECH,level="exploration",level_note=EXTRA.get(i,"")+NOTE))
        elif i in NA: na.append(dict(property=i,reason=NA[i]))
        else: na.append(dict(property=i,reason="Check under construction."))
    m=dict(version=1,setup_cmd="bash tools/build.sh",checks=checks,not_applicable=na,
      notes="No hooks in /repo: every seam is placed at link time (tools/build.sh builds /repo's sources together with sim/).")
    json.dump(m,open(os.path.join(here,"..","MANIFEST.json"),"w"),indent=1)
main()
