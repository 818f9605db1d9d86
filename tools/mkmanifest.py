#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
CLAIMED=open(here+'/tools/claimed.txt').read().split()
NA={
 'C22':'Pure function of a byte sequence: no concurrency, time, I/O or other party takes part, so there is no schedule or fault to simulate (its effect on matching is exercised through C10).',
 'C23':'Pure in-memory lookup without concurrency, time, I/O or other parties; nothing to schedule or to fail (its effect on matching is exercised through C09 and C10).',
 'C24':'Pure arithmetic on a span without concurrency, time, I/O or other parties; nothing to schedule or to fail (its effect on fetches is exercised through C05, C11 and C18).',
}
NOTE={
 'C28':'Accesses are recorded by the Go compiler\'s race instrumentation (ThreadSanitizer run time), happens-before is given by the simulator after the Go memory model; the detector remembers only the last few accesses to a word, so a race whose accesses lie far apart can be missed in one run.',
 'C16':'kill points between any two file operations are enumerated by chance, not exhaustively',
}
m={'version':1,'setup_cmd':'bin/setup.sh','checks':[],'not_applicable':[],
 'notes':'Every check instruments a copy of the working tree of /repo (typed source rewriting, see DESIGN.md), so /repo needs no hooks. replays/ holds the replay files of violations; bin/replay.sh FILE executes one again.'}
for p in props:
    i=p['id']
    if i in CLAIMED:
        m['checks'].append({'property':i,'quick_cmd':f'bin/check.sh {i}','thorough_cmd':f'env VERIF_TIER=thorough bin/check.sh {i}','technique':'deterministic simulation with fault injection: seeded search over workloads, schedules and faults',
          'level':'exploration','level_note':'Sampled, not exhaustive: holds on the seeded runs counted in the evidence file. The real code runs under a simulated scheduler, clock, disk and network; trusted are the instrumenter, the simulator and the oracle of this property. '+NOTE.get(i,'')})
        m['checks'][-1]['level_note']=m['checks'][-1]['level_note'].strip()
    else:
        m['not_applicable'].append({'property':i,'reason':NA.get(i,'Not claimed yet: its scenario is still being built.')})
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1)
