#!/usr/bin/env python3-vt
"""Regenerates /verif/MANIFEST.json from the properties and the contracts."""
import sys,json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0]=[V+'/vcg',V]; sys.dont_write_bytecode=True
import contracts
from contracts.base import PROPS
NA=getattr(contracts,'NA',{}); LEVEL=getattr(contracts,'LEVEL_NOTES',{})
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
ch=[]
for p in ids:
    if p in PROPS:
        ch.append({'property':p,'quick_cmd':'python3-vt check.py '+p,'thorough_cmd':'VERIF_TIER=thorough python3-vt check.py '+p,'evidence_file':'evidence/%s.json'%p,
          'technique':'contract-based deductive verification of the real functions (own VC generator over clang ASTs, z3/cvc5), with a bounded replay battery on the compiled code for concrete failing inputs',
          'level':'proof','level_note':LEVEL.get(p,'Every obligation of the contracts of '+', '.join(c.sig.split('(')[0] for c in PROPS[p])+' (and of the verified functions they call) is discharged for all inputs and iterations; library and system calls follow assumed contracts listed in the evidence file.')})
m={'version':1,'setup_cmd':'python3-vt setup.py','checks':ch,'not_applicable':[{'property':p,'reason':NA.get(p,'not claimed yet: its functions are not under contract')} for p in ids if p not in PROPS],
   'notes':'See DESIGN.md. No hooks were added to /repo.'}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); print(len(ch),'claimed',len(m['not_applicable']),'not claimed')
