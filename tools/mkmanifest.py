import json,os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props=[json.loads(l) for l in open('properties.jsonl')]
bins={'C14'}|{f[:-3].upper() for f in os.listdir('sim/src/bin')}
NA={
 'C15':"What a literal denotes is a pure function of its text: no schedule, clock, I/O, history or fault for a simulation to decide. Lowering a literal is todo!() in the code (both helper functions panic); the separate collecting pass decodes few escapes. That this pass lists every literal once and in order is part of C04.",
}
TECH="deterministic simulation with fault injection: seeded search over schedules, hash seeds and fault sequences against a reference model"
NOTE="Seeded sampling, not proof: every run is repeatable from its seed and minimised on failure. Trusts the reference model in sim/src and that the intercepted libc calls, entropy source and scheduler are all the nondeterminism this code meets; thread switches happen at allocations, locks, I/O calls and callbacks."
LN={
 'C12':"Seeded sampling of fault plans against the real program binary in its own process; trusts the preloaded fault shim, the reference tree of the built-in text and the page reader.",
}
m=dict(version=1,setup_cmd="bash setup.sh",checks=[],not_applicable=[],notes="No hooks in /repo: the existing public seams (Read arguments, visitor and listener traits, files, standard output) and the libc boundary are enough. Commits in /repo are repairs (fix:), listed in known_findings.json.")
for p in props:
    i=p['id']
    if i in bins:
        m['checks'].append(dict(property=i,quick_cmd=f"bash check.sh {i}",thorough_cmd=f"VERIF_TIER=thorough bash check.sh {i}",technique=TECH,level="exploration",level_note=LN.get(i,NOTE)))
    else:
        m['not_applicable'].append(dict(property=i,reason=NA.get(i,"check not built yet")))
json.dump(m,open('MANIFEST.json','w'),indent=1,ensure_ascii=False)
