import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
note="Seeded search: real provider, manager, bolt and go-redis code runs under a simulated scheduler, clock, disk, network and redis server; every run is judged against a reference model and invariants. It samples schedules, faults and inputs, so a clean result is evidence, not proof; it trusts the simulated disk, network, redis server and clock (DESIGN.md)."
tech={
'C06':"deterministic simulation with crash, power-loss and disk-fault injection; recovery judged against a reference model",
'C10':"deterministic simulation with disk and network fault injection; history checked against a model that allows failed operations all or nothing",
'C16':"deterministic simulation of thread schedules in a race-detecting build (happens-before of the code's own synchronisation only)",
}
m={"version":1,"setup_cmd":"bash ./setup.sh","checks":[],"not_applicable":[
 {"property":"C17","reason":"Signing, encoding, splitting and option validation are pure functions of their input: no schedule, clock, fault or crash point takes part, so there is nothing for a simulator to decide. The parts of them that sessions depend on (forged, altered and swapped tokens refused; lifetimes in any option order) are exercised through C13 and C03."}],
 "notes":"No hooks are needed in /repo: the checks instrument a scratch copy of its working tree. known-findings.txt lists the repaired defects."}
for p in props:
    i=p['id']
    if i=='C17': continue
    m['checks'].append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,
      "technique":tech.get(i,"deterministic simulation with fault injection; seeded search over schedules, recorded history checked against a reference model"),
      "level":"exploration","level_note":note})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
