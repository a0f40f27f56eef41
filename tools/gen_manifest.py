#!/usr/bin/env python3
# Writes /verif/MANIFEST.json: a property is claimed when harness/src/props/<id>.rs exists.
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
T={
"C01":"event-log monitor with sequential model over stressed loader schedules (paused virtual time and real threads)",
"C02":"history monitor (starts, results, drops) over poll-level schedule driver and threaded stress",
"C03":"reference-model monitor over cache histories and virtual/real time, plus gateway-level request log",
"C04":"store/fetch reference model and differential monitor (cached client against plain client over a loopback upstream)",
"C05":"pairwise identity monitor over generated requests and gateway-level upstream logs",
"C06":"differential monitor: grouped request against per-entity requests over a recording upstream",
"C07":"character-conservation and round-trip monitor with reference renderer",
"C08":"upstream-request monitor against an independent request builder",
"C09":"cross-representation differential monitor over generated JSON values",
"C10":"reference classifier and order-permutation monitor over generated type sets and values",
"C11":"independent scalar validators against the real ones, at unit and gateway level",
"C12":"algebraic-law monitor (identity, associativity, right bias, losslessness) over generated configurations",
"C13":"link/merge monitor against a reference combination of generated subgraphs",
"C14":"round-trip and cross-format monitor over generated configurations",
"C15":"reference matcher monitor over generated endpoints and requests, gateway level included",
"C16":"reference executor monitor over generated schemas, queries and upstream data",
"C17":"isolation monitor: every response in a history or batch against the same request on a fresh gateway",
"C18":"authentication oracle monitor over generated tokens, credentials and provider expressions",
"C19":"CORS policy oracle monitor over generated policies and requests",
"C20":"header-flow monitor (client to upstream, upstream to client) with oracle",
"C21":"crash, hang and well-formedness monitor under hostile byte-level workloads",
"C22":"taint monitor: tagged concurrent clients, every upstream request and response audited",
"C23":"codec round-trip monitor and script-hook differential monitor on the real JS runtime",
"C24":"protobuf round-trip monitor and batch attribution monitor",
"C25":"defect-injection monitor over generated configurations, validation-combinator laws",
"C26":"introspection/print monitor against the configuration model",
"C27":"sample-fit monitor: generated configuration executed against its own samples",
"C28":"file-system and environment monitor with fault injection on scratch files",
"C29":"reference operator monitor over generated operator chains",
"C30":"fault-injection monitor with per-field failure oracle",
"C32":"path-enumeration monitor over generated type graphs, with upstream call counting of executed paths",
"C33":"settings round-trip monitor, real servers and clients observed over loopback sockets, deadline monitor",
"C31":"error-tree conservation monitor over generated error values and conversions",
}
NOTE="Exploration: held on the executions produced by this seed (counts in the evidence file); inputs not generated are not covered. Trusts the oracle in harness/src/props/%s.rs, the recording mock upstream, and offline stubs for crates that cannot be fetched."
ASAN={"C01","C02","C03","C04","C05","C09","C17","C21","C22","C23","C24","C28"}
def thorough(i):
    c=f"VERIF_TIER=thorough ./run.sh {i}"
    return c+f" && ./tools/asan.sh {i}" if i in ASAN else c
checks=[];na=[]
for p in props:
    i=p['id']
    f=f"{root}/harness/src/props/{i.lower()}.rs"
    if os.path.exists(f) and not open(f).readline().startswith("// wip"):
        checks.append(dict(property=i,quick_cmd=f"./run.sh {i}",thorough_cmd=thorough(i),evidence_file=f"evidence/{i}.json",technique="runtime monitoring: "+T[i]+("; AddressSanitizer over the same workload (thorough)" if i in ASAN else ""),level="exploration",level_note=NOTE%i.lower()))
    else:
        na.append(dict(property=i,reason="no monitor has been built for this property yet; it is not claimed"))
m=dict(version=1,setup_cmd="bash tools/setup.sh",
 hooks=dict(guard="cfg(verif_hooks)",enable='RUSTFLAGS="--cfg verif_hooks" (tools/env.sh)',source_commits=[l.split()[0] for l in os.popen("git -C /repo log --format='%H %s'").read().splitlines() if l.split()[1].startswith('hooks')]),
 checks=checks,not_applicable=na,
 notes="Every check rebuilds the harness (and with it the full tailcall crate from /repo's working tree) with cargo, then runs it; the seed comes from VERIF_SEED.")
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
