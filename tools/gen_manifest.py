#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
T={
'C':"runtime monitoring: seeded workloads on the real contracts in a simulated chain, judged transaction by transaction by a reference monitor over the bank ledger, queries and events",
'A':"runtime monitoring: seeded airdrop histories on the real contract, judged by a reference monitor with its own Merkle trees, hashes and ledger",
'P':"runtime monitoring: seeded zap operations of the real periphery and core contracts against a moving market, judged on the bank ledger and the swap log",
'M':"runtime monitoring: seeded inputs to the real code, judged by an independently computed value within the documented precision",
'E':"runtime monitoring: seeded histories of all three contracts; an online checker compares every emitted event with the state before, the state after and the coins moved",
'W':"runtime monitoring: drawn calls run through the published SDK's own code with recording stand-ins, and an online checker of every message accepted and answer given by the contracts against the types the SDK declares",
'U':"runtime monitoring: seeded instantiations and migrations of the real contracts, judged by an independent version order and state comparison",
}
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks=[]
for i in ids:
    checks.append(dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",
      technique=T[i[0]] if i!='M03' else T['P'],level="exploration",
      level_note="Every drawn history is executed on /repo's own code and judged online; histories not drawn are not judged. Deterministic in VERIF_SEED and episode number."))
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=[],
 notes="No hooks in /repo. Each check rebuilds the monitor (about 30 s from scratch) with path dependencies on /repo. bash replay.sh FILE re-runs a reported episode.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
