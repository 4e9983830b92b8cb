#!/usr/bin/env python3
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
note={
'C01':'Sampled histories (data up to a few MiB per stream); trusts the simulator\'s own strict RFC 1951 decoder, cross-checked by miniz_oxide on a sample.',
'C02':'Sampled; the judge is the accounting of Ok(n)/Err against what the strict decoder yields, at every writer call.',
'C03':'Sampled; reference is the same library on a perfect writer, so a change that alters both alike is left to C01.',
'C04':'Sampled; reference is the one-shot function of the same tree.',
'C05':'Sampled; each acknowledged flush is treated as a crash right after it.',
'C06':'Every accepted writer call of every sampled run is checked as a crash point.',
'C07':'Sampled histories with faults at chosen writer calls; every acknowledgement is judged.',
'C08':'Sampled fault positions and kinds; the judge is per call, on the faults that really fired in it.',
'C09':'Bounded-work limits are generous constants plus the bytes to deliver; livelock is recognised inside the writer, a hang without writer calls by a watchdog.',
'C10':'Sampled; process aborts are seen as the death of the worker process.',
'C11':'Sampled; reference is a fresh encoder of the same tree.',
'C12':'Own Adler-32/CRC-32 implementation after every call.',
'C13':'Sampled, in both a debug-assertions/overflow-checks build and the shipped release build.',
'C14':'Counts heap of encoder calls with a tagging global allocator; streams up to tens of MiB, far beyond every internal buffer.',
'C15':'Seeded schedules with switches at calls, writer calls and (hook) inside compression; reference is each encoder alone.',
'C16':'Header and trailer are compared with independently computed expected bytes while they are delivered.',
'C17':'Stated constant bound, checked on every complete stream run with the shipped block size.',
'C20':'Stated bound on streams of repeating data (blocks of 1 to 32768 random bytes), checked on every such stream run with the shipped block size.',
'C18':'Statistics of the strict decoder over every stream.',
}
checks=[{"property":p['id'],"quick_cmd":"bin/check "+p['id'],"thorough_cmd":"bin/check "+p['id'],
 "technique":"deterministic simulation with fault injection: seeded search over call histories, writer faults, crashes and schedules",
 "level":"exploration","level_note":note[p['id']]} for p in props if p['id'] in note]
import subprocess
def commits(s): 
    o=subprocess.run(['git','-C','/repo','log','--format=%H %s'],capture_output=True,text=True).stdout.splitlines()
    return [l.split()[0] for l in o if s in l]
m={"version":1,"setup_cmd":"bin/build",
"hooks":{"guard":"--cfg deflate_sim","enable":"RUSTFLAGS=\"--cfg deflate_sim\" (bin/build does it for the dbg binary; the rel binary is built without)","source_commits":commits('guarded hooks')},
"checks":checks,
"not_applicable":[{"property":"C19","reason":"A one-shot function is a pure function of its argument: no schedule, I/O, fault, crash or history for a simulator to decide. Generating inputs for it would be plain property-based testing. Its equality with the streaming encoders is part of C04."}],
"notes":"See DESIGN.md. bin/replay FILE replays a violation. known_findings.txt lists the defects found (all repaired)."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
