import json
note={
'C01':'Search over delivery schedules; exact equality with one-call delivery on every run.',
'C02':'Search over session histories; exact equality with a fresh fingerprinter after every operation.',
'C03':'As C02 with refused calls injected.',
'C04':'Search over schedules with readings; lag bounds allow one 32768-frame buffer.',
'C06':'Search over streams and configurations against an independent model; bits within rounding distance of a threshold are exempt; resampling itself is trusted to rubato run in one piece.',
'C07':'Search over cut points; exact prefix.',
'C08':'Search over long streams and session histories; heap measured by the harness allocator.',
'C09':'Search over snapshots and storage damage; independent decoder.',
}
import os,sys
claimed=sys.argv[1].split(',')
extra=json.load(open('/verif/tools/notes.json')) if os.path.exists('/verif/tools/notes.json') else {}
note.update(extra)
tech={}
m=dict(version=1,setup_cmd='bash setup.sh',checks=[],not_applicable=[
 dict(property='C16',reason='Stateless arithmetic on a few numbers: no schedule, time, I/O, history or fault for a simulator to control; deterministic simulation would only be input sampling under another name.'),
 dict(property='C17',reason='A pure function from an argument vector to accept or reject, decided before any I/O, clock or thread is involved; there is no nondeterminism to simulate.')],
 notes='One simulator binary (sim/, crate simcheck) decides every property by seeded search over simulated executions; replay: build/sim/release/simcheck replay FILE.')
for c in claimed:
    m['checks'].append(dict(property=c,quick_cmd=f'bash check.sh {c} --quick',thorough_cmd=f'bash check.sh {c} --thorough',evidence_file=f'evidence/{c}.json',
      technique='deterministic simulation with fault injection: seeded search over simulated executions',level='exploration',level_note=note[c]))
for l in open('/verif/properties.jsonl'):
    i=json.loads(l)['id']
    if i not in claimed and i not in ('C16','C17'):
        m['not_applicable'].append(dict(property=i,reason='Check under construction; the family applies.'))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
