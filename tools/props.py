#!/usr/bin/env python3
"""The properties, their harnesses and bounds. Writes properties.jsonl,
cmd/symgo/table.go and MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'pkg/scte35/'
SIS, INS, SCH, TS, PC = S+'splice_info_section.go', S+'splice_insert.go', S+'splice_schedule.go', S+'time_signal.go', S+'private_command.go'
SEG, UPID, DR = S+'segmentation_descriptor.go', S+'segmentation_upid.go', S+'delivery_restrictions.go'
AV, DT, TD, AU, PD = S+'avail_descriptor.go', S+'dtmf_descriptor.go', S+'time_descriptor.go', S+'audio_descriptor.go', S+'private_descriptor.go'
CMD, DESC, CRC, TIME, ENC, PKG, TAB = S+'splice_command.go', S+'splice_descriptor.go', S+'crc_32.go', S+'splice_time.go', S+'encrypted_packet.go', S+'scte35.go', S+'table.go'
CMDS, DESCS = [INS, SCH, TS, PC, S+'splice_null.go', S+'bandwidth_reservation.go'], [AV, DT, SEG, TD, AU, PD]
P = []

def prop(id, title, statement, over, quant, why, files, mech, hs, quick, thorough, outside, state=None, assume=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, hs=hs,
                  quick=quick, thorough=thorough, outside=outside, state=state, assume=assume or []))

def h(name, reach=None, q=0, t=0, tonly=False, enumbits=0, maxvalues=0):
    return dict(name=name, reach=reach, q=q, t=t, tonly=tonly, enumbits=enumbits, maxvalues=maxvalues)

exec(open(root + '/tools/props_data.py').read())

def q(s):
    return json.dumps(s, ensure_ascii=False)

ids = [p['id'] for p in P]
assert len(set(ids)) == len(ids)
na = json.load(open(root + '/tools/na.json'))
with open(root + '/properties.jsonl', 'w') as f:
    for p in P + NA:
        assert len(p['title']) <= 80, p['id']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']:
            a['state'] = p['state']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['quant']},
                            'why_tests_cant': p['why'], 'anchors': a}, ensure_ascii=False) + '\n')
with open(root + '/cmd/symgo/table.go', 'w') as f:
    f.write('// Code generated by tools/props.py. DO NOT EDIT.\n\npackage main\n\nvar props = []Prop{\n')
    for p in P:
        hs = []
        for x in p['hs']:
            if isinstance(x, str):
                x = h(x)
            s = '{Name: %s' % q(x['name'])
            if x['reach']:
                s += ', Reach: []string{%s}' % ', '.join(map(q, x['reach']))
            if x['q']:
                s += ', Quick: %d' % x['q']
            if x['t']:
                s += ', Thorough: %d' % x['t']
            if x['tonly']:
                s += ', ThoroughOnly: true'
            if x['enumbits']:
                s += ', EnumBits: %d' % x['enumbits']
            if x['maxvalues']:
                s += ', MaxValues: %d' % x['maxvalues']
            hs.append(s + '}')
        f.write('\t{ID: %s, Hs: []H{%s},\n\t\tQuick:    %s,\n\t\tThorough: %s,\n\t\tOutside:  %s' % (q(p['id']), ', '.join(hs), q(p['quick']), q(p['thorough']), q(p['outside'])))
        if p['assume']:
            f.write(',\n\t\tAssume: []string{%s}' % ', '.join(map(q, p['assume'])))
        f.write('},\n')
    f.write('}\n')
checks = [{
    'property': p['id'],
    'quick_cmd': './check.sh %s quick' % p['id'],
    'thorough_cmd': './check.sh %s thorough' % p['id'],
    'technique': 'solver-based: bounded symbolic execution of the Go SSA form of /repo with an SMT solver (z3, cvc5); counterexamples replayed natively',
    'level': 'model_checking',
    'level_note': 'Every value within the bounds stated in the evidence is decided by the solver on the code of the working tree; '
                  'nothing is claimed outside them. Trusts go/ssa, the engine and its library models (listed in the evidence, '
                  'cross-checked by native runs of sampled paths) and the solvers.',
} for p in P]
m = {'version': 1, 'setup_cmd': './check.sh setup', 'checks': checks, 'not_applicable': na,
     'notes': 'check.sh ID TIER builds the engine and the native runner from source, loads the SSA form of /repo, explores the harnesses of the property and replays every counterexample. See DESIGN.md. Generated by tools/props.py.'}
assert [x['property'] for x in na] == [p['id'] for p in NA]
open(root + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks', len(na), 'not applicable')
