#!/usr/bin/env python3
"""Writes the tables of DESIGN.md between their markers."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = ''
exec(open(root + '/tools/props.py').read().split("def q(s)")[0].replace('os.path.abspath(__file__)', 'root+"/tools/x"'))
LAYOUT = 'the independent SCTE 35 layout of ref.go'
ORACLE = {
 'C01': 'the generated value, field by field', 'C02': 'the generated value, field by field', 'C03': 'the generated value, field by field',
 'C04': LAYOUT + ', bit for bit', 'C05': 'the values put into ' + LAYOUT + ' with symbolic reserved bits', 'C06': LAYOUT + ': decode then encode gives its bytes',
 'C07': 'an independent reader of lengths and counts walks the encoding; limits of the length fields', 'C08': 'a bitwise CRC-32/MPEG-2 and all four byte values, decided over GF(2)', 'C09': 'acceptance is an error: a symbolic exclusive-or pattern within 32 bits, decided over GF(2)',
 'C10': 'no panic, no endless loop: every fork of the decoder on bytes of free content is explored', 'C11': 'no panic in any operation; where decoding accepted, a second encode and decode agree', 'C12': 'layouts cut short or extended have to be refused',
 'C13': 'layouts with untrue length fields have to be refused', 'C14': LAYOUT + ' in the legacy form with command length 0xFFF',
 'C15': 'the generated value, field by field, and its encoding', 'C16': 'the generated value, field by field, and its encoding', 'C17': 'the tables of member names written from the documentation of the types; other spellings',
 'C18': 'names, types and order of the SCTE 35 XML schema, written by hand', 'C19': 'no panic, refused or usable, for any typed content of documents', 'C20': 'byte values by UPID type of values.go',
 'C21': 'EIDR text form, ISAN and TI forms of values.go', 'C22': 'integer arithmetic of 90 kHz ticks', 'C23': 'sums of ticks of values.go', 'C24': 'seconds since the GPS epoch computed independently',
 'C25': 'the label and value of every field in order, written independently', 'C26': 'tables of names from SCTE 35; presence of optional parts', 'C27': 'the same bytes decoded directly', 'C28': 'the first encoding', 'C29': 'the values before overwriting',
 'C30': 'a fresh section', 'C31': 'the library called directly on the same text', 'C32': 'the library called directly on the same document', 'C33': 'one character per byte by definition', 'C34': LAYOUT + ' around a malformed or unknown descriptor',
 'C35': 'the values before the other section was used', 'C36': 'the error each fault has to give, and none of the others', 'C39': 'the nesting of braces',
 'C38': 'an error, whatever the wrong value',
 'C41': 'the document as the library wrote it', 'C42': 'the values of ' + LAYOUT + ', as far as it was kept', 'C40': 'no unsynchronised write to memory reachable from package variables or from what the goroutines were given',
 'C37': 'the assignments of SCTE 35',
}
COST = json.load(open(root + '/tools/cost.json'))
t = '| Property | Harnesses | Judged against | Within (quick) | Beyond (thorough) | Cost (quick) |\n|---|---|---|---|---|---|\n'
for p in P:
    hs = [x if isinstance(x, str) else x['name'] for x in p['hs']]
    t += '| %s %s | %s | %s | %s | %s | %s |\n' % (p['id'], p['title'], ', '.join(hs), ORACLE[p['id']], p['quick'], p['thorough'], COST.get(p['id'], ''))
b = '| Change | Property | What it breaks | Needs | Caught by |\n|---|---|---|---|---|\n'
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d))
    b += '| %s | %s | %s | %s | %s |\n' % (d.split('/')[-2], m['property'], m['what_it_breaks'], m['needs'], m['property'])
s = open(root + '/DESIGN.md').read()
for k, v in (('properties', t), ('seeded', b)):
    s = re.sub(r'(<!-- %s -->\n).*?(<!-- end -->)' % k, lambda x: x.group(1) + '\n' + v + '\n' + x.group(2), s, flags=re.S)
open(root + '/DESIGN.md', 'w').write(s)
