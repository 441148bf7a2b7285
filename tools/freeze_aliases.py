#!/usr/bin/env python3
"""Freezes the name aliases of Unicode 10 (run once; the result is committed): reads the unchanged tree's tables, checks
each alias against Python's unicodedata.lookup, and writes sim/src/data/aliases.rs."""
import re,unicodedata,sys
D='/repo/unic/ucd/name_aliases/tables/'
KINDS=[('NameCorrections','corrections'),('ControlCodeNames','controls'),('AlternateNames','alternates'),('Figments','figments'),('NameAbbreviations','abbreviations')]
rows=[]
for i,(k,f) in enumerate(KINDS):
    for m in re.finditer(r"\('\\u\{([0-9a-f]+)\}', &\[([^\]]*)\]\)",open(D+f+'.rsv').read()):
        c=int(m.group(1),16); names=re.findall(r'"([^"]*)"',m.group(2)); assert names
        for n in names: assert unicodedata.lookup(n)==chr(c),(n,c)
        rows.append((c,i,names))
rows.sort()
types={}
for c,i,_ in rows: types.setdefault(c,[]).append(KINDS[i][0])
for m in re.finditer(r"\('\\u\{([0-9a-f]+)\}', &\[([^\]]*)\]\)",open(D+'name_alias_types.rsv').read()):
    t=types.pop(int(m.group(1),16)); assert sorted(t)==sorted(re.findall(r'\w+',m.group(2))),m.group(0)
assert not types
with open('/verif/sim/src/data/aliases.rs','w') as o:
    o.write('//! Name aliases of Unicode 10 (tools/freeze_aliases.py): character, number of the type, aliases.\npub static TABLE: &[(u32, usize, &[&str])] = &[\n')
    for c,i,n in rows: o.write('    (0x%X, %d, &[%s]),\n'%(c,i,', '.join('"%s"'%x for x in n)))
    o.write('];\n')
print(len(rows))
