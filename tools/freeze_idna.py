#!/usr/bin/env python3
"""Freezes the Unicode 10 bidi classes and IDNA mapping the reference models use (run once on the unchanged tree; the
result is committed).  Cross-checks them with Python's unicodedata and pip's copy of the UTS #46 table (newer versions
of Unicode: differences are printed and were looked at)."""
import re,unicodedata
R='/repo/unic/'
def rows(path):
    out=[]
    for l in open(path):
        m=re.match(r"\s+\(chars!\('\\u\{([0-9a-f]+)\}'\.\.='\\u\{([0-9a-f]+)\}'\), (.*)\),$",l)
        if m: out.append((int(m[1],16),int(m[2],16),m[3]))
    return out
D='/verif/sim/src/data/'
bidi=rows(R+'ucd/bidi/tables/bidi_class.rsv')
idna=rows(R+'idna/mapping/tables/idna_mapping.rsv')
age=rows(R+'ucd/age/tables/age_values.rsv')
assigned=set()
for a,b,_ in age: assigned|=set(range(a,b+1))
for c in range(0xd800,0xe000): assigned.discard(c)
bc={}
for a,b,v in bidi:
    for c in range(a,b+1): bc[c]=v
diff=[(hex(c),unicodedata.bidirectional(chr(c)),bc.get(c,'L')) for c in assigned if unicodedata.bidirectional(chr(c)) not in ('',bc.get(c,'L'))]
print('bidi: assigned',len(assigned),'differences',sorted(diff))
st={}
def parse(v):
    m=re.match(r'(\w+)(?:\("(.*)"\))?$',v)
    return m[1],[int(x,16) for x in re.findall(r'\\u\{([0-9a-f]+)\}',m[2] or '')]
prev=-1
for a,b,v in idna:
    assert a==prev+1 or (prev,a)==(0xd7ff,0xe000),(hex(prev),hex(a)); prev=b
    k=parse(v)
    for c in range(a,b+1): st[c]=k
assert prev==0x10ffff
try:
    from pip._vendor.idna.uts46data import uts46data as U
    K={'V':'Valid','I':'Ignored','M':'Mapped','D':'Deviation','X':'Disallowed','3':None}
    other={}
    for i,r in enumerate(U):
        end=U[i+1][0] if i+1<len(U) else 0x110000
        for c in range(r[0],end): other[c]=(r[1],[ord(x) for x in (r[2] if len(r)>2 and r[2] else '')])
    n=0;shown=[]
    for c in assigned:
        k,m=other[c]; a,b=st[c]
        k2=K[k] or ('DisallowedStd3Mapped' if m else 'DisallowedStd3Valid')
        if (k2,m)!=(a,b): n+=1; shown.append((hex(c),a,[hex(x) for x in b],k2,[hex(x) for x in m]))
    print('idna: differences',n); [print(*x) for x in shown[:80]]
except ImportError: print('no other table')
with open(D+'bidi.rs','w') as f:
    f.write('// Frozen Unicode 10 data; see tools/freeze_idna.py\n#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]\npub enum Bc { %s }\nuse Bc::*;\n'%', '.join(dict.fromkeys(['L']+[v for _,_,v in bidi])))
    f.write('pub static TABLE: &[(u32, u32, Bc)] = &[\n'+''.join('(0x%x,0x%x,%s),\n'%x for x in bidi)+'];\n')
names=['Valid','Ignored','Mapped','Deviation','Disallowed','DisallowedStd3Valid','DisallowedStd3Mapped']
with open(D+'idna.rs','w') as f:
    f.write('// Frozen Unicode 10 data; see tools/freeze_idna.py\n#[derive(Clone, Copy, Debug, PartialEq, Eq)]\npub enum Status { %s }\nuse Status::*;\n'%', '.join(names))
    f.write('pub static TABLE: &[(u32, u32, Status, &[u32])] = &[\n')
    out=[]
    for a,b,v in idna:
        k=parse(v)
        if out and out[-1][2]==k and out[-1][1]+1==a: out[-1][1]=b
        else: out.append([a,b,k])
    for a,b,k in out: f.write('(0x%x,0x%x,%s,&[%s]),\n'%(a,b,k[0],','.join(hex(x) for x in k[1])))
    f.write('];\n')
mark=rows(R+'ucd/normal/tables/general_category_mark.rsv')
mk=set()
for a,b,_ in mark: mk|=set(range(a,b+1))
print('mark: differences',[hex(c) for c in assigned if (unicodedata.category(chr(c))[0]=='M')!=(c in mk)])
with open(D+'idna.rs','a') as f:
    f.write('pub static MARK: &[(u32, u32)] = &[\n'+''.join('(0x%x,0x%x),\n'%x[:2] for x in mark)+'];\n')
blocks=rows(R+'ucd/block/tables/blocks.rsv')
with open(D+'blocks.rs','w') as f:
    f.write('// Frozen Unicode 10 data; see tools/freeze_idna.py\npub static TABLE: &[(u32, u32, &str)] = &[\n'+''.join('(0x%x,0x%x,%s),\n'%x for x in blocks)+'];\n')
print('blocks',len(blocks))
