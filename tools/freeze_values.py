#!/usr/bin/env python3
"""Freezes the names of properties and property values (run once on the unchanged tree; the result is committed).
Cross-checks categories and bidi classes with Python's unicodedata."""
import glob,re,unicodedata
R='/repo/unic/'
en=[];bi=[]
for f in sorted(glob.glob(R+'**/src/*.rs',recursive=True)):
    if 'property/src' in f or '/tests/' in f: continue
    s=open(f).read()
    for m in re.finditer(r'char_property! \{(.*?)\n\}',s,re.S):
        b=m[1]
        names=[re.search(k+r' => "(.*?)";',b)[1] for k in('abbr','long','human')]
        t=re.search(r'pub (enum|struct) (\w+)',b)
        if t[1]=='struct': bi.append((t[2],names)); continue
        vals=re.findall(r'(\w+) \{\s*abbr => (\w+),\s*long => (\w+),\s*human => "(.*?)",\s*\}',b)
        assert len(vals)==b.count('abbr => ')-1
        en.append((t[2],names,[v[1:] for v in vals]))
        low={}
        for v in vals:
            for x in {v[1].lower(),v[2].lower()}:
                assert low.setdefault(x,v[1])==v[1],(t[2],x)
d=dict((e[0],{v[0] for v in e[2]}) for e in en)
chars=[chr(c) for c in range(0x110000)]
print('categories differ in',d['GeneralCategory']^{unicodedata.category(c) for c in chars})
print('bidi classes differ in',d['BidiClass']^({unicodedata.bidirectional(c) for c in chars}-{''}))
q=lambda s:'"%s"'%s
with open('/verif/sim/src/data/values.rs','w') as o:
    o.write("// Frozen names of properties and values; see tools/freeze_values.py\npub type Names = [&'static str; 3];\npub static ENUMERATED: &[(&str, Names, &[Names])] = &[\n")
    for t,n,v in en:
        o.write('("%s", [%s], &[\n'%(t,', '.join(map(q,n)))+''.join('    [%s],\n'%', '.join(map(q,x)) for x in v)+']),\n')
    o.write("];\npub static BINARY: &[(&str, Names)] = &[\n"+''.join('("%s", [%s]),\n'%(t,', '.join(map(q,n))) for t,n in bi)+"];\n")
print(len(en),'enumerated',len(bi),'binary')
# Cross-check of values.bin (written by `sim freeze-values sim/src/data/values.bin` on the unchanged tree)
import struct
src=open('/verif/sim/src/scen/reports.rs').read()
kinds=[m[1] for m in re.finditer(r'^    (?:enumerated|binary)!\("(\w+)"',src,re.M)]
names={t:[x[0] for x in v] for t,n,v in en}
val={k:{} for k in kinds}
b=open('/verif/sim/src/data/values.bin','rb').read()
for i in range(0,len(b),8):
    k=kinds[b[i]]; lo=int.from_bytes(b[i+1:i+4],'little'); hi=int.from_bytes(b[i+4:i+7],'little')
    for c in range(lo,hi+1):
        if not 0xD800<=c<0xE000: val[k][c]=names[k][b[i+7]] if k in names else b[i+7]==0
gc=val['GeneralCategory']
assigned=[c for c in gc if gc[c]!='Cn']
def diff(k,f,over=assigned):
    d=[c for c in over if val[k].get(c)!=f(chr(c))]
    print(k,len(d),'of',len(over),'differ:',' '.join('%X(%s,%s)'%(c,val[k].get(c),f(chr(c))) for c in d[:40]))
diff('GeneralCategory',unicodedata.category)
diff('BidiClass',unicodedata.bidirectional)
diff('BidiMirrored',lambda c:bool(unicodedata.mirrored(c)))
dt={'<font>':'Font','<noBreak>':'Nb','<initial>':'Init','<medial>':'Med','<final>':'Fin','<isolated>':'Iso','<circle>':'Enc','<super>':'Sup','<sub>':'Sub','<vertical>':'Vert','<wide>':'Wide','<narrow>':'Nar','<small>':'Sml','<square>':'Sqr','<fraction>':'Fra','<compat>':'Com'}
def dec(c):
    if 0xAC00<=ord(c)<=0xD7A3: return 'Can'
    d=unicodedata.decomposition(c).split()
    return None if not d else dt.get(d[0],'Can')
diff('DecompositionType',dec)
diff('Control',lambda c:unicodedata.category(c)=='Cc')
diff('Numeric',lambda c:unicodedata.category(c)[0]=='N')
for p,a,b in(('Alphanumeric','Alphabetic','Numeric'),): print(p,sum(val[p][c]!=(val[a][c] or val[b][c]) for c in val[p]),'differ from',a,'or',b)
for a,b in(('XidStart','IdStart'),('XidContinue','IdContinue'),('IdStart','IdContinue'),('EmojiModifier','Emoji'),('EmojiModifierBase','Emoji'),('EmojiPresentation','Emoji'),('Lowercase','Cased'),('Uppercase','Cased'),('Lowercase','Alphabetic'),('Uppercase','Alphabetic'),('ChangesWhenLowercased','ChangesWhenCasemapped'),('ChangesWhenUppercased','ChangesWhenCasemapped'),('ChangesWhenTitlecased','ChangesWhenCasemapped')):
    print(a,'without',b,sum(val[a][c] and not val[b][c] for c in val[a]))
diff('ChangesWhenLowercased',lambda c:unicodedata.normalize('NFD',c).lower()!=unicodedata.normalize('NFD',c))
diff('ChangesWhenUppercased',lambda c:unicodedata.normalize('NFD',c).upper()!=unicodedata.normalize('NFD',c))
diff('ChangesWhenTitlecased',lambda c:unicodedata.normalize('NFD',c).title()!=unicodedata.normalize('NFD',c))
diff('ChangesWhenCasefolded',lambda c:unicodedata.normalize('NFD',c).casefold()!=unicodedata.normalize('NFD',c))
diff('WhiteSpace',lambda c:c in '\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000')
diff('PatternWhitespace',lambda c:c in '\t\n\x0b\x0c\r \x85\u200e\u200f\u2028\u2029')
diff('XidStart',lambda c:c.isidentifier() and c!='_')
diff('XidContinue',lambda c:('a'+c).isidentifier())
diff('BidiControl',lambda c:ord(c) in(0x61c,0x200e,0x200f,*range(0x202a,0x202f),*range(0x2066,0x206a)))
diff('EmojiModifier',lambda c:0x1f3fb<=ord(c)<=0x1f3ff)
