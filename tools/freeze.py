#!/usr/bin/env python3
"""Freezes the Unicode 10 data the reference models use (run once on the unchanged tree; the result is
committed).  Cross-checks normalization data against Python's own unicodedata for characters that
Unicode 10 assigns (the stability policy keeps those values)."""
import re,unicodedata,sys
R='/repo/unic/ucd/'
def ranges(path):
    s=open(path).read()
    out=[]
    for m in re.finditer(r"\(chars!\('\\u\{([0-9a-f]+)\}'\.\.='\\u\{([0-9a-f]+)\}'\), ([^\n]*?)\),\n",s):
        out.append((int(m[1],16),int(m[2],16),m[3]))
    assert len(out)==s.count('chars!('),(path,len(out),s.count('chars!('))
    return out
D='/verif/sim/src/data/'
gcb={'CR':'CR','LF':'LF','Control':'Control','Extend':'Extend','ZWJ':'ZWJ','Regional_Indicator':'RI','RegionalIndicator':'RI','Prepend':'Prepend','SpacingMark':'SM','L':'L','V':'V','T':'T','LV':'LV','LVT':'LVT','EBase':'EB','E_Base':'EB','EModifier':'EM','E_Modifier':'EM','GlueAfterZwj':'GAZ','Glue_After_Zwj':'GAZ','EBaseGAZ':'EBG','E_Base_GAZ':'EBG'}
wb={'CR':'CR','LF':'LF','Newline':'NL','Extend':'Extend','ZWJ':'ZWJ','Regional_Indicator':'RI','Format':'FO','Katakana':'KA','Hebrew_Letter':'HL','ALetter':'LE','Single_Quote':'SQ','Double_Quote':'DQ','MidNumLet':'MB','MidLetter':'ML','MidNum':'MN','Numeric':'NU','ExtendNumLet':'EX','E_Base':'EB','E_Modifier':'EM','Glue_After_Zwj':'GAZ','E_Base_GAZ':'EBG'}
def emit(name,enum,mp,rs):
    with open(D+name+'.rs','w') as f:
        f.write('// Frozen Unicode 10 data; see tools/freeze.py\n#[allow(non_camel_case_types, clippy::upper_case_acronyms)]\n#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]\npub enum %s { %s, Other }\nuse %s::*;\n'%(enum,', '.join(dict.fromkeys(mp.values())),enum))
        f.write('pub static TABLE: &[(u32, u32, %s)] = &[\n'%enum)
        for a,b,v in rs: f.write('(0x%x,0x%x,%s),\n'%(a,b,mp[v.split('::')[1]]))
        f.write('];\n')
emit('gcb','Gcb',gcb,ranges(R+'segment/tables/grapheme_cluster_break.rsv'))
emit('wb','Wb',wb,ranges(R+'segment/tables/word_break.rsv'))
# normalization
ccc=[(a,b,int(re.match(r'CanonicalCombiningClass\((\d+)\)',v)[1])) for a,b,v in ranges(R+'normal/tables/canonical_combining_class_values.rsv')]
ch=lambda s:[int(x,16) for x in re.findall(r"'\\u\{([0-9a-f]+)\}'",s)]
canon={}
for l in open(R+'normal/tables/canonical_decomposition_mapping.rsv'):
    m=re.match(r"\s+\('\\u\{([0-9a-f]+)\}', &\[(.*)\]\),",l)
    if m: canon[int(m[1],16)]=ch(m[2])
compat={}
for l in open(R+'normal/tables/compatibility_decomposition_mapping.rsv'):
    m=re.match(r"\s+\('\\u\{([0-9a-f]+)\}', \((\w+), &\[(.*)\]\)\),",l)
    if m: compat[int(m[1],16)]=ch(m[3])
comp={}
for l in open(R+'normal/tables/canonical_composition_mapping.rsv'):
    m=re.match(r"\s+\('\\u\{([0-9a-f]+)\}', CharDataTable::Direct\(&\[(.*)\]\)\),",l)
    if m:
        a=int(m[1],16)
        for x in re.finditer(r"\('\\u\{([0-9a-f]+)\}','\\u\{([0-9a-f]+)\}'\)",m[2]): comp[(a,int(x[1],16))]=int(x[2],16)
age=ranges(R+'age/tables/age_values.rsv')
bad=0
cc={}
for a,b,v in ccc:
    for c in range(a,b+1): cc[c]=v
n=0
assigned=[]
for a,b,_ in age:
    for c in range(a,b+1):
        if 0xd800<=c<0xe000: continue
        n+=1; s=chr(c)
        if unicodedata.combining(s)!=cc.get(c,0): bad+=1; print('ccc',hex(c),unicodedata.combining(s),cc.get(c))
        d=unicodedata.decomposition(s)
        if d.startswith('<'):
            e=[int(x,16) for x in d.split()[1:]]
            if compat.get(c)!=e: bad+=1; print('compat',hex(c))
        elif d:
            e=[int(x,16) for x in d.split()]
            if canon.get(c)!=e: bad+=1; print('canon',hex(c))
            if len(e)==2:
                nf=unicodedata.normalize('NFC',s)
                prim = nf==s
                if prim != (comp.get(tuple(e))==c): bad+=1; print('comp',hex(c),prim,comp.get(tuple(e)))
        else:
            if c in canon or c in compat: bad+=1; print('extra',hex(c))
print('assigned',n,'disagreements with unicodedata',bad,'canon',len(canon),'compat',len(compat),'comp',len(comp))
with open(D+'norm.rs','w') as f:
    f.write('// Frozen Unicode 10 data; see tools/freeze.py\n')
    f.write('pub static CCC: &[(u32, u32, u8)] = &[\n'+''.join('(0x%x,0x%x,%d),\n'%x for x in ccc)+'];\n')
    f.write('pub static CANON: &[(u32, &[u32])] = &[\n'+''.join('(0x%x,&[%s]),\n'%(k,','.join(hex(x) for x in v)) for k,v in sorted(canon.items()))+'];\n')
    f.write('pub static COMPAT: &[(u32, &[u32])] = &[\n'+''.join('(0x%x,&[%s]),\n'%(k,','.join(hex(x) for x in v)) for k,v in sorted(compat.items()))+'];\n')
    f.write('pub static COMP: &[(u32, u32, u32)] = &[\n'+''.join('(0x%x,0x%x,0x%x),\n'%(a,b,c) for (a,b),c in sorted(comp.items()))+'];\n')
