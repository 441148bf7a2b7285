#!/usr/bin/env python3
"""Writes small Unicode data sets for the table generator and what it must make of them.

/verif/sysdata/vN/in/external/unicode/...   source files in the formats of the Unicode 10 era
/verif/sysdata/vN/out/unic/...              the tables they denote, written by the model below, which
                                            knows the table format but shares no code with unic-gen.
The data is invented from Python's unicodedata for a selection of code points: what matters is variety of
form (ranges, First/Last pairs, options present and absent), not that it is the real Unicode 10."""
import os, random, shutil, sys, unicodedata as U
ROOT=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','sysdata')
PRE="// WARNING: Auto-generated by the `unic-gen` crate.\n// WARNING: DO NOT EDIT MANUALLY!\n"
def esc(c): return "\\u{%x}"%c
def scalar(c): return not 0xD800<=c<=0xDFFF
def ranges(m, same=lambda a,b:a==b):
    """sorted items -> maximal runs of consecutive code points with one value"""
    out=[]
    for c,v in sorted(m.items()):
        if out and out[-1][1]+1==c and same(out[-1][2],v): out[-1][1]=c
        else: out.append([c,c,v])
    return out
def rtable(m): return "CharDataTable::Range(&[\n"+"".join("    (chars!('%s'..='%s'), %s),\n"%(esc(a),esc(b),v) for a,b,v in ranges(m))+"])"
def rset(s): return rtable({c:"()" for c in s})
def dtable(m): return "CharDataTable::Direct(&[\n"+"".join("    ('%s', %s),\n"%(esc(c),v) for c,v in sorted(m.items()))+"])"
def span(a,b): return "%04X"%a if a==b else "%04X..%04X"%(a,b)

class Set:
    def __init__(s,n,seed,ver,cps,firstlast,blocks):
        s.n=n; s.r=random.Random(seed); s.ver=ver; s.cps=sorted(set(cps)); s.fl=firstlast; s.blocks=blocks
        s.src={}; s.out={}
    def file(s,path,text): s.src["external/unicode/"+path]=text
    def table(s,path,text): s.out[path]=PRE+text+"\n"

    def build(s):
        r=s.r
        hdr="# Made-up data for the simulation, format of Unicode %d.%d.%d\n# @missing: 0000..10FFFF; none\n\n"%s.ver
        V="UnicodeVersion { major: %d, minor: %d, micro: %d }"%s.ver
        s.file("ucd/data/ReadMe.txt","# Unicode Character Database\nThis directory contains the final data files\nfor the Unicode Character Database, for Version %d.%d.%d of the Unicode Standard.\n"%s.ver)
        iv=(s.ver[0],s.ver[1],s.ver[2]+1)
        s.file("idna/data/ReadMe.txt","# IDNA\nfiles for Version %d.%d.%d of the Unicode Standard\n"%iv)
        ev=(5,s.n)
        s.file("emoji/data/ReadMe.txt","# Unicode Emoji\nfor Unicode Emoji, Version %d.%d\n"%ev)
        # ---- UnicodeData
        ent={}   # cp -> dict
        lines=[]
        for c in s.cps:
            ch=chr(c)
            gc=U.category(ch)
            if gc=='Cn': continue
            name='<control>' if gc=='Cc' else U.name(ch)
            dec=U.decomposition(ch)
            dt=None; dm=None
            if dec:
                p=dec.split()
                if p[0][0]=='<': dt=p[0][1:-1]; p=p[1:]
                dm=[int(x,16) for x in p]
                if dt is None and len(dm)>2: dm=None; dec=''
            up=ch.upper(); lo=ch.lower(); ti=ch.title()
            up="%04X"%ord(up) if len(up)==1 and up!=ch else ''
            lo="%04X"%ord(lo) if len(lo)==1 and lo!=ch else ''
            ti="%04X"%ord(ti) if len(ti)==1 and ti!=ch else ''
            d=U.decimal(ch,None); g=U.digit(ch,None); v=U.numeric(ch,None)
            ent[c]=dict(name=name,gc=gc,ccc=U.combining(ch),bc=U.bidirectional(ch) or 'L',dt=dt,dm=dm,mir=bool(U.mirrored(ch)))
            lines.append((c,"%04X;%s;%s;%d;%s;%s;%s;%s;%s;%s;%s;;%s;%s;%s"%(c,name,gc,ent[c]['ccc'],ent[c]['bc'],dec,
              '' if d is None else d,'' if g is None else g,'' if v is None else ('%d'%v if v==int(v) else '1/4'),
              'Y' if ent[c]['mir'] else 'N','OLD NAME' if c%7==3 else '',up,lo,ti)))
        for a,b,label,gc,bc in s.fl:
            t=";%s;0;%s;;;;;N;;;;;"%(gc,bc)
            lines.append((a,"%04X;<%s, First>%s"%(a,label,t)))
            lines.append((b,"%04X;<%s, Last>%s"%(b,label,t)))
            for c in range(a,b+1):
                if scalar(c): ent[c]=dict(name='<%s>'%label,gc=gc,ccc=0,bc=bc,dt=None,dm=None,mir=False)
        s.file("ucd/data/UnicodeData.txt","".join(l+"\n" for _,l in sorted(lines)))
        cps=sorted(ent)
        # ---- simple files
        def prop_file(path,m,fmt="%-14s; %s # made up\n",close=True):
            """m: value -> set of code points; written in shuffled blocks per value"""
            t=hdr
            for val in sorted(m):
                for a,b,_ in ranges({c:0 for c in m[val]}): t+=fmt%(span(a,b),val)
                t+="\n# Total code points: %d\n\n"%len(m[val])
            s.file(path,t)
        def sample(p,extra=()): return {c for c in cps if r.random()<p}|set(extra)
        def by(f): return {c for c in cps if f(c)}
        runs=[(a,b) for a,b,_ in ranges({c:0 for c in cps})]
        # age
        age={}
        for a,b in runs:
            x=a
            while x<=b:
                y=min(b,x+r.choice([0,0,1,3,9,40]))
                v=(r.randint(1,s.ver[0]),r.randint(0,3))
                for c in range(x,y+1): age[c]=v
                x=y+1
        t=hdr
        for v in sorted(set(age.values())):
            for a,b,_ in ranges({c:0 for c in age if age[c]==v}): t+="%-14s; %d.%d # [%d] made up\n"%(span(a,b),v[0],v[1],b-a+1)
        s.file("ucd/data/DerivedAge.txt",t)
        # blocks
        s.file("ucd/data/Blocks.txt",hdr+"".join("%04X..%04X; %s\n"%x for x in s.blocks))
        blk={c:'"%s"'%n for a,b,n in s.blocks for c in range(a,b+1) if scalar(c)}
        # jamo
        jamo={0x1100+i:n for i,n in enumerate("G GG N D DD R M B BB S".split()[:4+s.n*2])}
        jamo[0x110B]=''
        jamo.update({0x1161:'A',0x1162:'AE',0x11A8:'G'})
        s.file("ucd/data/Jamo.txt",hdr+"".join("%04X; %s # HANGUL\n"%x for x in sorted(jamo.items())))
        # name aliases
        al=[(0,'NULL','control'),(0,'NUL','abbreviation'),(9,'CHARACTER TABULATION','control'),(9,'HORIZONTAL TABULATION','control'),(9,'HT','abbreviation'),(9,'TAB','abbreviation'),
            (0xA,'LINE FEED','control'),(0xA,'LF','abbreviation'),(0x80,'PADDING CHARACTER','figment'),(0x80,'PAD','abbreviation'),
            (0x1A2,'LATIN CAPITAL LETTER GHA','correction'),(0xFEFF,'BYTE ORDER MARK','alternate'),(0xFEFF,'BOM','abbreviation'),(0x1F12,'GREEK TEST-NAME %d'%s.n,'correction')]
        if s.n==2: al+=[(0x1F12,'SECOND NAME','correction'),(0x200B,'ZWSP','abbreviation')]
        s.file("ucd/data/NameAliases.txt",hdr+"".join("%04X;%s;%s\n"%x for x in al))
        # prop list
        pl={
          'White_Space':{9,10,11,12,13,0x20,0x85,0xA0,0x2028,0x2029}, 'Bidi_Control':{0x61C,0x200E,0x200F}|set(range(0x202A,0x202F)),
          'Join_Control':{0x200C,0x200D},'Dash':{0x2D,0x2010},'Hyphen':{0x2D},'Hex_Digit':set(range(0x30,0x3A))|set(range(0x41,0x47)),
          'Other_Math':sample(.02),'Other_Alphabetic':sample(.05),'Ideographic':{c for c in cps if 0x3400<=c<0xA000},
          'Pattern_White_Space':{9,10,11,12,13,0x20,0x85,0x200E,0x200F,0x2028,0x2029},
          'Pattern_Syntax':set(range(0x21,0x30))|set(range(0x3A,0x41))|set(range(0x5B,0x5F))|{0x60}|set(range(0x7B,0x7F))|set(range(0x2190,0x2190+s.n)),
          'Regional_Indicator':set(range(0x1F1E6,0x1F200)),'Noncharacter_Code_Point':{0xFDD0,0xFDD1,0x10FFFE,0x10FFFF},'Variation_Selector':{0xFE00,0xFE0F},
          'Terminal_Punctuation':{0x21,0x2C,0x2E},'Diacritic':sample(.1),'Soft_Dotted':{0x69,0x6A},'Deprecated':{0x149},'Extender':{0xB7},'Quotation_Mark':{0x22,0x27},
          'Unified_Ideograph':{c for c in cps if 0x3400<=c<0xA000},'Radical':{0x2E80},
        }
        prop_file("ucd/data/PropList.txt",pl)
        alpha=by(lambda c:ent[c]['gc'] in('Lu','Ll','Lt','Lm','Lo','Nl'))
        dcp={
          'Lowercase':by(lambda c:ent[c]['gc']=='Ll'),'Uppercase':by(lambda c:ent[c]['gc']=='Lu'),'Cased':by(lambda c:ent[c]['gc'] in('Lu','Ll','Lt')),
          'Case_Ignorable':by(lambda c:ent[c]['gc'] in('Mn','Me','Cf','Lm','Sk')),'Changes_When_Lowercased':by(lambda c:chr(c).lower()!=chr(c)),
          'Changes_When_Uppercased':by(lambda c:chr(c).upper()!=chr(c)),'Changes_When_Titlecased':by(lambda c:chr(c).title()!=chr(c)),
          'Changes_When_Casefolded':by(lambda c:chr(c).casefold()!=chr(c)),'Changes_When_Casemapped':sample(.3),'Alphabetic':alpha,
          'Math':by(lambda c:ent[c]['gc']=='Sm'),'ID_Start':alpha-{0x345},'ID_Continue':alpha|set(range(0x30,0x3A))|{0x5F},'XID_Start':alpha-{0x37A},'XID_Continue':(alpha|set(range(0x30,0x3A))|{0x5F})-{0x37A},
          'Default_Ignorable_Code_Point':{0xAD,0x200B},'Grapheme_Extend':by(lambda c:ent[c]['gc'] in('Mn','Me')),'Grapheme_Base':sample(.5),'Grapheme_Link':{0x94D},
        }
        prop_file("ucd/data/DerivedCoreProperties.txt",dcp)
        # normalization props
        can={c:e['dm'] for c,e in ent.items() if e['dm'] and e['dt'] is None}
        excl={c for c in can if len(can[c])==1 or U.normalize('NFC',chr(c))!=chr(c) or r.random()<.03}
        t=hdr+"# Property: Full_Composition_Exclusion\n\n"
        for a,b,_ in ranges({c:0 for c in excl}): t+="%-14s; Full_Composition_Exclusion # Mn made up\n"%span(a,b)
        t+="\n# other properties\n"
        for c in sorted(can)[:20]: t+="%-14s; NFD_QC; N # made up\n"%("%04X"%c)
        s.file("ucd/data/DerivedNormalizationProps.txt",t)
        # segmentation classes
        def classes(names):
            m={}
            for a,b in runs:
                x=a
                while x<=b:
                    y=min(b,x+r.choice([0,1,2,5,30]))
                    n=r.choice(names+[None])
                    if n:
                        for c in range(x,y+1): m[c]=n
                    x=y+1
            return m
        inv=lambda m:{v:{c for c in m if m[c]==v} for v in set(m.values())}
        gcb=classes("CR LF Control Extend Prepend SpacingMark L V T LV LVT E_Base E_Modifier ZWJ Glue_After_Zwj E_Base_GAZ Regional_Indicator".split())
        wb=classes("CR LF Newline Extend Format Katakana Hebrew_Letter ALetter Single_Quote Double_Quote MidNumLet MidLetter MidNum Numeric ExtendNumLet ZWJ".split())
        sb=classes("CR LF Extend Sep Format Sp Lower Upper OLetter Numeric ATerm STerm Close SContinue".split())
        prop_file("ucd/data/auxiliary/GraphemeBreakProperty.txt",inv(gcb))
        prop_file("ucd/data/auxiliary/WordBreakProperty.txt",inv(wb))
        prop_file("ucd/data/auxiliary/SentenceBreakProperty.txt",inv(sb))
        # break tests
        def tests(path,m,rules):
            pool=[c for c in cps if c>0x20 and ent[c]['gc'] not in('Cc',) ][:200]+[0xA,0xD]
            cl={c:m.get(c,'Other') for c in pool}
            nm=lambda c:'<LINE FEED (LF)>' if c==0xA else '<CARRIAGE RETURN (CR)>' if c==0xD else ''.join(x if x.isalnum() or x in ' -' else ' ' for x in ent[c]['name'].strip('<>'))
            L=[];T=[]
            for i in range(12+4*s.n):
                k=r.choice([1,2,2,3,5])
                cs=[r.choice(pool) for _ in range(k)]
                br=[r.random()<.5 for _ in cs[1:]]
                ru=[r.choice(rules) for _ in br]
                if i==5:   # a surrogate: the case is skipped
                    src="\u00f7 D800 \u00f7"
                    L.append(src+"\t#  \u00f7 [0.2] <surrogate-D800> (Control) \u00f7 [0.3]\n"); continue
                src="\u00f7 "+"%04X"%cs[0]
                com="\u00f7 [0.2] %s (%s)"%(nm(cs[0]),cl[cs[0]])
                for c,b,u in zip(cs[1:],br,ru):
                    d="\u00f7" if b else "\u00d7"
                    src+=" %s %04X"%(d,c)
                    com+=" %s [%s] %s (%s)"%(d,u,nm(c),cl[c])
                L.append(src+" \u00f7\t#  "+com+" \u00f7 [0.3]\n")
                T.append((cs,br,ru))
            s.file(path,"# "+path+"\n#\n"+"".join(L)+"#\n# Lines: %d\n# EOF\n"%len(L))
            seen={c:cl[c] for cs,_,_ in T for c in cs}
            return T,seen
        GT,gseen=tests("ucd/data/auxiliary/GraphemeBreakTest.txt",gcb,["9.0","9.1","9.2","999.0","3.0","12.0"])
        WT,wseen=tests("ucd/data/auxiliary/WordBreakTest.txt",wb,["4.0","5.0","999.0","13.1"])
        # normalization tests
        t="# NormalizationTest-%d.%d.%d.txt\n@Part0 # Specific cases\n#\n"%s.ver; NT=[]
        for i in range(10+3*s.n):
            x=''.join(chr(r.choice([c for c in cps if scalar(c)])) for _ in range(r.randint(1,4)))
            row=[x]+[U.normalize(f,x) for f in('NFC','NFD','NFKC','NFKD')]
            NT.append(row)
            t+="".join(" ".join("%04X"%ord(c) for c in f)+";" for f in row)+" # (made up)\n"
            if i==4: t+="@Part1 # Character by character test\n"
        s.file("ucd/data/NormalizationTest.txt",t)
        # idna
        idna={}; L=[]
        x=0
        allr=[]
        for a,b in runs:
            while a<=b:
                y=min(b,a+r.choice([0,0,1,4,20])); allr.append((a,y)); a=y+1
        for a,b in allr:
            st=r.choice("valid ignored mapped deviation disallowed disallowed_STD3_valid disallowed_STD3_mapped".split())
            if st in("mapped","disallowed_STD3_mapped"): mp=[r.choice([0x61,0x62,0x308,0x1F600]) for _ in range(r.randint(1,3))]
            elif st=="deviation": mp=r.choice([[],[0x73,0x73]])
            else: mp=None
            f="%-14s; %-23s"%(span(a,b),st)
            if mp is not None: f+="; "+" ".join("%04X"%c for c in mp)
            elif st=="valid" and r.random()<.3: f+=";      ; "+r.choice(["NV8","XV8"])
            L.append(f.ljust(50)+" # 1.1  MADE UP\n")
            name={"valid":"Valid","ignored":"Ignored","mapped":"Mapped","deviation":"Deviation","disallowed":"Disallowed","disallowed_STD3_valid":"DisallowedStd3Valid","disallowed_STD3_mapped":"DisallowedStd3Mapped"}[st]
            v=name+('("%s")'%"".join(esc(c) for c in mp) if mp is not None else "")
            for c in range(a,b+1): idna[c]=v
        s.file("idna/data/IdnaMappingTable.txt",hdr+"".join(L)+"\n# Total: %d\n"%len(L))
        # emoji
        em={'Emoji':{0x23,0x2A}|set(range(0x30,0x3A))|{0xA9,0xAE}|set(range(0x1F600,0x1F600+10*s.n)),'Emoji_Presentation':set(range(0x1F600,0x1F600+10*s.n)),
            'Emoji_Modifier':set(range(0x1F3FB,0x1F400)),'Emoji_Modifier_Base':{0x261D,0x26F9}|set(range(0x270A,0x270E)),'Emoji_Component':{0x23,0x2A}|set(range(0x30,0x3A))}
        if s.n==3: em['Emoji_Modifier']=set()
        prop_file("emoji/data/emoji-data.txt",em,"%-14s ; %-22s # made up\n")

        # ================================================================ the tables
        T=s.table
        for d in "age bidi block case category common version hangul ident name name_aliases normal segment".split():
            T("unic/ucd/%s/tables/unicode_version.rsv"%d,V)
        T("unic/ucd/age/tables/age_values.rsv",rtable({c:"UnicodeVersion { major: %d, minor: %d, micro: 0 }"%v for c,v in age.items() if scalar(c)}))
        bc={c:e['bc'] for c,e in ent.items()}
        for a,b,v in [(0x600,0x7BF,'AL'),(0x8A0,0x8FF,'AL'),(0xFB50,0xFDCF,'AL'),(0xFDF0,0xFDFF,'AL'),(0xFE70,0xFEFF,'AL'),(0x1EE00,0x1EEFF,'AL'),(0x590,0x5FF,'R'),(0x7C0,0x89F,'R'),
                      (0xFB1D,0xFB4F,'R'),(0x10800,0x10FFF,'R'),(0x1E800,0x1EDFF,'R'),(0x1EF00,0x1EFFF,'R'),(0x20A0,0x20CF,'ET')]:
            for c in range(a,b+1): bc.setdefault(c,v)
        T("unic/ucd/bidi/tables/bidi_class.rsv",rtable(bc))
        T("unic/ucd/bidi/tables/bidi_mirrored.rsv",rset(by(lambda c:ent[c]['mir'])))
        T("unic/ucd/bidi/tables/bidi_control.rsv",rset(pl['Bidi_Control']))
        T("unic/ucd/block/tables/blocks.rsv",rtable(blk))
        for k in "Lowercase Uppercase Cased Case_Ignorable Changes_When_Lowercased Changes_When_Uppercased Changes_When_Titlecased Changes_When_Casefolded Changes_When_Casemapped".split():
            T("unic/ucd/case/tables/%s.rsv"%k.lower(),rset(dcp[k]))
        T("unic/ucd/category/tables/general_category.rsv",rtable({c:e['gc'] for c,e in ent.items()}))
        num=by(lambda c:ent[c]['gc'] in('Nd','Nl','No'))
        T("unic/ucd/common/tables/alphabetic.rsv",rset(alpha)); T("unic/ucd/common/tables/white_space.rsv",rset(pl['White_Space']))
        T("unic/ucd/common/tables/alphanumeric.rsv",rset(alpha|num)); T("unic/ucd/common/tables/control.rsv",rset(by(lambda c:ent[c]['gc']=='Cc'))); T("unic/ucd/common/tables/numeric.rsv",rset(num))
        for k in "ID_Start ID_Continue XID_Start XID_Continue".split(): T("unic/ucd/ident/tables/%s.rsv"%k.lower(),rset(dcp[k]))
        T("unic/ucd/ident/tables/pattern_syntax.rsv",rset(pl['Pattern_Syntax'])); T("unic/ucd/ident/tables/pattern_white_space.rsv",rset(pl['Pattern_White_Space']))
        named={c:e['name'].split() for c,e in ent.items() if not e['name'].startswith('<')}
        words=sorted({w for ws in named.values() for w in ws})
        T("unic/ucd/name/tables/name_values.rsd","".join('const %s: &str = "%s";\n'%(w.replace('-','_'),w) for w in words))
        T("unic/ucd/name/tables/name_map.rsv",dtable({c:"&[%s]"%", ".join(w.replace('-','_') for w in ws) for c,ws in named.items()}))
        T("unic/ucd/name/tables/jamo.rsv",dtable({c:'"%s"'%n for c,n in jamo.items()}))
        kinds={'correction':('corrections','NameCorrections'),'control':('controls','ControlCodeNames'),'alternate':('alternates','AlternateNames'),'figment':('figments','Figments'),'abbreviation':('abbreviations','NameAbbreviations')}
        types={}
        for c,n,k in al: types.setdefault(c,[]); kinds[k][1] in types[c] or types[c].append(kinds[k][1])
        T("unic/ucd/name_aliases/tables/name_alias_types.rsv",dtable({c:"&[%s]"%", ".join(v) for c,v in types.items()}))
        for k,(f,_) in kinds.items():
            m={}
            for c,n,kk in al:
                if kk==k: m.setdefault(c,[]).append('"%s"'%n)
            T("unic/ucd/name_aliases/tables/%s.rsv"%f,dtable({c:"&[%s]"%", ".join(v) for c,v in m.items()}))
        N="unic/ucd/normal/tables/"
        T(N+"general_category_mark.rsv",rset(by(lambda c:ent[c]['gc'] in('Mn','Mc','Me'))))
        T(N+"canonical_combining_class_values.rsv",rtable({c:"CanonicalCombiningClass(%d)"%e['ccc'] for c,e in ent.items() if e['ccc']}))
        q=lambda cs:"&["+"".join("'%s',"%esc(c) for c in cs)+"]"
        T(N+"canonical_decomposition_mapping.rsv",dtable({c:q(d) for c,d in can.items()}))
        comp={}
        for c,d in sorted(can.items()):
            if len(d)==2 and c not in excl: comp.setdefault(d[0],[]).append((d[1],c))
        T(N+"canonical_composition_mapping.rsv",dtable({c:"CharDataTable::Direct(&["+"".join("('%s','%s'),"%(esc(a),esc(b)) for a,b in sorted(v,key=lambda x:x[0]))+"])" for c,v in comp.items()}))
        T(N+"compatibility_decomposition_mapping.rsv",dtable({c:"(%s, %s)"%(e['dt'].lower().capitalize(),q(e['dm'])) for c,e in ent.items() if e['dt'] and e['dm']}))
        for f,p,m in(("grapheme_cluster_break","GCB",gcb),("word_break","WB",wb),("sentence_break","SB",sb)):
            T("unic/ucd/segment/tables/%s.rsv"%f,rtable({c:p+"::"+v for c,v in m.items()}))
        T("unic/ucd/segment/tests/tables/grapheme_cluster_break_test_data.rsv",dtable(gseen))
        T("unic/ucd/segment/tests/tables/word_break_test_data.rsv",dtable(wseen))
        st=lambda cs:'"%s"'%"".join(esc(c) for c in cs)
        def clusters(cs,br):
            out=[[cs[0]]]
            for c,b in zip(cs[1:],br):
                if b: out.append([c])
                else: out[-1].append(c)
            return "".join(st(x)+", " for x in out[:-1])+st(out[-1])
        g="&[\n"
        for cs,br,ru in GT:
            leg=[b or u in("9.1","9.2") for b,u in zip(br,ru)]
            has=any(u in("9.1","9.2") for u in ru)
            g+="    (%s, &[%s], %s),\n"%(st(cs),clusters(cs,br),"Some(&[%s])"%clusters(cs,leg) if has else "None")
        T("unic/segment/tests/tables/grapheme_cluster_break_test_data.rsv",g+"]")
        T("unic/segment/tests/tables/word_break_test_data.rsv","&[\n"+"".join("    (%s, &[%s]),\n"%(st(cs),clusters(cs,br)) for cs,br,_ in WT)+"]")
        T("unic/normal/tests/tables/conformance_tests_data.rsv","&[\n"+"".join("    (%s),\n"%", ".join('"%s"'%"".join(esc(ord(c)) for c in f) for f in row) for row in NT)+"]")
        T("unic/idna/mapping/tables/unicode_version.rsv","UnicodeVersion { major: %d, minor: %d, micro: %d }"%iv)
        T("unic/idna/mapping/tables/idna_mapping.rsv",rtable({c:v for c,v in idna.items() if scalar(c)}))
        E="unic/emoji/char/tables/"
        T(E+"emoji_version.rsv","UnicodeVersion { major: %d, minor: %d, micro: 0 }"%ev)
        for k in em: T(E+k.lower()+".rsv",rset(em[k]))
        return s

    def save(s):
        d=os.path.join(ROOT,"v%d"%s.n)
        shutil.rmtree(d,ignore_errors=True)
        for sub,m in(("in",s.src),("out",s.out)):
            for p,t in m.items():
                f=os.path.join(d,sub,p); os.makedirs(os.path.dirname(f),exist_ok=True)
                open(f,"w",encoding="utf-8",newline="").write(t)
        print("v%d: %d sources, %d tables, %d bytes"%(s.n,len(s.src),len(s.out),sum(len(x) for x in list(s.src.values())+list(s.out.values()))))

def R(a,b): return list(range(a,b+1))
BL=[(0,0x7F,"Basic Latin"),(0x80,0xFF,"Latin-1 Supplement"),(0x100,0x17F,"Latin Extended-A"),(0x300,0x36F,"Combining Diacritical Marks"),(0x370,0x3FF,"Greek and Coptic"),(0x590,0x5FF,"Hebrew"),(0x1100,0x11FF,"Hangul Jamo")]
small=R(0,0xFF)+R(0x1C4,0x1CC)+R(0x300,0x315)+R(0x391,0x3B5)+R(0x5D0,0x5D5)+R(0x620,0x62A)+R(0x1100,0x1103)+R(0xFB1D,0xFB22)+R(0xFE70,0xFE76)+[0x212B,0x2126,0x2460,0x215B,0x1D15E,0x2FA1D,0x10400,0x10428]
sets=[
 Set(1,11,(10,0,0),R(0,0x7E)+R(0xC0,0xD6)+R(0x300,0x304)+[0x212B,0x2460,0x1F600],[(0x3400,0x3405,"CJK Ideograph Extension A",'Lo','L')],BL[:3]),
 Set(2,22,(10,0,0),small,[(0x3400,0x3420,"CJK Ideograph Extension A",'Lo','L'),(0xAC00,0xAC40,"Hangul Syllable",'Lo','L'),(0xD800,0xDB7F,"Non Private Use High Surrogate",'Cs','L'),(0xE000,0xE010,"Private Use",'Co','L')],BL),
 Set(3,33,(11,0,3),small+R(0x100,0x17F)+R(0x590,0x5C7)+R(0x1E00,0x1E2F)+R(0xFF21,0xFF3A)+R(0x1F600,0x1F610),[(0x4E00,0x4E80,"CJK Ideograph",'Lo','L'),(0x20000,0x20010,"CJK Ideograph Extension B",'Lo','L'),(0x100000,0x100003,"Plane 16 Private Use",'Co','L')],BL+[(0x1E00,0x1EFF,"Latin Extended Additional"),(0xD7B0,0xD7FF,"Hangul Jamo Extended-B"),(0xD800,0xDB7F,"High Surrogates"),(0xE000,0xE0FF,"Private Use Area")]),
]
for s in sets: s.build().save()
