#!/usr/bin/env python3
"""Freezes the names of Unicode 10 (run once; the result is committed): takes them from Python's unicodedata for the characters
that a list of "HEX NAME" lines (argument 1, printed by the unchanged tree) contains, checks that both agree, and writes
sim/src/data/names.bin: for every listed (not algorithmic) name the code point and the FNV-1a hash of its text, as u32 LE."""
import sys,struct,unicodedata
HANGUL=[(0xAC00,0xD7A3)]
PREFIX=["CJK UNIFIED IDEOGRAPH-","TANGUT IDEOGRAPH-","NUSHU CHARACTER-","CJK COMPATIBILITY IDEOGRAPH-","HANGUL SYLLABLE "]
out=b'';n=0;alg={}
for l in open(sys.argv[1]):
    a,b=l.rstrip('\n').split(' ',1); c=int(a,16)
    u=unicodedata.name(chr(c),None)
    assert u==b or u is None and b=='TANGUT IDEOGRAPH-%X'%c,(a,b,u)
    p=[p for p in PREFIX if b.startswith(p)]
    if p:
        r=alg.setdefault(p[0],[])
        if r and r[-1][1]==c-1: r[-1][1]=c
        else: r.append([c,c])
        continue
    h=0x811c9dc5
    for x in b.encode(): h=(h^x)*0x01000193&0xffffffff
    out+=struct.pack('<II',c,h); n+=1
open('/verif/sim/src/data/names.bin','wb').write(out)
print(n,{k:[[hex(x) for x in r] for r in v] for k,v in alg.items()})
