#!/usr/bin/env python3
"""Dev-time: per-charset encodings of a pool of characters, made by Python's own
codecs (independent of iconv). Mappings where glibc's iconv disagrees in either
direction (legitimate variants of a charset) are left out."""
import subprocess
pool=[chr(c) for c in list(range(0x20,0x7f))+[9,10,13,7,8,11]]
pool+=[chr(c) for c in range(0x80,0x180) ]+[chr(c) for c in (0x7f,1,4,0x1b,0x1a,0xc)]
pool+=[chr(c) for c in range(0x384,0x3cf)]+[chr(c) for c in range(0x401,0x45f)]
pool+=list("–—‘’“”„†‡•…‰‹›€™")
pool+=[chr(c) for c in range(0x5d0,0x5eb)]+[chr(c) for c in range(0xe01,0xe2f)]
pool+=[chr(c) for c in range(0x3041,0x3094)]+[chr(c) for c in range(0x30a1,0x30f7)]
pool+=list("、。「」日本語漢字中文國国語语简體体繁台灣湾香港翻譯译遊游戏戲開开始新関關設置定語言名前保存功許蓋么育吒吭娉豹璞擺餐髏琵枯歿一二三四五六七八九十")
pool+=[chr(c) for c in range(0xac00,0xac20)]+list("한국어게임시작설정저장")
pool+=[chr(c) for c in range(0x621,0x63b)]+[chr(c) for c in range(0x640,0x64b)]+[chr(c) for c in range(0x490,0x4b0)]+[chr(c) for c in range(0x1ea0,0x1ec0)]
pool+=[chr(c) for c in range(0x2500,0x2550)]+list("№∞≈≠≤≥√∂∑∏∫◊ﬁﬂ　ａｂｃ＼～｜￥｡｢｣ｱｲｳ①②③ⅠⅡⅢ㎜㈱")
pool+=list("表予申十ソ能貼暴構噂浬欺圭珪咲秀狢蚌錫戀艷絲齒龍龜鑰鬱")
pool+=list("😀🎮𝄞")
pool=[c for i,c in enumerate(pool) if c not in pool[:i]]
CS=[("UTF-8","utf-8"),("UTF-16LE","utf-16-le"),("UTF-16BE","utf-16-be"),("UTF-32LE","utf-32-le"),("UTF-32BE","utf-32-be")]
CS+=[("ISO-8859-%d"%n,"iso8859-%d"%n) for n in (1,2,3,4,5,6,7,8,9,10,11,13,14,15,16)]
CS+=[("CP%d"%n,"cp%d"%n) for n in (1250,1251,1252,1253,1254,1256,1257,437,850,852,855,857,862,866)]
CS+=[("KOI8-R","koi8-r"),("KOI8-U","koi8-u"),("TIS-620","tis-620"),("MACINTOSH","mac-roman"),("ASCII","ascii")]
CS+=[("EUC-JP","euc-jp"),("SHIFT_JIS","shift_jis"),("EUC-KR","euc-kr"),("CP949","cp949"),("GB2312","gb2312"),("GBK","gbk"),("GB18030","gb18030"),("BIG5","big5")]
def ic(f,t,b):
    r=subprocess.run(["iconv","-f",f,"-t",t],input=b,capture_output=True)
    return r.stdout if r.returncode==0 else None
out=["// generated by tools/gen_charsets.py","#ifndef VF_CHARSETS_HPP","#define VF_CHARSETS_HPP","namespace vf {",
"struct CsChar { unsigned cp; unsigned char len; const char* bytes; };","struct CsTable { const char* name; const CsChar* chars; unsigned n; };"]
names=[]
for name,py in CS:
    ent=[]
    for c in pool:
        try: b=c.encode(py)
        except UnicodeError: continue
        try:
            if b.decode(py)!=c: continue
        except UnicodeError: continue
        ent.append((c,b))
    # bulk check, falling back to per-char
    good=[]
    def chk(e):
        if not e: return
        u="".join(c for c,b in e).encode(); x=b"".join(b for c,b in e)
        if ic("UTF-8",name,u)==x and ic(name,"UTF-8",x)==u: good.extend(e); return
        if len(e)==1: return
        chk(e[:len(e)//2]); chk(e[len(e)//2:])
    if name=="UTF-8": good=ent
    else: chk(ent)
    print(name,len(ent),len(good),"dropped:","".join(c for c,b in ent if (c,b) not in good)[:40])
    v="cs_%d"%len(names)
    out.append("static const CsChar %s[] = {"%v)
    line=""
    for c,b in good:
        line+='{%d,%d,"%s"},'%(ord(c),len(b),"".join("\\x%02x"%x for x in b))
        if len(line)>3000: out.append(line); line=""
    out.append(line); out.append("};")
    names.append((name,v,len(good)))
out.append("static const CsTable cs_tables[] = {")
for n,v,k in names: out.append('  {"%s", %s, %d},'%(n,v,k))
out+=["};","} // namespace vf","#endif"]
open("/verif/harness/charsets.hpp","w").write("\n".join(out)+"\n")
