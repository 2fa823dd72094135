#!/usr/bin/env python3
"""Dev-time: extracts (language, country, modifier) triples and aliases known at the pinned commit."""
import re,subprocess
src=subprocess.run(["git","-C","/repo","show","56e8120:src/language.cpp"],capture_output=True,text=True,check=True).stdout
rows=re.findall(r'^\s*\{\s*"(\w+)",\s*(0|"\w+"),\s*(0|"\w+"),',src,re.M)
al=re.findall(r'language_aliases\["([^"]+)"\]\s*=\s*"([^"]+)"',src)
out=["// generated by tools/gen_langtable.py from the pinned commit","#ifndef VF_LANGTABLE_HPP","#define VF_LANGTABLE_HPP","namespace vf {","struct LangRow { const char* lang; const char* country; const char* modifier; };","static const LangRow lang_rows[] = {"]
for l,c,m in rows: out.append('  {"%s", %s, %s},'%(l,'""' if c=="0" else c,'""' if m=="0" else m))
out+=["};","struct AliasRow { const char* alias; const char* target; };","static const AliasRow alias_rows[] = {"]
for a,t in al:
    if a==''.join(chr(ord(c)+32) if 'A'<=c<='Z' else c for c in a): out.append('  {"%s", "%s"},'%(a,t))
out+=["};","} // namespace vf","#endif"]
open("/verif/harness/langtable.hpp","w").write("\n".join(out)+"\n")
print(len(rows),len(al),len(set(rows)))
bases={l for l,c,m in rows if c=="0" and m=="0"}
print([r for r in rows if r[0] not in bases])
