#!/usr/bin/env python3
"""known_findings.txt = header + tools/known.jsonl + tools/fixes.tsv"""
import os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out=["# Known findings. JSON lines with status \"known\" are matched against violations by run.py;","# \"fixed\" lines record repaired defects and suppress nothing."]
p=os.path.join(V,'tools','known.jsonl')
if os.path.exists(p): out+=[l.rstrip('\n') for l in open(p) if l.strip()]
for l in open(os.path.join(V,'tools','fixes.tsv')):
    out.append("fixed: property=%s %s %s"%tuple(l.rstrip('\n').split('\t')))
open(os.path.join(V,'known_findings.txt'),'w').write("\n".join(out)+"\n")
