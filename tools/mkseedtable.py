#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
s=open('DESIGN.md').read(); h='| bug | needs | breaks |\n|---|---|---|\n'
i=s.index(h)+len(h); lines=s[i:].split('\n'); n=0
while n<len(lines) and lines[n].startswith('|'): n+=1
rows=[]
for d in sorted(os.listdir('seeded')):
    m=json.load(open(f'seeded/{d}/meta.json')); rows.append(f"| {d} | {m['needs']} | {m['what_it_breaks']} |")
open('DESIGN.md','w').write(s[:i]+'\n'.join(rows+lines[n:]))
