#!/usr/bin/env python3
"""Writes known_findings.json: open findings (by exact case) and the defects repaired in /repo."""
import json, subprocess, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
MAP={
"position lookup of a char in the first line":"C09","data races in the Position()":"C10","lookahead chars duplicated or lost":"C01","chars lost by EvalRaw":"C02",
"ambiguity reported for matches shorter":"C03","chars swallowed by an ambiguous":"C03","CharsRead and CharsUnused of a block":"C19","block never ends when its escape rule":"C18",
"excluded text that matches 2":"C05","no position on a block":"C08","range rule matches a skipped":"C06","position of a range node":"C08","no position on group nodes":"C08",
"position of a chars node":"C08","repetition of a rule which matches an empty":"C18","EvalRaw never ends":"C18","EvalEmbed never ends":"C18","a root or terminal rule remains":"C15",
"a rule which fails to parse remains":"C15","rule definition string denotes another":"C13","tokenized node merged":"C16","text merged into a virtual":"C16","command line option -rule":"C20",
"no position on a node with text merged":"C08","command line prints virtual":"C20","position lookup of the 1st char":"C09","chars lost in a block after an escaped":"C05","chars read by an unmatched escape":"C18"}
try: MAP.update(json.load(open('tools/fixmap.json')))
except FileNotFoundError: pass
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','4ea80d1..HEAD'],text=True).splitlines()
out=json.load(open('tools/open_findings.json')) if os.path.exists('tools/open_findings.json') else []
for l in log:
    h,s=l.split(' ',1)
    assert s.startswith('fix: '),l
    s=s[5:]
    ps=[v for k,v in MAP.items() if s.startswith(k)]
    assert len(ps)==1,(s,ps)
    out.append({"property":ps[0],"status":"fixed","what":s,"line":f"fixed: property={ps[0]} {h} {s}"})
json.dump({"findings":out},open('known_findings.json','w'),indent=1); open('known_findings.json','a').write('\n')
print(len(out))
