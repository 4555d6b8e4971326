import json,re,glob
rules={}
for f in glob.glob('/verif/harness/src/props/*.rs'):
    t=open(f).read()
    for m in re.finditer(r'id: "(\w+)"(.*?)rule:\s*"((?:[^"\\]|\\.)*)",\s*assumptions: &\[(.*?)\]',t,re.S):
        rules[m.group(1)]=(m.group(3),re.findall(r'"((?:[^"\\]|\\.)*)"',m.group(4)), re.search(r'quick: ([\d_]+), thorough: ([\d_]+)',m.group(0)).groups())
rules["V01"]=("every tonic spelling x accidental style x case x suffix, every wheel code, random spellings and random text against pitch-class arithmetic",["the statement's spellings"],("201692","3001692"))
t=open('/verif/tools/check_validation.py').read()
for m in re.finditer(r'"(V0\d)": \(case_v\d+, (\d+), (\d+), \d+,\s*"(.*?)",\s*\["(.*?)"\]\)',t,re.S):
    rules[m.group(1)]=(m.group(4),[m.group(5)],(m.group(2),m.group(3)))
out=[]
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); i=p['id']; r,a,(q,t)=rules[i]
    out.append(f"### {i} — {p['title']}\n* monitored: {'; '.join(p['anchors']['observe_at'])}\n* workload and oracle: {r}.\n* bounds: {q.replace('_','')} cases quick, {t.replace('_','')} thorough; assumptions: {'; '.join(a) or 'none'}.\n* beyond the tests: {p['why_tests_cant']}.\n")
open('/tmp/perprop.md','w').write("\n".join(out))

# the table of planted bugs is committed text: seeded/ is absent where the checks run
import os
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} |")
T='/verif/tools/'
open(T+'design_tail.md','w').write(open(T+'design_tail_pre.md').read()+"\n".join(rows)+"\n"+open(T+'design_tail_post.md').read())
