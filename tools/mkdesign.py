"""Development aid: fills the table of planted bugs. usage: mkdesign.py TEMPLATE"""
import json,os,sys,collections
t=open(sys.argv[1]).read()
by=collections.defaultdict(list)
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json')); by[m['property']].append((d,m['what_it_breaks']))
out="| property | planted bugs (all caught by that property's check unless marked) |\n|---|---|\n"
missed=set(open('/verif/tools/missed.txt').read().split()) if os.path.exists('/verif/tools/missed.txt') else set()
for p in sorted(by): out+=f"| {p} | "+"; ".join(d+(" (MISSED)" if d in missed else "") for d,_ in by[p])+" |\n"
open('/verif/DESIGN.md','w').write(t.replace("PLANTED-TABLE",out))
