import sys,re
# addp.py C18 "outside" entry|bounds|must,must[|'tier': 'thorough'] ...   (rewrites props.py)
p='/verif/props.py';s=open(p).read().rstrip()
prop,outside=sys.argv[1:3]
s=re.sub(r"    '%s': \{'harness'.*?\n    \}\},\n"%prop,'',s,flags=re.S)
assert s.endswith('}')
s=s[:-1]
s+="    '%s': {'harness': '%s.cc', 'outside': %r, 'entries': {\n"%(prop,prop,outside)
for a in sys.argv[3:]:
    n,b,m=a.split('|')[:3]
    x=a.split('|')[3:]
    extra=''.join(', '+t for t in x)
    s+="        '%s_%s': {'bounds': %r, 'must': %r%s},\n"%(prop,n,b,[t for t in m.split(',') if t],extra)
s+="    }},\n}\n"
open(p,'w').write(s)
