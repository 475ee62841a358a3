import json,sys
s=open(sys.argv[1]).read(); d=json.JSONDecoder(); i=0; docs=[]
while True:
    while i<len(s) and s[i] in ' \n\r\t': i+=1
    if i>=len(s): break
    if s[i]!='{':
        j=s.index('\n',i); i=j; continue
    o,i=d.raw_decode(s,i); docs.append(o)
def p(n,ind,maxd):
    t=n.get('type',{})
    extra=[]
    for k in ('name','opcode','value','castKind','valueCategory','isPostfix','mangledName'):
        if k in n: extra.append(f"{k}={n[k]}")
    if 'referencedDecl' in n: extra.append('ref='+n['referencedDecl'].get('name','?')+':'+n['referencedDecl']['kind'])
    if 'referencedMemberDecl' in n: extra.append('refm='+n['referencedMemberDecl'])
    print(' '*ind+n.get('kind','?'),' '.join(extra),'|',t.get('qualType',''),'|',t.get('desugaredQualType',''))
    for c in n.get('inner',[]): p(c,ind+1,maxd)
for o in docs:
    if o.get('name')==sys.argv[2] or sys.argv[2]=='*': 
        p(o,0,99)
    elif sys.argv[2]=='-': print(o['kind'],o.get('name'),len(json.dumps(o)))
