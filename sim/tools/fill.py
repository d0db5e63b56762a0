#!/usr/bin/env python3
# dev tool: infer message fields from "no member named" diagnostics and append them to the .p files
import re,os,sys,collections
S='/verif/sim'; P=S+'/proto/'
err=collections.defaultdict(set)
for l in open(S+'/build/scan_all.txt'):
    m=re.search(r"error: no member named '(\w+)' in 'dingodb::pb::(\w+)::(\w+)'",l)
    if m: err[(m[2],m[3])].add(m[1])
pkg={}
for f in os.listdir(P):
    if f.endswith('.p'):
        t=open(P+f).read(); pkg[re.search(r'package dingodb\.pb\.(\w+)',t)[1]]=f
# known types by field name
known=collections.defaultdict(collections.Counter)
for f in os.listdir(P):
    if not f.endswith('.p'): continue
    t=open(P+f).read(); k=re.search(r'package dingodb\.pb\.(\w+)',t)[1]
    for m in re.finditer(r'(?:^|[{;])\s*(repeated |optional )?((?:map<[^>]*>)|[\w.]+) ([\w, ]+)(?=;)',t):
        ty=m[2]
        if ty in('rpc','message','enum','oneof','package','import','option','returns','service','reserved'): continue
        for n in m[3].split(','):
            tt=ty
            if ty[0].isupper() : tt=k+'.'+ty
            known[n.strip()][(bool(m[1] and 'rep' in m[1]),tt)]+=1
OV=dict(l.split(None,1) for l in open(S+'/build/override.txt') if l.strip()) if os.path.exists(S+'/build/override.txt') else {}
PRE=('set_allocated_','set_','mutable_','has_','add_','clear_','release_')
rep=[]
for (k,msg),accs in sorted(err.items()):
    if k=='common' and msg in ('KeyValue','RegionStatus','StoreMetrics','DocumentIndexExtendedStatusItem','Vector','Region'): continue
    if k not in pkg: print('no pkg',k,msg,accs); continue
    f=collections.defaultdict(set)
    names=set()
    for a in accs:
        for p in PRE:
            if a.startswith(p): names.add(a[len(p):]); f[a[len(p):]].add(p); break
    for a in accs:
        if any(a.startswith(p) for p in PRE): continue
        if a.endswith('_size') and (a[:-5] in accs or a[:-5] in names or True) and not (a in names): f[a[:-5]].add('size')
        elif re.match(r'k[A-Z]|descriptor|GetDescriptor',a): continue
        else: f[a].add('get')
    out=[]
    txt=open(P+pkg[k]).read(); mm=re.search(r'message '+msg+r' \{',txt); body=''
    if mm:
        d=1; i=mm.end()
        while d: d+={'{':1,'}':-1}.get(txt[i],0); i+=1
        body=txt[mm.end():i]
        exist=set(re.findall(r'\b(\w+)\s*[,;=}]',body))|set(re.findall(r'[,;{] *(\w+) *(?=[,};])',body))
    for n,ac in sorted(f.items()):
        if mm and (n in exist or n in ('GcFlagType_Name',)): continue
        key=f'{k}.{msg}.{n}'
        wk=f'{k}.*.{n}'
        if key in OV or wk in OV or n in OV: t=OV.get(key,OV.get(wk,OV.get(n))); isrep=t.startswith('*'); t=t.strip().lstrip('*')
        else:
            isrep='add_' in ac or 'size' in ac
            t=None
            if n in known:
                c=[x for x in known[n].most_common() if x[0][0]==isrep] or known[n].most_common()
                t=c[0][0][1]
                if not isrep and 'set_' not in ac and 'add_' not in ac and c[0][0][0] : isrep=True
            if t is None:
                if ac & {'mutable_','has_','release_','set_allocated_'} and 'set_' not in ac: t='MSG'
                elif re.match(r'(is|has|enable|need|with|without|use|force|no|not|ignore|prev|can|include|return|deleted|only)_',n): t='bool'
                elif re.search(r'(name|msg|host|str|path|uuid|comment|tag|remark|user|collate|charset|password|keyring|json|type_name|default_val|info|cluster|properties)$',n): t='string'
                elif re.search(r'(key|value|data|prefix|content)s?$',n): t='bytes'
                else: t='int64'
        # qualify
        if t.startswith(k+'.'): t=t[len(k)+1:]
        out.append((('repeated ' if isrep else '')+t,n))
        rep.append(f'{k}.{msg}.{n}\t{"*" if isrep else ""}{t}\t{",".join(sorted(ac))}')
    p=P+pkg[k]; txt=open(p).read()
    m=re.search(r'message '+msg+r' \{',txt)
    if not m: print('no message',k,msg,sorted(f)); continue
    ins=' '.join(f'{t} {n};' for t,n in out)
    txt=txt[:m.end()]+' '+ins+txt[m.end():]
    open(p,'w').write(txt)
open(S+'/build/fill.txt','a').write('\n'.join(rep)+'\n')
for r in rep: print(r)
