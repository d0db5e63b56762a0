#!/usr/bin/env python3
# dev tool: syntax-check every TU, collect diagnostics
import subprocess,sys,os,re,concurrent.futures as cf
S='/verif/sim'
dirs=sys.argv[1].split(',')
files=[]
for d in dirs:
    p='/repo/src/'+d
    if os.path.isfile(p): files.append(p)
    else: files+=[p+'/'+f for f in sorted(os.listdir(p)) if f.endswith('.cc')]
skip=('debug_service','document_service','index_service','util_service','diskann_service','bdb_raw','xdprocks','server/main','diskann','cluster_service','region_service','table_service','job_service','store_metrics_service','store_operation_service')
files=[f for f in files if not any(s in f for s in skip)]
def run(f):
    r=subprocess.run(['clang++','-std=c++17','-fsyntax-only','-ferror-limit=0','-w','-DGLOG_CUSTOM_PREFIX_SUPPORT','-fno-caret-diagnostics','-fno-access-control','-include','sim_prelude.h',f'-I{S}/shim',f'-I{S}/core',f'-I{S}/build/pb','-I/repo/src',f],capture_output=True,text=True)
    return f,r.stderr
with cf.ThreadPoolExecutor(8) as ex: res=list(ex.map(run,files))
out=open(S+'/build/scan.txt','w'); n=0
for f,e in res:
    errs=[l for l in e.split('\n') if 'error:' in l]
    n+=bool(errs); print(f'{len(errs):5d} {f}')
    out.write(e)
print(n,'files with errors of',len(files))
