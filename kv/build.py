#!/usr/bin/env python3
"""Generates build/build.ninja from the current /repo tree and builds the wanted targets.
   usage: build.py [-v variant] target...   (targets: property ids, or 'all')"""
import os,sys,glob,subprocess,fcntl
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R=os.environ.get('KV_REPO','/repo'); S=R+'/src/libkiter'
B=os.environ.get('KV_BUILD',V+'/build')
os.makedirs(B,exist_ok=True)
lock=open(B+'/.lock','w'); fcntl.flock(lock,fcntl.LOCK_EX)
libs=sorted(glob.glob(S+'/**/*.cpp',recursive=True))
props=sorted(glob.glob(V+'/kv/p_*.cpp'))
VAR={'rel':('-O1 -ftrivial-auto-var-init=pattern -D__RELEASE_MODE__',''),
     'cov':('-O0 -g1 -D__RELEASE_MODE__ --coverage -DKV_COV','--coverage'), # development aid: which code of /repo the worlds reach
     'san':('-O1 -g1 -D__RELEASE_MODE__ -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer','-fsanitize=address,undefined')}
o=[]
o.append('ninja_required_version = 1.5')
o.append(f'inc = -I{S} -I/usr/include/libxml2 -I{V}/kv')
o.append('base = g++ -std=c++17 -pipe -w -DBOOST_BIND_GLOBAL_PLACEHOLDERS -DBOOST_ALLOW_DEPRECATED_HEADERS -DKV_HARNESS')
for v,(f,l) in VAR.items():
    o.append(f'''
rule cxx_{v}
  command = $base {f} -include {V}/kv/shim.hpp $inc $extra -MMD -MF $out.d -c $in -o $out 2> $out.log || (tail -60 $out.log; false)
  depfile = $out.d
  deps = gcc
rule ar_{v}
  command = rm -f $out && ar rcs $out $in
rule ld_{v}
  command = g++ {l} -o $out $obj -Wl,--whole-archive $lib -Wl,--no-whole-archive -lboost_filesystem -lboost_system -lboost_regex -lxml2 -lglpk -lz -lpthread
''')
    lo=[]
    for c in libs:
        t=f'{B}/{v}/lib/'+os.path.relpath(c,S).replace('/','_')+'.o'
        o.append(f'build {t}: cxx_{v} {c}'+(f'\n  extra = -DKV_SCRIPTED -include {V}/kv/kv_random.hpp' if '/generators/' in c else '')); lo.append(t)
    if os.path.exists(R+'/src/kiter/main.cpp'):
        t=f'{B}/{v}/kiter_main.o'
        o.append(f'build {t}: cxx_{v} {R}/src/kiter/main.cpp\n  extra = -Dmain=kiter_main'); cm=t
    o.append(f'build {B}/{v}/libkiter.a: ar_{v} '+' '.join(lo))
    fw=f'{B}/{v}/framework.o'
    o.append(f'build {fw}: cxx_{v} {V}/kv/framework.cpp')
    al=[]
    for p in props:
        n=os.path.basename(p)[2:-4]
        ob=f'{B}/{v}/p_{n}.o'; ex=f'{B}/{v}/kv_{n}'
        o.append(f'build {ob}: cxx_{v} {p}')
        objs=f'{ob} {fw}'+(f' {cm}' if 'kiter_main' in open(p).read() else '')
        o.append(f'build {ex}: ld_{v} {objs} | {B}/{v}/libkiter.a\n  obj = {objs}\n  lib = {B}/{v}/libkiter.a')
        o.append(f'build {n}_{v}: phony {ex}'); al.append(ex)
    o.append(f'build all_{v}: phony '+' '.join(al))
txt='\n'.join(o)+'\n'
f=B+'/build.ninja'
if not os.path.exists(f) or open(f).read()!=txt: open(f,'w').write(txt)
args=sys.argv[1:]; v='rel'
if args[:1]==['-v']: v=args[1]; args=args[2:]
t=[a+'_'+v for a in args] or ['all_'+v]
r=subprocess.run(['ninja','-C',B]+t,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
if r.returncode: sys.stderr.write(r.stdout[-8000:]); print('BUILD FAILED')
sys.exit(0 if r.returncode==0 else 3)
