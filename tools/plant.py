#!/usr/bin/env python3
"""plant.py SPEC.py [ids..]: makes /verif/seeded/<id>/ from the specs, confirming each in the scratch copy /tmp/bug.
SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo=str, needs, breaks, files={name: text})]"""
import sys, os, subprocess, json, shutil, runpy
SC='/tmp/bug'
env=dict(os.environ, HOME='/root', PATH='/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
  RUSTUP_TOOLCHAIN='nightly-2024-05-01', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
def sh(c, cwd=SC, **k): return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base=json.load(open('/opt/vp/BASELINE.json'))
base=base if isinstance(base,list) else base.get('stable') or base.get('passed') or base.get('tests')
specs=runpy.run_path(sys.argv[1])['BUGS']
want=set(sys.argv[2:])
if not os.path.exists(SC): subprocess.run(['cp','-a','/repo',SC],check=True)
for b in specs:
    if want and b['id'] not in want: continue
    sh('git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git clean -fdq')
    ok=True
    for f,o,n in b['edits']:
        p=f'{SC}/{f}'; t=open(p).read()
        if t.count(o)!=1: print(b['id'],'EDIT', f, t.count(o)); ok=False; break
        open(p,'w').write(t.replace(o,n))
    if not ok: continue
    d=f"/verif/seeded/{b['id']}"; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    open(d+'/patch.diff','w').write(sh('git diff').stdout)
    if isinstance(b['demo'],tuple):  # ('repl'|'script', text): the expected output is that of the unchanged tree
        kind,text=b['demo']; name={'repl':'in.txt','script':'a.cor'}[kind]
        open(f'{d}/{name}','w').write(text)
        cmd={'repl':'timeout 60 $BIN < $D/in.txt > $S/out 2>&1; echo rc=$? >> $S/out','script':'cp $D/a.cor $S; cd $S; timeout 60 $BIN a.cor > $S/out 2>&1 < /dev/null; echo rc=$? >> $S/out'}[kind]
        pre='#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd); S=$(mktemp -d); trap \'rm -rf "$S"\' EXIT\nBIN=$PWD/target/debug/cordy\n'
        open(d+'/demo.sh','w').write(pre+cmd+'\ncat $S/out\n')
        exp=sh(f'bash {d}/demo.sh',cwd='/repo').stdout; open(d+'/expected.txt','w').write(exp)
        if '-v' in os.environ.get('PLANT',''): print(exp)
        b['demo']=pre+cmd+'\ndiff $D/expected.txt $S/out\n'
    demo=b['demo'] if b['demo'].startswith('#!') else '#!/bin/bash\n'+b['demo']
    open(d+'/demo.sh','w').write(demo); os.chmod(d+'/demo.sh',0o755)
    for k,v in b.get('files',{}).items(): open(f'{d}/{k}','w').write(v)
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    r=sh('cargo build --workspace --offline --locked')
    if r.returncode: print(b['id'],'BUILD FAILS\n',r.stdout[-1500:]); shutil.rmtree(d); continue
    r=sh('cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 > /tmp/bug/target/log.txt 2>&1; python3 /opt/vp/results.py /tmp/bug/target/o.json cargo:/tmp/bug/target/log.txt', timeout=600)
    o=set(json.load(open('/tmp/bug/target/o.json'))['passed']); miss=[t for t in base if t not in o]
    r=sh(f'timeout 300 {d}/demo.sh'); 
    r2=sh(f'timeout 300 {d}/demo.sh',cwd='/repo')
    good = not miss and r.returncode!=0 and r2.returncode==0
    print(b['id'],'missing',miss[:3],len(miss),'demo bug',r.returncode,'clean',r2.returncode,'OK' if good else 'REJECTED')
    if not good:
        print('--bug out:\n',r.stdout[-600:],'\n--clean out:\n',r2.stdout[-600:])
        shutil.move(d,f"/tmp/rejected_{b['id']}") if not os.path.exists(f"/tmp/rejected_{b['id']}") else shutil.rmtree(d)
sh('git checkout -qf FETCH_HEAD')
