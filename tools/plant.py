#!/usr/bin/env python3
"""Plants the changes of tools/seeds.py one after another in a scratch way: applies the edit in /repo, runs the
stable tests, the demonstration and the check of the property, restores /repo, runs the demonstration
again. Writes /verif/seeded/<id>/ when everything a planted change needs was confirmed.
usage: plant.py [ID...]"""
import sys,os,subprocess,json,shutil,importlib.util
V='/verif'
spec=importlib.util.spec_from_file_location('seeds',V+'/tools/seeds.py');m=importlib.util.module_from_spec(spec);spec.loader.exec_module(m)
DEMO='''#!/bin/bash
# Builds main.rs against /repo in a scratch directory and runs it.
HERE=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS
D=$(mktemp -d) || exit 3
trap 'rm -rf "$D"' EXIT
mkdir "$D/src"
cp "$HERE/main.rs" "$D/src/main.rs"
[ -f /repo/Cargo.lock ] && cp /repo/Cargo.lock "$D/Cargo.lock"
cat > "$D/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
DEPS
T
cd "$D" || exit 3
cargo build --offline --quiet 2> "$D/log" || { cat "$D/log"; exit EXITCODE; }
timeout 20 "$D/target/debug/demo"
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def restore(): sh('git -C /repo checkout -- .')
ids=sys.argv[1:]
for s in m.SEEDS:
    if ids and s['id'] not in ids: continue
    d=f"{V}/seeded/{s['id']}"; 
    if not ids and os.path.exists(d+'/meta.json'): continue
    print('==',s['id'],s['property'],flush=True)
    restore(); ok=True
    for f,old,new in s['edits']:
        p='/repo/packages/'+f; t=open(p).read()
        if t.count(old)!=1: print('  edit matches',t.count(old),'times in',f); ok=False;break
        open(p,'w').write(t.replace(old,new))
    if not ok: restore(); continue
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
    open(d+'/main.rs','w').write(s['demo'].lstrip('\n'))
    open(d+'/demo.sh','w').write(DEMO.replace('EXITCODE',str(int(s.get('build_fails',3)))).replace('DEPS',s.get('deps','teleparse = { path = "/repo/packages/teleparse" }')))
    os.chmod(d+'/demo.sh',0o755)
    r=sh(f"bash {d}/demo.sh",cwd='/repo'); dem=r.returncode
    print('  demo with change:',dem,(r.stdout+r.stderr).strip()[-300:].replace('\n',' | '),flush=True)
    t=sh(f"bash {V}/tools/suite.sh").stdout.strip(); print('  tests:',t,flush=True)
    res={}
    for p in [s['property']]+s.get('also',[]) if 'missing 0' in t and dem else []:
        r=sh(f"timeout 900 bash mc/check.sh {p} quick",cwd=V); v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        res[p]=r.returncode
        print('  check',p,r.returncode,v,r.stdout.strip()[-400:].replace('\n',' | ') if r.returncode else '',r.stderr.strip()[-300:] if r.returncode not in (0,1) else '',flush=True)
    restore()
    c=sh(f"bash {d}/demo.sh",cwd='/repo'); print('  demo without:',c.returncode,c.stderr.strip()[-300:] if c.returncode else '',flush=True)
    good=dem!=0 and c.returncode==0 and 'missing 0' in t
    if not good:
        print('  NOT KEPT'); shutil.rmtree(d); continue
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    os.makedirs(V+'/tools/caught',exist_ok=True); json.dump(res,open(V+'/tools/caught/'+s['id']+'.json','w'))
    print('  KEPT',res,flush=True)
