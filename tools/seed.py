#!/usr/bin/env python3
"""plant a bug: seed.py SPEC.json ; confirms it in a scratch copy and writes /verif/seeded/<id>/
SPEC: [{id, property, file, edits:[[old,new],...], demo(rust main body), needs, breaks}]"""
import json, os, subprocess, sys, shutil
WT='/tmp/seedwt'
DEMO='''#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
d="$(mktemp -d)" || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
diffy = { path = "$repo" }
[workspace]
EOF
cd "$d" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" timeout 250 cargo run -q --offline
'''
def sh(c,cwd=None,env=None):
    return subprocess.run(c,shell=True,cwd=cwd,env=env,capture_output=True,text=True)
for s in json.load(open(sys.argv[1])):
    out='/verif/seeded/'+s['id']
    shutil.rmtree(WT,ignore_errors=True)
    sh(f'cp -a /repo {WT}')
    p=f"{WT}/{s['file']}"; t=open(p).read()
    ok=True
    for o,n in s['edits']:
        if t.count(o)<1: print(s['id'],'EDIT NOT FOUND',o); ok=False; break
        if t.count(o)>1 and len(s['edits'])==1: print(s['id'],'ambiguous',t.count(o))
        t=t.replace(o,n,1)
    if not ok: continue
    open(p,'w').write(t)
    env=dict(os.environ,CARGO_NET_OFFLINE='true',CARGO_TARGET_DIR=WT+'/target')
    r=sh('timeout 300 cargo test --offline --no-fail-fast 2>&1',WT,env)
    if r.returncode!=0:
        import re
        print(s['id'],'TESTS FAIL',re.findall(r'test (\S+) \.\.\. FAILED|error(?:\[E\d+\])?: .*',r.stdout)[:6], r.stdout[-600:] if 'could not compile' in r.stdout else ''); continue
    diff=sh('git diff -- src',WT).stdout
    os.makedirs(out,exist_ok=True)
    open(out+'/patch.diff','w').write(diff)
    open(out+'/demo.sh','w').write(DEMO); os.chmod(out+'/demo.sh',0o755)
    open(out+'/demo.rs','w').write('use diffy::*;\n#[allow(unused)]\nfn main() {\n'+s['demo']+'\n}\n')
    json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(out+'/meta.json','w'),indent=1)
    a=sh(f'bash {out}/demo.sh','/repo'); b=sh(f'bash {out}/demo.sh',WT)
    good=a.returncode==0 and b.returncode!=0
    print(s['id'],'OK' if good else 'BAD',a.returncode,b.returncode,(a.stderr[-600:] if a.returncode else '')+(b.stderr[-200:] if not b.returncode else ''))
    if not good: shutil.rmtree(out)
shutil.rmtree(WT,ignore_errors=True)
