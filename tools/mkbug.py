#!/usr/bin/env python3
# mkbug.py ID: reads spec from stdin as python dict: property, needs, breaks, edits=[(file,old,new)], files={name:content}, demo=str
import sys,subprocess,json,os
id=sys.argv[1]; s=eval(sys.stdin.read())
d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
assert not subprocess.check_output(['git','-C','/repo','status','--short']), 'dirty'
try:
    for e in s['edits']:
        f,o,n=e[:3]; p='/repo/'+f; t=open(p).read()
        if len(e)>3:
            ps=t.split(o); t=o.join(ps[:e[3]+1])+n+o.join(ps[e[3]+1:])
        else:
            assert t.count(o)==s.get('count',1), (f,t.count(o),o); t=t.replace(o,n)
        open(p,'w').write(t)
    diff=subprocess.check_output(['git','-C','/repo','diff']).decode()
finally:
    subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
open(d+'/patch.diff','w').write(diff)
json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
for n,c in s.get('files',{}).items(): open(d+'/'+n,'w').write(c)
pre='''#!/bin/bash
set -u
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never CARGO_PROFILE_DEV_DEBUG=line-tables-only
'''
if s.get('cli',True):
    pre+='''export CARGO_TARGET_DIR=/repo/target
cd /repo && cargo build --offline -q --bin tldr 2>/dev/null || exit 3
tldr=/repo/target/debug/tldr
die() { echo "$*"; exit 1; }
'''
if 'rust' in s:
    deps=s.get('deps','')
    pre=pre.split('export CARGO_TARGET_DIR')[0]+'''T=$(mktemp -d) && trap 'rm -rf "$T"' EXIT
export CARGO_TARGET_DIR="$T/target"
mkdir -p "$T/src" && cp "$here/main.rs" "$T/src/main.rs" && cp "$here/demo.toml" "$T/Cargo.toml" || exit 3
cp /repo/Cargo.lock "$T/Cargo.lock" 2>/dev/null
cd "$T" && RUSTFLAGS=-Awarnings cargo build --offline -q || exit 3
timeout 100 "$T/target/debug/demo" || exit 1
exit 0
'''
    open(d+'/main.rs','w').write(s['rust'])
    open(d+'/demo.toml','w').write('[package]\nname="demo"\nversion="0.1.0"\nedition="2021"\n[workspace]\n[dependencies]\ntreeldr-layouts={path="/repo/layouts",features=["serde_cbor"]}\nserde_json={version="1.0",features=["arbitrary_precision"]}\nrdf-types="0.22.5"\nserde_cbor={version="0.11.2",features=["tags"]}\njson-syntax="0.12.3"\n'+deps)
open(d+'/demo.sh','w').write(pre+s.get('demo',''))
