#!/usr/bin/env python3
"""mkseed.py ID PROP FILE <<EOF with sections: ===old/===new (repeatable)/===demo/===needs/===breaks"""
import os
R=os.environ.get('SEED_REPO','/repo')
import sys, subprocess, pathlib, json, re, os
id_, prop, text = sys.argv[1], sys.argv[2], sys.stdin.read()
secs = re.split(r'^===(\w+)(?: (.*))?\n', text, flags=re.M)[1:]
d = pathlib.Path('/verif/seeded')/id_; d.mkdir(parents=True, exist_ok=True)
assert not subprocess.run(['git','-C',R,'status','--porcelain'],capture_output=True,text=True).stdout.strip(), 'dirty'
f=None; old=None; meta={'property':prop}; demo=None
base=pathlib.Path(R+'/programs/hmmcl-sandbox/src')
try:
    for k,arg,body in zip(secs[::3],secs[1::3],secs[2::3]):
        if k=='file': f=base/arg.strip()
        elif k=='old': old=body[:-1]
        elif k=='new':
            s=f.read_text(); n=s.count(old)
            assert n==1,(n,old); f.write_text(s.replace(old,body[:-1]))
        elif k=='nth': pass
        elif k=='demo': demo=body
        elif k=='needs': meta['needs']=body.strip()
        elif k=='breaks': meta['what_it_breaks']=body.strip()
    diff=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True).stdout
    assert diff
    for fn,part in re.findall(r'^diff --git a/(\S+) .*?\n(.*?)(?=^diff |\Z)',diff,flags=re.M|re.S):
        base0=subprocess.run(['git','-C',R,'show','4b9c048:'+fn],capture_output=True,text=True).stdout.splitlines()
        rem=[l[1:] for l in part.splitlines() if l.startswith('-') and not l.startswith('---')]
        if rem and not all(l in base0 for l in rem): print('WARNING: changes lines that are not original:',[l for l in rem if l not in base0][:3])
        if not rem: print('note: adds lines only in',fn)
    (d/'patch.diff').write_text(diff)
finally:
    subprocess.run(['git','-C',R,'checkout','-q','--','.'])
(d/'meta.json').write_text(json.dumps(meta,indent=1)+'\n')
(d/'demo.rs').write_text(demo)
if 'mod chain;' in demo:
    (d/'chain.rs').write_text(pathlib.Path('/verif/tools/demo_chain.rs').read_text())
head='''#!/bin/bash
# run in /repo after the build: compiles the small program beside this file against the built library and runs it
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
deps="$PWD/target/debug/deps"
build() { rustc --edition 2021 -A warnings -C overflow-checks=on "$here/demo.rs" --extern hmmcl_sandbox="$deps/libhmmcl_sandbox.rlib" "$@" -L dependency="$deps" -o "$tmp/demo" 2>"$tmp/log"; }
'''
plain='build || { cat "$tmp/log"; exit 0; }\n'
multi='''ok=
for a in "$deps"/libanchor_lang-*.rlib; do
  for s in "$deps"/libspl_token-*.rlib; do
    [ -n "$ok" ] || { build --extern anchor_lang="$a" --extern spl_token="$s" && ok=1; }
  done
done
[ -n "$ok" ] || { head -n 20 "$tmp/log"; exit 0; }
'''
tail='''timeout 250 "$tmp/demo" >"$tmp/out" 2>"$tmp/err"
rc=$?
head -n 5 "$tmp/err"
[ $rc = 0 ]
'''
(d/'demo.sh').write_text(head+(multi if 'mod chain;' in demo else plain)+tail)
os.chmod(d/'demo.sh',0o755)
print('made',id_)
