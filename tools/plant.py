#!/usr/bin/env python3
"""Development tool: turns a bug description into /verif/seeded/<id>/ after confirming it.

  plant.py BUGFILE.py [ID ...]     BUGFILE.py defines bug(id, property, needs, breaks, edits, main, shim=None)

Works in /tmp/sb/repo, a scratch copy of /repo. No check uses this or /verif/seeded."""
import json,os,re,shutil,subprocess,sys,textwrap
SB='/tmp/sb'; R=SB+'/repo'
BUGS=[]
def bug(id,property,needs,breaks,edits,main,shim=None,loop=1): BUGS.append(dict(id=id,property=property,needs=needs,breaks=breaks,edits=edits,main=main,shim=shim))
DEMO='''#!/bin/bash
# Run with the repository as working directory: exit 0 when the property holds, nonzero when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTC_WRAPPER
w=$(mktemp -d /tmp/overdemo.XXXXXX) || exit 9
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/p/src" "$w/work"
cp "$here/main.rs" "$w/p/src/main.rs"
cat > "$w/p/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
over = { path = "$repo" }
num-bigint = "0.2"
num-rational = "0.2"
EOF
cp "$repo/Cargo.lock" "$w/p/Cargo.lock"
(cd "$w/p" && CARGO_TARGET_DIR="$w/t" cargo build --offline -q) || { echo "demo does not build"; exit 9; }
cd "$w/work" || exit 9
ulimit -c 0
'''
RUN='timeout 200 "$w/t/debug/demo"\n'
RUNS='gcc -shared -fPIC -O1 -o "$w/shim.so" "$here/shim.c" -ldl || exit 9\nLD_PRELOAD="$w/shim.so" timeout 200 "$w/t/debug/demo"\n'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def main():
    exec(compile(open(sys.argv[1]).read(),sys.argv[1],'exec'),globals())
    want=sys.argv[2:]
    stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for b in BUGS:
        if want and b['id'] not in want: continue
        sh(f'git -C {R} checkout -q -- . && git -C {R} fetch -q /repo HEAD && git -C {R} reset -q --hard FETCH_HEAD')
        d=f"{SB}/out/{b['id']}"; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        ok=True
        for f,a,c in b['edits']:
            p=f'{R}/{f}'; s=open(p).read()
            if s.count(a)!=1: print(b['id'],'EDIT',f,s.count(a),a); ok=False; break
            open(p,'w').write(s.replace(a,c))
        if not ok: continue
        open(d+'/patch.diff','w').write(sh(f'git -C {R} diff').stdout)
        # lines removed must include original ones
        base=subprocess.run(['git','-C','/repo','show','d105c25:'+b['edits'][0][0]],capture_output=True,text=True).stdout.split('\n')
        rem=[l[1:] for l in open(d+'/patch.diff') if l.startswith('-') and not l.startswith('---')]
        rem=[l.rstrip('\n') for l in rem]
        orig=[l for l in rem if l in base and l.strip() not in ('','}',')')]
        if not orig: print(b['id'],'WARNING: no original line changed',rem)
        t=sh(f'. /opt/vp/env.sh; cd {R} && cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > {SB}/t.log 2>&1; python3 /opt/vp/results.py {SB}/t.json cargo:{SB}/t.log')
        passed=set(json.load(open(SB+'/t.json'))['passed'])
        if stable-passed: print(b['id'],'TESTS FAIL',sorted(stable-passed)[:5]); print(sh(f'grep -A5 "^error" {SB}/t.log | head -40').stdout); continue
        open(d+'/main.rs','w').write(textwrap.dedent(b['main']).lstrip())
        if b['shim']: open(d+'/shim.c','w').write(textwrap.dedent(b['shim']).lstrip())
        open(d+'/demo.sh','w').write(DEMO+(RUNS if b['shim'] else RUN)); os.chmod(d+'/demo.sh',0o755)
        json.dump(dict(property=b['property'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
        p=sh(f'cd {R} && bash {d}/demo.sh'); c=sh(f'cd /repo && bash {d}/demo.sh')
        good = p.returncode not in (0,9) and c.returncode==0
        print(b['id'],'patched',p.returncode,(p.stdout+p.stderr).strip()[-160:].replace('\n',' | '),'; clean',c.returncode,(c.stdout+c.stderr)[-300:] if c.returncode else '', 'KEPT' if good else 'REJECTED',flush=True)
        if good:
            dst=f"/verif/seeded/{b['id']}"; shutil.rmtree(dst,ignore_errors=True); shutil.copytree(d,dst)
    sh(f'git -C {R} checkout -q -- .')
if __name__=='__main__': main()
