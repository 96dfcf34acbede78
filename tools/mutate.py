#!/usr/bin/env python3
"""Development tool: makes small mutants of /repo's sources, and says which of those that pass the stable tests no check notices.

  tools/ns.sh DIR tools/mutate.py SEED COUNT [FILE...]     (changes /repo: only for use inside tools/ns.sh)"""
import json,os,random,re,subprocess,sys,time
R='/repo'
def sh(c,t=600):
    try: return subprocess.run(c,shell=True,capture_output=True,text=True,timeout=t,errors='replace')
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(c,124,'','')
RULES=[
 (r'depth \+ 1',['depth']), (r'\bdepth\b(?=,$)',['1']), (r'> MAX_DEPTH',['> MAX_DEPTH + 200','>= MAX_DEPTH','> MAX_DEPTH - 1']),
 (r'\bif !',['if ']), (r'\bif (?=[a-z])(?!let)',['if !']), (r'==',['!=']), (r'!=',['==']), (r'&&',['||']), (r'\|\|(?!\s*[a-z{])',['&&']),
 (r'\btrue\b',['false']), (r'\bfalse\b',['true']), (r'(?<![\w.])0(?![\w.])',['1']), (r'(?<![\w.])1(?![\w.])',['0','2']),
 (r'\.clone\(\)',['']), (r'line2',['line']), (r'col2',['col']), (r'\bline\b',['line + 1','1']), (r'\bcol\b',['col + 1','1']),
 (r'full_path_str',['path_str']), (r'path_str',['full_path_str']), (r"Some\('>'\)",['None']), (r"Some\('\}'\)",['None']), (r"Some\('\]'\)",['None']),
 (r'push_back',['push_front']), (r'pop_front',['pop_back']), (r'pop_back',['pop_front']), (r'\.push\(',['.insert(0, ']),
 (r'Relaxed',['SeqCst']), (r'INDENT_STEP',['0','1']), (r'indent_amt \+ INDENT_STEP',['indent_amt']), (r' \+ ',[' - ']), (r' - ',[' + ']),
 (r'is_some\(\)',['is_none()']), (r'is_none\(\)',['is_some()']), (r'is_empty\(\)',['is_empty() == false']), (r'break',['continue']), (r'continue',['break']),
 (r'\?;$',['.ok();']), (r'\breturn (?=parse_err)',['let _ = ']), (r'::Obj\b',['::Arr','::Tup']), (r'::Arr\b',['::Tup']), (r'Some\((\w+)\) =>',[r'Some(\1) if false =>']),
 (r'\.find\(',['.rev().find(']), (r'\.any\(',['.all(']), (r'stream\.file\(\)',['None']), (r'format\(true',['format(false']), (r'has_any',['true','false']),
 (r'tcur',['tnew.clone()']), (r'\.parent\(\)',['.ancestors().last()']),
]
def mutants(files):
    out=[]
    for f in files:
        L=open(f'{R}/{f}').read().split('\n')
        for i,l in enumerate(L):
            s=l.strip()
            if not s or s.startswith(('//','#','use ','///','pub use','mod ','pub mod')) : continue
            if f.endswith('macros.rs'): continue
            for pat,reps in RULES:
                for m in re.finditer(pat,l):
                    if '//' in l[:m.start()] : continue
                    for r in reps:
                        n=l[:m.start()]+m.expand(r)+l[m.end():]
                        if n!=l: out.append((f,i,l,n))
            # a statement left out
            if s.endswith(';') and not s.startswith(('let ','return','pub ','static','fn ','}','type','const','break','continue')):
                out.append((f,i,l,''))
            # a match arm left out
            if re.match(r"^('.'|Self::\w+|Some\(.*\)|\w+) (if .*)?=> .*,$",s): out.append((f,i,l,''))
    return out
def main():
    seed,count=int(sys.argv[1]),int(sys.argv[2])
    files=sys.argv[3:] or ['src/parse/parser.rs','src/parse/util.rs','src/parse/char_stream.rs','src/parse/format.rs','src/parse/error.rs','src/obj.rs','src/arr.rs','src/tup.rs','src/util.rs','src/lib.rs','src/value.rs','src/types.rs','src/error.rs']
    ms=mutants(files); random.Random(seed).shuffle(ms)
    print(len(ms),'mutants, trying',count,flush=True)
    stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    order=(os.environ.get('ORDER') or 'C05 C01 C14 C03 C20 C04 C11 C08 C09 C02 C06 C07 C10 C12 C13').split()
    n=dict(build=0,tests=0,killed=0,lived=0); by={}
    for k,(f,i,a,b) in enumerate(ms[:count]):
        L=open(f'{R}/{f}').read().split('\n'); assert L[i]==a; L[i]=b
        open(f'{R}/{f}','w').write('\n'.join(L))
        t0=time.time(); verdict=None
        env='. /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/mutt%d; ulimit -v 8000000; cd /repo && '%os.getpid()
        t=sh(env+'cargo build --offline -q')
        if t.returncode: verdict='build'
        else:
            t=sh(env+'timeout 120 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/mutt%d.log 2>&1; python3 /opt/vp/results.py /tmp/mutt%d.json cargo:/tmp/mutt%d.log'%((os.getpid(),)*3),200)
            try: passed=set(json.load(open('/tmp/mutt%d.json'%os.getpid()))['passed'])
            except Exception: passed=set()
            if stable-passed: verdict='tests'
        if not verdict:
            verdict='lived'
            for c in order:
                r=sh(f'cd /verif && VERIF_SHRINK_SECS=0 VERIF_SECS=40 VERIF_SEED=7 VERIF_RUNS={os.environ.get("RUNS","6000")} timeout 200 bin/check {c}',300)
                if r.returncode==1: verdict='killed'; by[c]=by.get(c,0)+1; break
                if r.returncode!=0: print('??',c,r.returncode,(r.stdout+r.stderr)[-300:])
        n[verdict]+=1
        if verdict in('lived','killed'): print(f'{verdict} {c if verdict=="killed" else ""} {time.time()-t0:.0f}s {f}:{i+1}: {a.strip()}  ==>  {b.strip()}',flush=True)
        L[i]=a; open(f'{R}/{f}','w').write('\n'.join(L))
    print(n,by)
main()
