#!/usr/bin/env python3
"""mutate.py WORKERS [FILE ...]: systematic mutants of /repo/src; those that compile and pass the tests are run
through every rule that visits the mutated function; survivors are listed in /tmp/mw/survivors.json.
Development aid: nothing registered in MANIFEST.json uses it."""
import sys, os, re, json, subprocess, shutil, threading, queue, random, hashlib
W=int(sys.argv[1]); FILES=sys.argv[2:]
BASE='/tmp/mw'
os.makedirs(BASE,exist_ok=True)
base=json.load(open(os.environ.get('BASE','/verif/build/dev.json')))
KNOWN={'c28::point::r_full'}
def testline(f,lines):
    for i,l in enumerate(lines):
        if 'cfg(test)' in l: return i
    return len(lines)
SUBS=[(r' \+ ',' - '),(r' - ',' + '),(r' \* ',' / '),(r' / ',' * '),(r' \+= ',' -= '),(r' -= ',' += '),(r' \*= ',' /= '),(r' /= ',' *= '),
 (r' < ',' <= '),(r' < ',' > '),(r' <= ',' < '),(r' > ',' >= '),(r' > ',' < '),(r' >= ',' > '),(r' >= ',' < '),(r' == ',' != '),(r' != ',' == '),(r' && ',' || '),(r' \|\| ',' && '),
 (r'\.sin\(',' .cos('),(r'\.cos\(','.sin('),(r'T::one\(\)','T::zero()'),(r'T::zero\(\)','T::one()'),(r'T::one\(\)','(T::one()+T::one())'),(r'\btrue\b','false'),(r'\bfalse\b','true'),
 (r'\.sqrt\(\)',''),(r'\.abs\(\)',''),(r'(?<=[\s(\[,=])-(?=[\w(])',''),(r'(?<=[\s(\[,=])!(?=[\w(])',''),(r'\.transpose\(\)',''),(r'\.conj\(\)',''),(r'\.is_some\(\)','.is_none()'),(r'\.is_none\(\)','.is_some()'),
 (r'\bSome\(','None::<T>.or('),(r'epsilon','max_value'),(r'EPSILON','MAX_ABS'),(r'\.is_positive\(\)','.is_negative()'),(r'\.is_negative\(\)','.is_positive()'),(r'\bmin\b','max'),(r'\bmax\b','min'),
 (r'\.asin\(','.acos('),(r'\.acos\(','.asin('),(r'\.tan\(','.sin('),(r'\*self\b','(*self + *self)'),(r'\bTAU\b','PI'),(r'\bPI\b','TAU'),
 (r'\.norm2\(\)','.norm2().sqrt()'),(r'\.recip\(\)',''),(r'\.real\(\)','.imag()'),(r'\breal\b','dual'),(r'\bdual\b','real'),(r'\.x_axis\(','.y_axis('),
]
def mutants(f):
    src=open('/repo/src/'+f).read(); lines=src.split('\n'); end=testline(f,lines); out=[]
    incomment=False
    for i in range(end):
        l=lines[i]; st=l.strip()
        if st.startswith('/*'): incomment=True
        if incomment:
            if '*/' in st: incomment=False
            continue
        if not st or st.startswith('//') or st.startswith('use ') or st.startswith('#') or st.startswith('impl') or st.startswith('where') or 'fn ' in st and '{' in st and not '}' in st: continue
        code=l.split('//')[0]
        seen=set()
        def add(new,kind):
            if new!=code and new not in seen: seen.add(new); out.append((f,i,new,kind))
        for pat,rep in SUBS:
            for m in re.finditer(pat,code):
                add(code[:m.start()]+rep+code[m.end():],f'{pat}->{rep}')
        # integer literals
        for m in re.finditer(r'(?<![\w.])(\d)(?![\w.]|\.\d)',code):
            v=int(m.group(1))
            for n in {v+1,max(v-1,0),0}-{v}:
                add(code[:m.start()]+str(n)+code[m.end():],f'int {v}->{n}')
        # float literals
        for m in re.finditer(r'(?<![\w.])(\d+\.\d+)',code):
            add(code[:m.start()]+str(float(m.group(1))*2+1)+code[m.end():],'float')
        # identifier swaps among a_xy style names and w/x/y/z/q fields: neighbour
        ids=[m for m in re.finditer(r'\b[a-z]_?\d*\b|\bq\d\b',code)]
        names=sorted({m.group() for m in ids})
        rnd=random.Random(f'{f}{i}')
        for m in ids:
            o=[n for n in names if n!=m.group()]
            if o: add(code[:m.start()]+rnd.choice(o)+code[m.end():],'ident')
        # index swap
        for m in re.finditer(r'\((\d), ?(\d)\)',code):
            if m.group(1)!=m.group(2): add(code[:m.start()]+f'({m.group(2)}, {m.group(1)})'+code[m.end():],'idx')
        # delete statement
        if st.endswith(';') and not st.startswith('let') and not st.startswith('return'):
            add(re.sub(r'\S.*','',code),'del')
        # if condition
        m=re.search(r'\bif (.+?) \{',code)
        if m and not m.group(1).startswith('let'):
            add(code[:m.start(1)]+'true || '+code[m.start(1):],'iftrue'); add(code[:m.start(1)]+'false && ('+m.group(1)+')'+code[m.end(1):],'iffalse')
    return out
# a wrong result for rare inputs: a guard at the start of a function
def alts(ret,selfty):
    ret=ret.strip()
    if ret=='T': return ['T::zero()']
    if ret=='bool': return ['true','false']
    if ret.startswith('Option<') or ret=='Option<Self>': return ['None']
    if ret.startswith('Result<'): return ['Err(VectorErrors::Norm2IsZero)']
    if ret=='': return ['']
    m=re.match(r'(Self::Output|Self|[MV]\d+<T>|Quaternion<T>|DualQuaternion<T>)$',ret)
    if m: return ['num::Zero::zero()','*self','self','rhs']
    m=re.match(r'\((.*)\)$',ret)
    if m and all(re.match(r'\s*(T|M\d+<T>|V\d<T>|Quaternion<T>)\s*$',x) for x in m.group(1).split(',')):
        return ['('+', '.join('num::Zero::zero()' for _ in m.group(1).split(','))+')']
    m=re.match(r'\[T; (\d+)\]$',ret)
    if m: return [f'[T::zero(); {m.group(1)}]']
    return []
def guards(f):
    src=open('/repo/src/'+f).read(); lines=src.split('\n'); end=testline(f,lines); out=[]
    cur=''
    i=0
    while i<end:
        l=lines[i]
        m=re.match(r'impl.* for (\w+)<',l) or re.match(r'impl<.*?> (\w+)<',l)
        if m: cur=m.group(1)
        if re.match(r'\s*(pub(\(crate\))? )?(const )?fn \w+',l):
            j=i
            while '{' not in lines[j] and ';' not in lines[j]: j+=1
            if lines[j].rstrip().endswith('{'):
                sig=' '.join(lines[i:j+1])
                par=sig[sig.index('(')+1:]
                ret=''
                m=re.search(r'-> *(.*?)( where .*)?\{$',sig.strip())
                if m: ret=m.group(1)
                es=[]
                args=re.findall(r'(\w+): *([^,]+?(?:<[^>]*>)?)(?=,|\)|$)',par.split('->')[0])
                def exprs(n,t):
                    t=t.strip().lstrip('&').replace('mut ','').strip()
                    if t=='T': return [n]
                    if t in('Self',): t=cur+'<T>'
                    if re.match(r'M\d\d<T>',t): return [n+'[(0, 0)]',n+'[(1, 0)]',n+'[(1, 1)]']
                    if re.match(r'V\d<T>',t) or t.startswith('[T') : return [n+'[0]',n+'[1]']
                    if t=='Quaternion<T>': return [n+'.real()',n+'.imag()[1]']
                    if t=='DualQuaternion<T>': return [n+'.real().real()',n+'.dual().imag()[2]']
                    return []
                if 'self' in par.split(',')[0].split(')')[0]: es+=exprs('self','Self')
                for n,t in args: es+=exprs(n,t)
                for e in es:
                    for a in alts(ret,cur):
                        for c in (f'{e} == T::one() + T::one() + T::one()',f'{e} > T::from(1e6).unwrap()',f'{e} < T::from(-1e6).unwrap()',f'{e} > T::from(0.36).unwrap() && {e} < T::from(0.37).unwrap()'):
                            out.append((f,j,lines[j]+f' if {c} {{ return {a}; }}','guard'))
            i=j
        i+=1
    return out
# rules by function location
import bisect
locs={}
for r in base['results']:
    for n,loc in r['functions']:
        m=re.match(r'src/(\w+\.rs):(\d+)',loc)
        if m: locs.setdefault(m.group(1),{}).setdefault(int(m.group(2)),[]).append((r['ms'],r['rule']))
def rules_for(f,line):   # line is 0-based
    L=locs.get(f,{}); ks=sorted(L)
    i=bisect.bisect_right(ks,line+1)-1
    rs=set(L[ks[i]]) if i>=0 else set()
    if i>=1: pass
    return [r for _,r in sorted(rs) if r not in KNOWN]
LIB=subprocess.check_output(['rustc','+nightly','--print','sysroot'],text=True).strip()+'/lib'
def clean_env():
    e=dict(os.environ); 
    for k in ('RUSTFLAGS','RUSTC_WORKSPACE_WRAPPER','RUSTC_WRAPPER'): e.pop(k,None)
    e['CARGO_NET_OFFLINE']='true'; e['CARGO_TERM_COLOR']='never'
    return e
def setup(k):
    d=f'{BASE}/w{k}'
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    subprocess.check_call(['cp','-a','/repo',d+'/repo']); shutil.rmtree(d+'/repo/target',ignore_errors=True)
    subprocess.check_call(['cp','-a','/verif/anchors',d+'/anchors'])
    p=d+'/anchors/Cargo.toml'; s=open(p).read().replace('path = "/repo"',f'path = "{d}/repo"'); open(p,'w').write(s)
    return d
def analyse(d,rules,stop=True):
    out=d+'/out.json'
    if os.path.exists(out): os.remove(out)
    open(d+'/list','w').write('\n'.join(rules)+'\n')
    e=clean_env(); e.update(CARGO_TARGET_DIR=d+'/at',LD_LIBRARY_PATH=LIB,RUST_MIN_STACK='4000000000',SM_OUT=out,SM_PROP='all',SM_LIST=d+'/list',SM_REPO=d+'/repo/src',SM_SECS='40',SM_JOBS='1',
      RUSTC_WORKSPACE_WRAPPER='/verif/build/smcheck/release/smcheck',RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings --cfg dev',CARGO_BUILD_JOBS='1')
    dbg=d+'/at/debug/.fingerprint'
    if os.path.isdir(dbg):
        for x in os.listdir(dbg):
            if x.startswith('anchors-') or x.startswith('static-math-'): shutil.rmtree(dbg+'/'+x)
    try: r=subprocess.run(['cargo','+nightly','check','--offline'],cwd=d+'/anchors',env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=700)
    except subprocess.TimeoutExpired: return 'TIMEOUT'
    if not os.path.exists(out): return 'NOOUT '+r.stdout[-300:]
    res=json.load(open(out))['results']
    for x in res:
        if x['error'] or any(not o['ok'] for o in x['obs']): return 'CAUGHT '+x['rule']
    return f'SURVIVED {len(res)}'
def main():
    ms=[]
    for f in FILES: ms+=(guards if os.environ.get('GUARD') else mutants)(f)
    random.Random(1).shuffle(ms)
    lim=int(os.environ.get('MAX','0'))
    if lim: ms=ms[:lim]
    done={}
    log=f'{BASE}/log.jsonl'
    if os.path.exists(log):
        for l in open(log):
            x=json.loads(l); done[(x['f'],x['i'],x['new'])]=x['r']
    ms=[m for m in ms if (m[0],m[1],m[2]) not in done]
    print(len(ms),'mutants',flush=True)
    q=queue.Queue(); [q.put(m) for m in ms]
    lock=threading.Lock(); fh=open(log,'a'); cnt={}
    def work(k):
        d=setup(k); e=clean_env(); e['CARGO_TARGET_DIR']=d+'/tt'; e['CARGO_BUILD_JOBS']='1'; e['RUSTUP_TOOLCHAIN']='stable-x86_64-unknown-linux-gnu'; e['CARGO_INCREMENTAL']='1'
        e['RUSTFLAGS']='-Awarnings -Cdebuginfo=0'
        while True:
            try: f,i,new,kind=q.get_nowait()
            except queue.Empty: return
            p=f'{d}/repo/src/{f}'; src=open('/repo/src/'+f).read(); lines=src.split('\n'); old=lines[i]; lines[i]=new
            open(p,'w').write('\n'.join(lines))
            rs=rules_for(f,i)
            try:
                t=subprocess.run(['cargo','test','--lib','--offline','-q'],cwd=d+'/repo',env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=90)
                ok=t.returncode==0; comp='could not compile' not in t.stdout
            except subprocess.TimeoutExpired: ok=False; comp=True
            if not ok: r='TESTS' if comp else 'NOCOMPILE'
            elif not rs: r='NORULES'
            else: r=analyse(d,rs)
            open(p,'w').write(src)
            with lock:
                fh.write(json.dumps(dict(f=f,i=i,old=old.strip(),new=new,kind=kind,r=r))+'\n'); fh.flush()
                cnt[r.split()[0]]=cnt.get(r.split()[0],0)+1
                if r.split()[0] in('SURVIVED','NORULES','TIMEOUT','NOOUT'): print(f'{f}:{i+1} [{kind}] {old.strip()}  ==>  {new.strip()} :: {r}',flush=True)
                if sum(cnt.values())%100==0: print(cnt,flush=True)
    ts=[threading.Thread(target=work,args=(k,)) for k in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print(cnt)
main()
