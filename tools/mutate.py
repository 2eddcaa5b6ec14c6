import re,sys,os,subprocess,random,shutil,json,time,multiprocessing
sys.path.insert(0,'/verif/tools')
from props import PROPS
W=int(sys.argv[1]); N=int(sys.argv[2]); files=sys.argv[4:]; per=int(sys.argv[3])
base='/tmp/mut/w%d'%W
if not os.path.exists(base): os.makedirs(base)
subprocess.check_call("rsync -a --delete --exclude .git --exclude build --exclude work --exclude seeded --exclude evidence /verif/ %s/verif/ && rsync -a --delete --exclude .git /repo/ %s/repo/"%(base,base),shell=True)
OPS=[(r' < ',' <= '),(r' > ',' >= '),(r' <= ',' < '),(r' >= ',' > '),(r' == ',' != '),(r' != ',' == '),(r'\+ 1\b','+ 0'),(r'- 1\b','- 0'),(r'\b1\b','2'),(r'\b0\b','1'),(r' \+ ',' - '),(r' - ',' + '),(r'\+=','-='),(r'-=','+='),
 (r'(?<=[\w\)])\*(?=[\w\(])','+'),(r' \* ',' + '),(r' and ',' or '),(r' or ',' and '),(r' && ',' || '),(r' \|\| ',' && '),(r'\btrue\b','false'),(r'\bfalse\b','true'),
 (r'Rows','Columns'),(r'Columns','Rows'),(r'\brow\b','column'),(r'\bcolumn\b','row'),(r'Row(?=Cur)','Column'),(r'\bA\b','B'),(r'\bB\b','A'),(r'begin\(','end('),(r'end\(','begin('),(r'\blhs\b','rhs'),(r'\brhs\b','lhs'),
 (r'\+\+(?=\w)',''),(r'lower','upper'),(r'upper','lower'),(r'double','float'),(r'float','double'),(r'std::max','std::min'),(r'std::min','std::max'),(r'!(?=\w)',''),(r'Major','Minor'),(r'\bM1\b','M2'),(r'\bother\b','(*this)'),(r'ColumnMajor','RowMajor'),(r'first','second'),(r'second','first')]
rnd=random.Random(int(os.environ.get('SEED','7')))
log=open('/tmp/mut/log%d.txt'%W,'a')
for f in files:
    p=base+'/repo/'+f
    src=open(p).read().split('\n')
    checks=[x['id'] for x in sorted(PROPS,key=lambda q:len(q['anchors']['files'])) if f in x['anchors']['files']]; log.write(f+' '+','.join(checks)+chr(10))
    extra=os.environ.get('CHECKS'); 
    if extra: checks=extra.split(',')
    muts=[]
    for i,l in enumerate(src):
        s=l.strip()
        if not s or s.startswith(('//','#','*','/*','using','typedef','template','BLASBOOSTER_DEBUG','static const std::string name')) or 'static_assert' in s: continue
        for a,b in OPS:
            for m in re.finditer(a,l):
                if '//' in l[:m.start()]: continue
                if a in (r' < ',r' > ') and 'template' in l: continue
                n=l[:m.start()]+b+l[m.end():]
                muts.append((i,n))
        if s.endswith(';') and re.match(r'^[\w\.\->\*\+]+(\(|\[| [\+\-\*]?= |\+\+)',s) or s.startswith('++'): muts.append((i,re.sub(r'\S.*',';',l)))
    rnd.shuffle(muts)
    # spread over lines
    seen={}; sel=[]
    for m in muts:
        if seen.get(m[0],0)<1+per//200: seen[m[0]]=seen.get(m[0],0)+1; sel.append(m)
    sel=sel[:per]
    for i,n in sel:
        t=list(src); t[i]=n; open(p,'w').write('\n'.join(t))
        res=[]; killed=None
        for c in checks:
            r=subprocess.run(['nice','-n','5',sys.executable,base+'/verif/run.py',c],capture_output=True,text=True,env=dict(os.environ,VERIF_REPO=base+'/repo'),errors='replace')
            if r.returncode==1: killed=c; break
            if r.returncode==2: res.append(c+':ERR:'+r.stdout[-700:].replace('\n',' ')[:300]); 
            else: res.append(c+':quiet')
            if r.returncode==2 and 'compilation' in r.stdout: break
        st='KILLED by '+killed if killed else ('COMPILE' if any('compilation failed' in x for x in res) else 'SURVIVED')
        log.write('%s %s:%d  |%s| => |%s| %s\n'%(st,f,i+1,src[i].strip(),n.strip(),' '.join(res) if st=='SURVIVED' else '')); log.flush()
    open(p,'w').write('\n'.join(src))
log.write('DONE\n'); log.flush()
