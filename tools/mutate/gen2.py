"""A second family of mechanical mutants, for run.py: a name replaced by a sibling of the same function, two statements
exchanged, a statement repeated, an early return, a call dropped (x.f(y) -> x, where it compiles)."""
import re,json,sys,random,collections,importlib.util,pathlib
R=pathlib.Path('/repo/programs/hmmcl-sandbox/src')
files=['decimal.rs','cl_pool/mod.rs','cl_pool/cl_math.rs','cl_pool/cl_components.rs','cl_pool_float/mod.rs','cl_pool_float/cl_math.rs','state/tick_bitmap.rs','instructions/deposit.rs','instructions/withdraw.rs','instructions/manage_bitmap.rs','instructions/manage_tick.rs','instructions/manage_position.rs','instructions/manage_fee.rs','instructions/initialize_pool.rs','cl_python/v3_pool.py']
KW=set('let mut if else match return pub fn self Self for in while loop true false None Some Ok Err unwrap expect use as break continue ref and or not def is pass u8 u16 u32 u64 u128 bool usize i8 Decimal Pool Option Result Vec'.split())
def near(a,b):
    if a==b: return False
    A,B=a.split('_'),b.split('_')
    if len(A)==len(B): return sum(x!=y for x,y in zip(A,B))==1
    if abs(len(A)-len(B))==1:
        s,l=(A,B) if len(A)<len(B) else (B,A)
        return any(l[:i]+l[i+1:]==s for i in range(len(l)))
    return False
out=[]
for f in files:
    py=f.endswith('.py'); L=(R/f).read_text().split('\n'); n=len(L)
    for i,l in enumerate(L):
        if '#[cfg(test)]' in l or 'mod test' in l: n=i; break
    # functions
    starts=[i for i in range(n) if re.match(r'\s*(pub(\(\w+\))? )?(fn|def) ',L[i])]+[n]
    for a,b in zip(starts,starts[1:]):
        ids=collections.Counter(); skip=0; lines=[]
        for i in range(a+1,b):
            l=L[i]; s=l.strip()
            if skip>0: skip+=s.count('(')-s.count(')'); continue
            m=re.search(r'\b(println!|msg!|panic!|print|Exception|emit!)\(',l)
            if m:
                t=l[m.start():]; skip=max(0,t.count('(')-t.count(')')); continue
            if not s or s.startswith(('//','/*','*','#','use ','import ','from ','@')): continue
            code=l.split('//')[0] if not py else l.split('#')[0]
            if '"' in code: continue
            lines.append((i,code))
        for i in range(a,b):
            for w in re.findall(r'\b[A-Za-z_]\w*',L[i].split('//')[0]):
                if w not in KW: ids[w]+=1
        for i,code in lines:
            l=L[i]; seen=set()
            def put(nw,k):
                if nw!=l and nw not in seen: seen.add(nw); out.append({'f':f,'i':i,'o':l,'n':nw,'k':k})
            for m in re.finditer(r'(?<!\.)\b[a-z_]\w*\b(?!\s*[:(])|(?<=self\.)\w+\b',code):
                w=m[0]
                if w in KW: continue
                if re.match(r'\s*let\b',code) and m.end()<code.find('='): continue
                c=[v for v in ids if near(w,v)]
                random.seed(w+str(i)); random.shuffle(c)
                for v in c[:2]: put(code[:m.start()]+v+code[m.end():],'name')
            for x,y in (("'f'","'h'"),("'h'","'f'"),("'x'","'y'"),("'y'","'x'")):
                for m in re.finditer(x,code): put(code[:m.start()]+y+code[m.end():],'chr')
            for m in re.finditer(r'\.(\w+)\(([^()]*)\)(\.unwrap\(\))?',code):
                if not py: put(code[:m.start()]+code[m.end():],'drop')
            s=code.strip(); ind=len(code)-len(code.lstrip())
            if not py and s.endswith(';') and s.count('(')==s.count(')') and not s.startswith(('let','return',')','}','.')):
                put(' '*ind+s+' '+s,'dup')
            if i+1<b and not py:
                t=L[i+1]; ts=t.strip()
                ok=lambda z: z.endswith(';') and z.count('(')==z.count(')') and not z.startswith((')','}','.','return','//'))
                if ok(s) and ok(ts) and len(t)-len(t.lstrip())==ind:
                    out.append({'f':f,'i':i,'o':l,'n':' '*ind+ts+' '+s,'k':'swap','del':i+1})
random.seed(9); random.shuffle(out)
# no more than so many of a kind per file
cap=collections.Counter(); kept=[]
for o in out:
    cap[(o['f'],o['k'])]+=1
    if cap[(o['f'],o['k'])]<={'name':70,'drop':30,'dup':10,'swap':20,'chr':20}[o['k']]: kept.append(o)
json.dump(kept,open(sys.argv[1],'w'))
print(len(kept),collections.Counter(o['f'] for o in kept),collections.Counter(o['k'] for o in kept))
