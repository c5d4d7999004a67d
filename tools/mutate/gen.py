"""Mechanical mutants of the sources: writes [{f, i (line), o (old line), n (new line), k (kind)}] to argv[1], shuffled."""
import re,json,sys,random,pathlib,collections
R=pathlib.Path('/repo/programs/hmmcl-sandbox/src')
files=['decimal.rs','cl_pool/mod.rs','cl_pool/cl_math.rs','cl_pool/cl_components.rs','cl_pool_float/mod.rs','cl_pool_float/cl_math.rs','cl_pool_float/cl_components.rs','state/tick_bitmap.rs','instructions/deposit.rs','instructions/withdraw.rs','instructions/manage_bitmap.rs','instructions/manage_tick.rs','instructions/manage_position.rs','instructions/manage_fee.rs','instructions/initialize_pool.rs','state/tick_state.rs','state/pool_state.rs','state/position_state.rs','state/fees.rs','cl_python/v3_pool.py']
OPS=[(r' \+ ',' - '),(r' - ',' + '),(r' \* ',' / '),(r' / ',' * '),(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r' == ',' != '),(r' != ',' == '),(r'\+= ','-= '),(r'-= ','+= '),
(r'\blower','upper'),(r'\bupper','lower'),(r'_lower','_upper'),(r'_upper','_lower'),(r'\bleft','right'),(r'\bright','left'),(r'_left','_right'),(r'_right','_left'),
(r'_x\b','_y'),(r'_y\b','_x'),(r'\bx_','y_'),(r'\by_','x_'),(r'\bx\b','y'),(r'\by\b','x'),(r'\bX\b','Y'),(r'\bY\b','X')]
RS=[(r' && ',' || '),(r' \|\| ',' && '),(r'\.add\(','.sub('),(r'\.sub\(','.add('),(r'\.mul\(','.mul_up('),(r'\.mul_up\(','.mul('),(r'\.div\(','.div_up('),(r'\.div_up\(','.div('),(r'\.min\(','.max('),(r'\.max\(','.min('),
(r'\.lt\(','.lte('),(r'\.lte\(','.lt('),(r'\.gt\(','.gte('),(r'\.gte\(','.gt('),(r'\.to_scale\(','.to_scale_up('),(r'\.to_scale_up\(','.to_scale('),
(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'Token::X','Token::Y'),(r'Token::Y','Token::X'),
(r'\bfloor\(\)','ceil()'),(r'\bceil\(\)','floor()'),(r'<<','>>'),(r'>>','<<'),(r' & ',' | '),(r' \| ',' & '),(r'if ','if !(')]
PY=[(r' and ',' or '),(r' or ',' and '),(r'\bTrue\b','False'),(r'\bFalse\b','True'),(r'math\.floor','math.ceil'),(r'math\.ceil','math.floor'),(r'\bmin\(','max('),(r'\bmax\(','min('),(r'_X\b','_Y'),(r'_Y\b','_X'),(r'dX','dY'),(r'dY','dX')]
out=[]
for f in files:
    py=f.endswith('.py')
    subs=OPS+(PY if py else RS)
    L=(R/f).read_text().split('\n')
    blk=False; skip=0; doc=False
    for i,l in enumerate(L):
        if '#[cfg(test)]' in l or 'mod test' in l or py and l.startswith(('def ','if __name__')): break
        s=l.strip()
        if py:
            if s.count('"""')==1: doc=not doc; continue
            if doc or '"""' in s: continue
        if skip>0:
            skip+=s.count('(')-s.count(')')
            continue
        if '/*' in re.sub(r'//.*','',s): blk=True
        if blk:
            if '*/' in s: blk=False
            continue
        m=re.search(r'\b(println!|msg!|panic!|print|Exception)\(',l)
        if m:
            t=l[m.start():]
            skip=max(0,t.count('(')-t.count(')'))
            if not (m[1]=='panic!' and not skip): continue
        if not s or s.startswith(('//','use ','pub use','#[derive','#','import','from ','assert')) or py and s.startswith(('def ','class ','@')): continue
        code=l.split('//')[0] if not py else l.split('#')[0].rstrip()
        pan='panic!(' in code or s.startswith('"')
        if pan: continue
        seen=set()
        def put(n,kind):
            if n!=l and n not in seen:
                seen.add(n); out.append({'f':f,'i':i,'o':l,'n':n,'k':kind})
        for a,b in subs:
            for m in re.finditer(a,code):
                if a=='if ':
                    mm=re.search(r'^(.*\bif )(?!let)(.*)( \{)\s*$',code)
                    if mm: put(mm[1]+'!('+mm[2]+')'+mm[3],'neg')
                    break
                put(code[:m.start()]+b+code[m.end():],a)
        for m in re.finditer(r'(?<![\w.])(\d+)(u128)?(?![\w.]|\d)',code):
            v=int(m[1]); put(code[:m.start()]+str(v+1)+(m[2] or '')+code[m.end():],'lit+')
            if v>0: put(code[:m.start()]+str(v-1)+(m[2] or '')+code[m.end():],'lit-')
        if py:
            mm=re.match(r'^(\s*)(if|elif) (.*):$',code)
            if mm: put(mm[1]+mm[2]+' not ('+mm[3]+'):','neg')
            if s.count('(')==s.count(')') and not s.startswith(('if','el','for','while','return','try','with',')','"')) and not s.endswith((',','(',':','\\')) and ('=' in s or s.endswith(')')):
                put(re.match(r'\s*',l)[0]+'pass','del')
        elif s.endswith(';') and not s.startswith(('let','return','pub','fn','}',')','const','type','mod','.')) and s.count('(')==s.count(')') and s.count('{')==s.count('}'):
            put(re.match(r'\s*',l)[0]+'();','del')
random.seed(5)
random.shuffle(out)
json.dump(out,open(sys.argv[1],'w'))
print(len(out),collections.Counter(o['f'] for o in out))
