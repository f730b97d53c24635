#!/usr/bin/env python3
"""Development aid (not a check): compare the analyser's x86 decoder with objdump on random byte strings."""
import os, random, re, subprocess, sys, tempfile
AN='/verif/analyzer/target/debug/masm-static'
sysroot=subprocess.run(['rustc','+nightly','--print','sysroot'],capture_output=True,text=True).stdout.strip()
env=dict(os.environ,LD_LIBRARY_PATH=sysroot+'/lib')
random.seed(int(sys.argv[1]) if len(sys.argv)>1 else 1)
one=list(range(0x00,0x40))+list(range(0x50,0x60))+[0x63,0x68,0x6a,0x69,0x6b]+list(range(0x70,0x92))+[0x99,0xa8,0xa9]+list(range(0xb0,0xc0))+[0xc0,0xc1,0xc3,0xc6,0xc7,0xc9,0xcc,0xd0,0xd1,0xd2,0xd3,0xe8,0xe9,0xeb,0xf6,0xf7,0xfe,0xff]
two=[0x05,0x10,0x11,0x2a,0x2c,0x2d,0x2e,0x51,0x54,0x57,0x58,0x59,0x5c,0x5d,0x5e,0x5f,0x6e,0x7e,0xd6,0xaf,0xb6,0xb7,0xbe,0xbf,0xb8,0xbc,0xbd]+list(range(0x40,0x50))+list(range(0x80,0xa0))
lines=[]
for _ in range(20000):
    b=[]
    pf=random.choice(['','','','66','f2','f3'])
    if pf: b.append(int(pf,16))
    if random.random()<.6: b.append(0x40|random.randrange(16))
    r=random.random()
    if r<.5: b.append(random.choice(one))
    elif r<.97: b+= [0x0f,random.choice(two)]
    else: b+=[0x0f,0x3a,random.choice([0x09,0x0b])]
    m=random.randrange(256)
    b.append(m)
    b+=[random.randrange(256) for _ in range(14)]
    lines.append(bytes(b[:15]))
with tempfile.TemporaryDirectory() as d:
    open(d+'/in','w').write('\n'.join(x.hex() for x in lines)+'\n')
    mine=subprocess.run([AN,'--selftest-x86',d+'/in'],capture_output=True,text=True,env=env).stdout.splitlines()
    # each instruction in its own 32-byte slot padded with nops
    blob=b''.join(x+b'\x90'*17 for x in lines)
    open(d+'/b','wb').write(blob)
    dis=subprocess.run(['objdump','-D','-b','binary','-m','i386:x86-64','-M','intel','--insn-width=16','-w',d+'/b'],capture_output=True,text=True).stdout
at={}
for l in dis.splitlines():
    m=re.match(r'\s*([0-9a-f]+):\t((?:[0-9a-f]{2} )+)\s*\t?(.*)',l)
    if m: at[int(m.group(1),16)]=(len(m.group(2).split()),m.group(3).strip())
bad=ok=rej=0
W={'BYTE':8,'WORD':16,'DWORD':32,'QWORD':64,'XMMWORD':128}
def norm(t,addr):
    t=re.sub(r'\s*#.*','',t); t=re.sub(r'\s+<.*>','',t)
    p=t.split(None,1); mn=p[0]; ops=p[1].split(',') if len(p)>1 else []
    return mn,ops
CCn={'o':'o','no':'no','b':'b','ae':'ae','e':'e','ne':'ne','be':'be','a':'a','s':'s','ns':'ns','p':'p','np':'np','l':'l','ge':'ge','le':'le','g':'g'}
for i,(x,mi) in enumerate(zip(lines,mine)):
    if mi.startswith('ERR'): rej+=1; continue
    o=at.get(i*32)
    if o is None: bad+=1; print('NOAT',x.hex(),mi); continue
    n,t=o
    t=re.sub(r'^rex(\.\w+)? (?=\w)','',t)
    if '(bad)' in t or t.startswith('rex') or t.startswith(('data16','repz','repnz')): 
        bad+=1; print('OBJBAD',x.hex(),mi,'|',t); continue
    mn,ops=norm(t,i*32)
    f=mi.split(' ')
    ln,op,w,sw=int(f[0]),f[1],int(f[2]),int(f[3]); mo=f[4].split(',') if len(f)>4 and f[4] else []
    exp=[]
    for q in ops:
        q=q.strip()
        m=re.match(r'(?:(\w+) PTR )?(?:ds:)?\[(.*)\]$',q)
        m2=re.match(r'(?:(\w+) PTR )?ds:(0x[0-9a-f]+)$',q)
        if m2:
            exp.append(('m','',int(m2.group(2),16),W.get(m2.group(1) or '',0)))
        elif m:
            inner=m.group(2)
            d=0; terms=[]
            for s,tm in re.findall(r'([+-]?)([^+-]+)',inner):
                if tm.startswith('0x'): d=int(tm,16)*(-1 if s=='-' else 1)
                elif tm in('riz*1','riz*2','riz*4','riz*8'): pass
                else: terms.append(tm)
            exp.append(('m','+'.join(terms),d,W.get(m.group(1) or '',0)))
        elif re.match(r'0x[0-9a-f]+$',q): exp.append(('i',int(q,16)))
        elif re.match(r'\d+$',q): exp.append(('i',int(q)))
        else: exp.append(('r',q))
    got=[]
    for q in mo:
        m=re.match(r'\[(.*)\]([0-9a-f]*)$',q)
        if m: got.append(('m',m.group(1),int(m.group(2) or '0',16)))
        elif q.startswith('rel'): got.append(('rel',int(q[3:],16)))
        elif re.match(r'i[0-9a-f]+$',q): got.append(('i',int(q[1:],16)))
        else: got.append(('r',q))
    mn2={'cqo':'cdq','cwd':'cdq','movabs':'mov','movsxd':'movsx','sal':'shl','xchg':'xchg'}.get(mn,mn)
    opn={'movq':'movq'}.get(op,op)
    good = ln==n
    if mn2!=opn: good=False
    if len(exp)!=len(got) and not (mn in('imul','push','ret','nop') ): good=False
    for a,b in zip(exp,got):
        if a[0]=='m':
            if b[0]!='m' or a[1].replace('*1','')!=b[1].replace('*1',''): good=False
            else:
                dv=b[2]
                if all(dv%(1<<k)!=a[2]%(1<<k) for k in (32,)) : good=False
            if a[3] and a[3] not in (w,sw): good=False
        elif b[0]=='rel': pass
        elif a[0]=='r':
            if a[1]!=b[1]: good=False
        elif a[0]=='i':
            if b[0]!='i': good=False
            elif not any(a[1]%(1<<k)==b[1]%(1<<k) for k in ((w,) if 0<w<=64 else (8,))): good=False
    if good: ok+=1
    else:
        bad+=1
        if bad<60: print('DIFF',x[:n].hex(),'| mine:',mi,'| objdump:',n,t)
print('ok',ok,'bad',bad,'rejected by mine',rej)
