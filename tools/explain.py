#!/usr/bin/env python3
"""explain.py TRACE [MAX]: validate a trace and print the rejected events with the expected result."""
import json,subprocess,sys,os,re
tr=sys.argv[1]; mx=int(sys.argv[2]) if len(sys.argv)>2 else 5
spec=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','spec')
def tlc(cfg,start):
    e=dict(os.environ,TRACE=os.path.abspath(tr),START=str(start))
    return subprocess.run(['tlc','-workers','1','-config',f'{spec}/{cfg}.cfg','-metadir','/tmp/tlcm%d'%os.getpid(),f'{spec}/Trace.tla'],capture_output=True,text=True,env=e).stdout
def sh(s):
    if not isinstance(s,dict) or 's' not in s or 'r' not in s: return json.dumps(s)
    def shell(q):
        o=q['k']
        for f in ('c','p','a'):
            if q[f]: o+=f'|{f}={q[f]}'
        if q['st']!=q['k']: o+='|st='+q['st']
        if q['nd']: o+=f"|dim={q['nd']}{q['d']}"
        if q['l']: o+='|l='+json.dumps(strs(q['l']))
        if q['h']: o+='{'+', '.join(shell(h) for h in q['h'])+'}'+(str(q['x']) if any(q['x']) else '')
        return o
    return shell(s['s'])+' rows='+json.dumps(s['r'])+(' names='+json.dumps(strs(s['n'])) if s['hn'] else '')
def strs(n): return [None if not x else ''.join(map(chr,x[1:])) for x in n]
out=tlc('Trace',1)
rej=[int(x) for x in re.findall(r'REJECT", (\d+)',out)]
print('rejected',len(rej), 'finished' if 'No error has been found' in out else 'TLC FAILED')
lines=open(tr).read().split('\n')
if 'No error has been found' not in out: print(out[-3000:])
from collections import Counter
print(Counter(json.loads(lines[k-1])['op'] for k in rej))
for k in rej[:mx]:
    ev=json.loads(lines[k-1])
    print('-----',k,ev['op'],ev.get('p'),ev.get('tag',''), 'MUTATED' if ev['mut'] else '')
    for a,v in ev.get('v',{}).items(): print('   ',a,'=',sh(v))
    for a,l in ev.get('l',{}).items():
        print('   ',a,'= list', json.dumps(strs(ev['ln'][a]['n'])) if ev['ln'][a]['hn'] else '')
        for v in l: print('        ',sh(v))
    if ev['op'] == 'session': pass
    elif ev['ok']:
        if 'outs' in ev:
            print('   OUTS',json.dumps(ev.get('on')))
            for v in ev['outs']: print('        ',sh(v))
        else: print('   OUT ',sh(ev['out']))
    else: print('   ERR ',ev['err'])
    x=tlc('Explain',k)
    m=re.search(r'<<"EXPECT", (".*")>>',x)
    if m:
        e=json.loads(json.loads(m.group(1)))
        if ev['op'] == 'session': print('   ',json.dumps(e.get('exp'))); continue
        o=e.get('out',e)
        if isinstance(o,list) and o and isinstance(o[0],dict):
            print('   EXP  list'); [print('        ',sh(v)) for v in o]
        else: print('   EXP ',sh(o) if e.get('ok')!=0 else e)
    else: print('   EXP ?',x[-1500:])
