#!/usr/bin/env python3
# tally.py EVENTS TLC-OUTPUT: what was rejected, grouped, with readable arguments
import sys, json, collections
from fractions import Fraction
def num(l): 
    v=0
    for i,x in enumerate(l[1:]): v|=x<<(15*i)
    return v*(-1 if l[0]<0 else 1)
def dec(t,l):
    b=num(l); p,w=dict(f=(24,8),d=(53,11),l=(64,15))[t]
    bias=(1<<(w-1))-1
    if t=='l': m=b&((1<<64)-1); e=(b>>64)&0x7fff; s=b>>79; frac=m&((1<<63)-1)
    else: frac=b&((1<<(p-1))-1); e=(b>>(p-1))&((1<<w)-1); s=b>>(p-1+w); m=frac|((1<<(p-1)) if e else 0)
    sg='-' if s else ''
    if e==(1<<w)-1: return sg+('nan' if frac else 'inf')
    if e==0: e=1
    if m==0: return sg+'0'
    f=m; k=e-bias-(p-1)
    # hex
    L=m.bit_length()-1
    h=m<<((4-(L%4))%4) if False else m
    x=(m<<(64-1-L)); 
    hx='%x'%((x&((1<<63)-1))<<1)
    hx=hx.zfill(16).rstrip('0')
    exp=L+k
    return f"{sg}0x1{'.'+hx if hx else ''}p{exp}"
def show(ev):
    a=[dec('l' if ev['f']=='nexttoward' and i==1 else ev['t'],x) for i,x in enumerate(ev['a'])]
    return f"{ev['f']}<{ev['t']}>({', '.join(a)}{', n=%d'%ev['n'] if ev['f'] in('ldexp','scalbn','scalbln') else ''}) m={ev['m']} {ev['p']} -> {[dec(ev['t'],x) for x in ev['r']]} q={ev['q']} fl={ev['fl']} en={ev['en']} m1={ev['m1']}"
if __name__=='__main__':
    evs=open(sys.argv[1]).read().split('\n')
    g=collections.OrderedDict()
    for l in open(sys.argv[2],errors='replace'):
        l=l.strip().strip('"')
        if l.startswith('REJECT|'):
            _,i,why,exp=l.split('|',3); ev=json.loads(evs[int(i)-1])
            g.setdefault((why,ev['f'],ev['t'],ev['p']),[]).append((ev,exp))
    k=int(sys.argv[3]) if len(sys.argv)>3 else 2
    for key in sorted(g):
        L=g[key]; ms=collections.Counter(e['m'] for e,_ in L)
        print(key,len(L),dict(ms))
        for e,x in L[:k]: print('     ',show(e),'| exp',x[:110])
