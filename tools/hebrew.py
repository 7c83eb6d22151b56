import re,datetime as D
def elapsed(y):
    m=(235*y-234)//19; p=12084+13753*m; d=29*m+p//25920
    return d+1 if (3*(d+1))%7<3 else d
def delay(y):
    a,b,c=elapsed(y-1),elapsed(y),elapsed(y+1)
    return 2 if c-b==356 else (1 if b-a==382 else 0)
def rosh(y): return D.date.fromordinal(-1373427+0+elapsed(y)+delay(y)+ (347998-347998)) if 0 else D.date.fromordinal(-1373428+elapsed(y)+delay(y)+0)
# calibrate: RH 5784 = 2023-09-16
off=D.date(2023,9,16).toordinal()-(elapsed(5784)+delay(5784))
rosh=lambda y:D.date.fromordinal(off+elapsed(y)+delay(y))
assert rosh(5785)==D.date(2024,10,3) and rosh(5780)==D.date(2019,9,30)
src=open('/repo/third-parties/calendar/src/israel.rs').read().split('#[cfg(test)]')[0]
groups={};g=None
for line in src.splitlines():
    t=line.strip()
    if t.startswith('//') and 'Holidays' not in t: g=t[2:].strip(); groups[g]=[]
    elif g and 'y ==' in t: groups[g].append(t)
def dates(t):
    y=int(re.search(r'y == (\d+)',t).group(1)); out=set()
    for m in range(1,13):
        for d in range(1,32):
            e=t.strip().lstrip('|').strip().replace('||',' or ').replace('&&',' and ')
            e=re.sub(r'\((\d+)\.\.=(\d+)\)\.contains\(&d\)',r'(\1<=d<=\2)',e)
            if eval(e,{'d':d,'m':m,'y':y}): out.add(D.date(y,m,d))
    return y,out
for g,ls in groups.items():
    for t in ls:
        y,ds=dates(t)
        nr=rosh(y+3761); # RH in autumn y
        pes=nr-D.timedelta(163)  # 15 Nisan
        one=D.timedelta(1)
        exp={'Purim':pes-30*one,'Passover I and Passover VII':pes,'Pentecost (Shavuot)':pes+50*one,'Fast Day':None,'Jewish New Year':nr,'Yom Kippur':nr+9*one,'Sukkoth':nr+14*one,'Simchat Tora':nr+21*one}.get(g)
        if g=='Fast Day':
            av=nr-D.timedelta(50)  # 9 Av: RH - 51+... compute: Elul 29, Av 30 -> 1 Av = RH-59, 9 Av=RH-51
            av=nr-D.timedelta(51)
            exp=av+one if av.weekday()==5 else av
        if g.startswith('Memorial'):
            iy=pes+20*one # 5 Iyar = 15 Nisan +20
            wd=iy.weekday()
            if wd==4: iy-=one
            elif wd==5: iy-=2*one
            elif wd==0: iy+=one
            E={iy,iy-one}
        elif g=='Purim': E={exp}
        elif g.startswith('Passover'): E={pes-one,pes,pes+5*one,pes+6*one}
        elif g.startswith('Pent'): E={exp,exp-one}
        elif g=='Fast Day': E={exp}
        elif g=='Jewish New Year': E={nr-one,nr,nr+one}
        else: E={exp,exp-one}
        main={'Simchat Tora':nr+21*one}.get(g)
        extra=[str(x) for x in ds-E]; miss=[str(x)+x.strftime('%a') for x in E-ds if x.weekday() not in(4,5)]
        if extra or miss: print(g,y,'extra',extra,'missing',miss)
