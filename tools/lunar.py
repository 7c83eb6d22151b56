import math,datetime as D
def newmoon(k):
    T=k/1236.85
    J=2451550.09766+29.530588861*k+0.00015437*T*T
    E=1-.002516*T
    r=math.radians
    M=r(2.5534+29.1053567*k);Mp=r(201.5643+385.81693528*k+.0107582*T*T);F=r(160.7108+390.67050284*k-.0016118*T*T);O=r(124.7746-1.56375588*k)
    s=math.sin
    c=-.4072*s(Mp)+.17241*E*s(M)+.01608*s(2*Mp)+.01039*s(2*F)+.00739*E*s(Mp-M)-.00514*E*s(Mp+M)+.00208*E*E*s(2*M)-.00111*s(Mp-2*F)-.00057*s(Mp+2*F)+.00056*E*s(2*Mp+M)-.00042*s(3*Mp)+.00042*E*s(M+2*F)+.00038*E*s(M-2*F)-.00024*E*s(2*Mp-M)-.00017*s(O)
    return J+c-68/86400  # UT
def jd2local(J,tz): return D.datetime(2000,1,1,12)+D.timedelta(days=J-2451545+tz/24)
def sunlon(J):
    T=(J-2451545)/36525
    L=280.46646+36000.76983*T+.0003032*T*T;M=math.radians(357.52911+35999.05029*T)
    C=(1.914602-.004817*T)*math.sin(M)+(.019993-.000101*T)*math.sin(2*M)+.000289*math.sin(3*M)
    O=math.radians(125.04-1934.136*T)
    return (L+C-.00569-.00478*math.sin(O))%360
def lonat(y,lon,guess):
    J=guess
    for _ in range(20):
        d=(lon-sunlon(J)+180)%360-180; J+=d*365.2422/360
    return J
def jd(d): return d.toordinal()+1721424.5
def months(y,tz=8):
    """list (start date, month no, leap) covering lunar year y (from month 11 of y-1 to month 11.. y)"""
    ws=lambda Y: jd2local(lonat(Y,270,jd(D.date(Y,12,21))),tz).date()
    def nm(a,b):
        k=int((a.year-2000+(a.timetuple().tm_yday)/365.25)*12.3685)-3; out=[]
        while True:
            d=jd2local(newmoon(k),tz).date()
            if d>b: break
            if d>=a-D.timedelta(32): out.append(d)
            k+=1
        return out
    a,b=ws(y-1),ws(y)
    n=nm(a,b+D.timedelta(31))
    st=max(x for x in n if x<=a); en=max(x for x in n if x<=b)
    seq=[x for x in n if st<=x<=en]
    leap=len(seq)-1==13
    res=[];m=11;used=False
    for i,x in enumerate(seq[:-1]):
        nx=seq[i+1]
        hasz=False
        # zhongqi in [x,nx)
        s0=sunlon(jd(x)-tz/24);s1=sunlon(jd(nx)-tz/24)
        hasz=int(s0//30)!=int(s1//30)
        if leap and not used and not hasz and i>0:
            res.append((x,(m-2)%12+1,True));used=True
        else:
            res.append((x,m,False)); m=m%12+1
    return res
def fest(y,m,d,tz=8):
    for x,n,l in months(y,tz):
        if n==m and not l and not (m>=11 and x.year<y): return x+D.timedelta(d-1)
def qingming(y,tz=8): return jd2local(lonat(y,15,jd(D.date(y,4,5))),tz).date()
if __name__=='__main__':
    for y in (2004,2010,2012,2014,2017,2020,2023,2033): print(y,fest(y,1,1),fest(y,5,5),fest(y,8,15),fest(y,9,9),fest(y,4,8),qingming(y))
