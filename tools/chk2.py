from ext import *
def isl2g(y,m,d):
    return D.date.fromordinal(d+math.ceil(29.5*(m-1))+(y-1)*354+(3+11*y)//30+227014+0)
import math
assert abs((isl2g(1444,10,1)-D.date(2023,4,21)).days)<=1, isl2g(1444,10,1)
def near(m,d,ds):
    y0=ds[0].year
    c=[isl2g(h,m,d) for h in range(int((y0-622)*1.0307)-2,int((y0-622)*1.0307)+4)]
    return min(((min(ds,key=lambda x:abs((x-t).days))-t).days for t in c),key=abs)
K=[('Ramadan',(10,1)),('Kurban',(12,10)),('Ramzan',(10,1)),('Bakri',(12,10)),('Moharram',(1,10)),('Hari Raya Puasa',(10,1)),('Hari Raya Haji',(12,10)),('Islamic New',(1,1)),("Isra",(7,27)),('Birthday of',(3,12)),('Ied Fitr',(10,1)),('Ied ul-Fitr',(10,1)),('Idul Fitri',(10,1)),('Ied Adha',(12,10)),('Idul Adha',(12,10)),('Eid ul-Adha',(12,10)),('Id-E-Milad',(3,12)),('Ascension of Prophet',(7,27)),('Eid',(10,1))]
LU={'Vesak':(4,15),'Wisakha':(4,15),'Buddha Pournima':(4,15),'Waisak':(4,15),'Makha':(1,15),'Asarnha':(6,15),'Deepavali':(9,30),'Diwali':(9,30),'Laxmi':(9,30),'Bhaubeej':(10,2),'Holi':(2,15),'Guru':(10,15),'Makar':(12,1),'Mahavir':(3,13),'Ram Nav':(3,9),'Ganesh':(8,4),'Dasara':(9,10),'Dasera':(9,10),'Mahashiv':(1,29),'Gudi':(3,1),'Nyepi':(3,1),'Saka':(3,1)}
n=0
for f in ('turkey','indonesia','india','singapore','thailand'):
    for lab,y,ds in dated(f):
        if not ds: print(f,lab,y,'EMPTY'); continue
        k=next((v for s,v in K if s in lab),None)
        if k:
            n+=1; e=near(*k,ds)
            if abs(e)>3 or (f!='turkey' and f!='indonesia' and abs(e)>2): print(f,lab,y,[str(x)[5:] for x in ds][:6],'off',e)
            continue
        l=next((v for s,v in LU.items() if s in lab),None)
        if l:
            n+=1; t=L.fest(y,l[0],min(l[1],29),8); e=min(((x-t).days for x in ds),key=abs)
            if abs(e)>3: print(f,lab,y,[str(x)[5:] for x in ds][:6],'lunar off',e)
F={'Lunar New Year':(1,1),'Spring Festival':(1,1),'Dragon Boat':(5,5),'Mid-Autumn':(8,15),'Moon Fest':(8,15)}
for lab,y,ds in dated('taiwan'):
    t=None
    for k,v in F.items():
        if k.lower() in lab.lower(): t=L.fest(y,*v)
    if 'Tomb' in lab: t=L.qingming(y)
    if t and ds:
        n+=1
        if min(abs((d-t).days) for d in ds)>3 or (t.weekday()<5 and t not in ds): print('taiwan',lab[:30],y,'true',t,t.strftime('%a'),'listed',[x.strftime('%m-%d') for x in ds][:12])
print(n)
