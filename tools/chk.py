from ext import *
F={'Lunar New Year':(1,1),'Spring Festival':(1,1),'Chinese New Year':(1,1),"Buddha's birthday":(4,8),'Birth of Buddha':(4,8),'Tuen Ng':(5,5),'Dragon Boat':(5,5),'Mid-autumn':(8,15),'Mid-Autumn':(8,15),'Moon Fest':(8,15),'Harvest Moon':(8,15),'Chuseok':(8,15),'Chung Yeung':(9,9)}
n=0
for f,tz in(('hongkong',8),('china',8),('taiwan',8),('singapore',8),('southkorea',9)):
    for lab,y,ds in dated(f):
        if not ds: print(f,lab,y,'EMPTY'); continue
        t=None
        for k,v in F.items():
            if k.lower() in lab.lower(): t=L.fest(y,*v,tz=tz)
        if 'Ching' in lab or 'Tomb' in lab: t=L.qingming(y,tz)
        if t is None: continue
        n+=1
        # nearest
        near=min(abs((d-t).days) for d in ds); far=max(abs((d-t).days) for d in ds)
        if (t.weekday()<5 and t not in ds) or near>3 or far>9: print(f,lab[:30],y,'true',t,t.strftime('%a'),'listed',[x.strftime('%m-%d') for x in ds][:12])
print(n)
