import re,datetime as D,sys
sys.path.insert(0,'/tmp/v')
import lunar as L
def segs(f):
    src=open(f'/repo/third-parties/calendar/src/{f}.rs').read().split('#[cfg(test)]')[0]
    src=src[src.index('is_business_day'):]
    lab=None;ctx=None;out=[];buf=''
    def flush():
        nonlocal buf
        if lab and buf.strip(): out.append((lab,ctx,buf))
        buf=''
    for line in src.splitlines():
        code,_,com=line.partition('//')
        mm=re.search(r'if \(?y == (\d+)\)? *(&|$)',code.strip()) or re.search(r'if \(?y == (\d+)\)',code)
        if mm:
            flush(); ctx=int(mm.group(1)); code=''
        buf+=code+' ' if not com else code+' '
        if com:
            flush(); lab=com.strip()
        if '{' in code: flush(); lab=None
    return out
def py(e):
    e=re.sub(r'w == Weekday::\w+|w != Weekday::\w+','True',e)
    e=re.sub(r'\((\d+)\.\.=(\d+)\)\.contains\(&d\)',r'(\1<=d<=\2)',e)
    e=re.sub(r'\((\d+)\.\.=(\d+)\)\.contains\(&y\)',r'(\1<=y<=\2)',e)
    e=e.replace('||',' or ').replace('&&',' and ').strip()
    e=re.sub(r'^(or|and)\s','',e).strip()
    e=e.split('{')[0].split('}')[-1]; e=e.replace('!','not '); e=re.sub(r'not =','!=',e)
    # balance
    while e.count(')')>e.count('('):
        i=e.rindex(')'); e=e[:i]+e[i+1:]
    while e.count('(')>e.count(')'):
        i=e.index('('); e=e[:i]+e[i+1:]
    return e
def dated(f):
    for lab,ctx,b in segs(f):
        e=py(b)
        if not e: continue
        ys=[int(x) for x in re.findall(r'y == (\d+)',e)] or ([ctx] if ctx else [])
        for y in sorted(set(ys)):
            ds=[]
            day=D.date(y,1,1)
            try:
                c=compile(e,'e','eval')
                while day.year==y:
                    if eval(c,{'y':y,'m':day.month,'d':day.day,'dd':day.timetuple().tm_yday,'em':-999}): ds.append(day)
                    day+=D.timedelta(1)
            except Exception as ex:
                print('PARSE',f,lab,ctx,e[:80],ex); break
            yield lab,y,ds
