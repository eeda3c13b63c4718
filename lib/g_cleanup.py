"""Scenarios about orphans and duplicate agencies, routes and stops."""
import feed as F
import gen as G
import harness as H


@G.fielded
def orphan(i, rng):
    f=G.rich(rng,n_trips=rng.choice([2,3,5]))
    b=G.B(); b.f=f
    st=[r['stop_id'] for r in f['stops']]
    # more orphans and odd trips
    if rng.random()<.4: G.named(f); b.agency("AX","unused")
    if rng.random()<.4:
        b.route("RX",f['agency'][0]['agency_id'])
        if rng.random()<.5: b.fare("FX",agency=f["agency"][0]["agency_id"]); b.rule("FX","RX","Z0","Z1","Z0")
        if rng.random()<.5: b.transfer("","",1,"",from_route_id="RX",to_route_id=f['trips'][0]['route_id'])
        if rng.random()<.5: b.transfer("","",1,"",from_route_id=f['trips'][0]['route_id'],to_route_id="RX")
        if rng.random()<.5: b.attribution("XX",route="RX")
    if rng.random()<.5:
        b.stop("PX",3000000,1000000,"st",1); b.stop("SX",3000000,1000000,"s",0,"PX")
        if rng.random()<.7: b.stop("BX",3000000,1000000,"",4,"SX")
        if rng.random()<.2: b.stop("EX",3000000,1000000,"e",2,"PX")
        px=[r['stop_id'] for r in f['stops'] if r['stop_id'] in ("PX","SX","BX")]
        if rng.random()<.4: b.transfer(rng.choice(px),rng.choice(px+st),2,60)
        if rng.random()<.2: b.pathway("YX","SX",rng.choice(["BX","SX"]) if any(r['stop_id']=="BX" for r in f['stops']) else "SX")
    if rng.random()<.3: b.service("WX")
    if rng.random()<.3: b.shape("HX",[(500000,500000,None),(500000,501000,None)])
    if rng.random()<.3: b.level("LX",1)
    stations=[r['stop_id'] for r in f['stops'] if r['location_type']==1]
    if len(stations)>1 and rng.random()<.5: b.transfer(stations[0],stations[1],2,60)
    for t in f['trips']:
        if rng.random()<.15:
            for x in f['stop_times']:
                if x['trip_id']==t['trip_id']: x[rng.choice(['pickup_type','drop_off_type'])]=1
            if rng.random()<.3:
                for x in f['stop_times']:
                    if x['trip_id']==t['trip_id'] and rng.random()<.5: x[rng.choice(['continuous_pickup','continuous_drop_off'])]=0
    for r in f['routes']:
        if rng.random()<.1: r[rng.choice(['continuous_pickup','continuous_drop_off'])]=0
    if rng.random()<.2: b.trip("TE",f['routes'][0]['route_id'],f['trips'][0]['service_id'],[])
    if rng.random()<.3:
        # thin out: delete trips
        keep=set(r['trip_id'] for r in f['trips'][:2])
        f['trips']=[r for r in f['trips'] if r['trip_id'] in keep]
        for t in ('stop_times','frequencies'): f[t]=[r for r in f[t] if r['trip_id'] in keep]
        f['transfers']=[r for r in f['transfers'] if r.get('from_trip_id','') in keep|{''} and r.get('to_trip_id','') in keep|{''}]
        f['attributions']=[r for r in f['attributions'] if r.get('trip_id','') in keep|{''}]
    return H.Scenario("q%d"%i,f,[H.Step("Orphan",["-O"])])


def vary(rng,rows,idf,cols,nid,n):
    """append near-duplicates of rows, each with at most one differing column"""
    out=[]
    for k in range(n):
        r=dict(rng.choice(rows)); r[idf]=nid+"x"*rng.randrange(3)+str(k)
        if rng.random()<.4:
            c,vals=rng.choice(cols); r[c]=rng.choice(vals)
        out.append(r)
    rows+=out; return out


@G.fielded
def agency_dup(i, rng):
    f=G.rich(rng,n_trips=3)
    G.named(f)
    vary(rng,f['agency'],'agency_id',[('agency_name',['n1','n2']),('agency_url',['http://u1.example','http://u2.example']),('agency_lang',['de','en']),('agency_phone',['1','2']),('agency_fare_url',['http://f.example']),('agency_email',['a@b.example'])],'V',rng.randint(1,4))
    ids=[r['agency_id'] for r in f['agency']]
    for r in f['routes']: r['agency_id']=rng.choice(ids)
    b=G.B(); b.f=f
    for r in f['fare_attributes']: r['agency_id']=rng.choice(ids)
    for k in range(rng.randrange(3)): b.attribution("XA%d"%k,rng.choice(["o1","o2"]),agency=rng.choice(ids))
    return H.Scenario("q%d"%i,f,[H.Step("AgencyDup",["-A"])])


@G.fielded
def route_dup(i, rng):
    f=G.rich(rng,n_trips=4)
    ags=[r['agency_id'] for r in f['agency']]
    vary(rng,f['routes'],'route_id',[('route_short_name',['n1','n2']),('route_long_name',['l1']),('route_desc',['d']),('route_sort_order',['1','2']),('route_type',[0,1]),('route_url',['http://f.example','http://g.example']),('route_color',['FF0000','0000FF']),('route_text_color',['FF0000']),('continuous_pickup',[0,2]),('continuous_drop_off',[0,3]),('agency_id',ags)],'V',rng.randint(1,4))
    ids=[r['route_id'] for r in f['routes']]
    for r in f['trips']: r['route_id']=rng.choice(ids)
    b=G.B(); b.f=f
    for k in range(rng.randrange(3)): b.attribution("XA%d"%k,rng.choice(["o1","o2"]),route=rng.choice(ids))
    if rng.random()<.5:
        f['fare_rules']=[]
        f['fare_attributes']=[]
        for k in range(2):
            b.fare("F%d"%k,agency=ags[0])
            for _ in range(rng.randint(0,4)):
                b.rule("F%d"%k,rng.choice(ids[-3:]+[""]),rng.choice(["Z0",""]),rng.choice(["Z1",""]),rng.choice(["Z1",""]))
    else:
        for r in list(f['fare_rules']):
            if rng.random()<.7:
                for i2 in ids:
                    if rng.random()<.6: b.rule(r['fare_id'],i2,r['origin_id'],r['destination_id'],r['contains_id'])
    if rng.random()<.5:
        f['transfers']=[]
        b.transfer("","",1,"",from_route_id=rng.choice(ids),to_route_id=rng.choice(ids))
    return H.Scenario("q%d"%i,f,[H.Step("RouteDup",["-R"])])


@G.fielded
def stop_dup(i, rng):
    b=G.B(); b.agency("A"); b.route("R","A"); b.service("W")
    nl=rng.randint(0,4)
    lv=[]
    for k in range(nl):
        lv.append("L%d"%k+"x"*rng.randrange(2)); b.level(lv[-1],rng.choice([0,0,1,1,"0.5","-1"]),rng.choice(["a","b"]))
    af=rng.random()<.3
    cnt=0
    st,pl,oth=[],[],[]
    def nid(p):
        nonlocal cnt
        cnt+=1
        return rng.choice(["","x:","x:y:"])+p+str(cnt)
    focus=rng.choice([None]*3+["stop_url"]*2+["level_id","wheelchair_boarding","stop_code","stop_desc","stop_timezone"])
    def kw():
        r={}
        if lv and rng.random()<.4: r["level_id"]=rng.choice(lv)
        if rng.random()<.1: r["wheelchair_boarding"]=rng.choice([1,2])
        if rng.random()<.1: r["stop_code"]=rng.choice("cd")
        if rng.random()<.1: r["stop_desc"]=rng.choice("cd")
        if rng.random()<.1: r["stop_url"]=rng.choice(["http://x.example","http://y.example"])
        if rng.random()<.1: r["stop_timezone"]=rng.choice(["Europe/Paris","Europe/Rome"])
        if af and rng.random()<.2: r["x_s"]=rng.choice("12")
        if focus:
            # the stops differ in one thing only
            r={focus:rng.choice({"stop_url":["","http://x.example","http://y.example"],"level_id":lv or [""],"wheelchair_boarding":[0,1,2],
                                 "stop_code":["","c","d"],"stop_desc":["","c"],"stop_timezone":["","Europe/Paris"]}[focus])}
        return r
    npl=rng.randint(1,3)
    chain=rng.random()<.3
    for p in range(npl):
        y,x=G.grid(p)
        mystations=[]
        for _ in range(rng.randint(2,5) if chain else rng.randint(0,3)):
            sid=nid("P"); q=kw() if not chain or rng.random()<.2 else {}; q.pop("stop_timezone",None)
            # in a chain, each one is near the next, but not near the one behind it
            b.stop(sid,y+rng.choice([0,360,720,1080] if chain else [0,0,200,2000]),x,rng.choice(["N","N","M"]),1,**q); mystations.append(sid)
        for _ in range(rng.randint(1,4)):
            sid=nid("S")
            par=rng.choice(mystations) if mystations and rng.random()<.8 else ""
            if rng.random()<.2: pass
            b.stop(sid,y+rng.choice([0,33,66,99] if chain else [0,0,9,30,180]),x+rng.choice([0] if chain else [0,0,9,180]),rng.choice(["n","n","m"]),0,par,zone_id=rng.choice(["Z","Z","Y"]) if rng.random()<.2 else "Z",platform_code=rng.choice(["","","1"]),**kw())
            pl.append(sid)
            if rng.random()<.5 and par:
                for _ in range(rng.randint(1,2)):
                    bid=nid("B"); b.stop(bid,y,x,"",4,sid); oth.append(bid)
        if mystations:
            for _ in range(rng.randint(0,2)):
                eid=nid("E"); b.stop(eid,y+rng.choice([0,9,180]),x,"e",2,rng.choice(mystations)); oth.append(eid)
        st+=mystations
    for k in range(rng.randint(1,3)):
        n=min(len(pl),rng.randint(2,4))
        if n<2: n=1
        t=28800; sts=[]
        for s in rng.sample(pl,n): sts.append((s,t,t)); t+=600
        b.trip("T%d"%k,"R","W",sts)
    alls=st+pl
    keys=set()
    for k in range(rng.randint(0,8)):
        a,c=rng.choice(alls),rng.choice(alls)
        if (a,c) in keys: continue
        keys.add((a,c)); b.transfer(a,c,rng.choice([0,1,2]),rng.choice(["",60]),**({"x_t":str(k)} if af else {}))
    if rng.random()<.2: b.transfer(rng.choice(alls),rng.choice(alls),1,"",from_route_id="R",to_route_id="R")
    pn=pl+oth
    # platforms with boarding areas may still have pathways here
    for k in range(rng.randint(0,3)):
        b.pathway("Y%d"%k,rng.choice(pn),rng.choice(pn))
    fz=rng.random()<.25
    return H.Scenario("q%d"%i,b.f,[H.Step("StopDup",["-P"]+(["--red-stops-fuzzy"] if fz else [])+(["-F"] if af else []),{"fuzzy":fz})])


