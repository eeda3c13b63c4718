"""Scenarios about trips and frequencies."""
import feed as F
import gen as G
import harness as H


@G.fielded
def frequency(i, rng):
    b=G.B(); b.agency("A")
    for k in range(3):
        y,x=G.grid(k); b.stop("S%d"%k,y,x)
    b.route("R1","A"); b.route("R2","A")
    b.service("W1"); b.service("W2",days=(0,0,0,0,0,1,1))
    # most days begin in the morning, some at midnight or the day after tomorrow
    base=rng.choice([28800]*8+[0,0,85800,172200,400000])
    step=rng.choice([60,600,300]); hs=rng.choice([[""],["","X","Y"]])
    dwell=rng.choice([[0],[0,60,300]])
    late=base==0 and rng.random()<.5
    if late: dwell=[rng.choice([60,300,600])]
    unt=rng.random()<.3; loose=unt or rng.random()<.1
    shp=[]
    if rng.random()<.15:
        y,x=G.grid(0); shp=["H1","H2"]
        b.shape("H1",[(y,x,0),(y,x+1000,100)]); b.shape("H2",[(y,x,0),(y,x+2000,100)])
    each=rng.choice([None]*4+["trip_short_name","block_id","direction_id","bikes_allowed","wheelchair_accessible"])
    for k in range(rng.randint(2,9)):
        s=base+step*rng.randrange(0,10); d0=rng.choice(dwell)
        if not late: d0=min(s,d0)
        if late: s+=28800; d0=dwell[0]
        sts=[("S0",s-d0,s),("S1",s+600,s+660+rng.choice([0]*9+[60])),("S2",s+1200,s+1200+rng.choice([0]*9+[60]))]
        if unt and rng.random()<.6: sts[1]=("S1",None,None)
        if loose: sts[1]=sts[1][:3]+({"timepoint":0},)
        kw={"trip_headsign":rng.choice(hs)}
        if rng.random()<.1: kw["direction_id"]=1
        if rng.random()<.1: kw[rng.choice(["trip_short_name","block_id"])]=rng.choice("XY")
        if rng.random()<.1: kw[rng.choice(["bikes_allowed","wheelchair_accessible"])]=rng.choice([1,2])
        if each: kw[each]=rng.choice([0,1]) if each=="direction_id" else rng.choice(["1","2"])
        if shp and rng.random()<.3: kw["shape_id"]=rng.choice(shp)
        t=b.trip("T%d"%k,rng.choice(["R1","R1","R1","R2"]),rng.choice(["W1","W1","W1","W2"]),sts,**kw)
        if rng.random()<(.7 if late else .3):
            f0=base+step*rng.randrange(0,3 if late else 10)
            for _ in range(rng.randint(1,2)):
                h=step*rng.randint(1,3); e=f0+h*rng.randint(1,4)-rng.choice([0,0,1,step//2])
                b.freq(t,f0,e,h,rng.choice([0,1,1])); f0=e+step*rng.randint(1,2)
    if rng.random()<.4:
        n=len(b.f['trips']); b.transfer("","",4,"",from_trip_id="T%d"%rng.randrange(n),to_trip_id="T%d"%rng.randrange(n))
    if rng.random()<.4: b.attribution("X","o",trip="T0")
    if rng.random()<.45:
        # other trips, whose ids look like those of trips that -T may have to add
        n=len(b.f['trips']); r=rng.choice(["R1","R2"])
        for k in range(n):
            for j in rng.choice([(2,),(2,3),(1,2,3,4)]):
                s=43200+60*k+7*j
                b.trip("T%d_%d"%(k,j),r,"W1",[("S0",s,s),("S2",s+1200+rng.choice([0,k*10+j]),s+2000)])
        if rng.random()<.6:
            # which also run at regular intervals
            s=50000
            for t in list(b.f["trips"]):
                if "_" in t["trip_id"] and rng.random()<.5: b.trip(t["trip_id"]+"x",r,"W1",[("S0",s,s),("S2",s+1200,s+2000)]); s+=100
        ids=[t["trip_id"] for t in b.f["trips"] if "_" in t["trip_id"]]
        for t in ids:
            if rng.random()<.5: b.transfer("S0","S2",1,"",**{rng.choice(["from_trip_id","to_trip_id"]):t})
        for _ in range(3):
            q=(rng.choice(ids),rng.choice(ids))
            if q not in {(x.get("from_trip_id"),x.get("to_trip_id")) for x in b.f["transfers"]}: b.transfer("","",4,"",from_trip_id=q[0],to_trip_id=q[1])
    if rng.random()<.4: G.touch_stop_times(b.f,rng,rng.choice([.1,.5]))
    fl=["-T"]; mn,mx=1,86400
    if rng.random()<.3:
        mn=rng.choice([1,step,step*2]); mx=rng.choice([step*2,step*4]); fl+=["--min-headway",str(mn),"--max-headway",str(mx)]
    return H.Scenario("q%d"%i,b.f,[H.Step("FrequencyMin",fl,{"minH":mn,"maxH":mx})])


@G.fielded
def trip_dup(i, rng):
    b=G.B(); b.agency("A")
    plats=[]
    for k in range(2):
        y,x=G.grid(k); b.stop("P%d"%k,y,x,"Station",1)
        for j in range(2): b.stop("S%d%d"%(k,j),y,x,"Station",0,"P%d"%k)
    y,x=G.grid(3); b.stop("Q",y,x)
    y,x=G.grid(4); b.stop("Q2",y,x)
    b.route("R1","A",typ=3); b.route("R2","A",typ=rng.choice([3,700,2,0]))
    n=rng.randint(2,5)
    for k in range(n):
        r=rng.random()
        if k and r<.25: G.near_service(b,rng,"W%d"%rng.randrange(k),"W%d"%k)
        elif r<.45: G.rand_service(b,rng,"W%d"%k,span=20,max_ex=rng.choice([3,5]))
        elif r<.5:
            d=G.BASE+rng.randrange(7); b.service("W%d"%k,(1,)*7,d,d,(),[d])   # never active
        elif r<.7:
            s=G.BASE+7*rng.randrange(3); b.service("W%d"%k,(1,1,1,1,1,0,0),s,s+rng.choice([4,6,11]))
        elif r<.85:
            s=G.BASE+rng.randrange(14); b.service("W%d"%k,(1,)*7,s,s+rng.choice([2,6,9]), rem=[s+1] if rng.random()<.4 else ())
        else:
            b.service("W%d"%k,s=None,add=rng.sample(range(G.BASE,G.BASE+14),rng.randint(1,4)))
    if rng.random()<.4:
        y,x=G.grid(0); b.shape("H1",[(y,x,0),(y,x+1000,1)]); b.shape("H2",[(y,x,0),(y,x+2000,2)])
    for k in range(rng.randint(2,8)):
        st=28800+rng.choice([0,0,0,600])
        p=rng.randrange(2)
        sts=[("S0%d"%p,st-rng.choice([0,0,60]),st),("Q" if rng.random()<.85 else "Q2",st+300,st+300+rng.choice([0]*9+[20])),("S1%d"%rng.randrange(2),st+600,st+600+rng.choice([0,0,60]))]
        kw={}
        if rng.random()<.15: kw["trip_headsign"]=rng.choice("XY")
        if rng.random()<.1: kw["trip_short_name"]=rng.choice("XY")
        if rng.random()<.1: kw["block_id"]=rng.choice("XY")
        if rng.random()<.1: kw["bikes_allowed"]=rng.choice([1,2])
        if rng.random()<.1: kw["wheelchair_accessible"]=rng.choice([1,2])
        if rng.random()<.2 and b.f['shapes']:
            kw["shape_id"]=rng.choice(["H1","H2"])
        if b.f['shapes'] and rng.random()<.4:
            m=rng.choice([1,2])   # measured along one of the shapes
            sts=[x+({"shape_dist_traveled":m*q*.25},) for q,x in enumerate(sts)]
        b.trip("T%d"%k,rng.choice(["R1","R1","R2"]),"W%d"%rng.randrange(n),sts,**kw)
        if rng.random()<.1: b.freq("T%d"%k,st,st+600,200)
    if rng.random()<.2: G.touch_stop_times(b.f,rng,.2)
    if rng.random()<.25: G.retidied(b.f,rng,("service_id",),3)
    n=len(b.f['trips'])
    if rng.random()<.4:
        b.transfer("","",4,"",from_trip_id="T%d"%rng.randrange(n),to_trip_id="T%d"%rng.randrange(n))
    for j in range(rng.choice([0,0,1,2])): b.attribution("X%d"%j,"o%d"%j,trip="T%d"%rng.randrange(n))
    fz=rng.random()<.5; ag=rng.random()<.3
    return H.Scenario("q%d"%i,b.f,[H.Step("TripDup",["-I"]+(["--red-trips-fuzzy"] if fz else [])+(["--red-trips-aggressive"] if ag else []),{"fuzzy":fz,"aggressive":ag})])


