"""Scenarios about service calendars."""
import feed as F
import gen as G
import harness as H


@G.fielded
def service_min(i, rng):
    b=G.B(); b.agency("A"); b.stop("s1",500000,500000); b.stop("s2",600000,500000); b.route("r","A")
    for k in range(12):
        G.rand_service(b,rng,"W%d"%k,span=rng.choice([14,28,42]))
        b.trip("t%d"%k,"r","W%d"%k,[("s1",0,0),("s2",600,600)])
    return H.Scenario("r%d"%i,b.f,[H.Step("ServiceMin",["-c"])])


@G.fielded
def cal_dates(i, rng):
    # ids built to provoke id collisions: A, A1, A11, ...
    b=G.B(); b.agency("A"); b.stop("s1",500000,500000); b.stop("s2",600000,500000); b.route("r","A")
    ids=rng.sample(["A","A1","A11","A2","A111","A12","B","A3"],rng.randint(1,8))
    for k in ids:
        if k!=ids[0] and rng.random()<.1: G.near_service(b,rng,ids[0],k)
        else: G.rand_service(b,rng,k,span=rng.choice([14,28]))
    ti=0
    for k in rng.sample(["T","T1","T11","T2","T12","T111","U"],rng.randint(1,7)):
        ti+=1
        b.trip(k,"r",rng.choice(ids),[("s1",60*ti,60*ti),("s2",600+60*ti,600+60*ti)])
        if rng.random()<.3: b.freq(k,60*ti,1000+60*ti,300,1)
    if rng.random()<.5: G.touch_trips(b.f,rng); G.touch_stop_times(b.f,rng)
    if i%3==0: G.add_fields(b.f,rng,("trips","stop_times","frequencies"))
    return H.Scenario("r%d"%i,b.f,[H.Step("CalDatesRem",["--remove-cal-dates"]+(["-F"] if i%3==0 else []))])


@G.fielded
def non_overlap(i, rng):
    b=G.B(); b.agency("A"); b.stop("s1",500000,500000); b.stop("s2",600000,500000); b.route("r","A")
    n=rng.randint(1,6)
    many=rng.random()<.4
    if many:
        # many services on the same few days of the week
        n=rng.randint(3,6); w=rng.randrange(7)
        for k in range(n):
            ds=rng.sample([0,1,2,3],rng.randint(1,3)) if rng.random()<.6 else [0,1,2,3]
            for d in ds: b.ex("W%d"%k,G.BASE+w+7*d,1)
    for k in range(0 if many else n):
        if rng.random()<.5:
            ds=set()
            w=rng.randrange(7)
            for _ in range(rng.randint(1,4)):
                ds.add(G.BASE+w+7*rng.choice([0,1,2,52,53,-52,104,51]))
            for d in ds: b.ex("W%d"%k,d,1)
        else: G.rand_service(b,rng,"W%d"%k,span=rng.choice([14,28]))
    for ti in range(rng.randint(4,9) if many else rng.randint(1,6)):
        k="T%d"%ti
        b.trip(k,"r","W%d"%rng.randrange(n),[("s1",60*ti,60*ti),("s2",600+60*ti,600+60*ti)])
        if rng.random()<.3: b.freq(k,60*ti,1000+60*ti,300,1)
    if rng.random()<.5: G.touch_trips(b.f,rng); G.touch_stop_times(b.f,rng)
    if rng.random()<.3:
        # ids like those of the trips to come
        b.trip("T0:"+rng.choice(["Monday","Tuesday","Saturday","Sunday"]),"r","W%d"%rng.randrange(n),[("s1",660,660),("s2",1260,1260)])
    ids=[t["trip_id"] for t in b.f["trips"]]
    if rng.random()<.5: b.transfer("","",4,"",from_trip_id=rng.choice(ids),to_trip_id=rng.choice(ids))
    if rng.random()<.3: b.transfer("s1","s2",2,60)
    return H.Scenario("r%d"%i,b.f,[H.Step("NonOverlap",["--non-overlapping-services"])])


