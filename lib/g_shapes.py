"""Scenarios about shapes and the measurement of stop times.

Shapes run along parallels and meridians near the equator, on multiples of
10 micro-degrees, so that the specification can compute lengths exactly.
"""
import feed as F
import gen as G
import harness as H


def line(rng, y, x, n, straight=None, step=(300, 3000), jitter=0):
    """n places; successive ones share a latitude or a longitude."""
    pts, north = [], True
    if straight is None:
        straight = rng.random() < 0.5
    for k in range(n):
        pts.append([y, x + (rng.choice([0, jitter]) if 0 < k < n - 1 else 0)])
        d = 10 * rng.randrange(step[0] // 10, step[1] // 10)
        if not straight:
            north = rng.random() < 0.5
        if north:
            y += d
        else:
            x += d
    return pts


def measure(rng, pts, mode, unit=None):
    """Measures for the points: full, none, holes, or flat."""
    unit = unit or rng.choice([1, 100, 1000])
    out, m = [], rng.choice([0, 0, 0, 5]) * unit
    flat = rng.choice([0, 7])
    for k, p in enumerate(pts):
        if k:
            m += unit * rng.randint(1, 9)
        if mode == "full":
            v = m
        elif mode == "none":
            v = None
        elif mode == "holes":
            v = m if rng.random() < 0.5 else None
        else:
            v = flat if rng.random() < 0.7 else None
        out.append((p[0], p[1], None if v is None else v / 1000.0 if unit == 1 else v // 1000
                    if v % 1000 == 0 else v / 1000.0))
    return out


def base(rng):
    b = G.B()
    b.agency("A")
    b.route("R", "A")
    b.service("W")
    return b


def trips_on(b, rng, sid, pts, k, dists, offset=(0,)):
    """A trip along the shape; its stops lie on (or beside) the points."""
    n = len(pts)
    idx = sorted(rng.sample(range(n), min(n, rng.randint(2, 5))))
    t, sts, m = 28800, [], 0
    for j, q in enumerate(idx):
        s = "S%d_%d" % (k, j)
        b.stop(s, pts[q][0], pts[q][1] + rng.choice(offset))
        ex = {}
        m += rng.randint(1, 3000)
        if dists == "all" or (dists == "some" and rng.random() < 0.5):
            ex["shape_dist_traveled"] = m / 100.0
        sts.append((s, t, t, ex))
        t += 600
    b.trip("T%d" % k, "R", "W", sts, shape_id=sid)


def mode(rng):
    return rng.choice(["full", "none", "holes", "holes", "flat"])


@G.fielded
def shape_measure(i, rng):
    b = base(rng)
    for k in range(rng.randint(1, 4)):
        y, x = G.grid(k)
        pts = line(rng, y, x, rng.choice([1, 2, 3, 5, 8]))
        b.shape("H%d" % k, measure(rng, pts, mode(rng)))
        trips_on(b, rng, "H%d" % k, pts, k, rng.choice(["all", "some", "none"]))
    fl = ["-m"]
    if rng.random() < 0.3:
        G.add_fields(b.f, rng, ("shapes",))
        fl.append("-F")
    return H.Scenario("", b.f, [H.Step("ShapeMeasure", fl)])


@G.fielded
def shape_min(i, rng):
    b = base(rng)
    for k in range(rng.randint(1, 4)):
        y, x = G.grid(k)
        jit = rng.choice([0, 3, 6, 60, 200])
        pts = line(rng, y, x, rng.choice([1, 2, 3, 5, 8, 12]), jitter=jit,
                   straight=rng.random() < 0.7)
        r = rng.random()
        if r < 0.15 and len(pts) > 2:         # out, and part of the way back
            pts += [list(p) for p in pts[rng.randrange(len(pts) - 1):-1][::-1]]
        elif r < 0.3 and len(pts) > 2:        # a loop
            pts.append(list(pts[0]))
        b.shape("H%d" % k, measure(rng, pts, mode(rng)))
        trips_on(b, rng, "H%d" % k, pts, k, rng.choice(["all", "some", "none"]))
    fl = ["-s"]
    if rng.random() < 0.4:
        G.add_fields(b.f, rng, ("shapes",))
        fl.append("-F")
    return H.Scenario("", b.f, [H.Step("ShapeMin", fl)])


@G.fielded
def shape_dup(i, rng):
    b = base(rng)
    for k in range(rng.randint(1, 3)):
        y, x = G.grid(k)
        pts = line(rng, y, x, rng.choice([2, 3, 5, 8]))
        mo, un, sd = rng.choice(["full", "full", "none", "holes"]), rng.choice([1, 100]), \
            rng.random()
        import random
        for c in range(rng.randint(1, 4)):
            q = [list(p) for p in pts]
            r = rng.random()
            if r < 0.3:
                for p in q:
                    p[0] += rng.choice([0, 2, 4])
            elif r < 0.5:
                q[rng.randrange(len(q))][1] += rng.choice([60, 500])
            elif r < 0.6:
                q = q[::-1]
            elif r < 0.7 and len(q) > 2:
                q = q[:-1]
            elif r < 0.85:
                # the same way, with a detour
                j = rng.randrange(len(q))
                q[j + 1:j + 1] = [[q[j][0], q[j][1] + rng.choice([60, 300, 500, 5000])], list(q[j])]
            m = measure(random.Random(sd if rng.random() < 0.7 else rng.random()), q, mo, un)
            sid = "H%d_%d" % (k, c)
            b.shape(sid, m)
            trips_on(b, rng, sid, q, 10 * k + c, rng.choice(["all", "some", "none"]))
    return H.Scenario("", b.f, [H.Step("ShapeDup", ["-S"])])


@G.fielded
def stop_measure(i, rng):
    b = base(rng)
    for k in range(rng.randint(1, 4)):
        y, x = G.grid(k)
        pts = line(rng, y, x, rng.choice([2, 2, 3, 5, 8]), straight=rng.random() < 0.6,
                   step=rng.choice([(3000, 12000), (3000, 12000), (15000, 39000)]))
        d = rng.randrange(4)                  # north, east, south, west
        pts = [[y + s * v, x + s * u] if d % 2 == 0 else [y + s * u, x + s * v]
               for p in pts for s in (1 if d < 2 else -1,) for v, u in ((p[0] - y, p[1] - x),)]
        if rng.random() < 0.15 and len(pts) > 2:        # out and back
            pts += [list(p) for p in pts[:-1][::-1]]
        b.shape("H%d" % k, measure(rng, pts, mode(rng)))
        dists = rng.choice(["all", "some", "none", "none"])
        off = rng.choice([(0,), (0, 10, 900), (0, -500), (3500, 0), (9000,)])
        if rng.random() < 0.6:
            trips_on(b, rng, "H%d" % k, pts, k, dists, offset=off)
            continue
        # calls anywhere along the way, now and then backwards
        ps = sorted(rng.random() * (len(pts) - 1) for _ in range(rng.randint(2, 5)))
        if rng.random() < 0.3:
            j = rng.randrange(1, len(ps))
            ps[j - 1], ps[j] = ps[j], ps[j - 1]
        sts, m = [], 0
        for j, q in enumerate(ps):
            u, v = pts[int(q)], pts[int(q) + 1]
            at = [round(u[c] + (v[c] - u[c]) * (q - int(q))) + rng.choice(off) * (rng.random() < 0.5)
                  for c in (0, 1)]
            b.stop("S%d_%d" % (k, j), at[0], at[1])
            ex = {}
            m += rng.randint(1, 3000)
            if dists == "all" or (dists == "some" and rng.random() < 0.5):
                ex["shape_dist_traveled"] = m / 100.0
            sts.append(("S%d_%d" % (k, j), 28800 + 600 * j, 28800 + 600 * j, ex))
        b.trip("T%d" % k, "R", "W", sts, shape_id="H%d" % k)
    return H.Scenario("", b.f, [H.Step("StopMeasure", ["-r"])])


@G.fielded
def shape_dup_long(i, rng):
    """The same long way, with points added on different parts of it."""
    b = base(rng)
    y, x = 500000, 500000
    corners, north = [(y, x)], rng.random() < 0.5
    unit = rng.choice([20000, 60000, 150000])
    style = rng.random() < 0.5
    for _ in range(rng.randint(4, 6) if style else rng.randint(2, 6)):
        d = unit * rng.randint(1, 3) + 10 * rng.randrange(1000)
        if north:
            y += d
        else:
            x += d
        corners.append((y, x))
        north = not north
    if rng.random() < 0.5:
        corners.reverse()
    for c in range(rng.randint(2, 4)):
        pts = [corners[0]]
        dense = rng.randrange(1, len(corners) - 1)       # many points in the middle of one leg
        for leg, (a, z) in enumerate(zip(corners, corners[1:])):
            n = rng.choice([0, 0, 1, 4])
            at = sorted(rng.sample(range(1, 100), n))
            if style:
                at = list(range(48, 55)) if leg == dense else []
            for q in at:
                pts.append((a[0] + (z[0] - a[0]) * q // 100, a[1] + (z[1] - a[1]) * q // 100))
            pts.append(z)
        m, out = 0, []
        for k, p in enumerate(pts):
            if k:
                m += abs(p[0] - pts[k - 1][0]) + abs(p[1] - pts[k - 1][1])
            out.append((p[0], p[1], "%d.%03d" % (m // 1000, m % 1000)))
        b.shape("H%d" % c, out)
        trips_on(b, rng, "H%d" % c, pts, c, "none")
    return H.Scenario("", b.f, [H.Step("ShapeDup", ["-S"])])


def snap(i, rng):
    """Stops beside their shapes, with and without measures."""
    b = base(rng)
    if rng.random() < 0.3:
        b.stop("ST", 300000, 300000, lt=1)
    for k in range(rng.randint(1, 3)):
        y, x = G.grid(k)
        pts = line(rng, y, x, rng.choice([1, 2, 2, 3, 5, 8]), straight=rng.random() < 0.5,
                   step=rng.choice([(300, 3000), (2000, 9000)]))
        r = rng.random()
        if r < 0.2 and len(pts) > 2:          # out and back
            pts += [list(p) for p in pts[:-1][::-1]]
        elif r < 0.3 and len(pts) > 2:        # standing still
            j = rng.randrange(len(pts))
            pts.insert(j, list(pts[j]))
        mo = rng.choice(["full", "full", "full", "none", "none", "holes", "flat"])
        ms = measure(rng, pts, mo)
        if mo == "full" and len(ms) > 2 and rng.random() < 0.3:      # a repeated measure
            j = 1 if rng.random() < 0.5 else rng.randrange(1, len(ms))
            ms[j] = ms[j][:2] + (ms[j - 1][2],)
        b.shape("H%d" % k, ms)
        known = [round(1000 * float(p[2])) for p in ms if p[2] is not None]
        off = rng.choice([(0,), (0, 700), (0, 1100, -950, 5000), (0, 1100, -950, 5000),
                          (0, 1100, -950, 5000)])
        dists = rng.choice(["all", "some", "none"])
        for n in range(rng.randint(1, 2)):
            sid = "T%d_%d" % (k, n)
            idx = sorted(rng.sample(range(len(pts)), min(len(pts), rng.randint(2, 5))))
            t, sts = 28800, []
            at = sorted(rng.randint(min(known), max(known)) if rng.random() < 0.6 else
                        rng.choice(known) for _ in idx) if known else \
                sorted(rng.sample(range(1, 9000), len(idx)))
            for j, q in enumerate(idx):
                s = "S%d_%d" % (k, q) if rng.random() < 0.7 else "%d#S%d_%d" % (n, k, q)
                if sts and rng.random() < 0.2:               # the same stop once more
                    s = rng.choice(sts)[0]
                if not any(r["stop_id"] == s for r in b.f["stops"]):
                    lat, lon = pts[q][0], pts[q][1] + rng.choice(off)
                    if rng.random() < 0.3:
                        lat, lon = pts[q][0] + rng.choice(off), pts[q][1]
                    b.stop(s, lat, lon, parent="ST" if rng.random() < 0.2 and
                           b.f["stops"] and b.f["stops"][0]["stop_id"] == "ST" else "",
                           **({"zone_id": "Z%d" % j, "stop_code": "c%d" % j,
                               "platform_code": "p", "stop_desc": "d%d" % j,
                               "stop_url": "http://s.example/%d" % j, "wheelchair_boarding": 1,
                               "stop_timezone": "Europe/Paris"} if rng.random() < 0.3 else {}))
                    if rng.random() < 0.2:
                        if not b.f["levels"]:
                            b.level("L", 1, "up")
                        b.f["stops"][-1]["level_id"] = "L"
                ex = {}
                if dists == "all" or (dists == "some" and rng.random() < 0.5):
                    ex["shape_dist_traveled"] = at[j] / 1000.0
                sts.append((s, t, t, ex))
                t += 600
            b.trip(sid, "R", "W", sts, shape_id="H%d" % k if rng.random() < 0.9 else "")
    fl = ["--snap-stops"]
    if rng.random() < 0.4:
        G.add_fields(b.f, rng, ("stops", "shapes"))
        fl.append("-F")
    return H.Scenario("", b.f, [H.Step("Snap", fl)])
