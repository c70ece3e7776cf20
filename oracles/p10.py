"""P10 runtime contracts: which sources a region holds (friends of friends, circular scenes)."""
import numpy as np
from oracles.common import *
setup()
from oracles import fix, scenes
from forcepho.superscene import SuperScene, LinkedSuperScene
R = Run()


def linked(rng, **kw):
    bands = ["A"]
    n = int(rng.integers(2, 50))
    cat = scenes.catalog(rng, n, bands, size=float(rng.choice([2, 5, 10, 20])))
    roi = rng.uniform(.05, float(rng.choice([.5, 1.5])), n)
    a = dict(maxactive_per_patch=int(rng.integers(1, 25)), boundary_radius=float(rng.uniform(1.5, 6)),
             minradius=float(rng.uniform(.2, 1)), buffer=float(rng.uniform(0, .5)), strict=bool(rng.random() < .5))
    a.update(kw)
    db = LinkedSuperScene(cat.copy(), bands, roi=roi, **a)
    xy, m = scenes.scene_xy(cat)
    return db, cat, roi, xy, m, a


def linkmatrix(xy, roi):
    d = np.hypot(*(xy[:, None] - xy[None]).transpose(2, 0, 1))
    s = roi[:, None] + roi[None]
    if np.any(np.abs(d / s - 1) < 1e-6):
        raise Skip
    return d < s


def components(L):
    n = len(L)
    lab = -np.ones(n, int)
    for i in range(n):
        if lab[i] >= 0:
            continue
        st = [i]
        lab[i] = i
        while st:
            k = st.pop()
            for j in np.flatnonzero(L[k]):
                if lab[j] < 0:
                    lab[j] = i
                    st.append(j)
    return lab


@R.prop(n=120, tmax=20)
def groups(rng):
    """a group is exactly the connected component of the overlap graph"""
    db, cat, roi, xy, m, a = linked(rng)
    lab = components(linkmatrix(xy, roi))
    for i in rng.permutation(len(cat))[:8]:
        g = list(db.grow_source(int(i)))
        expect(len(set(g)) == len(g), f"members repeated: {g}")
        expect(set(int(x) for x in g) == set(np.flatnonzero(lab == lab[i]).tolist()),
               f"group of {i}: {sorted(int(x) for x in g)} expected {np.flatnonzero(lab == lab[i])}")
        expect(int(g[0]) == int(i), "a group starts with its seed")
    gid = db.make_group_catalog()
    expect(len(gid) == len(cat), "one group id per source")
    for i in range(len(cat)):
        same(gid == gid[i], lab == lab[i], f"group catalog, source {i}")
    u = np.unique(gid)
    same(u, np.arange(len(u)), "group ids are consecutive from zero")


@R.prop(n=120, tmax=10)
def overlaps(rng):
    db, cat, roi, xy, m, a = linked(rng)
    r = float(rng.uniform(.1, 4))
    k = int(rng.integers(len(cat)))
    ex = bool(rng.random() < .5)
    c = xy[k] if ex else xy[k] + rng.normal(size=2)
    d = np.hypot(*(xy - c).T) / (r + roi)
    if np.any(np.abs(d - 1) < 1e-6):
        raise Skip
    want = d < 1
    if ex:
        want[k] = False
    got = db.find_overlaps(c, r, seed_index=k) if ex else db.find_overlaps(c, r)
    expect(sorted(int(x) for x in got) == np.flatnonzero(want).tolist(), "overlapping sources")
    got = [int(x) for x in (db.find_overlaps(c, r, seed_index=k, sort=True) if ex else db.find_overlaps(c, r, sort=True))]
    expect(sorted(got) == np.flatnonzero(want).tolist(), "overlapping sources (sorted)")
    expect(np.all(np.diff(d[got]) >= -1e-7), "sorted by distance in units of the radii")
    ra, dec = cat["ra"][k] + 1e-5, cat["dec"][k]
    c = scenes.to_xy(m, ra, dec)
    d = np.hypot(*(xy - c).T) / (r + roi)
    if np.any(np.abs(d - 1) < 1e-6):
        raise Skip
    t = db.overlap_circle(ra, dec, r)
    expect(sorted(t["source_index"].tolist()) == np.flatnonzero(d < 1).tolist(), "sources overlapping a circle")


@R.prop(n=150, tmax=20)
def linked_scene(rng):
    """contents of a linked region"""
    db, cat, roi, xy, m, a = linked(rng)
    L = linkmatrix(xy, roi)
    lab = components(L)
    k = int(rng.integers(len(cat)))
    mf = None if rng.random() < .5 else int(rng.integers(0, 6))
    region, active, fixed = db.checkout_region(seed_index=k, max_fixed=mf)
    expect(active is not None, "a region seeded in an idle catalog is valid")
    ai = active["source_index"].tolist()
    fi = [] if fixed is None else fixed["source_index"].tolist()
    mx = a["maxactive_per_patch"]
    expect(1 <= len(ai) <= mx, f"{len(ai)} active sources, at most {mx}")
    expect(k in ai, "the seed is active")
    # expected composition
    d = np.hypot(*(xy - xy[k]).T) / (a["boundary_radius"] + roi)
    if np.any(np.abs(d - 1) < 1e-6):
        raise Skip
    order = [i for i in np.argsort(d) if d[i] < 1]
    gap = np.diff(np.sort(d[order]))
    if len(gap) and gap.min() < 1e-9:
        raise Skip
    want, partial = [], None
    for s in order:
        if s in want:
            continue
        g = np.flatnonzero(lab == lab[s]).tolist()
        if len(g) > mx - len(want):
            if not a["strict"] or not want:
                partial = (s, set(g), mx - len(want))
            break
        want += g
    expect(set(want) <= set(ai), f"complete groups in order of distance: {sorted(ai)} lacks {sorted(set(want) - set(ai))}")
    rest = set(ai) - set(want)
    if partial is None:
        expect(not rest, f"sources {rest} do not belong")
    else:
        expect(rest <= partial[1] and len(rest) == partial[2], "remaining slots are filled from the next group")
        if partial[2] > 0:
            expect(partial[0] in rest, "the closest member of a partial group is active")
            # grown outwards from that member
            expect(len(components(L[np.ix_(sorted(rest), sorted(rest))])) == 0 or
                   len(set(components(L[np.ix_(sorted(rest), sorted(rest))]).tolist())) == 1, "a partial group is connected")
    # region: centred on the mean, encloses every active circle of influence
    close([region.ra, region.dec], [cat["ra"][ai].mean(), cat["dec"][ai].mean()], rtol=1e-12, what="centre")
    c = scenes.to_xy(m, region.ra, region.dec)
    rad = max((np.hypot(*(xy[ai] - c).T) + roi[ai]).max() + a["buffer"], a["minradius"])
    close([region.radius * 3600], [rad], rtol=1e-6, what="radius")
    # fixed: closest overlapping the (enlarged) region
    dm = np.hypot(*(xy - c).T) / (1.2 * rad + roi)
    if np.any(np.abs(dm - 1) < 1e-6):
        raise Skip
    cand = [i for i in np.argsort(dm) if dm[i] < 1 and i not in ai]
    lim = mx if mf is None else mf
    expect(set(fi) == set(int(x) for x in cand[:lim]) or
           np.allclose(sorted(dm[fi]), sorted(dm[cand[:lim]]), atol=1e-9), f"fixed sources {sorted(fi)} expected {sorted(cand[:lim])}")
    expect(len(fi) == len(cand[:lim]), "number of fixed sources")


@R.prop(n=60, tmax=10)
def linked_refusal(rng):
    """a region is refused exactly when one of its candidates or members is active elsewhere"""
    db, cat, roi, xy, m, a = linked(rng)
    lab = components(linkmatrix(xy, roi))
    busy = rng.random(len(cat)) < .1
    db.sourcecat["is_active"] = busy
    k = int(rng.integers(len(cat)))
    region, active, fixed = db.checkout_region(seed_index=k)
    d = np.hypot(*(xy - xy[k]).T) / (a["boundary_radius"] + roi)
    if np.any(np.abs(d - 1) < 1e-6):
        raise Skip
    if np.any(busy[d < 1]):
        expect(active is None, "region overlapping an active source accepted")
    if not np.any(busy & np.isin(lab, lab[d < 1])):
        expect(active is not None, "region refused without any active source in reach")


@R.prop(n=150, tmax=20)
def circular_scene(rng):
    n = int(rng.integers(1, 60))
    cat = scenes.catalog(rng, n, ["A"], size=float(rng.choice([2, 5, 10, 20])))
    a = dict(maxactive_per_patch=int(rng.integers(1, 20)), boundary_radius=float(rng.uniform(4, 9)),
             maxradius=float(rng.uniform(1, 5)), minradius=float(rng.uniform(.2, 1.5)), nscale=float(rng.uniform(1, 4)))
    db = SuperScene(cat.copy(), ["A"], **a)
    if rng.random() < .4:
        # sizes may have been updated since ingestion
        db.sourcecat["rhalf"] = rng.uniform(.05, .3, n)
    busy = rng.random(n) < .05
    if rng.random() < .4:
        db.sourcecat["is_active"] = busy
    else:
        busy[:] = False
    xy, m = scenes.scene_xy(cat)
    k = int(rng.integers(n))
    rh = db.sourcecat["rhalf"].copy()
    region, active, fixed = db.checkout_region(seed_index=k)
    d = np.hypot(*(xy - xy[k]).T)
    near = d < a["boundary_radius"]
    if np.any(np.abs(d - a["boundary_radius"]) < 1e-6):
        raise Skip
    outer, inner = d + a["nscale"] * rh, d - a["nscale"] * rh
    inside = near & (outer < a["maxradius"])
    if np.any(busy[near]) or not inside.any():
        expect(active is None and fixed is None, "invalid region accepted")
        return
    expect(active is not None, "valid region refused")
    ai, fi = active["source_index"].tolist(), fixed["source_index"].tolist()
    order = [i for i in np.argsort(outer) if near[i]]
    na = min(a["maxactive_per_patch"], int(inside.sum()))
    expect(sorted(ai) == sorted(order[:na]), f"active {sorted(ai)} expected {sorted(order[:na])}")
    rad = max(outer[order[:na]].max(), a["minradius"])
    close([region.radius * 3600], [rad], rtol=1e-6, what="radius")
    close([region.ra, region.dec], [cat["ra"][k], cat["dec"][k]], rtol=1e-13, what="centre")
    rest = order[na:]
    if np.any(np.abs(inner[rest] - rad) < 1e-7):
        raise Skip
    want = [i for i in rest if inner[i] < rad][:a["maxactive_per_patch"]]
    if not want:
        want = rest[:1]
    expect(sorted(fi) == sorted(want), f"fixed {sorted(fi)} expected {sorted(want)}")


R.main()
