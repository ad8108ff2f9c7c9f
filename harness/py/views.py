"""Y01: Python objects are handles of the C++ objects; containers behave like Python's own. The reference consists of
plain lists and dictionaries."""
import gc
import re
import itertools
import lanelet2
from lanelet2 import core, geometry, io, projection, routing, traffic_rules, matching
from lanelet2.core import (AllWayStop, Area, AttributeMap, BasicPoint2d, BasicPoint3d, BoundingBox2d, BoundingBox3d,
                           Lanelet, LaneletMap, LaneletWithStopLine, LineString2d, LineString3d, Point2d, Point3d,
                           Polygon2d, Polygon3d, RightOfWay, SpeedLimit, TrafficLight, TrafficSign,
                           TrafficSignsWithType)


class Failure(Exception):
    def __init__(self, sig, msg):
        Exception.__init__(self, msg)
        self.sig = sig


def req(cond, sig, *msg):
    if not cond:
        raise Failure(sig, " ".join(str(m) for m in msg))


def raises(exc, f):
    try:
        f()
    except exc:
        return True
    except BaseException as e:
        raise Failure("exception-type", "expected %s, not %r" % (exc, e))
    return False


def sequences(mc, name, ops, depth, start):
    """runs every sequence of ops up to depth: start() -> world; op(world); world.check()"""
    for n in range(1, depth + 1):
        for seq in itertools.product(range(len(ops)), repeat=n):
            if mc.stopped:
                return

            def desc(seq=seq):
                return name + ": " + "; ".join(ops[i][0] for i in seq)

            def body(seq=seq):
                w = start()
                for i in seq:
                    ops[i][1](w)
                    mc.step(1)
                w.check()
                mc.state(name + w.key())
            mc.run(desc, body)


# ---------------------------------------------------------------- line strings and polygons
class LineWorld:
    """m: the ids of the points as stored; pts: id -> [x, y, z]; views read m forward or backward"""
    cls3, cls2 = LineString3d, LineString2d
    invertible = True

    def __init__(self):
        self.pts = {i: [float(i), float(i * i), 0.5 * i] for i in range(1, 5)}
        self.att = {i: {"n": str(i)} for i in range(1, 5)}
        self.p = {i: Point3d(i, *self.pts[i], AttributeMap({"n": str(i)})) for i in range(1, 5)}
        self.m = [1, 2, 3]
        self.id = 10
        self.a = {"type": "x"}
        self.ls = self.cls3(10, [self.p[i] for i in self.m], AttributeMap(self.a))
        self.held = []      # handles of points and what they stand for
        self.heldAtt = []
        self.views()

    def views(self):
        self.v = [(self.ls, False, False)]
        if self.invertible:
            self.v.append((self.ls.invert(), True, False))
        self.v.append((geometry.to2D(self.ls), False, True))
        if self.invertible:
            self.v.append((geometry.to2D(self.ls).invert(), True, True))
            self.v.append((self.ls.invert().invert(), False, False))

    def seq(self, inv):
        return list(reversed(self.m)) if inv else list(self.m)

    def put(self, inv, s):
        self.m = list(reversed(s)) if inv else list(s)

    def checkPoint(self, h, i, two):
        req(h.id == i, "handle-moved", "a handle of point", i, "became", h.id)
        c = self.pts[i]
        req(h.x == c[0] and h.y == c[1], "point-value", "point", i, "is at", h.x, h.y, "not", c)
        if not two:
            req(h.z == c[2], "point-value", "height of point", i)
        req(dict(h.attributes.items()) == self.att[i], "point-attributes", "attributes of point", i, h.attributes.items())
        if not two:
            req(h == self.p[i] and hash(h) == hash(self.p[i]) and not (h != self.p[i]), "point-identity", "point", i)

    def check(self):
        for v, inv, two in self.v:
            s = self.seq(inv)
            req(len(v) == len(s), "line-length", "len is", len(v), "not", len(s))
            got = list(v)
            req([x.id for x in got] == s, "line-iteration", "iteration gives", [x.id for x in got], "not", s)
            for k in range(-len(s), len(s)):
                self.checkPoint(v[k], s[k], two)
            for x, i in zip(got, s):
                self.checkPoint(x, i, two)
            for k in (len(s), -len(s) - 1, len(s) + 5, -1000, 2**62):
                req(raises(IndexError, lambda: v[k]), "index-check", "index", k, "of", len(s), "is accepted")
            if self.invertible:
                req(v.inverted() == inv, "line-inverted", v.inverted())
            req(v.id == self.id, "line-id", "id is", v.id, "not", self.id)
            req(dict(v.attributes.items()) == self.a, "line-attributes", v.attributes.items(), "not", self.a)
            req(str(v) is not None and repr(v) is not None, "text", "")
        req(self.v[0][0] == self.ls and hash(self.v[0][0]) == hash(self.ls), "line-identity", "")
        for h, i, two in self.held:
            self.checkPoint(h, i, two)
        for h in self.heldAtt:
            req(dict(h.items()) == self.a, "held-attributes", h.items(), "not", self.a)

    def key(self):
        return repr((self.m, self.pts, self.id, sorted(self.a.items()), [(i, t) for _, i, t in self.held]))


class PolyWorld(LineWorld):
    cls3, cls2 = Polygon3d, Polygon2d
    invertible = False


def lineOps(cls):
    n = 5 if cls.invertible else 2
    names = ["ls", "ls.invert()", "ls2", "ls2.invert()", "ls.invert().invert()"] if cls.invertible else ["pg", "pg2"]
    ops = []

    def op(name):
        def deco(f):
            ops.append((name, f))
        return deco
    for vi in range(n):
        two = "2" in names[vi]
        P = (lambda w, i: geometry.to2D(w.p[i])) if two else (lambda w, i: w.p[i])
        full = vi < 2

        for i in ((4, 1) if full else (4,)):
            @op("%s.append(p%d)" % (names[vi], i))
            def f(w, vi=vi, i=i, P=P):
                v, inv, _ = w.v[vi]
                v.append(P(w, i))
                w.put(inv, w.seq(inv) + [i])
        for k in (0, -1, 1) if full else (0,):
            @op("%s[%d] = p4" % (names[vi], k))
            def f(w, vi=vi, k=k, P=P):
                v, inv, _ = w.v[vi]
                s = w.seq(inv)

                def assign():
                    v[k] = P(w, 4)
                if -len(s) <= k < len(s):
                    assign()
                    s[k] = 4
                    w.put(inv, s)
                else:
                    req(raises(IndexError, assign), "index-check", "assignment to", k)

            @op("del %s[%d]" % (names[vi], k))
            def f(w, vi=vi, k=k):
                v, inv, _ = w.v[vi]
                s = w.seq(inv)
                if -len(s) <= k < len(s):
                    del v[k]
                    del s[k]
                    w.put(inv, s)
                else:
                    req(raises(IndexError, lambda: v.__delitem__(k)), "index-check", "deletion of", k)

            @op("h = %s[%d]" % (names[vi], k))
            def f(w, vi=vi, k=k, two=two):
                v, inv, _ = w.v[vi]
                s = w.seq(inv)
                if -len(s) <= k < len(s):
                    w.held.append((v[k], s[k], two))

        @op("h.x = 7 through list(%s)[-1]" % names[vi])
        def f(w, vi=vi, two=two):
            v, inv, _ = w.v[vi]
            l = list(v)
            if l:
                i = w.seq(inv)[-1]
                l[-1].x = 7.
                w.pts[i][0] = 7.
                w.held.append((l[-1], i, two))
    for vi in (0, 1):
        @op("%s.attributes['type'] = 'y'" % names[vi])
        def f(w, vi=vi):
            w.v[vi][0].attributes["type"] = "y"
            w.a["type"] = "y"

        @op("%s.attributes = {'z': '1'}" % names[vi])
        def f(w, vi=vi):
            w.v[vi][0].attributes = {"z": "1"} if vi == 0 else AttributeMap({"z": "1"})
            w.a = {"z": "1"}

        @op("%s.id = 77" % names[vi])
        def f(w, vi=vi):
            w.v[vi][0].id = 77
            w.id = 77

    @op("a = ls.attributes")
    def f(w):
        w.heldAtt.append(w.v[0][0].attributes)

    @op("del ls.attributes['type']")
    def f(w):
        if "type" in w.a:
            del w.v[0][0].attributes["type"]
            del w.a["type"]

    @op("p1.y = -3")
    def f(w):
        w.p[1].y = -3.
        w.pts[1][1] = -3.

    @op("p2.attributes['q'] = 'r'")
    def f(w):
        w.p[2].attributes["q"] = "r"
        w.att[2]["q"] = "r"

    @op("forget the line string")
    def f(w):
        # what is held stays what it is; a new line string takes its place
        w.v = None
        w.ls = None
        w.heldAtt = []
        gc.collect()
        w.m = [2, 3]
        w.id = 11
        w.a = {}
        w.ls = w.cls3(11, [w.p[2], w.p[3]], AttributeMap())
        w.views()
    return ops


# ---------------------------------------------------------------- attributes
TEXTS = ["v", "", "ä€", "nul\0inside", "x" * 3000, "5 km/h"]


class AttWorld:
    def __init__(self):
        self.o = Point3d(1, 0, 0, 0, AttributeMap())
        self.a = self.o.attributes
        self.d = {}

    def check(self):
        for a in (self.a, self.o.attributes):
            req(len(a) == len(self.d), "map-length", len(a), len(self.d))
            req(sorted(a.keys()) == sorted(self.d.keys()), "map-keys", a.keys())
            req(sorted(a.values()) == sorted(self.d.values()), "map-values", a.values())
            req(dict(a.items()) == self.d, "map-items", a.items(), self.d)
            req(len(list(a)) == len(self.d), "map-iteration", "")
            for k in ("k", "subtype", "nul\0key", "ü", ""):
                req((k in a) == (k in self.d), "map-contains", repr(k))
                if k in self.d:
                    req(a[k] == self.d[k], "map-value", repr(k), repr(a[k]), repr(self.d[k]))
                else:
                    req(raises(KeyError, lambda: a[k]), "map-missing-key", repr(k))
            req(a == AttributeMap(self.d) and not (a != AttributeMap(self.d)), "map-equality", self.d)
            other = dict(self.d)
            other["other"] = "1"
            req(a != AttributeMap(other) and not (a == AttributeMap(other)), "map-equality", other)
            p = Point3d(2, 0, 0, 0, self.d)
            req(dict(p.attributes.items()) == self.d, "dict-as-attributes", self.d)
            try:
                text = ("" if not any(ord(c) == 0 for k in self.d.items() for c in k[0] + k[1]) else None)
                if text is not None:
                    req(dict(eval(repr(a)).items()) == self.d, "map-repr", repr(a))
            except SyntaxError:
                raise Failure("map-repr", repr(a))

    def key(self):
        return repr(sorted((k, v[:50]) for k, v in self.d.items()))


def attOps():
    ops = []
    for k in ("k", "subtype", "nul\0key", "ü"):
        for t in TEXTS if k == "k" else TEXTS[:4]:
            def f(w, k=k, t=t):
                w.a[k] = t
                w.d[k] = t
            ops.append(("a[%r] = %r" % (k, t[:20]), f))

        def f(w, k=k):
            if k in w.d:
                del w.a[k]
                del w.d[k]
        ops.append(("del a[%r]" % k, f))

    def f(w):
        w.o.attributes = {"k": "new", "subtype": "s\0t"}
        w.d = {"k": "new", "subtype": "s\0t"}
    ops.append(("attributes = dict", f))

    def f(w):
        w.o.attributes = AttributeMap()
        w.d = {}
    ops.append(("attributes = AttributeMap()", f))

    def f(w):
        for bad in ({1: "x"}, {"x": 1}, {"x": None}, {None: "x"}, {"x": "\ud800"}):
            ok = False
            try:
                w.o.attributes = bad
            except Exception:
                ok = True
            req(ok, "bad-attributes-accepted", repr(bad))
        for bad in (1, None, 2.5, b"x", "\ud800"):
            ok = False
            try:
                w.a["k"] = bad
            except Exception:
                ok = True
            req(ok, "bad-attribute-accepted", repr(bad))
    ops.append(("values that are no strings", f))
    return ops


# ---------------------------------------------------------------- lanelets, areas and maps
def mk(i, y=None):
    y = float(i) if y is None else y
    return LineString3d(100 * i, [Point3d(100 * i + k, 2. * k, y, 0., AttributeMap()) for k in (1, 2, 3)], AttributeMap())


class LaneletWorld:
    def __init__(self):
        self.lines = {i: mk(i) for i in (1, 2, 3, 4)}
        self.m = {"id": 7, "left": 2, "right": 1, "a": {"subtype": "road"}, "regs": [], "center": None}
        self.ll = Lanelet(7, self.lines[2], self.lines[1], AttributeMap(self.m["a"]))
        self.sign = LineString3d(900, [Point3d(901, 0, 0, 0), Point3d(902, 0, 0, 1)], AttributeMap({"subtype": "de205"}))
        self.regs = {31: TrafficLight(31, AttributeMap(), [self.sign]),
                     32: SpeedLimit(32, AttributeMap(), TrafficSignsWithType([self.sign], "de274")),
                     33: TrafficSign(33, AttributeMap(), TrafficSignsWithType([self.sign])),
                     34: RightOfWay(34, AttributeMap(), [Lanelet(70, self.lines[4], self.lines[3])], [self.ll]),
                     35: AllWayStop(35, AttributeMap(), [LaneletWithStopLine(self.ll, None)])}
        self.map = None
        self.held = []

    def check(self):
        m = self.m
        for l, inv in ((self.ll, False), (self.ll.invert(), True), (self.ll.invert().invert(), False)):
            req(l.id == m["id"], "lanelet-id", l.id)
            req(l.inverted() == inv, "lanelet-inverted", "")
            want = (m["left"], m["right"], False) if not inv else (m["right"], m["left"], True)
            req(l.leftBound.id == 100 * want[0] and l.leftBound.inverted() == inv, "lanelet-left", l.leftBound.id, want)
            req(l.rightBound.id == 100 * want[1] and l.rightBound.inverted() == inv, "lanelet-right", l.rightBound.id, want)
            req(dict(l.attributes.items()) == m["a"], "lanelet-attributes", l.attributes.items())
            req([r.id for r in l.regulatoryElements] == m["regs"], "lanelet-regulatory-elements", [r.id for r in l.regulatoryElements], m["regs"])
            by = lambda *ids: [r for r in m["regs"] if r in ids]
            req([r.id for r in l.trafficLights()] == by(31), "lanelet-trafficLights", "")
            req([r.id for r in l.speedLimits()] == by(32), "lanelet-speedLimits", "")
            req([r.id for r in l.trafficSigns()] == by(32, 33), "lanelet-trafficSigns", "")
            req([r.id for r in l.rightOfWay()] == by(34), "lanelet-rightOfWay", "")
            req([r.id for r in l.allWayStop()] == by(35), "lanelet-allWayStop", "")
            types = {31: TrafficLight, 32: SpeedLimit, 33: TrafficSign, 34: RightOfWay, 35: AllWayStop}
            for r in l.regulatoryElements:
                req(type(r) is types[r.id], "regulatory-element-type", r.id, type(r))
            c = l.centerline
            if m["center"] is None:
                req(c.id == 0, "centerline", c.id)
            else:
                req(c.id == 100 * m["center"] and c.inverted() == inv, "centerline", c.id, m["center"])
            pg = [p.id for p in l.polygon3d()]
            ids = lambda i, b: [100 * i + k for k in ((1, 2, 3) if not b else (3, 2, 1))]
            w = ids(m["left"], False)
            w = w + [i for k, i in enumerate(ids(m["right"], True)) if k or i != w[-1]]  # shared points count once
            req(pg == w, "polygon", pg, w)
            req([p.id for p in l.polygon2d()] == w, "polygon", "2d")
        req(self.ll == self.ll.invert().invert() and self.ll != self.ll.invert(), "lanelet-equality", "")
        for h, i in self.held:
            req(h.id == i, "handle-moved", h.id, i)
        if self.map is not None:
            L = self.map.laneletLayer
            req(len(L) == 1 and L.exists(7) and 7 in L and self.ll in L and 8 not in L, "map-lanelets", "")
            req(L[7].id == m["id"] and L.get(7).leftBound.id == 100 * m["left"], "map-lanelet", "")
            req(raises(Exception, lambda: L[8]) and raises(Exception, lambda: L.get(8)), "map-missing", "")
            req([x.id for x in L] == [m["id"]], "map-iteration", "")

    def key(self):
        return repr(self.m) + str(self.map is not None) + str(len(self.held))


def laneletOps():
    ops = []

    def op(name):
        def deco(f):
            ops.append((name, f))
        return deco
    for side in ("left", "right"):
        for i in (3, 4, 1):
            @op("%sBound = line%d" % (side, i))
            def f(w, side=side, i=i):
                setattr(w.ll, side + "Bound", w.lines[i])
                w.m[side] = i

        @op("h = %sBound" % side)
        def f(w, side=side):
            w.held.append((getattr(w.ll, side + "Bound"), 100 * w.m[side]))

        @op("h = invert().%sBound[0]" % side)
        def f(w, side=side):
            b = getattr(w.ll.invert(), side + "Bound")
            w.held.append((b[0], b[0].id))
    for r in (31, 32, 33, 34, 35):
        @op("add regulatory element %d" % r)
        def f(w, r=r):
            w.ll.addRegulatoryElement(w.regs[r])
            w.m["regs"].append(r)

        @op("remove regulatory element %d" % r)
        def f(w, r=r):
            got = w.ll.removeRegulatoryElement(w.regs[r])
            req(got == (r in w.m["regs"]), "remove-result", got)
            if r in w.m["regs"]:
                w.m["regs"].remove(r)
    for i in (3, 4):
        @op("centerline = line%d" % i)
        def f(w, i=i):
            w.ll.centerline = w.lines[i]
            w.m["center"] = i

    @op("h = centerline; resetCache()")
    def f(w):
        c = w.ll.centerline
        w.held.append((c, c.id))
        w.ll.resetCache()

    @op("attributes['a'] = 'b' on the inverted lanelet")
    def f(w):
        w.ll.invert().attributes["a"] = "b"
        w.m["a"]["a"] = "b"

    @op("attributes = {}")
    def f(w):
        w.ll.attributes = {}
        w.m["a"] = {}

    @op("createMapFromLanelets")
    def f(w):
        if w.m["id"] == 7:
            w.map = core.createMapFromLanelets([w.ll])

    @op("h = map.laneletLayer[7]; forget the map")
    def f(w):
        if w.map is not None:
            w.held.append((w.map.laneletLayer[7], 7))
            w.map = None
            gc.collect()
    return ops


class AreaWorld:
    def __init__(self):
        self.lines = {i: mk(i) for i in (1, 2, 3, 4, 5)}
        self.outer = [1, 2]
        self.inner = [[3]]
        self.ar = Area(8, [self.lines[i] for i in self.outer], [[self.lines[3]]], AttributeMap())
        self.regs = []
        self.light = TrafficLight(31, AttributeMap(), [mk(9)])
        self.heldInner = []
        self.held = []

    def ids(self, b):
        return [[l.id // 100 for l in h] for h in b]

    def check(self):
        a = self.ar
        req([l.id // 100 for l in a.outerBound] == self.outer, "outer-bound", [l.id for l in a.outerBound])
        for b in [a.innerBounds] + self.heldInner:
            req(len(b) == len(self.inner), "inner-bounds", len(b))
            req(self.ids(b) == self.inner, "inner-bounds", self.ids(b), self.inner)
            for k in range(-len(self.inner), len(self.inner)):
                req([l.id // 100 for l in b[k]] == self.inner[k], "inner-bounds", "[%d]" % k)
            for k in (len(self.inner), -len(self.inner) - 1):
                req(raises(IndexError, lambda: b[k]), "index-check", k)
        polys = a.innerBoundPolygons()
        req([[i // 100 for i in p.ids()] for p in polys] == self.inner, "inner-polygons", "")
        req([i // 100 for i in a.outerBoundPolygon().ids()] == self.outer, "outer-polygon", "")
        req([r.id for r in a.regulatoryElements] == self.regs, "area-regulatory-elements", "")
        for h, i in self.held:
            req(h.id == i, "handle-moved", h.id, i)

    def key(self):
        return repr((self.outer, self.inner, self.regs, len(self.heldInner), len(self.held)))


def areaOps():
    ops = []

    def op(name):
        def deco(f):
            ops.append((name, f))
        return deco

    def at(w, k):
        return -len(w.inner) <= k < len(w.inner)
    for i in (4, 5):
        @op("innerBounds.append([line%d])" % i)
        def f(w, i=i):
            w.ar.innerBounds.append([w.lines[i]])
            w.inner.append([i])
        for k in (0, -1):
            @op("innerBounds[%d] = [line%d, line3]" % (k, i))
            def f(w, k=k, i=i):
                def go():
                    w.ar.innerBounds[k] = [w.lines[i], w.lines[3]]
                if at(w, k):
                    go()
                    w.inner[k] = [i, 3]
                else:
                    req(raises(IndexError, go), "index-check", k)
    for k in (0, -1, 1):
        @op("del innerBounds[%d]" % k)
        def f(w, k=k):
            if at(w, k):
                del w.ar.innerBounds[k]
                del w.inner[k]
            else:
                req(raises(IndexError, lambda: w.ar.innerBounds.__delitem__(k)), "index-check", k)

    @op("innerBounds = [[line4], [line5, line3]]")
    def f(w):
        w.ar.innerBounds = [[w.lines[4]], [w.lines[5], w.lines[3]]]
        w.inner = [[4], [5, 3]]

    @op("innerBounds = []")
    def f(w):
        w.ar.innerBounds = []
        w.inner = []

    @op("outerBound = [line4, line5]")
    def f(w):
        w.ar.outerBound = [w.lines[4], w.lines[5]]
        w.outer = [4, 5]

    @op("outerBound = (line5,)")
    def f(w):
        w.ar.outerBound = (w.lines[5],)
        w.outer = [5]

    @op("b = innerBounds")
    def f(w):
        w.heldInner.append(w.ar.innerBounds)

    @op("b = innerBounds of another handle of the area, that is gone")
    def f(w):
        m = core.createMapFromAreas([w.ar])
        w.heldInner.append(m.areaLayer[8].innerBounds)
        del m
        gc.collect()

    @op("l = innerBounds[0][0]")
    def f(w):
        if w.inner and w.inner[0]:
            w.held.append((w.ar.innerBounds[0][0], 100 * w.inner[0][0]))

    @op("add the traffic light")
    def f(w):
        w.ar.addRegulatoryElement(w.light)
        w.regs.append(31)

    @op("remove the traffic light")
    def f(w):
        req(w.ar.removeRegulatoryElement(w.light) == bool(w.regs), "remove-result", "")
        w.regs = w.regs[:-1] if w.regs else []
    return ops


class MapWorld:
    """the layers of a map and of a submap as dictionaries"""

    def __init__(self):
        self.map = LaneletMap()
        self.sub = core.LaneletSubmap()
        self.m = {k: set() for k in ("laneletLayer", "areaLayer", "lineStringLayer", "polygonLayer", "pointLayer", "regulatoryElementLayer")}
        self.s = {k: set() for k in self.m}
        self.l1, self.l2 = mk(1), mk(2)
        self.ll = Lanelet(7, self.l2, self.l1, AttributeMap())
        self.light = TrafficLight(31, AttributeMap(), [mk(9)])
        self.ll.addRegulatoryElement(self.light)
        self.ar = Area(8, [mk(3)], [[mk(4)]], AttributeMap())
        self.pg = Polygon3d(600, [Point3d(601, 0, 0, 0), Point3d(602, 1, 0, 0), Point3d(603, 0, 1, 0)], AttributeMap())
        self.pt = Point3d(700, 5, 5, 0)
        self.layers = []   # layers held on their own
        self.gone = False

    def content(self, layer):
        return {x.id for x in layer}

    def checkLayer(self, layer, want, name):
        req(self.content(layer) == want, "layer-content", name, sorted(self.content(layer)), sorted(want))
        req(len(layer) == len(want), "layer-length", name)
        for i in want:
            req(i in layer and layer.exists(i) and layer[i].id == i and layer.get(i).id == i and layer[i] in layer, "layer-lookup", name, i)
        for i in (12345, 0, -1):
            req(i not in layer and raises(Exception, lambda: layer[i]) and raises(Exception, lambda: layer.get(i)), "layer-missing", name, i)
        box = BoundingBox2d(BasicPoint2d(-100, -100), BasicPoint2d(100, 100))
        req({x.id for x in layer.search(box)} == want, "layer-search", name)
        if want:
            req(layer.nearest(BasicPoint2d(0, 0), 1)[0].id in want and len(layer.nearest(BasicPoint2d(0, 0), 1000)) == len(want), "layer-nearest", name)
            req(len(layer.nearest(BasicPoint2d(0, 0))) == 1 and len(layer.nearest(point=BasicPoint2d(0, 0), n=2)) == min(2, len(want)), "layer-nearest", name)
        u = layer.uniqueId()
        req(u not in want, "layer-unique-id", name)

    def check(self):
        for owner, ref in ((self.map, self.m), (self.sub, self.s)):
            for k, want in ref.items():
                self.checkLayer(getattr(owner, k), want, k)
        for layer, name in self.layers:
            self.checkLayer(layer, self.m[name], name)

    def key(self):
        return repr(sorted((k, sorted(v)) for k, v in self.m.items())) + repr(sorted((k, sorted(v)) for k, v in self.s.items())) + str(len(self.layers))

    def add(self, kind, ids, sub=False):
        (self.s if sub else self.m)[kind] |= set(ids)


def mapOps():
    pts = lambda *ls: [100 * l + k for l in ls for k in (1, 2, 3)]
    ops = []

    def op(name):
        def deco(f):
            ops.append((name, f))
        return deco

    @op("add(lanelet)")
    def f(w):
        w.map.add(w.ll)
        w.add("laneletLayer", [7])
        w.add("lineStringLayer", [100, 200, 900])
        w.add("pointLayer", pts(1, 2, 9))
        w.add("regulatoryElementLayer", [31])

    @op("add(lanelet.invert())")
    def f(w):
        if 7 not in w.m["laneletLayer"]:
            return
        w.map.add(w.ll.invert())

    @op("add(area)")
    def f(w):
        w.map.add(w.ar)
        w.add("areaLayer", [8])
        w.add("lineStringLayer", [300, 400])
        w.add("pointLayer", pts(3, 4))

    @op("add(linestring)")
    def f(w):
        w.map.add(w.l1)
        w.add("lineStringLayer", [100])
        w.add("pointLayer", pts(1))

    @op("add(polygon)")
    def f(w):
        w.map.add(w.pg)
        w.add("polygonLayer", [600])
        w.add("pointLayer", [601, 602, 603])

    @op("add(point)")
    def f(w):
        w.map.add(w.pt)
        w.add("pointLayer", [700])

    @op("add(regulatory element)")
    def f(w):
        w.map.add(w.light)
        w.add("regulatoryElementLayer", [31])
        w.add("lineStringLayer", [900])
        w.add("pointLayer", pts(9))
    for kind, what, i in (("laneletLayer", "ll", 7), ("areaLayer", "ar", 8), ("lineStringLayer", "l1", 100), ("polygonLayer", "pg", 600), ("pointLayer", "pt", 700), ("regulatoryElementLayer", "light", 31)):
        @op("submap.add(%s)" % what)
        def f(w, kind=kind, what=what, i=i):
            w.sub.add(getattr(w, what))
            w.add(kind, [i], True)
            if what == "ll":  # as in C++: a lanelet brings its regulatory elements along
                w.add("regulatoryElementLayer", {x.id for x in w.sub.regulatoryElementLayer} & {31}, True)

    @op("hold the layers")
    def f(w):
        if not w.gone:
            w.layers = [(getattr(w.map, k), k) for k in w.m]

    @op("forget the map")
    def f(w):
        if w.layers:
            w.map = w.layers[0][0] and None
            gc.collect()
            w.check = lambda: [w.checkLayer(l, w.m[n], n) for l, n in w.layers]
            w.map = type("Gone", (), {"add": lambda self, x: None})()
            w.gone = True
            w.add = lambda *a: None
    return ops


# ---------------------------------------------------------------- regulatory elements
class RegWorld:
    def __init__(self):
        self.l = {i: mk(i) for i in (1, 2, 3, 4, 5)}
        self.pg = Polygon3d(600, [Point3d(601, 0, 0, 0), Point3d(602, 1, 0, 0), Point3d(603, 0, 1, 0)], AttributeMap())
        self.lls = {i: Lanelet(i, mk(10 + i), mk(20 + i), AttributeMap()) for i in (1, 2)}
        self.tl = TrafficLight(31, AttributeMap(), [self.l[1]])
        self.m = {"lights": [100], "stop": None, "row": [1], "yield": [2], "rstop": None, "aws": [], "signs": [100], "cancel": [], "ref": [], "cline": []}
        self.row = RightOfWay(32, AttributeMap(), [self.lls[1]], [self.lls[2]])
        self.aws = AllWayStop(33, AttributeMap(), [], [])
        self.ts = TrafficSign(34, AttributeMap(), TrafficSignsWithType([self.l[1]], "de205"))

    def check(self):
        m = self.m
        ids = lambda v: [x.id for x in v]
        req(ids(self.tl.trafficLights) == m["lights"], "trafficLights", ids(self.tl.trafficLights), m["lights"])
        s = self.tl.stopLine
        req((None if s is None else s.id) == m["stop"], "stopLine", s, m["stop"])
        req(ids(self.row.rightOfWayLanelets()) == m["row"], "rightOfWayLanelets", "")
        req(ids(self.row.yieldLanelets()) == m["yield"], "yieldLanelets", "")
        s = self.row.stopLine
        req((None if s is None else s.id) == m["rstop"], "stopLine", s, m["rstop"])
        for i in (1, 2):
            want = core.ManeuverType.Yield if i in m["yield"] else core.ManeuverType.RightOfWay if i in m["row"] else core.ManeuverType.Unknown
            if not (i in m["yield"] and i in m["row"]):
                req(self.row.getManeuver(self.lls[i]) == want, "getManeuver", i)
        req(ids(self.aws.lanelets()) == [a for a, _ in m["aws"]], "allWayStop-lanelets", ids(self.aws.lanelets()), m["aws"])
        req(ids(self.aws.stopLines()) == [b for _, b in m["aws"] if b is not None], "allWayStop-stopLines", ids(self.aws.stopLines()))
        req(ids(self.ts.trafficSigns()) == m["signs"], "trafficSigns", ids(self.ts.trafficSigns()))
        req(ids(self.ts.cancellingTrafficSigns()) == m["cancel"], "cancellingTrafficSigns", "")
        req(ids(self.ts.refLines()) == m["ref"], "refLines", "")
        req(ids(self.ts.cancelLines()) == m["cline"], "cancelLines", "")
        for r, n in ((self.tl, len(m["lights"]) + (m["stop"] is not None)), (self.row, len(m["row"]) + len(m["yield"]) + (m["rstop"] is not None)),
                     (self.ts, len(m["signs"]) + len(m["cancel"]) + len(m["ref"]) + len(m["cline"]))):
            p = r.parameters
            got = sum(len(v) for v in p.values())
            req(got == n, "parameters", r.id, got, n)
            req(sorted(p.keys()) == sorted(r.roles), "roles", p.keys(), r.roles)
            for v in p.values():
                for x in v:
                    req(r.find(x.id) is not None and r.find(x.id).id == x.id, "find", x.id)
            req(r.find(424242) is None, "find", "finds what is not there")
            repr(r)

    def key(self):
        return repr(self.m)


def regOps():
    ops = []

    def op(name):
        def deco(f):
            ops.append((name, f))
        return deco
    obj = lambda w, i: w.pg if i == 600 else w.l[i // 100]
    for i in (200, 600):
        @op("addTrafficLight(%d)" % i)
        def f(w, i=i):
            w.tl.addTrafficLight(obj(w, i))
            w.m["lights"].append(i)
    for i in (100, 600):
        @op("removeTrafficLight(%d)" % i)
        def f(w, i=i):
            req(w.tl.removeTrafficLight(obj(w, i)) == (i in w.m["lights"]), "remove-result", i)
            if i in w.m["lights"]:
                w.m["lights"].remove(i)
    for i in (300, 400):
        @op("stopLine = %d" % i)
        def f(w, i=i):
            w.tl.stopLine = obj(w, i)
            w.row.stopLine = obj(w, i)
            w.m["stop"] = w.m["rstop"] = i

    @op("removeStopLine()")
    def f(w):
        w.tl.removeStopLine()
        w.row.removeStopLine()
        w.m["stop"] = w.m["rstop"] = None
    for kind, key in (("RightOfWay", "row"), ("Yield", "yield")):
        for i in (1, 2):
            @op("add%sLanelet(%d)" % (kind, i))
            def f(w, kind=kind, key=key, i=i):
                if i in w.m["row"] + w.m["yield"]:
                    return
                getattr(w.row, "add%sLanelet" % kind)(w.lls[i])
                w.m[key].append(i)

            @op("remove%sLanelet(%d)" % (kind, i))
            def f(w, kind=kind, key=key, i=i):
                req(getattr(w.row, "remove%sLanelet" % kind)(w.lls[i]) == (i in w.m[key]), "remove-result", i)
                if i in w.m[key]:
                    w.m[key].remove(i)
    for i, s in ((1, 300), (2, None), (2, 400)):
        @op("allWayStop.addLanelet(%d, %s)" % (i, s))
        def f(w, i=i, s=s):
            if i in [a for a, _ in w.m["aws"]] or (s is None) != (all(b is None for _, b in w.m["aws"]) and s is None):
                return
            if w.m["aws"] and (w.m["aws"][0][1] is None) != (s is None):
                return
            x = LaneletWithStopLine(w.lls[i], None if s is None else obj(w, s))
            req(x.lanelet.id == i and (x.stopLine is None if s is None else x.stopLine.id == s), "lanelet-with-stop-line", "")
            w.aws.addLanelet(x)
            w.m["aws"].append((i, s))
    for i in (1, 2):
        @op("allWayStop.removeLanelet(%d)" % i)
        def f(w, i=i):
            has = i in [a for a, _ in w.m["aws"]]
            req(w.aws.removeLanelet(w.lls[i]) == has, "remove-result", i)
            w.m["aws"] = [x for x in w.m["aws"] if x[0] != i]
    for i in (200, 600):
        @op("addTrafficSign(%d)" % i)
        def f(w, i=i):
            w.ts.addTrafficSign(obj(w, i))
            w.m["signs"].append(i)

        @op("removeTrafficSign(%d)" % i)
        def f(w, i=i):
            req(w.ts.removeTrafficSign(obj(w, i)) == (i in w.m["signs"]), "remove-result", i)
            if i in w.m["signs"]:
                w.m["signs"].remove(i)

    @op("addRefLine, addCancellingRefLine")
    def f(w):
        w.ts.addRefLine(w.l[3])
        w.ts.addCancellingRefLine(w.l[4])
        w.m["ref"].append(300)
        w.m["cline"].append(400)

    @op("removeRefLine")
    def f(w):
        req(w.ts.removeRefLine(w.l[3]) == (300 in w.m["ref"]), "remove-result", "")
        if w.m["ref"]:
            w.m["ref"].remove(300)

    @op("removeCancellingRefLine")
    def f(w):
        req(w.ts.removeCancellingRefLine(w.l[4]) == (400 in w.m["cline"]), "remove-result", "")
        if w.m["cline"]:
            w.m["cline"].remove(400)
    return ops


# ---------------------------------------------------------------- lifetimes
def lifetimes(mc):
    def lane():
        l = mk(2), mk(1)
        for x in l:
            for p in x:
                p.attributes["k"] = "v"
            x.attributes["k"] = "v"
        ll = Lanelet(7, l[0], l[1], AttributeMap({"subtype": "road", "location": "urban"}))
        ll.addRegulatoryElement(TrafficLight(31, AttributeMap({"k": "v"}), [mk(9)], mk(8)))
        return ll

    def lanes():
        a, b, c = ([Point3d(1000 * i + k, 10. * k, 4. * i, 0.) for k in range(4)] for i in (1, 2, 3))
        out = []
        k = 0
        for lo, hi in ((a, b), (b, c)):
            for j in range(3):
                k += 1
                out.append(Lanelet(k, LineString3d(50 + 10 * (hi is c) + j, hi[j:j + 2], AttributeMap({"type": "line_thin", "subtype": "dashed"})),
                                   LineString3d(40 + 10 * (lo is b) + j, lo[j:j + 2], AttributeMap({"type": "line_thin", "subtype": "dashed"})),
                                   AttributeMap({"subtype": "road", "location": "urban"})))
        # share the lines in the middle
        for j in range(3):
            out[3 + j].rightBound = out[j].leftBound
        return out

    def area():
        return Area(8, [mk(3)], [[mk(4)], [mk(5)]], AttributeMap({"k": "v"}))

    def bigmap():
        m = core.createMapFromLanelets([lane()])
        m.add(area())
        m.add(Polygon3d(600, [Point3d(601, 0, 0, 0), Point3d(602, 1, 0, 0), Point3d(603, 0, 1, 0)], AttributeMap({"k": "v"})))
        return m

    def graph():
        return routing.RoutingGraph(core.createMapFromLanelets(lanes()), traffic_rules.create("de", "vehicle"))

    def graphAndLane():
        m = core.createMapFromLanelets(lanes())
        return routing.RoutingGraph(m, traffic_rules.create("de", "vehicle")), m.laneletLayer[1], m.laneletLayer[3]

    def route():
        g, a, b = graphAndLane()
        return g.getRoute(a, b)

    def box():
        return BoundingBox2d(BasicPoint2d(1, 2), BasicPoint2d(3, 4))

    def box3():
        return BoundingBox3d(BasicPoint3d(1, 2, 3), BasicPoint3d(3, 4, 5))

    def obj2d():
        return matching.Object2d(1, matching.Pose2d(1, 2, 3), [BasicPoint2d(1, 2)])

    def match():
        m = bigmap()
        return matching.getDeterministicMatches(m, obj2d(), 10.)

    def seqn():
        return core.LaneletSequence(lanes()[:3])

    def use(x):
        """touch everything x has"""
        if x is None or isinstance(x, (str, int, float, bool)):
            return repr(x)
        r = [type(x).__name__]
        for n in ("id", "x", "y", "z", "lat", "lon", "ele", "length", "distance", "mahalanobisDistSq", "speedLimit", "isMandatory"):
            try:
                v = getattr(x, n)
            except AttributeError:
                continue
            if isinstance(v, (int, float, bool)):
                r.append(n + "=" + repr(v))
        for n in ("attributes", "leftBound", "rightBound", "outerBound", "innerBounds", "regulatoryElements", "parameters", "lanelet", "min", "max", "position", "predecessor", "stopLine"):
            try:
                v = getattr(x, n)
            except AttributeError:
                continue
            if callable(v):
                continue
            if n == "attributes":
                r.append(repr(sorted(v.items())))
            elif n == "parameters":
                r.append(repr(sorted((k, [y.id for y in z]) for k, z in v.items())))
            elif n == "regulatoryElements":
                r.append(repr([y.id for y in v]))
            else:
                r.append(n + ":" + use(v))
        try:
            items = list(x)
        except TypeError:
            items = None
        if items is not None:
            r.append("[" + ",".join(sorted(use(i) for i in items) if "Layer" in r[0] else [use(i) for i in items]) + "]")
            try:
                r.append(str(len(x)))
                if len(x) and "Layer" not in r[0] and "Map" not in r[0]:
                    r.append(use(x[0]) + use(x[-1]))
            except (TypeError, KeyError):
                pass
        if r[0] in ("Pose2d", "PositionCovariance2d", "SpeedLimitInformation"):
            r.append(str(x))
        return "(" + " ".join(r) + ")"
    layer = lambda n: lambda m: getattr(m, n)
    table = [
        ("lanelet", lane, ["leftBound", "rightBound", "centerline", "attributes", "regulatoryElements", "trafficLights()", "polygon2d()", "polygon3d()", "invert()", "leftBound[0]", "leftBound[0].attributes",
                           "leftBound.invert()", "leftBound.invert()[1]", "leftBound.attributes", "centerline[0]", "centerline[0].basicPoint()", "leftBound[1].basicPoint()", "polygon3d()[0]", "polygon3d().lineStrings()",
                           "polygon3d().lineStrings()[0][0]", "regulatoryElements[0].trafficLights[0]", "regulatoryElements[0].trafficLights[0][1]", "regulatoryElements[0].attributes",
                           "regulatoryElements[0].stopLine", "regulatoryElements[0].parameters", "regulatoryElements[0].parameters.values()"]),
        ("area", area, ["outerBound", "innerBounds", "innerBounds[0]", "innerBounds[1][0]", "innerBounds[0][0][1]", "outerBoundPolygon()", "innerBoundPolygons()", "innerBoundPolygons()[1]", "outerBoundPolygon()[0]",
                        "attributes", "outerBound[0].attributes"]),
        ("map", bigmap, ["laneletLayer", "areaLayer", "lineStringLayer", "polygonLayer", "pointLayer", "regulatoryElementLayer", "laneletLayer[7]", "laneletLayer[7].leftBound[0]", "areaLayer[8].innerBounds",
                         "lineStringLayer[200][1]", "pointLayer[201]", "pointLayer[201].attributes", "polygonLayer[600]", "regulatoryElementLayer[31]", "laneletLayer.nearest(BasicPoint2d(0,0),1)",
                         "laneletLayer.search(BoundingBox2d(BasicPoint2d(-9,-9),BasicPoint2d(99,99)))", "laneletLayer.__iter__()", "pointLayer.__iter__()", "areaLayer.findUsages(x.lineStringLayer[300])",
                         "laneletLayer.findUsages(x.regulatoryElementLayer[31])"]),
        ("line string", lambda: mk(3), ["__iter__()", "invert().__iter__()", "attributes", "attributes.__iter__()"]),
        ("box", box, ["min", "max"]), ("box3", box3, ["min", "max"]),
        ("origin", lambda: io.Origin(49, 8, 7), ["position"]),
        ("projector", lambda: projection.UtmProjector(io.Origin(49, 8)), ["origin()", "origin().position", "forward(core.GPSPoint(49,8,1))", "reverse(BasicPoint3d(1,2,3))"]),
        ("object", obj2d, ["pose", "absoluteHull", "absoluteHull[0]"]),
        ("object with covariance", lambda: matching.ObjectWithCovariance2d(1, matching.Pose2d(1, 2, 3), [BasicPoint2d(1, 2)], matching.PositionCovariance2d(1, 2, 0), 1.), ["positionCovariance", "pose"]),
        ("matches", match, ["__getitem__(0)", "__getitem__(0).lanelet", "__getitem__(0).lanelet.leftBound[0]"]),
        ("graph", graph, ["passableLaneletSubmap()", "passableLaneletSubmap().laneletLayer", "passableLaneletSubmap().laneletLayer[1].leftBound", "getDebugLaneletMap()", "getDebugLaneletMap().pointLayer"]),
        ("graph and lanes", graphAndLane, ["__getitem__(0).following(x[1])", "__getitem__(0).followingRelations(x[1])[0].lanelet", "__getitem__(0).shortestPath(x[1],x[2])", "__getitem__(0).shortestPath(x[1],x[2])[1]",
                                           "__getitem__(0).shortestPath(x[1],x[2]).__iter__()", "__getitem__(0).possiblePaths(x[1],1.)[0][0]", "__getitem__(0).routingRelation(x[1],x[2])",
                                           "__getitem__(0).reachableSet(x[1],100.)"]),
        ("route", route, ["shortestPath()", "shortestPath()[0]", "shortestPath().__iter__()", "laneletSubmap()", "laneletSubmap().laneletLayer", "laneletSubmap().laneletLayer[1].leftBound[0]", "fullLane(x.shortestPath()[0])",
                          "remainingLane(x.shortestPath()[0])", "getDebugLaneletMap().lineStringLayer", "followingRelations(x.shortestPath()[0])", "remainingShortestPath(x.shortestPath()[1])[0]"]),
        ("sequence", seqn, ["leftBound", "leftBound[3]", "centerline", "lanelets()", "__getitem__(1)", "__getitem__(-1).leftBound", "__iter__()", "polygon2d()", "polygon3d()", "invert()", "invert()[0]"]),
        ("submap", lambda: core.createSubmapFromLanelets([lane()]), ["laneletLayer", "laneletLayer[7]", "laneletMap()", "laneletMap().pointLayer", "laneletMap().laneletLayer[7]"]),
        ("sign with type", lambda: TrafficSignsWithType([mk(3)], "de205"), ["trafficSigns", "trafficSigns[0][0]", "type"]),
        ("lanelet with stop line", lambda: LaneletWithStopLine(lane(), mk(5)), ["lanelet", "lanelet.leftBound", "stopLine", "stopLine[0]"]),
        ("const lanelet with stop line", lambda: core.ConstLaneletWithStopLine(lane(), mk(5)), ["lanelet", "lanelet.leftBound", "stopLine", "stopLine[0]"]),
        ("rules", lambda: traffic_rules.create("de", "vehicle"), ["location()", "participant()", "speedLimit(core.createMapFromLanelets([Lanelet(7,LineString3d(1,[Point3d(2,0,1,0),Point3d(3,1,1,0)]),LineString3d(4,[Point3d(5,0,0,0),Point3d(6,1,0,0)]),AttributeMap())]).laneletLayer[7])"]),
    ]
    junk = []

    def trash():
        # gives freed memory new contents
        for k in range(40):
            junk.append(bytes(b"\xee" * (8 * (k % 30) + 8)))
        del junk[:]
        gc.collect()
    for name, make, getters in table:
        for g in getters:
            expr = "x" + ("" if g.startswith(("(", "[")) else ".") + g

            def body(make=make, expr=expr):
                env = dict(globals())
                env["x"] = make()
                want = use(eval(expr, env))
                x = env.pop("x")
                y = eval(expr, dict(globals(), x=x))
                del x, env
                gc.collect()
                trash()
                got = use(y)
                mc.step(1)
                if "DebugLaneletMap" in expr:  # every one has lines with new ids, in any order
                    def shape(t):
                        return sorted(re.sub(r"LineString3d id=\d+", "LineString3d", t))
                    req(shape(got) == shape(want), "outlives-owner", expr, "is", got[:300], "after its owner is gone, but was", want[:300])
                    return
                req(got == want or "__iter__" in expr, "outlives-owner", expr, "is", got[:300], "after its owner is gone, but was", want[:300])
                if "__iter__" in expr:
                    mc.outcome(got)
                mc.state(got)
            mc.run("lifetime of %s: %s" % (name, expr), body)
        # and two at a time: the first one taken is used after the second one was taken and dropped
        for g in getters:
            for h in getters:
                e1, e2 = "x." + g, "x." + h
                if not mc.quick or getters.index(h) <= 3:
                    def body(make=make, e1=e1, e2=e2):
                        x = make()
                        a = eval(e1, dict(globals(), x=x))
                        b = eval(e2, dict(globals(), x=x))
                        del x
                        gc.collect()
                        w = use(b)
                        del b
                        gc.collect()
                        trash()
                        use(a)
                        mc.step(2)
                        mc.state(w)
                    mc.run("lifetime of %s: %s, %s" % (name, e1, e2), body)


def explore(mc):
    lifetimes(mc)
    sequences(mc, "attributes", attOps(), 2 if mc.quick else 3, AttWorld)
    sequences(mc, "line string", lineOps(LineWorld), 2 if mc.quick else 3, LineWorld)
    sequences(mc, "polygon", lineOps(PolyWorld), 2 if mc.quick else 3, PolyWorld)
    sequences(mc, "area", areaOps(), 3 if mc.quick else 4, AreaWorld)
    sequences(mc, "map", mapOps(), 3 if mc.quick else 4, MapWorld)
    sequences(mc, "lanelet", laneletOps(), 2 if mc.quick else 3, LaneletWorld)
    sequences(mc, "regulatory elements", regOps(), 2 if mc.quick else 3, RegWorld)
