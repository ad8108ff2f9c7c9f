"""Y03: the scripts of the package, on small maps. The reference is computed from the description of the map."""
import contextlib
import io as textio
import itertools
import os
import runpy
import sys

import lanelet2
from views import Failure, req

DIR = "/repo/lanelet2_python/scripts/"


def script(name, *args):
    """-> (exit code, what was printed)"""
    out = textio.StringIO()
    argv, sys.argv = sys.argv, [name] + [str(a) for a in args]
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            runpy.run_path(DIR + name, run_name="__main__")
    except SystemExit as e:
        code = e.code or 0
    except Exception as e:
        raise Failure("script-exception", "%s %s: %r" % (name, " ".join(str(a) for a in args), e))
    finally:
        sys.argv = argv
    return code, out.getvalue()


# every element by its name; the letters name the positions of points
POS = {"a": (0, 1), "b": (1, 1), "c": (0, 0), "d": (1, 0), "e": (2, 0), "f": (2, 1), "g": (4, 4), "h": (5, 4), "i": (4, 5)}
WAYS = {"left": "ab", "right": "cd", "bot": "de", "east": "ef", "top": "fb", "west": "bd", "pole": "gh"}
POLYGON = {"poly": "ghi"}
# the members that the relations of a map need, with roles
RELATIONS = {
    "lanelet": ("lanelet", "road", [("way", "left", "left"), ("way", "right", "right")]),
    "area": ("multipolygon", "parking", [("way", w, "outer") for w in ("bot", "east", "top", "west")]),
    "light": ("regulatory_element", "traffic_light", [("way", "pole", "refers")]),
}
KINDS = {"pointLayer": list(POS), "lineStringLayer": list(WAYS), "polygonLayer": list(POLYGON), "laneletLayer": ["lanelet"], "areaLayer": ["area"],
         "regulatoryElementLayer": ["light"]}


def osm(ids, lanelet_has_light=True):
    out = ["<?xml version='1.0'?>", "<osm version='0.6'>"]
    for p, (x, y) in POS.items():
        out.append("<node id='%d' lat='%.7f' lon='%.7f' version='1'/>" % (ids[p], 49 + y * 1e-4, 8 + x * 1e-4))
    for w, pts in list(WAYS.items()) + list(POLYGON.items()):
        out.append("<way id='%d' version='1'>" % ids[w])
        out += ["<nd ref='%d'/>" % ids[p] for p in pts]
        out.append("<tag k='name' v='%s'/>" % w)
        if w in POLYGON:
            out.append("<tag k='area' v='yes'/>")
        out.append("</way>")
    for r, (kind, sub, members) in RELATIONS.items():
        out.append("<relation id='%d' version='1'>" % ids[r])
        for t, m, role in members:
            out.append("<member type='%s' ref='%d' role='%s'/>" % (t, ids[m], role))
        if r == "lanelet" and lanelet_has_light:
            out.append("<member type='relation' ref='%d' role='regulatory_element'/>" % ids["light"])
        out.append("<tag k='type' v='%s'/><tag k='subtype' v='%s'/><tag k='name' v='%s'/><tag k='location' v='urban'/>" % (kind, sub, r))
        out.append("</relation>")
    return "\n".join(out + ["</osm>", ""])


def point(p, proj):
    gps = proj.reverse(lanelet2.core.BasicPoint3d(p.x, p.y, p.z))
    pos = (round((gps.lon - 8) * 1e4), round((gps.lat - 49) * 1e4))
    return next((n for n, q in POS.items() if q == pos), str(pos))


def structure(m, proj):
    """the map without ids; and the id of every element by name"""
    ids, text = {}, []
    for p in m.pointLayer:
        n = point(p, proj)
        req(n not in ids, "two-elements", "two points at", n)
        ids[n] = p.id

    def name(e):
        return e.attributes["name"] if "name" in e.attributes else "?"

    def row(e):
        return "".join(point(p, proj) for p in e)

    def add(e, what):
        req(name(e) not in ids, "two-elements", name(e), "twice")
        ids[name(e)] = e.id
        text.append("%s: %s %s" % (name(e), what, sorted((a.key, a.data()) if not isinstance(a, tuple) else a for a in e.attributes.items())))

    for l in m.lineStringLayer:
        add(l, row(l))
    for l in m.polygonLayer:
        add(l, row(l))
    for l in m.laneletLayer:
        add(l, "%s %s %s" % (row(l.leftBound), row(l.rightBound), [name(r) for r in l.regulatoryElements]))
    for l in m.areaLayer:
        add(l, "%s" % sorted("".join(sorted(row(b))) for b in l.outerBound))
    for l in m.regulatoryElementLayer:
        add(l, "%s" % [name(t) for t in l.trafficLights])
    return sorted(text), ids


def numbering(kinds, negative, offset=0):
    """ids for every element; those of the kinds in the list negative are"""
    ids, n = {}, 0
    for k, names in kinds.items():
        for e in names:
            n += 1
            ids[e] = -(n + offset) if e in negative else n + offset
    return ids


def positive(mc):
    names = [e for v in KINDS.values() for e in v]
    groups = [["a"], ["b", "d"], ["c", "e", "f"], ["g", "h", "i"], ["left"], ["right", "bot"], ["east", "top", "west"], ["pole"], ["poly"], ["lanelet"], ["area"], ["light"]]
    if mc.quick:
        groups = [["a"], ["b", "c", "d", "e", "f", "g", "h", "i"], ["left", "pole"], ["right", "bot", "east", "top", "west"], ["poly"], ["lanelet"], ["area"], ["light"]]
    proj = lanelet2.projection.MercatorProjector(lanelet2.io.Origin(49, 8))
    src, dst = mc.scratch + "/y03_%d.osm" % os.getpid(), mc.scratch + "/y03_%d_out.osm" % os.getpid()
    for bits in itertools.product((False, True), repeat=len(groups)):
        for inplace in (False, True):
            for light in (True, False):
                if mc.stopped:
                    return
                negative = [e for g, b in zip(groups, bits) if b for e in g]

                def case():
                    ids = numbering(KINDS, negative)
                    text = osm(ids, light)
                    with open(src, "w") as f:
                        f.write(text)
                    before, was = structure(lanelet2.io.load(src, proj), proj)
                    req(was == ids, "harness", was, ids)
                    code, out = script("make_ids_positive.py", *((["-i", src]) if inplace else [src, dst]))
                    req(code == 0 and out == "", "make-ids-positive-result", code, out)
                    if not inplace:
                        req(open(src).read() == text, "make-ids-positive-input", "the input was changed")
                    after, now = structure(lanelet2.io.load(src if inplace else dst, proj), proj)
                    req(before == after, "make-ids-positive-map", "the map changed from", before, "to", after)
                    req(set(now) == set(was), "make-ids-positive-map", "elements are", sorted(now), "instead of", sorted(was))
                    for e in now:
                        req(now[e] > 0, "make-ids-positive", "the id of", e, "is", now[e])
                        req(was[e] < 0 or now[e] == was[e], "make-ids-positive-kept", "the id of", e, "changed from", was[e], "to", now[e])
                    for layer in KINDS.values():
                        req(len({now[e] for e in layer}) == len(layer), "make-ids-positive-unique", now)
                    mc.step(len(now))
                    mc.state(str(sorted(negative)))

                mc.run("make_ids_positive.py%s, negative ids: %s%s" % (" -i" if inplace else "", ", ".join(negative), "" if light else ", the lanelet has no regulatory element"), case)
                for f in (src, dst):
                    if os.path.exists(f):
                        os.unlink(f)


LAYERS = {"Points": "pointLayer", "Line Strings": "lineStringLayer", "Polygons": "polygonLayer", "Lanelets": "laneletLayer", "Areas": "areaLayer", "Regulatory Elements": "regulatoryElementLayer"}


def printing(mc):
    src = mc.scratch + "/y03_%d.osm" % os.getpid()
    for offset in (0, 100, 2**40):
        for sign in (False, True):
            ids = numbering(KINDS, [e for v in KINDS.values() for e in v] if sign else [], offset)

            def all():
                with open(src, "w") as f:
                    f.write(osm(ids))
                code, out = script("print_ids.py", src)
                want = "".join("IDs in %s\n%s\n" % (n, sorted(ids[e] for e in KINDS[l])) for n, l in LAYERS.items())
                req(code == 0 and out == want, "print-ids", "printed", repr(out), "instead of", repr(want))
                mc.outcome(out)

            mc.run("print_ids.py, ids from %d on, %s" % (offset, "negative" if sign else "positive"), all)
            probe = sorted({i + d for i in ids.values() for d in (0, 50)} | {-1, 1, 7, 2**62})
            for i in probe:
                def one():
                    with open(src, "w") as f:
                        f.write(osm(ids))
                    code, out = script("print_ids.py", src, "--has-id=%d" % i)
                    layers = [n for n, l in LAYERS.items() if i in [ids[e] for e in KINDS[l]]]
                    want = ["Found ID %d in layer %s\n" % (i, n) for n in layers] or ["ID %d not in map\n" % i]
                    req(code == 0 and out in want, "print-ids-has-id", "printed", repr(out), "instead of", want)
                    mc.outcome(out)

                mc.run("print_ids.py --has-id=%d, ids from %d on, %s" % (i, offset, "negative" if sign else "positive"), one)
            if os.path.exists(src):
                os.unlink(src)


def debugGraph(mc):
    """a chain and neighbours: the debug map in the file is that of the graph"""
    src, dst = mc.scratch + "/y03_%d.osm" % os.getpid(), mc.scratch + "/y03_%d_out.osm" % os.getpid()
    for shape in ((1, 1), (2, 1), (1, 2), (3, 1), (2, 2), (1, 3)):
        for subtype in ("road", "walkway", "bicycle_lane"):
            for change in ("solid", "dashed"):
                for participant in ("vehicle", "bicycle", "pedestrian"):
                    for origin in (None, (49.001, 8.001)):
                        if mc.stopped:
                            return

                        def case():
                            nx, ny = shape
                            out = ["<osm version='0.6'>"]
                            for x in range(nx + 1):
                                for y in range(ny + 1):
                                    out.append("<node id='%d' lat='%.7f' lon='%.7f'/>" % (1 + x * 10 + y, 49 + y * 4e-5, 8 + x * 1e-4))
                            for x in range(nx):
                                for y in range(ny + 1):
                                    out.append("<way id='%d'><nd ref='%d'/><nd ref='%d'/><tag k='type' v='line_thin'/><tag k='subtype' v='%s'/></way>" % (100 + x * 10 + y, 1 + x * 10 + y, 11 + x * 10 + y, change))
                            for x in range(nx):
                                for y in range(ny):
                                    out.append("<relation id='%d'><member type='way' ref='%d' role='left'/><member type='way' ref='%d' role='right'/><tag k='type' v='lanelet'/><tag k='subtype' v='%s'/><tag k='location' v='urban'/></relation>"
                                               % (200 + x * 10 + y, 101 + x * 10 + y, 100 + x * 10 + y, subtype))
                            with open(src, "w") as f:
                                f.write("\n".join(out + ["</osm>", ""]))
                            args = [] if origin is None else ["--lat", origin[0], "--lon", origin[1]]
                            code, printed = script("create_debug_routing_graph.py", src, dst, "--participant", participant, *args)
                            req(code == 0, "debug-graph-result", code, printed)
                            o = origin or (49, 8)
                            proj = lanelet2.projection.UtmProjector(lanelet2.io.Origin(*o))
                            m = lanelet2.io.load(src, proj)
                            rules = lanelet2.traffic_rules.create("de", participant)
                            want = lanelet2.routing.RoutingGraph(m, rules, [lanelet2.routing.RoutingCostDistance(0.)]).getDebugLaneletMap()
                            got = lanelet2.io.load(dst, proj)

                            def show(g):
                                pts = {p.id: "%d:%.3f,%.3f" % (p.id, p.x, p.y) for p in g.pointLayer}
                                lines = []
                                for l in g.lineStringLayer:
                                    a = dict(l.attributes.items())
                                    ends = [pts[p.id] for p in l]
                                    cost = {k: "%.3f" % float(v) for k, v in a.items() if k.startswith("routing_cost")}
                                    rel = {k: v for k, v in a.items() if k.startswith("relation")}
                                    lines.append((ends, sorted(cost.items()), sorted(rel.items())))
                                return sorted(pts.values()), sorted(lines)

                            req(show(got) == show(want), "debug-graph", "the file has", show(got), "instead of", show(want))
                            # what can be told without the graph: the points are the passable lanelets, at their centers
                            passable = [l.id for l in m.laneletLayer if rules.canPass(l)]
                            known = {p.id for p in got.pointLayer}
                            req(set(passable) == known, "debug-graph-points", "points are", sorted(known), "instead of", sorted(passable))
                            mc.step(len(known))
                            mc.outcome(str(show(got)))

                        mc.run("create_debug_routing_graph.py --participant %s, %dx%d lanelets (%s, %s), origin %s" % (participant, shape[0], shape[1], subtype, change, origin), case)
                        for f in (src, dst):
                            if os.path.exists(f):
                                os.unlink(f)


def explore(mc):
    printing(mc)
    debugGraph(mc)
    positive(mc)
