"""Y02: small callers for what takes a function or a class written in Python"""
from lanelet2 import core, io, routing


class Stop(Exception):
    pass


def visits(obj, name, start, mode, *args, **kw):
    """everything a search hands to its function; mode 0: go on everywhere, 1: do not go on after a lane change,
    2: only the start is left, 3: an exception ends the search after three calls"""
    out = []

    def f(info):
        out.append(info)
        if mode == 1:
            return info.numLaneChanges == 0
        if mode == 2:
            return info.length < 2
        if mode == 3 and len(out) >= 3:
            raise Stop()
        return True
    try:
        getattr(obj, name)(start, f, *args, **kw)
    except Stop:
        pass
    return out


class Cost(routing.RoutingCost):
    """as Cost in calls.cpp"""

    def getCostSucceeding(self, trafficRules, from_, to):
        return 1. + (from_.id * 7 + to.id * 3) % 10 + (.25 if trafficRules.canPass(from_) else 100.)

    def getCostLaneChange(self, trafficRules, from_, to):
        return 2. + sum(x.id for x in from_) % 5 + len(to)


class Distance(routing.RoutingCostDistance):
    """overrides one of two functions"""

    def getCostLaneChange(self, trafficRules, from_, to):
        return 2. + sum(x.id for x in from_) % 5 + len(to)


class TravelTime(routing.RoutingCostTravelTime):
    def getCostSucceeding(self, trafficRules, from_, to):
        return 1. + (from_.id * 7 + to.id * 3) % 10 + (.25 if trafficRules.canPass(from_) else 100.)


class Projector:
    pass


def costs(kind):
    return [[Cost()], [Distance(1.)], [TravelTime(1.5)], [Cost(), routing.RoutingCostDistance(2., 5.)]][kind]


def speeds(s):
    return (s.speedLimit, s.speedLimitKmH, s.speedLimitMPS, s.isMandatory)
