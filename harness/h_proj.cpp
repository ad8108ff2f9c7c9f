// P01 projections over a grid of the globe, with all borders of zones and hemispheres.
#include <lanelet2_io/Exceptions.h>
#include <lanelet2_projection/Geocentric.h>
#include <lanelet2_projection/LocalCartesian.h>
#include <lanelet2_projection/Mercator.h>
#include <lanelet2_projection/UTM.h>

#include <GeographicLib/Geodesic.hpp>
#include <GeographicLib/UTMUPS.hpp>
#include <cmath>
#include <memory>

#include "mc.hpp"
using namespace lanelet;

namespace {
enum Kind { SPHERICAL, MERCATOR, UTM, UTM_NO_OFFSET, UTM_STRICT, UTM_STRICT_NO_OFFSET, LOCAL, GEOCENTRIC, NKINDS };
const char* kindName[] = {"SphericalMercatorProjector", "Mercator", "UtmProjector", "UtmProjector without offset", "strict UtmProjector", "strict UtmProjector without offset",
                          "LocalCartesianProjector", "GeocentricProjector"};
std::shared_ptr<Projector> make(int kind, const GPSPoint& o) {
  Origin origin(o);
  switch (kind) {
    case SPHERICAL:
      return std::make_shared<DefaultProjector>(origin);
    case MERCATOR:
      return std::make_shared<projection::Mercator>(origin);
    case UTM:
      return std::make_shared<projection::UtmProjector>(origin);
    case UTM_NO_OFFSET:
      return std::make_shared<projection::UtmProjector>(origin, false);
    case UTM_STRICT:
      return std::make_shared<projection::UtmProjector>(origin, true, true);
    case UTM_STRICT_NO_OFFSET:
      return std::make_shared<projection::UtmProjector>(origin, false, true);
    case LOCAL:
      return std::make_shared<projection::LocalCartesianProjector>(origin);
    default:
      return std::make_shared<projection::GeocentricProjector>();
  }
}
bool isUtm(int k) { return k >= UTM && k <= UTM_STRICT_NO_OFFSET; }
bool isStrict(int k) { return k == UTM_STRICT || k == UTM_STRICT_NO_OFFSET; }
std::string show(const GPSPoint& g) {
  std::ostringstream s;
  s.precision(10);
  s << "(" << g.lat << " " << g.lon << " " << g.ele << ")";
  return s.str();
}
double dlon(double a, double b) {
  double d = std::fmod(a - b, 360);
  if (d > 180) d -= 360;
  if (d < -180) d += 360;
  return d;
}
//! metres between two positions on the ground
double ground(const GPSPoint& a, const GPSPoint& b) {
  double s = 0;
  GeographicLib::Geodesic::WGS84().Inverse(a.lat, a.lon, b.lat, b.lon, s);
  return s;
}
enum Answer { OK, FORWARD_ERROR, OTHER };
Answer fwd(const Projector& p, const GPSPoint& g, BasicPoint3d& out, std::string& what) {
  try {
    out = p.forward(g);
    return OK;
  } catch (const ForwardProjectionError& e) {
    what = e.what();
    return FORWARD_ERROR;
  } catch (const std::exception& e) {
    what = e.what();
    return OTHER;
  }
}
void p01(mc::Ctx& c) {
  std::vector<GPSPoint> origins;
  std::vector<double> lats = {-79.9, -56, -33.9, -8, -0.001, 0, 0.001, 7.9, 35.1, 49.01439, 55.99, 56.01, 63.5, 71.9, 72.1, 83.9};
  std::vector<double> lons = {-179.9995, -180, -122.3, -6.001, -5.999, 0, 0.0005, 2.9, 3.1, 5.9995, 6.0005, 8.41722, 9, 11.9995, 12.0005, 21.1, 32.9, 41.95, 100.5, 151.2, 179.9995, 180};
  if (!c.quick) {
    for (double l = -78; l < 84; l += 6) lats.push_back(l);
    for (double l = -177; l < 180; l += 6) lons.push_back(l);
  }
  for (double la : lats) {
    for (double lo : lons) origins.push_back({la, lo, 0});
  }
  // offsets in metres to the east and to the north
  const std::vector<double> off = c.quick ? std::vector<double>{0, 1, -1, 50, -50, 5000, -20000, 60000} : std::vector<double>{0, 0.01, 1, -1, 50, -50, 500, -700, 5000, -20000, 30000, 60000, -60000, 90000};
  for (int kind = 0; kind < NKINDS; ++kind) {
    for (auto& o : origins) {
      for (double ele : {0., 123.5}) {
        GPSPoint og{o.lat, o.lon, ele};
        c.run([&] { return std::string(kindName[kind]) + " with origin " + show(og); }, [&] {
          auto p = make(kind, og);
          auto again = make(kind, og);
          const bool hasOffset = kind == MERCATOR || kind == UTM || kind == UTM_STRICT || kind == LOCAL;
          BasicPoint3d z;
          std::string what;
          int zone0 = 0;
          bool north0 = true;
          double ux = 0, uy = 0;
          if (isUtm(kind)) GeographicLib::UTMUPS::Forward(og.lat, og.lon, zone0, north0, ux, uy);
          MC_REQUIRE(p->origin().position.lat == og.lat && p->origin().position.lon == og.lon || kind == GEOCENTRIC, "origin", "the origin is not kept");
          Answer a0 = fwd(*p, og, z, what);
          MC_REQUIRE(a0 == OK, "origin-not-projectable", "the origin itself can not be projected: " << what);
          if (hasOffset) {
            MC_REQUIRE(std::hypot(z.x(), z.y()) < 1e-6, "origin-not-zero", "the origin is projected to " << z.x() << " " << z.y());
          }
          for (double e : off) {
            for (double n : off) {
              for (double h : {0., -4.25, 3000.}) {
                if (h != 0 && (std::fabs(e) > 100 || std::fabs(n) > 100)) continue;
                double lat2 = 0, lon2 = 0;
                const double azi = std::atan2(e, n) * 180 / M_PI;
                GeographicLib::Geodesic::WGS84().Direct(og.lat, og.lon, azi, std::hypot(e, n), lat2, lon2);
                GPSPoint g{lat2, lon2, ele + h};
                if (kind == SPHERICAL || kind == MERCATOR) {
                  if (std::fabs(dlon(g.lon, og.lon)) < std::fabs(g.lon - og.lon) - 1) continue;  // over the date line: not meant to work
                }
                c.step();
                BasicPoint3d x;
                Answer a = fwd(*p, g, x, what);
                MC_REQUIRE(a != OTHER, "forward-error-type", "forward" << show(g) << " throws something undocumented: " << what);
                bool inZone = true;
                if (isUtm(kind)) {
                  int zn = 0;
                  bool nn = true;
                  double gx = 0, gy = 0;
                  GeographicLib::UTMUPS::Forward(g.lat, g.lon, zn, nn, gx, gy);
                  inZone = zn == zone0 && nn == north0;
                  if (inZone) {
                    MC_REQUIRE(a == OK, "in-zone-refused", "forward" << show(g) << " within the zone of the origin fails: " << what);
                    const bool o2 = kind == UTM || kind == UTM_STRICT;
                    MC_REQUIRE(std::fabs(x.x() + (o2 ? ux : 0) - gx) < 1e-6 && std::fabs(x.y() + (o2 ? uy : 0) - gy) < 1e-6, "utm-coordinates", "forward" << show(g) << " is not the utm coordinate");
                  } else if (isStrict(kind)) {
                    MC_REQUIRE(a == FORWARD_ERROR, "strict-accepts", "forward" << show(g) << " leaves the zone but is accepted");
                  } else if (zone0 != 0 && zn != 0) {
                    MC_REQUIRE(a == OK || std::fabs(e) > 80000, "padding-refused", "forward" << show(g) << " in the padding area fails: " << what);
                  }
                } else {
                  MC_REQUIRE(a == OK, "forward-fails", "forward" << show(g) << " fails: " << what);
                }
                c.outcome(std::to_string(int(a)) + (inZone ? "i" : "o"));
                if (a != OK) continue;
                BasicPoint3d x2;
                fwd(*again, g, x2, what);
                MC_REQUIRE((x - x2).norm() == 0, "not-a-function", "two projectors with one origin differ");
                GPSPoint b{};
                try {
                  b = p->reverse(x);
                } catch (const ReverseProjectionError& err) {
                  // a point on the very border of the zone may come back on the other side
                  bool border = isStrict(kind);
                  if (border) {
                    int zn = 0;
                    bool nn = true;
                    double gx = 0, gy = 0;
                    border = false;
                    for (double d : {-1e-7, 1e-7}) {
                      GeographicLib::UTMUPS::Forward(std::max(-90., std::min(90., g.lat + d)), g.lon, zn, nn, gx, gy);
                      border = border || zn != zone0 || nn != north0;
                      GeographicLib::UTMUPS::Forward(g.lat, g.lon + d, zn, nn, gx, gy);
                      border = border || zn != zone0 || nn != north0;
                    }
                  }
                  MC_REQUIRE(border, "reverse-fails", "reverse(forward" << show(g) << ") fails: " << err.what());
                  continue;
                } catch (const std::exception& err) {
                  throw mc::Failure{"reverse-error-type", std::string("reverse(forward") + show(g) + ") throws something undocumented: " + err.what()};
                }
                // 1e-8 degrees are a millimetre
                MC_REQUIRE(std::fabs(b.lat - g.lat) < 2e-9 && std::fabs(dlon(b.lon, g.lon)) * std::cos(g.lat * M_PI / 180) < 2e-9 && std::fabs(b.ele - g.ele) < 1e-6, "round-trip",
                           "reverse(forward" << show(g) << ") = " << show(b));
                BasicPoint3d y = p->forward(b);
                MC_REQUIRE((x - y).norm() < 1e-3, "round-trip-metric", "forward(reverse(x)) is off by " << (x - y).norm());
                // neighbourhoods keep their size and orientation
                if (kind != GEOCENTRIC && std::hypot(e, n) < 100) {
                  const double tol = kind == SPHERICAL || kind == MERCATOR ? 0 : 0.01;
                  if (tol > 0 && (!isUtm(kind) || zone0 != 0)) {
                    double dx = x.x() - z.x(), dy = x.y() - z.y();
                    double len = std::hypot(dx, dy), want = std::hypot(e, n) * (1 + (kind == LOCAL ? ele + h : 0) / 6.37e6);
                    MC_REQUIRE(std::fabs(len - want) <= tol * want + 1e-4, "scale", show(g) << " lies " << len << " m from the origin instead of " << want);
                    if (want > 0.5) {
                      double cosA = (dx * e + dy * n) / (len * std::hypot(e, n));
                      MC_REQUIRE(cosA > 0.98, "orientation", show(g) << " lies in the wrong direction");
                    }
                  }
                  if (tol == 0 && std::hypot(e, n) > 0.5 && std::fabs(og.lat) < 80) {
                    double dx = x.x() - z.x(), dy = x.y() - z.y();
                    double cosA = (dx * e + dy * n) / (std::hypot(dx, dy) * std::hypot(e, n));
                    MC_REQUIRE(cosA > 0.98, "orientation", show(g) << " lies in the wrong direction");
                    const double sc = std::hypot(dx, dy) / std::hypot(e, n) * (kind == MERCATOR ? std::cos(og.lat * M_PI / 180) : 1);
                    MC_REQUIRE(sc > 0.98 && sc < 1.02, "scale", show(g) << " is scaled by " << sc);
                  }
                }
                if (kind == LOCAL) {
                  MC_REQUIRE(std::fabs(x.z() - h + (e * e + n * n) / 2 / 6.37e6) < 1e-3 + (e * e + n * n) * 5e-10, "height", show(g) << " is projected to height " << x.z());
                } else if (kind == GEOCENTRIC) {
                  double r = x.norm();
                  MC_REQUIRE(r > 6356000 && r < 6382000, "height", "distance from the centre of the earth " << r);
                } else {
                  MC_REQUIRE(std::fabs(x.z() - (kind == MERCATOR ? g.ele - ele : g.ele)) < 1e-9, "height", show(g) << " is projected to height " << x.z());
                }
              }
            }
          }
          c.state(std::string(kindName[kind]) + show(og));
        });
      }
    }
  }
  // anything may be asked; only documented errors come back
  std::vector<double> odd = {0, 1e-300, -0.0, 45, 89.999999, 90, -90, 90.1, -91, 180, 180.1, 360, 1e9, -1e300, HUGE_VAL, -HUGE_VAL, std::nan("")};
  for (int kind = 0; kind < NKINDS; ++kind) {
    for (double oLat : {49., -33., 0., 85., -85.}) {
      c.run([&] { return std::string(kindName[kind]) + " with odd input, origin at latitude " + std::to_string(oLat); }, [&] {
        auto p = make(kind, GPSPoint{oLat, 8, 0});
        for (double a : odd) {
          for (double b : odd) {
            for (double h : {0., std::nan("")}) {
              c.step();
              std::string what;
              BasicPoint3d x;
              Answer f = fwd(*p, GPSPoint{a, b, h}, x, what);
              MC_REQUIRE(f != OTHER, "forward-error-type", "forward" << show({a, b, h}) << " throws something undocumented: " << what);
              try {
                p->reverse(BasicPoint3d(a * 1000, b * 1000, h));
              } catch (const ReverseProjectionError&) {
              } catch (const std::exception& e) {
                throw mc::Failure{"reverse-error-type", std::string("reverse throws something undocumented: ") + e.what()};
              }
              c.outcome("odd" + std::to_string(int(f)));
            }
          }
        }
      });
    }
  }
}
}  // namespace
int main(int argc, char** argv) {
  return mc::mainImpl(argc, argv,
                      {{"P01", p01, "every projector with every origin of a grid of the globe that includes the borders of UTM zones and hemispheres, and points around it in a grid of offsets from centimetres to 90 km",
                        {"GeographicLib computes UTM coordinates and geodesics correctly"}}});
}
