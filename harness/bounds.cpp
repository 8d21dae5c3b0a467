// Lower bounds and cut-offs, called directly (optional part of the driver).
#include "drv.hpp"
#ifdef STUB
std::string boundCommand(void*, const Args&) { throw Unsupported(); }
#else
#include <stdexcept>
#include "GenexAPI.hpp"
#include "distance/Distance.hpp"
using namespace genex;

static std::string unhex(const std::string& s)
{
  std::string o;
  for (size_t i = 1; i + 1 < s.size(); i += 2) o += (char) strtol(s.substr(i, 2).c_str(), 0, 16);
  return o;
}

// bound n1 x1 s1 e1 n2 x2 s2 e2 what dist warp cut w
std::string boundCommand(void* p, const Args& a)
{
  GenexAPI* api = (GenexAPI*) p;
  TimeSeries x = api->getTimeSeries(unhex(a[1]), atoi(a[2].c_str()), atoi(a[3].c_str()), atoi(a[4].c_str()));
  TimeSeries y = api->getTimeSeries(unhex(a[5]), atoi(a[6].c_str()), atoi(a[7].c_str()), atoi(a[8].c_str()));
  std::string what = unhex(a[9]), dist = unhex(a[10]);
  bool warp = atoi(a[11].c_str());
  long cut = atol(a[12].c_str());
  int w = atoi(a[13].c_str()), la = x.getLength(), lb = y.getLength();
  std::ostringstream o;
  if (what == "lower" || what == "upper") {
    if (cut >= 0) { x.getKeoghLower(cut); x.getKeoghUpper(cut); }    // another width first
    const data_t* e = what == "lower" ? x.getKeoghLower(w) : x.getKeoghUpper(w);
    std::vector<long> v;
    for (int i = 0; i < la; i++) v.push_back(grid(e[i], gDrv.G));
    o << ",\"env\":" << jlist(v) << ",\"t\":0";
    return o.str();
  }
  if (what == "ratio") {
    // cut-offs around the distance: is the result the distance (1) or infinite (2)?
    dist_t f = getDistanceFromName(warp ? dist + "_dtw" : dist);
    const double exact = f(x, y, INF, gNoMatching);
    if (std::isnan(exact) || std::isinf(exact)) return ",\"cuts\":[],\"t\":0";
    o << ",\"cuts\":[";
    const double c[] = {exact / 2, exact * 0.99, exact * 1.000001, exact * 1.01, exact * 1.5 + 0.001, exact * 3 + 0.1};
    for (int i = 0; i < 6; i++) {
      const double v = f(x, y, c[i], gNoMatching);
      o << (i ? ",[" : "[") << (c[i] > exact) << "," << (std::fabs(v - exact) < 1e-12 ? 1 : std::isinf(v) && v > 0 ? 2 : 0) << "]";
    }
    o << "],\"t\":0";
    return o.str();
  }
  double d;
  if (what == "kim") d = kimLowerBound(x, y, INF);
  else if (what == "keogh") d = keoghLowerBound(x, y, INF);
  else if (what == "cross") d = crossKeoghLowerBound(x, y, INF);
  else if (what == "cut") {
    double c = warp ? warpedFromTotal(dist, cut, la, lb, gDrv.G) : plainFromTotal(dist, cut, la, gDrv.G);
    // "cascade" is the warped euclidean distance behind its lower bounds
    if (w) d = cascadeDistance(x, y, c, gNoMatching);
    else d = getDistanceFromName(warp ? dist + "_dtw" : dist)(x, y, c, gNoMatching);
  }
  else throw std::logic_error("driver: unknown bound");
  if (what == "cut" && !warp) o << ",\"t\":" << plainTotal(dist, d, la, gDrv.G);
  else o << ",\"t\":" << warpedTotal(what == "cut" ? dist : "euclidean", d, la, lb, gDrv.G);
  return o.str();
}
#endif
