// Classes behind the public interface, used directly (optional part of the driver).
//   reload f1 f2 seps maxrow startcol named norm   one TimeSeriesSet loads f1, then f2
//   blocks f bs1 bs x s e                          block averages of a sub-sequence
#include "drv.hpp"
#ifdef STUB
std::string partCommand(const Args&) { throw Unsupported(); }
#else
#include <cstdlib>
#include <stdexcept>
#include "Exception.hpp"
#include "PAAWrapper.hpp"
#include "TimeSeriesSet.hpp"
using namespace genex;

static std::string unhex(const std::string& s)
{
  std::string o;
  for (size_t i = 1; i + 1 < s.size(); i += 2) o += (char) strtol(s.substr(i, 2).c_str(), 0, 16);
  return o;
}
static std::string path(const std::string& s) { return gDrv.dir + "/" + unhex(s); }
static int num(const std::string& s) { return atoi(s.c_str()); }
static std::string values(const TimeSeries& t)
{
  std::vector<long> v;
  for (int i = 0; i < t.getLength(); i++) v.push_back(grid(t[i], gDrv.G));
  return jlist(v);
}

std::string partCommand(const Args& a)
{
  std::ostringstream o;
  TimeSeriesSet t;
  if (a[0] == "reload") {
    try {
      t.loadData(path(a[1]), num(a[4]), num(a[5]), unhex(a[3]), num(a[6]));
      if (num(a[7])) t.normalize();
    }
    catch (GenexException&) {}
    t.loadData(path(a[2]), num(a[4]), num(a[5]), unhex(a[3]), num(a[6]));
    o << ",\"max\":" << t.getMaxLength() << ",\"cnt\":" << t.getItemCount()
      << ",\"norm\":" << (t.isNormalized() ? "true" : "false") << ",\"rows\":[";
    for (int i = 0; i < t.getItemCount(); i++)
      o << (i ? "," : "") << (t.getItemLength(i) ? values(t.getTimeSeries(i, 0, t.getItemLength(i))) : "[]");
    o << "],\"names\":[";
    for (int i = 0; i < t.getItemCount(); i++) o << (i ? "," : "") << jstr(t.getTimeSeriesName(i));
    o << "]";
  }
  else {
    t.loadData(path(a[1]), 0, 0, ",", false);
    PAAWrapper w(t);
    if (num(a[2]) > 0) w.generatePAAMatrix(num(a[2]));     // another size first
    w.generatePAAMatrix(num(a[3]));
    o << ",\"vals\":" << values(w.getPAA(num(a[4]), num(a[5]), num(a[6])));
  }
  return o.str();
}
#endif
