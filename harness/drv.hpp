// Shared pieces of the session driver: JSON output and the integer projection
// of values and distances (see spec/Dist.tla).
#ifndef DRV_HPP
#define DRV_HPP
#include <cmath>
#include <cstdio>
#include <sstream>
#include <string>
#include <vector>

typedef std::vector<std::string> Args;

struct Drv
{
  double G;                // grid: values are logged in units of 1/G
  double unit;             // thresholds are logged in eighths of it
  std::string dir;         // scratch directory of the session
  std::string tmp;         // scratch directory for observations
  long limit;              // storage limit for the next save, or -1
};
extern Drv gDrv;

const long INEXACT = -77777777;

// v * G as an integer
inline long grid(double v, double G)
{
  double x = v * G;
  if (std::isnan(x) || std::fabs(x) > 1e9) return INEXACT;
  double r = std::floor(x + 0.5);
  return std::fabs(x - r) < 1e-9 + 1e-12 * std::fabs(x) ? (long) r : INEXACT;
}

// a threshold; it may be a little more than a multiple (see Session.group)
inline long eighths(double v)
{
  double x = v / gDrv.unit * 8, r = std::floor(x + 0.5);
  return std::fabs(x) < 1e9 && std::fabs(x - r) < 1e-6 ? (long) r : INEXACT;
}

// a distance total as an integer: -1 infinite, -2 inexact, -3 not a number
inline long total(double t)
{
  if (std::isnan(t)) return -3;
  if (std::isinf(t)) return t > 0 ? -1 : -2;
  if (t < -1e-6 || t > 2e9) return -2;
  double r = std::floor(t + 0.5);
  return std::fabs(t - r) < 1e-9 + 1e-12 * t ? (long) r : -2;
}
inline long warpedTotal(const std::string& dist, double d, int la, int lb, double G)
{
  double m = la > lb ? la : lb;
  if (dist == "euclidean") return total(4 * m * m * d * d * G * G);
  if (dist == "manhattan") return total(2 * m * d * G);
  if (dist == "chebyshev") return total(d * G);
  return -9;
}
inline long plainTotal(const std::string& dist, double d, int len, double G)
{
  if (dist == "euclidean") return total(d * d * len * G * G);
  if (dist == "manhattan") return total(d * len * G);
  if (dist == "chebyshev") return total(d * G);
  return -9;
}
inline double warpedFromTotal(const std::string& dist, long t, int la, int lb, double G)
{
  double m = la > lb ? la : lb;
  if (t < 0) return INFINITY;
  if (dist == "euclidean") return std::sqrt((double) t) / (2 * m) / G;
  if (dist == "manhattan") return t / (2 * m) / G;
  return t / G;
}
inline double plainFromTotal(const std::string& dist, long t, int len, double G)
{
  if (t < 0) return INFINITY;
  if (dist == "euclidean") return std::sqrt((double) t / len) / G;
  if (dist == "manhattan") return (double) t / len / G;
  return t / G;
}

inline std::string jstr(const std::string& s)
{
  std::string o = "\"";
  char buf[8];
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { snprintf(buf, sizeof buf, "\\u%04x", c); o += buf; }
    else o += c;
  }
  return o + "\"";
}
template <class T> std::string jlist(const std::vector<T>& v)
{
  std::ostringstream o;
  o << "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) o << ","; o << v[i]; }
  o << "]";
  return o.str();
}

struct Unsupported {};

// commands of the optional parts; throw Unsupported when compiled as a stub
std::string boundCommand(void* api, const Args& a);
void seriesReset();
std::string seriesCommand(const Args& a);
std::string partCommand(const Args& a);
#endif
