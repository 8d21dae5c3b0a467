// Session driver: reads scripts of library operations, carries them out with
// the public interface and writes one JSON result line per operation.
//
//   driver SCRIPT RESULT WORKDIR FIRST
//
// A script file holds sessions; "T <id> <G>" starts a session (a fresh
// GenexAPI object in an empty directory).  Sessions before FIRST are skipped.
// Strings are written in hex with a leading 'x'.
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <dirent.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

#include "GenexAPI.hpp"
#include "drv.hpp"
#include "sched.hpp"

using namespace genex;
using std::string;
using std::vector;

// Time passes quickly: what the library does only now and then happens often.
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept
{
  static std::atomic<long> calls(0);
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  return time_point(duration_cast<duration>(seconds(t.tv_sec + 4 * calls++) + nanoseconds(t.tv_nsec)));
}

Drv gDrv;
static std::unique_ptr<GenexAPI> api;
static std::unique_ptr<GenexAPI> second;      // has the datasets whose names start with "2:" in sessions
static int nextMode = 0, nextStutter = 0;
static long nextSeed = 0;
struct Scheduled
{
  bool done = false;
  Scheduled() { sched::begin((sched::Mode) nextMode, nextSeed, nextStutter, std::vector<int>()); }
  int races() { done = true; return sched::end().races; }
  ~Scheduled() { if (!done) sched::end(); nextMode = 0; }
};
static bool ratioGiven;
static std::map<string, int> blockSize, blockSize2;   // of the last preparation of each dataset
static FILE* out;

static string unhex(const string& s)
{
  string o;
  for (size_t i = 1; i + 1 < s.size(); i += 2)
    o += (char) strtol(s.substr(i, 2).c_str(), 0, 16);
  return o;
}
static string path(const string& s) { return gDrv.dir + "/" + unhex(s); }
static int num(const string& s) { return atoi(s.c_str()); }

static string slurp(const string& p, bool& exists)
{
  std::ifstream f(p.c_str(), std::ios::binary);
  exists = (bool) f;
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
static void spit(const string& p, const string& c)
{
  std::ofstream f(p.c_str(), std::ios::binary);
  f << c;
}
static unsigned digest(const string& s)
{
  unsigned h = 2166136261u;
  for (size_t i = 0; i < s.size(); i++) h = (h ^ (unsigned char) s[i]) * 16777619u;
  return h & 0x3fffffff;
}
static string fileFields(const string& p)
{
  bool ex;
  string c = slurp(p, ex);
  std::ostringstream o;
  o << ",\"dig\":" << (ex ? (long) digest(c) : -1L) << ",\"size\":" << (ex ? (long) c.size() : -1L);
  return o.str();
}

// the numbers after the seven words that a file with group sizes starts with, or nothing
static bool groupSizes(const string& content, vector<long>& v)
{
  std::istringstream in(content);
  string w;
  for (int i = 0; i < 7; i++) if (!(in >> w)) return false;
  if (w.empty() || !isalpha((unsigned char) w[0])) return false;
  while (in >> w) {
    if (w.find_first_not_of("0123456789") != string::npos || w.size() > 8 || v.size() > 5000) return false;
    v.push_back(atol(w.c_str()));
  }
  return true;
}
static string sizesOf(const string& p)
{
  bool ex;
  vector<long> v;
  if (!groupSizes(slurp(p, ex), v)) v.assign(1, -1);
  return ",\"szs\":" + jlist(v);
}

static string values(const TimeSeries& t)
{
  vector<long> v;
  for (int i = 0; i < t.getLength(); i++) v.push_back(grid(t[i], gDrv.G));
  return jlist(v);
}

// groups as told by the documented text format
static string groups(const string& name, const dataset_metadata_t& info)
{
  if (!info.isGrouped) return "{\"on\":false}";
  string f = gDrv.tmp + "/obs";
  api->saveGroupsOld(name, f, false);
  std::ifstream in(f.c_str());
  int version, items, length, from, to, n = 0;
  string thr, dist;
  in >> version >> thr >> items >> length >> from >> to >> dist;
  std::ostringstream gs;
  for (int l = from; in && l < to; l++) {
    int cnt = 0;
    in >> cnt;
    for (int g = 0; in && g < cnt; g++) {
      vector<long> rep;
      for (int i = 0; in && i < l; i++) { double v; in >> v; rep.push_back(grid(v, gDrv.G)); }
      int members = 0;
      in >> members;
      gs << (n++ ? "," : "") << "{\"l\":" << l << ",\"r\":" << jlist(rep) << ",\"m\":[";
      for (int m = 0; in && m < members; m++) {
        int x, s;
        in >> x >> s;
        gs << (m ? "," : "") << "[" << x << "," << s << "]";
      }
      gs << "]}";
    }
  }
  bool fine = (bool) in && items == info.itemCount && length == info.itemLength && dist == info.distance;
  unlink(f.c_str());
  char t17[40];
  snprintf(t17, sizeof t17, "%.17g", (double) info.threshold);
  std::ostringstream o;
  o << "{\"on\":" << (fine ? "true" : "false") << ",\"dist\":" << jstr(info.distance)
    << ",\"thr8\":" << eighths(info.threshold) << ",\"thr\":" << jstr(t17)
    << ",\"from\":" << from << ",\"n\":" << n << ",\"gs\":[" << gs.str() << "]}";
  return o.str();
}

static string observe(const string& name)
{
  dataset_metadata_t info = api->getDatasetInfo(name);
  std::ostringstream o;
  string raw;                  // the exact values
  o << "{\"cnt\":" << info.itemCount << ",\"max\":" << info.itemLength
    << ",\"norm\":" << (info.isNormalized ? "true" : "false") << ",\"rows\":[";
  for (int i = 0; i < info.itemCount; i++) {
    TimeSeries t = api->getTimeSeries(name, i, -1, -1);
    string v = values(t);
    for (int j = 0; j < t.getLength(); j++) { double d = t[j]; raw.append((char*) &d, sizeof d); }
    if (t.getLength() != api->getTimeSeriesLength(name, i)) v = "[-55555555]";
    o << (i ? "," : "") << v;
  }
  o << "],\"names\":[";
  for (int i = 0; i < info.itemCount; i++)
    o << (i ? "," : "") << jstr(api->getTimeSeriesName(name, i));
  o << "],\"bits\":" << digest(raw) << ",\"grp\":" << groups(name, info) << "}";
  return o.str();
}
static string post(const string& name)
{
  try { return ",\"post\":" + observe(name); }
  catch (std::exception& e) { return ",\"postfail\":" + jstr(e.what()); }
}

static string observeAll()
{
  std::ostringstream o;
  std::ostringstream list, all;
  int count = 0;
  for (int k = 1; k <= 2; k++) {
    if (k == 2 && !second) continue;
    if (k == 2) std::swap(api, second);
    const string pre = k == 2 ? "2:" : "";
    vector<dataset_metadata_t> infos = api->getAllDatasetInfo();
    count += api->getDatasetCount();
    for (size_t i = 0; i < infos.size(); i++) {
      const char* sep = list.tellp() > 0 ? "," : "";
      list << sep << jstr(pre + infos[i].name);
      all << sep << jstr(pre + infos[i].name) << ":" << observe(infos[i].name);
    }
    if (k == 2) std::swap(api, second);
  }
  o << ",\"count\":" << count << ",\"list\":[" << list.str() << "],\"all\":{" << all.str();
  o << "},\"files\":{";
  vector<string> names;
  DIR* d = opendir(gDrv.dir.c_str());
  while (dirent* e = readdir(d)) {
    struct stat sb;
    if (e->d_name[0] != '.' && !stat((gDrv.dir + "/" + e->d_name).c_str(), &sb) && S_ISREG(sb.st_mode))
      names.push_back(e->d_name);
  }
  closedir(d);
  std::sort(names.begin(), names.end());
  for (size_t i = 0; i < names.size(); i++) {
    bool ex;
    o << (i ? "," : "") << jstr(names[i]) << ":" << digest(slurp(gDrv.dir + "/" + names[i], ex));
  }
  o << "},\"szs\":{";
  bool first = true;
  for (size_t i = 0; i < names.size(); i++) {
    bool ex;
    vector<long> v;
    if (!groupSizes(slurp(gDrv.dir + "/" + names[i], ex), v)) continue;
    o << (first ? "" : ",") << jstr(names[i]) << ":" << jlist(v);
    first = false;
  }
  o << "}";
  return o.str();
}

static string results(const vector<candidate_time_series_t>& r, const string& dist, int lq, int block)
{
  std::ostringstream o;
  o << ",\"res\":[";
  for (size_t i = 0; i < r.size(); i++) {
    int l = r[i].data.getLength(), a = lq;
    if (block > 0) { l = (l + block - 1) / block; a = (a + block - 1) / block; }
    o << (i ? "," : "") << "{\"x\":" << r[i].data.getIndex() << ",\"s\":" << r[i].data.getStart()
      << ",\"e\":" << r[i].data.getEnd() << ",\"t\":" << warpedTotal(dist, r[i].dist, a, l, gDrv.G) << "}";
  }
  o << "]";
  return o.str();
}
// For distances that have no exact totals the results and the distances of all sub-sequences are recorded as ranks.
// Nothing is recorded where the order of the arguments matters or a distance is not a number.
static string ranked(const vector<candidate_time_series_t>& r, const string& dist, const string& target, const Args& a, int at)
{
  const string query = unhex(a[at]), warped = dist + "_dtw";
  const int x = num(a[at + 1]), s = num(a[at + 2]), e = num(a[at + 3]);
  struct Place { int x, s, e; double d; };
  vector<Place> all;
  vector<double> values;
  const dataset_metadata_t info = api->getDatasetInfo(target);
  for (int i = 0; i < info.itemCount; i++)
    for (int n = api->getTimeSeriesLength(target, i), b = 0; b < n; b++)
      for (int f = b + 2; f <= n; f++) {
        const double d = api->distanceBetween(query, x, s, e, target, i, b, f, warped);
        const double back = api->distanceBetween(target, i, b, f, query, x, s, e, warped);
        if (std::isnan(d) || std::isnan(back) || (d != back && !(std::fabs(d - back) < 1e-9)) || all.size() > 300) return "";
        Place p = {i, b, f, d};
        all.push_back(p);
        if (!std::isinf(d)) values.push_back(d);
      }
  std::sort(values.begin(), values.end());
  for (size_t i = 1; i < values.size(); i++)
    if (values[i] - values[i - 1] > 1e-12 && values[i] - values[i - 1] < 1e-7) return "";  // neither equal nor different
  auto rank = [&values](double d) {
    if (std::isinf(d)) return -1;
    int k = 0;
    for (size_t i = 0; i < values.size(); i++) {
      if (i && values[i] - values[i - 1] > 1e-9) k++;
      if (std::fabs(values[i] - d) < 1e-9) return k;
    }
    return -2;
  };
  std::ostringstream o;
  o << ",\"res\":[";
  for (size_t i = 0; i < r.size(); i++)
    o << (i ? "," : "") << "{\"x\":" << r[i].data.getIndex() << ",\"s\":" << r[i].data.getStart()
      << ",\"e\":" << r[i].data.getEnd() << ",\"t\":" << rank(r[i].dist) << "}";
  o << "],\"ranks\":[";
  for (size_t i = 0; i < all.size(); i++)
    o << (i ? "," : "") << "[" << all[i].x << "," << all[i].s << "," << all[i].e << "," << rank(all[i].d) << "]";
  o << "]";
  return o.str();
}
static int queryLength(const Args& a, int at)
{
  return api->getTimeSeries(unhex(a[at]), num(a[at + 1]), num(a[at + 2]), num(a[at + 3])).getLength();
}
static string found(const vector<candidate_time_series_t>& r, const string& dist, const string& target, const Args& a, int at)
{
  string o;
  if (dist == "cosine" || dist == "sorensen") o = ranked(r, dist, target, a, at);
  return o.empty() ? results(r, dist, queryLength(a, at), 0) : o;
}

// restricts the size of files while a save is running
struct Limit
{
  struct rlimit old;
  Limit() { getrlimit(RLIMIT_FSIZE, &old); set(gDrv.limit); }
  ~Limit() { setrlimit(RLIMIT_FSIZE, &old); gDrv.limit = -1; }
  void set(long n)
  {
    if (n < 0) return;
    struct rlimit l = old;
    l.rlim_cur = n;
    setrlimit(RLIMIT_FSIZE, &l);
  }
};

static string rational(double v)
{
  if (std::isnan(v) || std::fabs(v) > 1e6) return ",\"t\":-3,\"u\":1";
  // v = p/q by continued fraction with small p, q
  double x = v;
  long p0 = 0, q0 = 1, p1 = 1, q1 = 0;
  for (int i = 0; i < 20; i++) {
    double f = std::floor(x);
    if (std::fabs(f) > 1e6) break;
    long p2 = (long) f * p1 + p0, q2 = (long) f * q1 + q0;
    if (std::labs(p2) > 2000000 || q2 > 2000000) break;
    p0 = p1; q0 = q1; p1 = p2; q1 = q2;
    if (std::fabs((double) p1 / q1 - v) < 1e-13) break;
    x = 1 / (x - f);
  }
  bool good = q1 > 0 && std::fabs((double) p1 / q1 - v) < 1e-11;
  std::ostringstream o;
  o << ",\"t\":" << (good ? p1 : -2) << ",\"u\":" << (good ? q1 : 1);
  return o.str();
}

static string distanceFields(const string& dn, double d, int la, int lb)
{
  std::ostringstream o;
  if (dn.size() > 4 && dn.substr(dn.size() - 4) == "_dtw")
    o << ",\"t\":" << warpedTotal(dn.substr(0, dn.size() - 4), d, la, lb, gDrv.G);
  else if (dn == "sorensen") o << rational(d);
  else if (dn == "cosine")
    o << rational(d * d) << ",\"sg\":" << (std::fabs(d) < 1e-12 ? 0 : d > 0 ? 1 : -1);
  else o << ",\"t\":" << plainTotal(dn, d, la, gDrv.G);
  return o.str();
}

// damage <file> <copy> <kind> <position> <count or bytes>; positions are taken modulo what there is
static string damaged(const string& p, const Args& a)
{
  bool ex;
  string c = slurp(p, ex), kind = a[3];
  if (c.empty()) return c;
  size_t at = num(a[4]);
  if (kind == "byte") { c[at % c.size()] = unhex(a[5])[0]; return c; }
  if (kind == "insert") return c.insert(at % (c.size() + 1), unhex(a[5]));
  if (kind == "erase") return c.erase(at % c.size(), num(a[5]));
  if (kind == "twice") return c + c;
  vector<std::pair<size_t, size_t>> parts;     // lines, or words
  bool lines = kind == "dropline" || kind == "dupline" || kind == "swapline";
  for (size_t i = 0; i < c.size();) {
    size_t j = i;
    if (lines) { j = c.find('\n', i); j = j == string::npos ? c.size() : j + 1; parts.push_back({i, j - i}); }
    else {
      while (j < c.size() && !isspace((unsigned char) c[j])) j++;
      if (j > i) parts.push_back({i, j - i}); else j++;
    }
    i = j;
  }
  auto x = parts[at % parts.size()];
  string piece = c.substr(x.first, x.second);
  if (kind == "dropline") return c.erase(x.first, x.second);
  if (kind == "dupline") return c.insert(x.first, piece);
  if (kind == "word") return c.replace(x.first, x.second, unhex(a[5]));
  auto y = parts[(size_t) num(a[5]) % parts.size()];
  if (y.first < x.first) std::swap(x, y);
  if (x.first == y.first) return c;
  piece = c.substr(x.first, x.second);
  string other = c.substr(y.first, y.second);
  return c.replace(y.first, y.second, piece).replace(x.first, x.second, other);
}

// every other call leaves out the arguments that have their default values; returns how many are given
static int given(const Args& a, size_t from, const vector<string>& defaults)
{
  static bool turn = false;
  turn = !turn;
  int n = defaults.size();
  if (turn) return n;
  while (n > 0 && a[from + n - 1] == defaults[n - 1]) n--;
  return n;
}
static const string EUCLIDEAN = "x6575636c696465616e";

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static long entries(const char* dir)
{
  long n = 0;
  if (DIR* d = opendir(dir)) {
    while (readdir(d)) n++;
    closedir(d);
  }
  return n;
}
// what the program holds, since the first of these calls: memory, open files, threads
static string usage(bool first)
{
  static long seen[3][64];
  static int n = 0;
  if (first) n = 0;
  if (n < 64) {
    seen[0][n] = __sanitizer_get_current_allocated_bytes ? (long) __sanitizer_get_current_allocated_bytes() : 0;
    seen[1][n] = entries("/proc/self/fd");
    seen[2][n] = entries("/proc/self/task");
    n++;
  }
  std::ostringstream o;
  const char* name[] = {"heap", "files", "threads"};
  for (int k = 0; k < 3; k++) {
    o << ",\"" << name[k] << "\":[";
    for (int i = 0; i < n; i++) o << (i ? "," : "") << seen[k][i];
    o << "]";
  }
  return o.str();
}

static string run(const Args& a)
{
  const string& op = a[0];
  if (op == "usage") return usage(num(a[1]));
  std::ostringstream o;
  if (op == "load") {
    dataset_metadata_t i;
    switch (given(a, 3, {"x20", "0", "0", "0"})) {
      case 0: i = api->loadDataset(unhex(a[1]), path(a[2])); break;
      case 1: i = api->loadDataset(unhex(a[1]), path(a[2]), unhex(a[3])); break;
      case 2: i = api->loadDataset(unhex(a[1]), path(a[2]), unhex(a[3]), num(a[4])); break;
      case 3: i = api->loadDataset(unhex(a[1]), path(a[2]), unhex(a[3]), num(a[4]), num(a[5])); break;
      default: i = api->loadDataset(unhex(a[1]), path(a[2]), unhex(a[3]), num(a[4]), num(a[5]), num(a[6]));
    }
    o << ",\"info\":{\"cnt\":" << i.itemCount << ",\"max\":" << i.itemLength << "}";
  }
  else if (op == "unload") api->unloadDataset(unhex(a[1]));
  else if (op == "unloadall") api->unloadAllDataset();
  else if (op == "drop") {                  // the second one: emptied, or destroyed and made anew when next needed
    if (num(a[1])) second.reset();
    else if (second) second->unloadAllDataset();
    blockSize2.clear();
  }
  else if (op == "ts") {
    TimeSeries t = api->getTimeSeries(unhex(a[1]), num(a[2]), num(a[3]), num(a[4]));
    o << ",\"vals\":" << values(t);
  }
  else if (op == "tsname") o << ",\"name\":" << jstr(api->getTimeSeriesName(unhex(a[1]), num(a[2])));
  else if (op == "tslen") o << ",\"len\":" << api->getTimeSeriesLength(unhex(a[1]), num(a[2]));
  else if (op == "norm") {
    std::pair<data_t, data_t> m = api->normalizeDataset(unhex(a[1]));
    o << ",\"mn\":" << grid(m.first, gDrv.G) << ",\"mx\":" << grid(m.second, gDrv.G);
    if (a.size() > 2) {      // afterwards values are in units of 1 over this
      gDrv.G = num(a[2]);
      gDrv.unit = 1;
    }
  }
  else if (op == "sched") {
    nextMode = num(a[1]);
    nextSeed = atol(a[2].c_str());
    nextStutter = num(a[3]);
  }
  else if (op == "group" || op == "regroup") {
    Scheduled s;
    int cnt;
    switch (given(a, 3, {EUCLIDEAN, "1", "0"})) {
      case 0: cnt = api->groupDataset(unhex(a[1]), atof(a[2].c_str())); break;
      case 1: cnt = api->groupDataset(unhex(a[1]), atof(a[2].c_str()), unhex(a[3])); break;
      case 2: cnt = api->groupDataset(unhex(a[1]), atof(a[2].c_str()), unhex(a[3]), num(a[4])); break;
      default: cnt = api->groupDataset(unhex(a[1]), atof(a[2].c_str()), unhex(a[3]), num(a[4]), num(a[5]));
    }
    o << ",\"cnt\":" << cnt;
    o << ",\"races\":" << s.races();
  }
  else if (op == "saveg") { Limit l; api->saveGroups(unhex(a[1]), path(a[2])); }
  else if (op == "saveo") { Limit l; api->saveGroupsOld(unhex(a[1]), path(a[2]), false); }
  else if (op == "sizes") api->saveGroupsOld(unhex(a[1]), path(a[2]), true);
  else if (op == "saved") { Limit l; api->saveDataset(unhex(a[1]), path(a[2]), unhex(a[3])[0]); }
  else if (op == "loadg") o << ",\"cnt\":" << api->loadGroups(unhex(a[1]), path(a[2]));
  else if (op == "loado") o << ",\"cnt\":" << api->loadGroupsOld(unhex(a[1]), path(a[2]));
  else if (op == "ratio") {
    ratioGiven = true;
    api->setWarpingBandRatio(atof(a[1].c_str()));
  }
  else if (op == "prep") {
    api->preparePAA(unhex(a[1]), num(a[2]));
    blockSize[a[1]] = num(a[2]);
  }
  else if (op == "best") {
    vector<candidate_time_series_t> r;
    switch (given(a, 4, {"-1", "-1"})) {
      case 0: r.push_back(api->getBestMatch(unhex(a[1]), unhex(a[2]), num(a[3]))); break;
      case 1: r.push_back(api->getBestMatch(unhex(a[1]), unhex(a[2]), num(a[3]), num(a[4]))); break;
      default: r.push_back(api->getBestMatch(unhex(a[1]), unhex(a[2]), num(a[3]), num(a[4]), num(a[5])));
    }
    o << found(r, api->getDatasetInfo(unhex(a[1])).distance, unhex(a[1]), a, 2);
  }
  else if (op == "kbest") {
    vector<candidate_time_series_t> r;
    switch (given(a, 6, {"-1", "-1"})) {
      case 0: r = api->getKBestMatches(num(a[1]), num(a[2]), unhex(a[3]), unhex(a[4]), num(a[5])); break;
      case 1: r = api->getKBestMatches(num(a[1]), num(a[2]), unhex(a[3]), unhex(a[4]), num(a[5]), num(a[6])); break;
      default: r = api->getKBestMatches(num(a[1]), num(a[2]), unhex(a[3]), unhex(a[4]), num(a[5]), num(a[6]), num(a[7]));
    }
    o << found(r, api->getDatasetInfo(unhex(a[3])).distance, unhex(a[3]), a, 4);
  }
  else if (op == "brute") {
    vector<candidate_time_series_t> r;
    switch (given(a, 5, {"-1", "-1", EUCLIDEAN})) {
      case 0: r = api->getKBestMatchesBruteForce(num(a[1]), unhex(a[2]), unhex(a[3]), num(a[4])); break;
      case 1: r = api->getKBestMatchesBruteForce(num(a[1]), unhex(a[2]), unhex(a[3]), num(a[4]), num(a[5])); break;
      case 2: r = api->getKBestMatchesBruteForce(num(a[1]), unhex(a[2]), unhex(a[3]), num(a[4]), num(a[5]), num(a[6])); break;
      default: r = api->getKBestMatchesBruteForce(num(a[1]), unhex(a[2]), unhex(a[3]), num(a[4]), num(a[5]), num(a[6]), unhex(a[7]));
    }
    o << found(r, unhex(a[7]), unhex(a[2]), a, 3);
  }
  else if (op == "paa") {
    vector<candidate_time_series_t> r;
    switch (given(a, 5, {"-1", "-1", EUCLIDEAN})) {
      case 0: r = api->getKBestMatchesPAA(num(a[1]), unhex(a[2]), unhex(a[3]), num(a[4])); break;
      case 1: r = api->getKBestMatchesPAA(num(a[1]), unhex(a[2]), unhex(a[3]), num(a[4]), num(a[5])); break;
      case 2: r = api->getKBestMatchesPAA(num(a[1]), unhex(a[2]), unhex(a[3]), num(a[4]), num(a[5]), num(a[6])); break;
      default: r = api->getKBestMatchesPAA(num(a[1]), unhex(a[2]), unhex(a[3]), num(a[4]), num(a[5]), num(a[6]), unhex(a[7]));
    }
    int longest = api->getDatasetInfo(unhex(a[2])).itemLength;
    o << results(r, unhex(a[7]), queryLength(a, 3), std::max(1, std::min(blockSize[a[2]], longest)));
  }
  else if (op == "dist") {
    string dn = unhex(a[9]);
    double d = api->distanceBetween(unhex(a[1]), num(a[2]), num(a[3]), num(a[4]),
                                    unhex(a[5]), num(a[6]), num(a[7]), num(a[8]), dn);
    o << distanceFields(dn, d, queryLength(a, 1), queryLength(a, 5));
  }
  else if (op == "dists") {
    vector<distance_metadata_t> l = api->getAllDistanceInfo();
    o << ",\"names\":[";
    for (size_t i = 0; i < l.size(); i++) o << (i ? "," : "") << jstr(l[i].name);
    o << "]";
  }
  else if (op == "match") {
    matching_t m = api->matchingBetween(unhex(a[1]), num(a[2]), num(a[3]), num(a[4]),
                                        unhex(a[5]), num(a[6]), num(a[7]), num(a[8]), unhex(a[9]));
    o << ",\"path\":[";
    for (size_t i = 0; i < m.size(); i++)
      o << (i ? "," : "") << "[" << m[i].first << "," << m[i].second << "]";
    o << "]";
  }
  else if (op == "bound") o << boundCommand(api.get(), a);
  else if (op == "obs") o << observeAll();
  else if (op == "file") spit(path(a[1]), unhex(a[2]));
  else if (op == "mkdir") mkdir(path(a[1]).c_str(), 0755);
  else if (op == "del") unlink(path(a[1]).c_str());
  else if (op == "cut") {
    bool ex;
    string c = slurp(path(a[1]), ex);
    spit(path(a[2]), c.substr(0, num(a[3])));
  }
  else if (op == "damage") spit(path(a[2]), damaged(path(a[1]), a));
  else if (op == "limit") gDrv.limit = atol(a[1].c_str());
  else if (op == "sv") o << seriesCommand(a);
  else if (op == "reload" || op == "blocks") o << partCommand(a);
  else throw std::logic_error("driver: unknown command " + op);
  return o.str();
}

static string fieldsAfter(const Args& a)
{
  const string& op = a[0];
  if (op == "load" || op == "norm" || op == "group" || op == "regroup" || op == "loadg" || op == "loado")
    return post(unhex(a[1]));
  if (op == "sizes") return fileFields(path(a[2])) + sizesOf(path(a[2]));
  if (op == "saveg" || op == "saveo" || op == "saved" || op == "sizes" || op == "cut" || op == "damage") return fileFields(path(a[2]));
  if (op == "file") return fileFields(path(a[1]));
  return "";
}

static void emptyDir(const string& d)
{
  DIR* h = opendir(d.c_str());
  if (!h) { mkdir(d.c_str(), 0755); return; }
  while (dirent* e = readdir(h)) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    string p = d + "/" + e->d_name;
    if (unlink(p.c_str())) rmdir(p.c_str());
  }
  closedir(h);
}

#ifndef NO_MAIN
// whether a command is about the second object; takes the mark from the names
static bool forSecond(Args& a)
{
  bool yes = false;
  if (a[0] == "file" || a[0] == "damage") return false;
  for (size_t i = 1; i < a.size(); i++)
    if (!strncmp(a[i].c_str(), "x323a", 5)) { a[i].erase(1, 4); yes = true; }
  return yes;
}

int main(int argc, char** argv)
{
  if (argc < 5) return 64;
  signal(SIGXFSZ, SIG_IGN);
  std::ifstream in(argv[1]);
  out = fopen(argv[2], "w");
  long first = atol(argv[4]), session = -1;
  string line;
  while (std::getline(in, line)) {
    Args a;
    std::istringstream ls(line);
    string t;
    while (ls >> t) a.push_back(t);
    if (a.empty()) continue;
    if (a[0] == "T") {
      session = atol(a[1].c_str());
      if (session < first) continue;
      gDrv.G = atof(a[2].c_str());
      gDrv.unit = a.size() > 3 ? atof(a[3].c_str()) : 1;
      gDrv.limit = -1;
      gDrv.dir = string(argv[3]) + "/s";
      gDrv.tmp = string(argv[3]) + "/t";
      emptyDir(gDrv.dir);
      emptyDir(gDrv.tmp);
      api.reset();
      second.reset();
      blockSize2.clear();
      fprintf(out, "{\"T\":%ld}\n", session);
      fflush(out);
      blockSize.clear();
      api.reset(new GenexAPI());
      if (ratioGiven) api->setWarpingBandRatio(0.1);   // where it starts
      ratioGiven = false;
      seriesReset();
      continue;
    }
    if (session < first) continue;
    const bool swapped = forSecond(a);
    if (swapped) {
      if (!second) second.reset(new GenexAPI());
      std::swap(api, second);
      std::swap(blockSize, blockSize2);
    }
    string r;
    try { r = "{\"ok\":true" + run(a); }
    catch (std::logic_error& e) {
      if (!strncmp(e.what(), "driver:", 7)) { fprintf(stderr, "%s\n", e.what()); return 65; }
      r = string("{\"ok\":false,\"err\":") + jstr(e.what());
    }
    catch (std::exception& e) { r = string("{\"ok\":false,\"err\":") + jstr(e.what()); }
    catch (Unsupported&) { r = "{\"ok\":false,\"unsupported\":true"; }
    r += fieldsAfter(a) + "}";
    if (swapped) {
      std::swap(api, second);
      std::swap(blockSize, blockSize2);
    }
    fputs((r + "\n").c_str(), out);
    fflush(out);
  }
  api.reset();
  second.reset();
  seriesReset();
  fputs("{\"END\":1}\n", out);
  fclose(out);
  return 0;
}
#endif
