// The bundled search of one file for the best match of another (lib/trillionDTW), its bounds and its distance.
//   ucr SCRIPT RESULT DIR     one command per line, one JSON record per command
// Values are integers; windows are passed through mean and deviation so that they come out as the given integers.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <numeric>
#include <sstream>
#include <string>
#include <algorithm>
#include <vector>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include "lib/trillionDTW.h"

typedef std::vector<data_t> Row;
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

static std::istringstream in;
static int number() { int x = 0; if (!(in >> x)) { fprintf(stderr, "bad script\n"); exit(64); } return x; }
static Row row(int n) { Row v; for (int i = 0; i < n; i++) v.push_back(number()); return v; }

static long whole(double d)
{
  if (d >= INF_TRILLION / 2) return -1;
  if (!(d >= 0) || d != std::floor(d) || d > 1e9) return -7;
  return (long) d;
}

static std::string list(const Row& v)
{
  std::ostringstream o;
  o << "[";
  for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << (v[i] < 0 ? -5 : whole(v[i]));
  o << "]";
  return o.str();
}

static double limit(int cut) { return cut < 0 ? INF_TRILLION : cut; }

// positions by size, as the search orders them
static std::vector<int> order(const Row& q)
{
  std::vector<int> o(q.size());
  std::iota(o.begin(), o.end(), 0);
  std::stable_sort(o.begin(), o.end(), [&](int a, int b) { return std::fabs(q[a]) > std::fabs(q[b]); });
  return o;
}

// the window a, scaled, as the two copies of a circular buffer that starts at j
static Row circular(const Row& a, int j, int mean, int dev)
{
  int m = a.size();
  Row t(2 * m);
  for (int k = 0; k < m; k++) t[(j + k) % m] = t[(j + k) % m + m] = a[k] * dev + mean;
  return t;
}

static double keogh(Row& a, Row& q, int r, int j, int mean, int dev, double cut, Row& cb)
{
  int m = a.size();
  Row t = circular(a, j, mean, dev), l(m), u(m), lo(m), uo(m);
  std::vector<int> o = order(q);
  lower_upper_lemire(q.data(), m, r, l.data(), u.data());
  for (int i = 0; i < m; i++) { uo[i] = u[o[i]]; lo[i] = l[o[i]]; }
  return lb_keogh_cumulative(o.data(), t.data(), uo.data(), lo.data(), cb.data(), j, m, mean, dev, cut);
}

static double keogh2(Row& a, Row& q, int r, int mean, int dev, double cut, Row& cb)
{
  int m = a.size();
  Row t = circular(a, 0, mean, dev), l(m), u(m), qo(m);
  std::vector<int> o = order(q);
  lower_upper_lemire(t.data(), m, r, l.data(), u.data());
  for (int i = 0; i < m; i++) qo[i] = q[o[i]];
  return lb_keogh_data_cumulative(o.data(), a.data(), qo.data(), cb.data(), l.data(), u.data(), m, mean, dev, cut);
}

// missing: 1 no data, 2 no query
static std::string search(const std::string& dir, const std::string& data, const std::string& query, int m, int r, int missing = 0)
{
  const std::string d = dir + "/data", q = dir + "/query", out = dir + "/out";
  if (missing != 1) std::ofstream(d) << data;
  if (missing != 2) std::ofstream(q) << query;
  fflush(0);
  pid_t p = fork();
  if (p == 0) {
    int f = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), n = open("/dev/null", O_WRONLY);
    dup2(f, 1);
    dup2(n, 2);
    calculate(d.c_str(), q.c_str(), m, r);
    std::cout.flush();
    fflush(0);
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  std::ifstream f(out);
  std::string line;
  long loc = -1, scanned = -1;
  double dist = -1;
  while (std::getline(f, line)) {
    size_t c = line.find(" : ");
    if (c == std::string::npos) continue;
    if (line.compare(0, 8, "Location") == 0) loc = atol(line.c_str() + c + 3);
    if (line.compare(0, 8, "Distance") == 0) dist = atof(line.c_str() + c + 3);
    if (line.compare(0, 12, "Data Scanned") == 0) scanned = atol(line.c_str() + c + 3);
  }
  unlink(d.c_str());
  unlink(q.c_str());
  unlink(out.c_str());
  std::ostringstream o;
  o << "\"fine\":" << (WIFEXITED(st) && WEXITSTATUS(st) == (missing ? EXIT_FAILURE : 0) ? "true" : "false") << ",\"loc\":" << loc << ",\"dist\":"
    << (dist >= 0 && dist < 1e5 ? std::lround(dist * 1000) : -1) << ",\"scanned\":" << scanned;
  return o.str();
}

static std::string plain(const std::string& dir, const std::string& data, const std::string& query, int m, int r)
{
  return search(dir, data, query, m, r);
}

// the same search several times in one process: the memory it holds after each
static std::string again(const std::string& dir, const std::string& data, const std::string& query, int m, int r)
{
  const std::string d = dir + "/data", q = dir + "/query";
  const int times = 8;
  long held[times] = {0};
  int ends[2];
  std::ofstream(d) << data;
  std::ofstream(q) << query;
  if (pipe(ends)) return "\"fine\":false,\"heap\":[]";
  fflush(0);
  pid_t p = fork();
  if (p == 0) {
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    dup2(n, 2);
    for (int i = 0; i < times; i++) {
      calculate(d.c_str(), q.c_str(), m, r);
      held[i] = __sanitizer_get_current_allocated_bytes ? (long) __sanitizer_get_current_allocated_bytes() : 0;
    }
    _exit(write(ends[1], held, sizeof held) != (ssize_t) sizeof held);
  }
  close(ends[1]);
  int st = 0;
  bool whole = read(ends[0], held, sizeof held) == (ssize_t) sizeof held;
  close(ends[0]);
  waitpid(p, &st, 0);
  unlink(d.c_str());
  unlink(q.c_str());
  std::ostringstream o;
  o << "\"fine\":" << (whole && WIFEXITED(st) && !WEXITSTATUS(st) ? "true" : "false") << ",\"heap\":[";
  for (int i = 0; i < times; i++) o << (i ? "," : "") << held[i];
  o << "]";
  return o.str();
}

int main(int argc, char** argv)
{
  if (argc < 4) return 64;
  std::ifstream f(argv[1]);
  std::ofstream o(argv[2]);
  std::string line;
  while (std::getline(f, line)) {
    in.clear();
    in.str(line);
    std::string op;
    in >> op;
    if (op == "dtw") {
      int m = number(), r = number(), cut = number(), how = number();
      Row a = row(m), b = row(m), cb(m, 0), sum(m, 0);
      if (how == 1) keogh(a, b, r, 0, 0, 1, INF_TRILLION, cb);
      if (how == 2) keogh2(a, b, r, 0, 1, INF_TRILLION, cb);
      for (int k = m - 1; k >= 0; k--) sum[k] = cb[k] + (k + 1 < m ? sum[k + 1] : 0);
      o << "{\"t\":" << whole(dtw(a.data(), b.data(), sum.data(), m, r, limit(cut))) << "}" << std::endl;
    }
    else if (op == "kim" || op == "keogh" || op == "keogh2") {
      int m = number(), r = number(), cut = number(), j = number(), mean = number(), dev = number();
      Row a = row(m), b = row(m), cb(m, -1);
      double t;
      if (op == "kim") {
        Row c = circular(a, j, mean, dev);
        t = lb_kim_hierarchy(c.data(), b.data(), j, m, mean, dev, limit(cut));
      }
      else if (op == "keogh") t = keogh(a, b, r, j, mean, dev, limit(cut), cb);
      else t = keogh2(a, b, r, mean, dev, limit(cut), cb);
      o << "{\"t\":" << whole(t) << ",\"cb\":" << list(cb) << "}" << std::endl;
    }
    else if (op == "search" || op == "again") {
      // search M R COUNT(of values, also more than M) QUERY.. N DATA..
      int m = number(), r = number(), c = number();
      std::ostringstream q, d;
      for (int i = 0; i < c; i++) q << number() << (i % 7 == 6 ? "\n" : " ");
      int n = number();
      for (int i = 0; i < n; i++) d << number() << (i % 11 == 10 ? "\n" : " ");
      o << "{" << (op == "again" ? again : plain)(argv[3], d.str(), q.str(), m, r) << "}" << std::endl;
    }
    else if (op == "missing") {
      int which = number();
      o << "{" << search(argv[3], "1 2 3 4 5 6 7 8 9", "3 1 2 3 1 2", 6, 1, which) << "}" << std::endl;
    }
    else if (op == "long") {
      // a long file: N values of a fixed pattern, the given windows put into it, and the window at the answer shown
      int m = number(), r = number(), n = number(), put = number();
      Row q = row(m);
      std::vector<int> v(n);
      unsigned x = number();
      for (int i = 0; i < n; i++) { x = x * 1103515245u + 12345u; v[i] = x >> 16 & 7; }
      for (int i = 0; i < put; i++) { int at = number(); Row w = row(m); for (int k = 0; k < m; k++) v[at + k] = w[k]; }
      std::ostringstream qs, d;
      for (int i = 0; i < m; i++) qs << q[i] << " ";
      for (int i = 0; i < n; i++) d << v[i] << (i % 50 == 49 ? "\n" : " ");
      std::string res = search(argv[3], d.str(), qs.str(), m, r);
      long loc = atol(res.c_str() + res.find("\"loc\":") + 6);
      o << "{" << res << ",\"win\":[";
      if (loc >= 0 && loc + m <= n) for (int k = 0; k < m; k++) o << (k ? "," : "") << v[loc + k];
      o << "]}" << std::endl;
    }
    else return 64;
  }
  return 0;
}
