// Operations on single TimeSeries values (optional part of the driver).
//   sv buf B v...      contents of external buffer B
//   sv ref R B x s e   register R views buffer B     sv refl R B len
//   sv own R len       register R has its own values
//   sv copy|asg|mov R S, sv set R i v, sv get R i, sv add R S, sv eq R S, sv avg R, sv env R w, sv print R, sv cand R d S e
// Every result lists all registers.
#include "drv.hpp"
#ifdef STUB
void seriesReset() {}
std::string seriesCommand(const Args&) { throw Unsupported(); }
#else
#include <map>
#include <memory>
#include <stdexcept>
#include "TimeSeries.hpp"
using namespace genex;

static std::map<int, std::unique_ptr<TimeSeries>> regs;
static std::map<int, std::vector<double>> bufs;

void seriesReset() { regs.clear(); bufs.clear(); }

static int num(const Args& a, size_t i) { return atoi(a.at(i).c_str()); }
static TimeSeries& reg(const Args& a, size_t i)
{
  auto it = regs.find(num(a, i));
  if (it == regs.end()) throw std::logic_error("driver: empty register");
  return *it->second;
}
static std::string list()
{
  std::ostringstream o;
  o << ",\"regs\":[";
  bool first = true;
  for (auto& p : regs) {
    TimeSeries& t = *p.second;
    std::vector<long> v;
    for (int i = 0; i < t.getLength(); i++) v.push_back(grid(t[i], gDrv.G));
    o << (first ? "" : ",") << "{\"r\":" << p.first << ",\"v\":" << jlist(v) << ",\"x\":" << t.getIndex()
      << ",\"s\":" << t.getStart() << ",\"e\":" << t.getEnd() << ",\"n\":" << t.getLength() << "}";
    first = false;
  }
  o << "]";
  return o.str();
}

std::string seriesCommand(const Args& a)
{
  const std::string& op = a.at(1);
  std::ostringstream o;
  std::string err;
  try {
    if (op == "buf") {
      std::vector<double>& b = bufs[num(a, 2)];
      if (b.empty()) b.resize(a.size() - 3);
      for (size_t i = 3; i < a.size(); i++) b[i - 3] = (double) num(a, i) / gDrv.G;
    }
    else if (op == "ref") regs[num(a, 2)].reset(
      new TimeSeries(bufs[num(a, 3)].data(), num(a, 4), num(a, 5), num(a, 6)));
    else if (op == "refl") regs[num(a, 2)].reset(new TimeSeries(bufs[num(a, 3)].data(), num(a, 4)));
    else if (op == "own") regs[num(a, 2)].reset(new TimeSeries(num(a, 3)));
    else if (op == "copy") { TimeSeries* t = new TimeSeries(reg(a, 3)); regs[num(a, 2)].reset(t); }
    else if (op == "asg") reg(a, 2) = reg(a, 3);
    else if (op == "mov") {
      TimeSeries &x = reg(a, 2), &y = reg(a, 3);
      if (&x == &y) x = std::move(y);
      else { TimeSeries t(y); x = std::move(t); }
    }
    else if (op == "set") reg(a, 2)[num(a, 3)] = (double) num(a, 4) / gDrv.G;
    else if (op == "get") o << ",\"val\":" << grid(reg(a, 2)[num(a, 3)], gDrv.G);
    else if (op == "add") reg(a, 2) += reg(a, 3);
    else if (op == "eq") o << ",\"val\":" << (reg(a, 2) == reg(a, 3) ? 1 : 0);
    else if (op == "avg") o << ",\"val\":" << grid(reg(a, 2).average() * reg(a, 2).getLength(), gDrv.G);
    else if (op == "env") {
      TimeSeries& t = reg(a, 2);
      const data_t* lo = t.getKeoghLower(num(a, 3));
      std::vector<long> v;
      for (int i = 0; i < t.getLength(); i++) v.push_back(grid(lo[i], gDrv.G));
      const data_t* hi = t.getKeoghUpper(num(a, 3));
      std::vector<long> u;
      for (int i = 0; i < t.getLength(); i++) u.push_back(grid(hi[i], gDrv.G));
      o << ",\"lo\":" << jlist(v) << ",\"hi\":" << jlist(u);
    }
    else if (op == "print") {        // the printed numbers are the values, to 16 digits
      TimeSeries& t = reg(a, 2);
      std::ostringstream text;
      text << t;
      std::istringstream in(text.str());
      std::vector<long> v;
      bool close = true;
      for (double x; in >> x;) {
        if ((int) v.size() < t.getLength()) close = close && std::fabs(x - t[v.size()]) <= 1e-15 * std::fabs(x);
        v.push_back(grid(x, gDrv.G));
      }
      o << ",\"vals\":" << jlist(v) << ",\"close\":" << (close ? "true" : "false") << ",\"id\":" << jstr(t.getIdentifierString());
    }
    else if (op == "cand") {         // as matches at distances of so many quarters
      candidate_time_series_t x(reg(a, 2), num(a, 3) / 4.0), y(reg(a, 4), num(a, 5) / 4.0);
      o << ",\"eq\":" << (x == y ? 1 : 0) << ",\"lt\":" << (x < y ? 1 : 0) << ",\"gt\":" << (y < x ? 1 : 0);
    }
    else throw std::logic_error("driver: unknown series command");
  }
  catch (std::logic_error& e) { if (std::string(e.what()).substr(0, 7) == "driver:") throw; err = e.what(); }
  catch (std::exception& e) { err = e.what(); }
  return (err.empty() ? o.str() : "") + ",\"fine\":" + (err.empty() ? "true" : "false") + list();
}
#endif
