// Sessions of the Python module: its sources are compiled with pyprelude.hpp into this
// program, which has an interpreter.  Same calling conventions and commands as driver.cpp;
// everything that the module offers is called through it.  How arguments are given (all,
// without those at their defaults, or by name) alternates.
#include <boost/python.hpp>
#define NO_MAIN
#include "driver.cpp"
namespace py = boost::python;

extern "C" PyObject* PyInit_pygenex();

static GenexAPI* pyApi;
void pyObserve(GenexAPI* p) { pyApi = p; }

static unsigned calls;
static py::object* module;

// an argument that may be left out or given by name
struct Opt
{
  const char* name;
  py::object value;
  bool plain;              // at its default
};

static py::object call(const char* f, const std::vector<py::object>& args, const std::vector<Opt>& opts = {})
{
  unsigned style = calls++ % 4;
  size_t last = opts.size();
  if (style >= 1) while (last > 0 && opts[last - 1].plain) last--;
  bool named = style >= 2;
  py::list pos;
  py::dict kw;
  for (auto& a : args) pos.append(a);
  for (size_t i = 0; i < last; i++) {
    if (!named || (style == 3 && i == 0)) pos.append(opts[i].value);
    else if (!opts[i].plain || style == 2) kw[opts[i].name] = opts[i].value;
  }
  py::object fn = module->attr(f);
  py::tuple t(pos);
  PyObject* r = PyObject_Call(fn.ptr(), t.ptr(), kw.ptr());
  if (!r) py::throw_error_already_set();
  return py::object(py::handle<>(r));
}

static py::object S(const string& s) { return py::object(s); }
static py::object I(const string& s) { return py::object(num(s)); }
static py::object B(const string& s) { return py::object(num(s) != 0); }
static std::vector<Opt> range(const string& s, const string& e)
{
  return {{"start", I(s), num(s) == -1}, {"end", I(e), num(e) == -1}};
}
static std::vector<Opt> range(const string& s, const string& e, const string& dist)
{
  std::vector<Opt> o = range(s, e);
  o.push_back({"distance", S(dist), dist == "euclidean"});
  return o;
}

// by the names of the fields
static string shown(const py::object& list, const string& dist, int lq, int block)
{
  std::ostringstream o;
  o << ",\"res\":[";
  for (long i = 0; i < py::len(list); i++) {
    py::object d = list[i], t = d["data"];
    int x = py::extract<int>(t["index"]), s = py::extract<int>(t["start"]), e = py::extract<int>(t["end"]);
    double v = py::extract<double>(d["dist"]);
    int l = e - s, a = lq;
    if (block > 0) { l = (l + block - 1) / block; a = (a + block - 1) / block; }
    o << (i ? "," : "") << "{\"x\":" << x << ",\"s\":" << s << ",\"e\":" << e
      << ",\"t\":" << warpedTotal(dist, v, a, l, gDrv.G) << "}";
  }
  o << "]";
  return o.str();
}

static string pyRun(const Args& a)
{
  const string& op = a[0];
  std::ostringstream o;
  if (op == "load") {
    string seps = unhex(a[3]);
    py::object d = call("loadDataset", {S(unhex(a[1])), S(path(a[2]))},
                        {{"separators", S(seps), seps == " "}, {"maxNumRow", I(a[4]), num(a[4]) == 0},
                         {"startCol", I(a[5]), num(a[5]) == 0}, {"hasNameCol", B(a[6]), num(a[6]) == 0}});
    string n = py::extract<string>(d["name"]);
    int c = py::extract<int>(d["count"]), m = py::extract<int>(d["length"]);
    if (n != unhex(a[1])) c = -1;
    o << ",\"info\":{\"cnt\":" << c << ",\"max\":" << m << "}";
  }
  else if (op == "unload") call("unloadDataset", {S(unhex(a[1]))});
  else if (op == "ts") {
    py::object l = call("getTimeSeries", {S(unhex(a[1])), I(a[2])}, range(a[3], a[4]));
    vector<long> v;
    for (long i = 0; i < py::len(l); i++) v.push_back(grid(py::extract<double>(l[i]), gDrv.G));
    o << ",\"vals\":" << jlist(v);
  }
  else if (op == "tsname") {
    string n = py::extract<string>(call("getTimeSeriesName", {S(unhex(a[1])), I(a[2])}));
    o << ",\"name\":" << jstr(n);
  }
  else if (op == "tslen") {
    int n = py::extract<int>(call("getTimeSeriesLength", {S(unhex(a[1])), I(a[2])}));
    o << ",\"len\":" << n;
  }
  else if (op == "norm") {
    py::object t = call("normalize", {S(unhex(a[1]))});
    double lo = py::extract<double>(t[0]), hi = py::extract<double>(t[1]);
    o << ",\"mn\":" << grid(lo, gDrv.G) << ",\"mx\":" << grid(hi, gDrv.G);
  }
  else if (op == "group") {
    string dist = unhex(a[3]);
    int n = py::extract<int>(call("group", {S(unhex(a[1])), py::object(atof(a[2].c_str()))},
      {{"distanceName", S(dist), dist == "euclidean"}, {"numThreads", I(a[4]), num(a[4]) == 1},
       {"wholeSeriesOnly", B(a[5]), num(a[5]) == 0}}));
    o << ",\"cnt\":" << n;
  }
  else if (op == "saveg") call("saveGroups", {S(unhex(a[1])), S(path(a[2]))});
  else if (op == "sizes") call("saveGroupsSize", {S(unhex(a[1])), S(path(a[2]))});
  else if (op == "saved") call("saveDataset", {S(unhex(a[1])), S(path(a[2])), S(unhex(a[3]))});
  else if (op == "loadg") {
    int n = py::extract<int>(call("loadGroups", {S(unhex(a[1])), S(path(a[2]))}));
    o << ",\"cnt\":" << n;
  }
  else if (op == "ratio") call("setWarpingBandRatio", {py::object(atof(a[1].c_str()))});
  else if (op == "prep") {
    call("preparePAA", {S(unhex(a[1])), I(a[2])});
    blockSize[a[1]] = num(a[2]);
  }
  else if (op == "best") {
    py::list l;
    l.append(call("sim", {S(unhex(a[1])), S(unhex(a[2])), I(a[3])}, range(a[4], a[5])));
    o << shown(l, api->getDatasetInfo(unhex(a[1])).distance, queryLength(a, 2), 0);
  }
  else if (op == "kbest") {
    py::object l = call("ksim", {I(a[1]), I(a[2]), S(unhex(a[3])), S(unhex(a[4])), I(a[5])}, range(a[6], a[7]));
    o << shown(l, api->getDatasetInfo(unhex(a[3])).distance, queryLength(a, 4), 0);
  }
  else if (op == "brute") {
    py::object l = call("ksimbf", {I(a[1]), S(unhex(a[2])), S(unhex(a[3])), I(a[4])}, range(a[5], a[6], unhex(a[7])));
    o << shown(l, unhex(a[7]), queryLength(a, 3), 0);
  }
  else if (op == "paa") {
    py::object l = call("ksimpaa", {I(a[1]), S(unhex(a[2])), S(unhex(a[3])), I(a[4])}, range(a[5], a[6], unhex(a[7])));
    int longest = api->getDatasetInfo(unhex(a[2])).itemLength;
    o << shown(l, unhex(a[7]), queryLength(a, 3), std::max(1, std::min(blockSize[a[2]], longest)));
  }
  else if (op == "dist") {
    string dn = unhex(a[9]);
    double d = py::extract<double>(call("distance", {S(unhex(a[1])), I(a[2]), I(a[3]), I(a[4]),
                                                     S(unhex(a[5])), I(a[6]), I(a[7]), I(a[8]), S(dn)}));
    o << distanceFields(dn, d, queryLength(a, 1), queryLength(a, 5));
  }
  else if (op == "match") {
    py::object l = call("getMatching", {S(unhex(a[1])), I(a[2]), I(a[3]), I(a[4]),
                                        S(unhex(a[5])), I(a[6])},
                        {{"start2", I(a[7]), num(a[7]) == -1}, {"end2", I(a[8]), num(a[8]) == -1},
                         {"distanceName", S(unhex(a[9])), unhex(a[9]) == "euclidean_dtw"}});
    o << ",\"path\":[";
    for (long i = 0; i < py::len(l); i++) {
      py::object t = l[i];
      int x = py::extract<int>(t[0]), y = py::extract<int>(t[1]);
      o << (i ? "," : "") << "[" << x << "," << y << "]";
    }
    o << "]";
  }
  else if (op == "dists") {
    py::object l = call("getAllDistances", {});
    o << ",\"names\":[";
    for (long i = 0; i < py::len(l); i++) {
      string n = py::extract<string>(l[i]);
      o << (i ? "," : "") << jstr(n);
    }
    o << "]";
  }
  else return run(a);
  return o.str();
}

static string pythonError()
{
  PyObject *t = 0, *v = 0, *b = 0;
  PyErr_Fetch(&t, &v, &b);
  PyErr_NormalizeException(&t, &v, &b);
  string s = "?";
  if (v) {
    PyObject* r = PyObject_Str(v);
    if (r) {
      const char* c = PyUnicode_AsUTF8(r);
      s = c ? c : "?";
      Py_DECREF(r);
    }
  }
  Py_XDECREF(t);
  Py_XDECREF(v);
  Py_XDECREF(b);
  PyErr_Clear();
  return s;
}

int main(int argc, char** argv)
{
  if (argc < 5) return 64;
  PyImport_AppendInittab("pygenex", &PyInit_pygenex);
  Py_InitializeEx(0);
  try { module = new py::object(py::import("pygenex")); }
  catch (py::error_already_set&) { fprintf(stderr, "driver: %s\n", pythonError().c_str()); return 65; }
  if (!pyApi) { fprintf(stderr, "driver: the module has no library object\n"); return 65; }
  api.reset(pyApi);
  std::ifstream in(argv[1]);
  out = fopen(argv[2], "w");
  long first = atol(argv[4]), session = -1;
  string line;
  while (std::getline(in, line)) {
    Args a;
    std::istringstream ls(line);
    string t;
    while (ls >> t) a.push_back(t);
    if (a.empty()) continue;
    if (a[0] == "T") {
      session = atol(a[1].c_str());
      if (session < first) continue;
      gDrv.G = atof(a[2].c_str());
      gDrv.unit = a.size() > 3 ? atof(a[3].c_str()) : 1;
      gDrv.limit = -1;
      gDrv.dir = string(argv[3]) + "/s";
      gDrv.tmp = string(argv[3]) + "/t";
      emptyDir(gDrv.dir);
      emptyDir(gDrv.tmp);
      calls = (unsigned) session;
      blockSize.clear();
      api->unloadAllDataset();
      api->setWarpingBandRatio(0.1);
      fprintf(out, "{\"T\":%ld}\n", session);
      fflush(out);
      continue;
    }
    if (session < first) continue;
    string r;
    try { r = "{\"ok\":true" + pyRun(a); }
    catch (py::error_already_set&) { r = string("{\"ok\":false,\"err\":") + jstr(pythonError()); }
    catch (std::exception& e) {
      if (!strncmp(e.what(), "driver:", 7)) { fprintf(stderr, "%s\n", e.what()); return 65; }
      r = string("{\"ok\":false,\"err\":") + jstr(e.what());
    }
    catch (Unsupported&) { r = "{\"ok\":false,\"unsupported\":true"; }
    r += fieldsAfter(a) + "}";
    fputs((r + "\n").c_str(), out);
    fflush(out);
  }
  api->unloadAllDataset();
  api.release();
  fputs("{\"END\":1}\n", out);
  fclose(out);
  fflush(0);
  _exit(0);
}
