"""The planted bugs (see plant.py): edits of the repository's code and a demonstration of each."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, **k):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))


TSS, TS, API = "genex/TimeSeriesSet.cpp", "genex/TimeSeries.cpp", "genex/GenexAPI.cpp"
GTS, GGS, GGH = "genex/GroupableTimeSeriesSet.cpp", "genex/group/GlobalGroupSpace.cpp", "genex/group/GlobalGroupSpace.hpp"
LLG, GRP, GRH = "genex/group/LocalLengthGroupSpace.cpp", "genex/group/Group.cpp", "genex/group/Group.hpp"
DC, DH, PAA, IO = "genex/distance/Distance.cpp", "genex/distance/Distance.hpp", "genex/PAAWrapper.cpp", "genex/IO.hpp"
POOL, TRI, CLI = "genex/lib/ThreadPool.hpp", "genex/lib/trillionDTW.cpp", "cli/GenexCLI.cpp"

bug("b01-one-separator", "C01",
    "a dataset whose rows use a separator other than the first of the ones given",
    "The pass that sizes the table splits lines at the first separator character only, so rows with other "
    "separators are laid over each other and read back wrong.",
    [(TSS, '''  int length;
  string line;
  boost::char_separator<char> sep(separators.c_str());''', '''  int length;
  string line;
  boost::char_separator<char> sep(separators.substr(0, 1).c_str());''')],
    r'''
int main()
{
  file("d", "1;2,3\n4,5;6\n");
  GenexAPI api;
  auto info = api.loadDataset("d", "d", ",;");
  EXPECT(info.itemCount == 2);
  EXPECT(api.getTimeSeriesLength("d", 0) == 3);
  TimeSeries a = api.getTimeSeries("d", 0, -1, -1);
  EXPECT(a.getLength() == 3);
  for (int i = 0; i < 3; i++) EXPECT(a[i] == i + 1);
  return failures != 0;
}
''')

bug("b03-counted-early", "C03",
    "a load that fails (missing file or text that is no number) and then a look at the number of datasets",
    "A dataset is counted before it is read, so a failed load raises the count of loaded datasets.",
    [(API, "  auto newSet = new GroupableTimeSeriesSet();\n", "  auto newSet = new GroupableTimeSeriesSet();\n  this->_datasetCount++;\n"),
     (API, "  this->_loadedDatasets[name] = newSet;\n  this->_datasetCount++;\n", "  this->_loadedDatasets[name] = newSet;\n")],
    r'''
int main()
{
  file("d", "1,2,3\n4,x,6\n");
  GenexAPI api;
  bool threw = false;
  try { api.loadDataset("d", "d", ","); } catch (GenexException& e) { threw = true; }
  EXPECT(threw);
  EXPECT(api.getDatasetCount() == 0);
  EXPECT(api.getAllDatasetInfo().empty());
  return failures != 0;
}
''')

bug("b04-rising-minimum", "C04",
    "a dataset whose values only ever rise, read row after row",
    "A value that is a new maximum is no longer considered for the minimum, so the minimum of rising data is "
    "wrong and so are the normalized values.",
    [(TSS, '''      }

      if (data[ts * this->maxCol + i] < MIN) {''', '''      }
      else if (data[ts * this->maxCol + i] < MIN) {''')],
    r'''
int main()
{
  file("d", "1,2,3\n4,5,9\n");
  GenexAPI api;
  api.loadDataset("d", "d", ",");
  auto r = api.normalizeDataset("d");
  EXPECT(r.first == 1);
  EXPECT(r.second == 9);
  TimeSeries a = api.getTimeSeries("d", 0, -1, -1);
  EXPECT(a[0] == 0);
  EXPECT(a[1] == 0.125);
  return failures != 0;
}
''')

bug("b05-band-rounded", "C05",
    "series and a band ratio whose product lies above a half (like 0.3 times 5)",
    "The width of the warping band is rounded to the nearest number instead of down.",
    [(DC, "floor(length * warpingBandRatio)", "round(length * warpingBandRatio)")],
    r'''
int main()
{
  // 5 * 0.35 = 1.75: a band of one
  file("d", "0,0,0,5,0\n0,5,0,0,0\n");
  GenexAPI api;
  api.loadDataset("d", "d", ",");
  api.setWarpingBandRatio(0.35);
  data_t d = api.distanceBetween("d", 0, -1, -1, "d", 1, -1, -1, "manhattan_dtw");
  // the peaks are two positions apart and cannot be matched with each other
  EXPECT(std::abs(d - 10.0 / (2 * 5)) < 1e-9);
  return failures != 0;
}
''')

bug("b05-cosine-sign", "C05",
    "the cosine distance of a second series with negative values",
    "The squared length of the second series is summed with the sign of its values.",
    [("genex/distance/Cosine.hpp", "next[1] = prev[1] + pow(x_2, 2);", "next[1] = prev[1] + x_2 * fabs(x_2);")],
    r'''
int main()
{
  file("d", "3,4\n-3,4\n");
  GenexAPI api;
  api.loadDataset("d", "d", ",");
  data_t d = api.distanceBetween("d", 0, -1, -1, "d", 1, -1, -1, "cosine");
  data_t e = api.distanceBetween("d", 1, -1, -1, "d", 0, -1, -1, "cosine");
  EXPECT(std::abs(d - e) < 1e-9);
  return failures != 0;
}
''')

bug("b07-bound-at-cutoff", "C07",
    "a lower bound exactly as large as the cut-off (here both are the distance itself)",
    "The two-sided bound gives up on a pair whose bound equals the cut-off although the pair is within it.",
    [(DC, '''  if (lb > dropout) {
    return INF;
  }
  else {
    return max(''', '''  if (lb >= dropout) {
    return INF;
  }
  else {
    return max(''')],
    r'''
int main()
{
  data_t x[] = {0, 0, 0, 0}, y[] = {2, 2, 2, 2};
  TimeSeries a(x, 4), b(y, 4);
  data_t d = cascadeDistance(a, b, INF, gNoMatching);
  EXPECT(d == 0.5);
  EXPECT(crossKeoghLowerBound(a, b, INF) <= d);
  EXPECT(cascadeDistance(a, b, d, gNoMatching) == d);
  return failures != 0;
}
''')

bug("b08-whole-first", "C08",
    "whole-series grouping of a ragged dataset whose first series is not the longest",
    "Whole-series grouping starts at the length of the first series instead of the largest length.",
    [(GGS, "return this->wholeSeriesOnly ? this->localLengthGroupSpace.size() - 1 : 2;",
      "return this->wholeSeriesOnly ? dataset.getItemLength(0) : 2;")],
    r'''
int main()
{
  file("d", "1,2,3\n1,2,3,4,5\n6,7,8,9,9\n");
  GenexAPI api;
  api.loadDataset("d", "d", ",");
  // two series have the largest length and they are far apart
  EXPECT(api.groupDataset("d", 0.1, "euclidean", 1, true) == 2);
  return failures != 0;
}
''')

bug("b09-at-the-radius", "C09",
    "a sub-series exactly half the threshold away from the nearest representative",
    "A sub-series exactly half the threshold away founds a group of its own instead of joining.",
    [(LLG, "if (bestSoFar > threshold / 2 ||", "if (bestSoFar >= threshold / 2 ||")],
    r'''
int main()
{
  file("d", "0,0\n1,1\n");
  GenexAPI api;
  api.loadDataset("d", "d", ",");
  EXPECT(api.groupDataset("d", 2.0, "euclidean", 1, false) == 1);
  EXPECT(api.groupDataset("d", 1.5, "euclidean", 1, false) == 2);
  return failures != 0;
}
''')

bug("b10-pool-drops", "C10",
    "tasks still queued when the pool of threads is destroyed",
    "Workers stop at once when the pool is destroyed and leave queued tasks undone.",
    [(POOL, "if(this->stop && this->tasks.empty())", "if(this->stop)")],
    r'''
#include "lib/ThreadPool.hpp"
#include <atomic>
#include <chrono>
int main()
{
  std::atomic<int> done(0);
  {
    ThreadPool pool(2);
    for (int i = 0; i < 50; i++) {
      pool.enqueue([&done] {
        std::this_thread::sleep_for(std::chrono::milliseconds(2));
        done++;
      });
    }
  }
  EXPECT(done == 50);
  return failures != 0;
}
''')

bug("b11-unwarped-member", "C11",
    "a best group with members as long as the query in which warped and plain distances order members differently",
    "Members as long as the query are compared with the pairwise instead of the warped distance, so the match and "
    "its distance are wrong.",
    [(GGS, "return bestSoFarGroup->getBestMatch(query, this->warpedDistance);",
      "return bestSoFarGroup->getBestMatch(query, bestSoFarGroup->getMemberLength() == query.getLength() ? "
      "this->pairwiseDistance : this->warpedDistance);")],
    r'''
int main()
{
  file("d", "0,0,4,0,0,0\n");
  file("q", "0,0,0,4,0,0\n");
  GenexAPI api;
  api.loadDataset("d", "d", ",");
  api.loadDataset("q", "q", ",");
  api.setWarpingBandRatio(0.34);
  api.groupDataset("d", 0.25, "euclidean", 1, true);
  candidate_time_series_t c = api.getBestMatch("d", "q", 0);
  EXPECT(c.dist == 0);
  return failures != 0;
}
''')

bug("b12-one-group-out", "C12",
    "a new group with more members than several of the worst groups kept so far",
    "Only one group is dropped when a nearer one arrives, so the worst group kept is no longer the one at which k "
    "is reached and too many sub-series are returned.",
    [(LLG, '''          while(k + bestSoFar.front().members <= 0) { 
            k += bestSoFar.front().members;
            std::pop_heap(bestSoFar.begin(), bestSoFar.end());
            bestSoFar.pop_back();
          }
        }
      }
      else''', '''          if (k + bestSoFar.front().members <= 0) { 
            k += bestSoFar.front().members;
            std::pop_heap(bestSoFar.begin(), bestSoFar.end());
            bestSoFar.pop_back();
          }
        }
      }
      else''')],
    r'''
int main()
{
  // whole series: groups {9}, {7}, then one with three members near the query
  file("d", "9,9\n7,7\n1,1\n1,1\n1,1\n");
  file("q", "1,1\n");
  GenexAPI api;
  api.loadDataset("d", "d", ",");
  api.loadDataset("q", "q", ",");
  api.groupDataset("d", 0.5, "euclidean", 1, true);
  auto best = api.getKBestMatches(2, 2, "d", "q", 0);
  EXPECT(best.size() == 2);
  for (auto& c : best) EXPECT(c.dist == 0);
  best = api.getKBestMatches(1, 2, "d", "q", 0);
  EXPECT(best.size() == 1);
  for (auto& c : best) EXPECT(c.dist == 0);
  return failures != 0;
}
''')

bug("b13-sorted-not-heaped", "C13",
    "an exhaustive search in which more than k sub-series are seen and a later one is better than the k-th",
    "The first k results are sorted ascending instead of made a heap, so the best of them is taken for the worst.",
    [(TSS, "            std::make_heap(bestSoFar.begin(), bestSoFar.end());",
      "            std::sort(bestSoFar.begin(), bestSoFar.end());")],
    r'''
int main()
{
  file("d", "1,1\n9,9\n8,8\n2,2\n1,2\n");
  file("q", "0,0\n");
  GenexAPI api;
  api.loadDataset("d", "d", ",");
  api.loadDataset("q", "q", ",");
  auto best = api.getKBestMatchesBruteForce(3, "d", "q", 0);
  EXPECT(best.size() == 3);
  EXPECT(best[0].data.getIndex() == 0);
  EXPECT(best[1].data.getIndex() == 4);
  EXPECT(best[2].data.getIndex() == 3);
  return failures != 0;
}
''')

bug("b14-short-block", "C14",
    "a query whose length is no multiple of the block size",
    "The average of the last, shorter block is taken over the whole block size.",
    [(PAA, "dest[i / blockSize] = sum / count;", "dest[i / blockSize] = sum / blockSize;")],
    r'''
int main()
{
  file("d", "4,4,4\n");
  file("q", "4,4,2\n");
  GenexAPI api;
  api.loadDataset("d", "d", ",");
  api.loadDataset("q", "q", ",");
  api.preparePAA("d", 2);
  auto best = api.getKBestMatchesPAA(3, "d", "q", 0, -1, -1, "euclidean");
  bool seen = false;
  for (auto& c : best) {
    // blocks (4, 4) of the whole series and (4, 2) of the query
    if (c.data.getLength() == 3) { seen = true; EXPECT(std::abs(c.dist - 2.0 / (2 * 2)) < 1e-9); }
  }
  EXPECT(seen);
  return failures != 0;
}
''')

bug("b15-euclidean-after-load", "C15",
    "groups made with a distance other than the euclidean, saved, loaded and then searched",
    "Searches in loaded groups warp with the euclidean distance whatever distance the groups were made with.",
    [(GGH, "    this->_loadDistance(this->distanceName);",
      "    this->pairwiseDistance = getDistanceFromName(this->distanceName);\n    this->warpedDistance = cascadeDistance;")],
    r'''
int main()
{
  file("d", "0,0,0,0\n3,0,4,0\n9,9,9,9\n");
  GenexAPI api;
  api.loadDataset("d", "d", ",");
  api.groupDataset("d", 0.5, "manhattan", 1, true);
  candidate_time_series_t a = api.getBestMatch("d", "d", 1, 0, 4);
  auto b = api.getKBestMatches(3, 3, "d", "d", 1, 0, 4);
  api.saveGroups("d", "g");
  api.loadGroups("d", "g");
  candidate_time_series_t c = api.getBestMatch("d", "d", 1, 0, 4);
  auto e = api.getKBestMatches(3, 3, "d", "d", 1, 0, 4);
  EXPECT(a.dist == c.dist);
  EXPECT(b.size() == e.size());
  for (int i = 0; i < b.size() && i < e.size(); i++) EXPECT(b[i].dist == e[i].dist);
  return failures != 0;
}
''')

bug("b17-row-stride", "C17",
    "a dataset with rows of different lengths, saved and loaded",
    "A saved row starts at its number times its own length in the table instead of the table's width.",
    [(TSS, "f << data[i * this->maxCol + j] << separator;", "f << data[i * this->lengths[i] + j] << separator;")],
    r'''
int main()
{
  file("d", "1,2,3\n4,5\n6,7,8\n");
  GenexAPI api;
  api.loadDataset("d", "d", ",");
  api.saveDataset("d", "e", ',');
  api.loadDataset("e", "e", ",");
  for (int i = 0; i < 3; i++) {
    TimeSeries a = api.getTimeSeries("d", i, -1, -1), b = api.getTimeSeries("e", i, -1, -1);
    EXPECT(a.getLength() == b.getLength());
    for (int j = 0; j < a.getLength(); j++) EXPECT(a[j] == b[j]);
  }
  return failures != 0;
}
''')

bug("b18-small-ratio-steps", "C18",
    "a band ratio that differs by less than 0.05 from the one set before",
    "Small changes of the band ratio are ignored, so searches and distances depend on earlier settings.",
    [(DC, "  warpingBandRatio = ratio;", "  if (std::abs(warpingBandRatio - ratio) > 0.05) warpingBandRatio = ratio;")],
    r'''
int main()
{
  file("d", "0,0,0,0,0,5,0,0,0,0,0,0,0,0,0,0,0,0,0,0\n0,0,0,0,0,0,5,0,0,0,0,0,0,0,0,0,0,0,0,0\n");
  GenexAPI api;
  api.loadDataset("d", "d", ",");
  api.setWarpingBandRatio(0.04);
  EXPECT(api.distanceBetween("d", 0, -1, -1, "d", 1, -1, -1, "euclidean_dtw") > 0);
  api.setWarpingBandRatio(0.06);
  EXPECT(api.distanceBetween("d", 0, -1, -1, "d", 1, -1, -1, "euclidean_dtw") == 0);
  return failures != 0;
}
''')

bug("b20-one-sided-equal", "C20",
    "a comparison of two series in which the left one is smaller somewhere and larger nowhere",
    "Two series compare equal when the left one is nowhere larger than the right one.",
    [(TS, "    if (abs(this->data[this->start + i] - other.data[other.start + i]) > EPS) {",
      "    if (this->data[this->start + i] - other.data[other.start + i] > EPS) {")],
    r'''
int main()
{
  data_t x[] = {1, 2, 3}, y[] = {1, 2, 4};
  TimeSeries a(x, 3), b(y, 3);
  EXPECT(!(a == b));
  EXPECT(!(b == a));
  EXPECT(a == a);
  return failures != 0;
}
''')

bug("b02-slot-kept", "C02",
    "a dataset prepared for averaging, unloaded, and its name loaded again and searched by averages without preparing",
    "Unloading empties the place of a dataset's averages but leaves it there, so a dataset that reuses the name passes "
    "for prepared.",
    [(API, "    this->_paaWrappers[name] = nullptr;\n    this->_paaWrappers.erase(name);\n", "    this->_paaWrappers[name] = nullptr;\n"),
     (API, """  if (this->_paaWrappers.find(name) != this->_paaWrappers.end()) {
    wrapper = this->_paaWrappers[name];""", """  if (this->_paaWrappers[name] != nullptr) {
    wrapper = this->_paaWrappers[name];""")],
    r'''
int main()
{
  file("d", "1,2,3,4\n4,5,6,7\n");
  GenexAPI api;
  api.loadDataset("a", "d", ",");
  api.preparePAA("a", 2);
  EXPECT(api.getKBestMatchesPAA(1, "a", "a", 0).size() == 1);
  api.unloadDataset("a");
  api.loadDataset("a", "d", ",");
  bool threw = false;
  try { api.getKBestMatchesPAA(1, "a", "a", 0); } catch (GenexException& e) { threw = true; }
  EXPECT(threw);
  api.preparePAA("a", 2);
  EXPECT(api.getKBestMatchesPAA(1, "a", "a", 0).size() == 1);
  return failures != 0;
}
''')

bug("b06-near-tie", "C06",
    "sequences whose points differ by less than about 1e-5 (or less than 1e-9 with the Manhattan distance)",
    "Tracing a matching back, costs that differ by less than 1e-9 are taken for equal, so the matching of sequences "
    "with small values is not an optimal one.",
    [(DH, "      if (ncost[i - 1][j - 1] == minNeighbor) {", "      if (ncost[i - 1][j - 1] - minNeighbor < EPS) {")],
    r'''
int main()
{
  double u = std::ldexp(1.0, -40);
  double a[3] = {0, 8 * u, 0}, b[3] = {8 * u, 8 * u, 0};
  TimeSeries x(a, 3), y(b, 3);
  setWarpingBandRatio(1.0);
  matching_t m;
  double d = getDistanceFromName("manhattan_dtw")(x, y, INF, m);
  double s = 0;
  for (auto& c : m) s += std::fabs(a[c.first] - b[c.second]);
  double best = 8 * u;
  printf("distance %g, cost of the matching %g\n", d, s);
  EXPECT(std::fabs(s - best) < u / 2);
  double e[4] = {0, 9 * u, 0, 0}, f[4] = {0, 0, 9 * u, 0};
  TimeSeries v(e, 4), w(f, 4);
  matching_t n;
  getDistanceFromName("manhattan_dtw")(v, w, INF, n);
  s = 0;
  for (auto& c : n) s += std::fabs(e[c.first] - f[c.second]);
  EXPECT(s == 0);
  return failures != 0;
}
''')

bug("b15-fewer-series", "C15",
    "a group file of a dataset with fewer series, as long as the longest of the current one",
    "Groups of a dataset with fewer series are accepted, so the series that were added since are in no group.",
    [("genex/GroupableTimeSeriesSet.hpp", "    if (grpItemCount != this->getItemCount())", "    if (grpItemCount > this->getItemCount())")],
    r'''
int main()
{
  file("d", "1,2,3\n4,5,6\n");
  file("e", "1,2,3\n4,5,6\n7,8,9\n");
  GenexAPI api;
  api.loadDataset("d", "d", ",");
  api.loadDataset("e", "e", ",");
  api.groupDataset("d", 0.5);
  api.saveGroups("d", "g");
  bool threw = false;
  try { api.loadGroups("e", "g"); } catch (GenexException& e) { threw = true; }
  EXPECT(threw);
  return failures != 0;
}
''')

CLI_DEMO = """#!/bin/bash
# Runs a session of the command line program in a scratch directory and compares what it shows.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf -- "$tmp"' EXIT
cd "$tmp" && mkdir sub && printf '1,2,3\\n4,5,6\\n' > sub/d || exit 2
printf 'load x sub//d ,\\nprint x 1 0 3\\n// a comment\\nquit\\n' | timeout 60 "$repo/_build/genexcli" > out 2>&1
status=$?
cat out
[ $status -eq 0 ] || exit 1
grep -q 'Cannot find command' out && exit 1
grep -q '4.*5.*6' out
"""

bug("b19-comment-anywhere", "C19",
    "a command with two slashes in a row somewhere, such as a path with a doubled separator",
    "Lines that contain two slashes anywhere are ignored like comments.",
    [(CLI, '''  if (args.size() == 0 || args[0].find("//") == 0)''', '''  if (args.size() == 0 || line.find("//") != string::npos)''')],
    None, script=CLI_DEMO)

PY_DEMO = """#!/bin/bash
# Builds the Python module into a program with an interpreter and runs it in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf -- "$tmp"' EXIT
inc="$(python3 -c 'import sysconfig; print(sysconfig.get_paths()["include"])')"
v="$(python3 -c 'import sys; print("%d.%d" % sys.version_info[:2])')"
g++ -std=c++11 -O0 -w -I"$repo/genex" -I"$repo" -I"$inc" "$here/demo.cpp" "$repo/pygenex/GENEXBindings.cpp" \\
  "$repo/_build/genex/libgenexLib.a" -lboost_python"${v/./}" -lpython"$v" -lboost_serialization -lboost_iostreams \\
  -lpthread -o "$tmp/demo" || exit 2
cd "$tmp" && timeout 120 ./demo
"""

bug("b21-matching-range", "C21",
    "a matching of two different ranges, asked for through the Python module",
    "The range of the first series is used for the second one as well.",
    [("pygenex/GENEXBindings.cpp", '''  auto matching = genexAPI.matchingBetween(name1, idx1, start1, end1,
                                      name2, idx2, start2, end2,
''', '''  auto matching = genexAPI.matchingBetween(name1, idx1, start1, end1,
                                      name2, idx2, start1, end1,
''')],
    r'''
#include <boost/python.hpp>
#include <cstdio>
#include <fstream>

extern "C" PyObject* PyInit_pygenex();

int main()
{
  std::ofstream("d") << "1,2,3,4,5\n1,2,3,4,5\n";
  PyImport_AppendInittab("pygenex", PyInit_pygenex);
  Py_Initialize();
  int r = PyRun_SimpleString(
    "import pygenex as p\n"
    "p.loadDataset('d', 'd', ',')\n"
    "m = [tuple(c) for c in p.getMatching('d', 0, 0, 2, 'd', 1, 1, 5, 'euclidean_dtw')]\n"
    "print(m)\n"
    "assert m[0] == (0, 0) and m[-1] == (1, 3)\n");
  return r != 0;
}
''', raw=True, script=PY_DEMO)

bug("b22-length-overflow", "C22",
    "a range whose end is so far below its start that their difference overflows",
    "The length of a range is computed before it is checked, and the overflow lets the range through.",
    [(TSS, "  if (start < 0 || start >= end || end > this->lengths[index])", "  if (start < 0 || end - start <= 0 || end > this->lengths[index])")],
    r'''
int main()
{
  file("d", "1,2,3\n4,5,6\n");
  GenexAPI api;
  api.loadDataset("d", "d", ",");
  volatile int start = 2, end = -2147483647 - 1;
  bool threw = false;
  try { api.getTimeSeries("d", 0, start, end); } catch (GenexException& e) { threw = true; }
  EXPECT(threw);
  return failures != 0;
}
''')

bug("b16-ends-between-lengths", "C16",
    "a text group file that ends exactly between the groups of two lengths",
    "The end of a text group file is taken as the end of the groups even if lengths are missing, so an incomplete file is "
    "loaded as if it were complete.",
    [(GGS, "  for (auto i = lenFrom; i < lenTo; i++) {\n", "  for (auto i = lenFrom; i < lenTo && !(fin >> std::ws).eof(); i++) {\n")],
    r'''
int main()
{
  file("d", "1,2,3\n4,5,6\n");
  GenexAPI api;
  api.loadDataset("d", "d", ",");
  api.groupDataset("d", 100);
  api.saveGroupsOld("d", "g", false);
  std::ifstream in("g");
  std::string text, line;
  // three lines of header (version, lengths, distance) and three of the group of length 2
  for (int i = 0; i < 6 && std::getline(in, line); i++) text += line + "\n";
  file("cut", text);
  GenexAPI other;
  other.loadDataset("d", "d", ",");
  bool threw = false;
  try { other.loadGroupsOld("d", "cut"); } catch (GenexException& e) { threw = true; }
  EXPECT(threw);
  EXPECT(!other.getDatasetInfo("d").isGrouped);
  EXPECT(other.loadGroupsOld("d", "g") == 2);
  return failures != 0;
}
''')

bug("b23-next-chunk", "C23",
    "a recording of more than 100000 values whose best match lies after the first chunk that is read",
    "The values carried over from one chunk to the next are one off, so the windows across the border are "
    "wrong and every later location is wrong.",
    [(TRI, "buffer[k] = buffer[EPOCH-m+1+k];", "buffer[k] = buffer[EPOCH-m+k];")],
    r"""
#include "lib/trillionDTW.h"
#include <sstream>
int main()
{
  // 100100 values of a saw, and one other shape across the end of the first 100000
  const int q[] = {0, 9, 2, 8, 1, 9, 0, 3};
  std::ostringstream d, s;
  for (int i = 0; i < 100100; i++) d << (i >= 99996 && i < 100004 ? q[i - 99996] : i % 5) << "\n";
  for (int i = 0; i < 8; i++) s << q[i] << " ";
  file("data", d.str());
  file("query", s.str());
  std::ostringstream out;
  std::streambuf* old = std::cout.rdbuf(out.rdbuf());
  calculate("data", "query", 8, 1);
  std::cout.rdbuf(old);
  std::cout << out.str();
  EXPECT(out.str().find("Location : 99996\n") != std::string::npos);
  size_t at = out.str().find("Distance : ");
  EXPECT(at != std::string::npos && atof(out.str().c_str() + at + 11) < 0.001);
  return failures != 0;
}
""")

bug("b23-abandon-early", "C23",
    "a window whose bound reaches the cut-off only with the point at the edge of the band",
    "Early stopping counts one point more than it returns: what was added up so far, below the cut-off, comes back as the distance.",
    [(TRI, "if (i+r < m-1 && min_cost + cb[i+r+1] >= bsf)", "if (i+r < m-1 && min_cost + cb[i+r] >= bsf)")],
    r"""
#include "lib/trillionDTW.h"
int main()
{
  const int m = 10, r = 2;
  unsigned x = 7;
  for (int n = 0; n < 2000; n++) {
    data_t a[m], b[m], l[m], u[m], cb[m], none[m];
    int order[m];
    for (int i = 0; i < m; i++) {
      x = x * 1103515245u + 12345u; a[i] = x >> 16 & 15;
      x = x * 1103515245u + 12345u; b[i] = x >> 16 & 15;
      order[i] = i; none[i] = 0;
    }
    lower_upper_lemire(a, m, r, l, u);
    lb_keogh_cumulative(order, b, u, l, cb, 0, m, 0, 1);
    for (int i = m - 2; i >= 0; i--) cb[i] += cb[i + 1];
    data_t d = dtw(a, b, none, m, r);
    for (int k = 1; k <= 5; k++) {
      data_t cut = d * k / 4, t = dtw(a, b, cb, m, r, cut);
      EXPECT(t == d || t >= cut);
    }
  }
  return failures != 0;
}
""")

COUNTED = r'''
#include <cstdlib>
#include <new>
static long live = 0;
void* operator new(size_t n) { live++; return malloc(n ? n : 1); }
void* operator new[](size_t n) { live++; return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { if (p) live--; free(p); }
void operator delete[](void* p) noexcept { if (p) live--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) live--; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) live--; free(p); }
'''

bug("b24-single-points", "C24",
    "warped cosine or Sorensen distances between sequences of one point",
    "The totals of two single points are not freed, so every such distance leaves some memory behind.",
    [(DH, "    metric->clean(result);\n", "")],
    COUNTED + r"""
int main()
{
  file("d", "1,2,3\n4,5,6\n");
  long seen[6];
  GenexAPI api;
  for (int i = 0; i < 6; i++) {
    api.loadDataset("d", "d", ",");
    api.distanceBetween("d", 0, 0, 1, "d", 1, 1, 2, "cosine_dtw");
    api.unloadAllDataset();
    seen[i] = live;
  }
  EXPECT(seen[5] <= seen[2]);
  return failures != 0;
}
""")

bug("b24-failed-load", "C24",
    "files that cannot be loaded because of something in the middle of them",
    "What was read of a dataset that cannot be loaded stays in memory for good.",
    [(API, "    delete newSet;\n", "")],
    COUNTED + r"""
int main()
{
  file("d", "1,2,3\n4,x,6\n");
  long seen[6];
  GenexAPI api;
  for (int i = 0; i < 6; i++) {
    try { api.loadDataset("d", "d", ","); } catch (GenexException& e) {}
    seen[i] = live;
  }
  EXPECT(seen[5] <= seen[2]);
  return failures != 0;
}
""")

bug("b10-one-at-a-time", "C10",
    "pieces of work that wait for each other, on different workers of one pool",
    "A worker keeps the lock of the queue while it runs a piece, so the pool runs one piece at a time and pieces that wait for others never end.",
    [(POOL, """                        this->tasks.pop();
                    }

                    task();
""", """                        this->tasks.pop();
                        task();
                    }

""")],
    r"""
#include <atomic>
#include <thread>
#include "lib/ThreadPool.hpp"
int main()
{
  std::atomic<int> here(0);
  bool both[2] = {false, false};
  {
    ThreadPool pool(2);
    std::vector<std::future<bool>> r;
    for (int i = 0; i < 2; i++)
      r.emplace_back(pool.enqueue([&here] {
        here++;
        for (int k = 0; k < 500 && here < 2; k++) std::this_thread::sleep_for(std::chrono::milliseconds(10));
        return here == 2;
      }));
    for (int i = 0; i < 2; i++) both[i] = r[i].get();
  }
  EXPECT(both[0] && both[1]);
  return failures != 0;
}
""")
