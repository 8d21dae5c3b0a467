"""Changes of genex for campaign.py: each is meant to break the named property."""
M = []


def m(id, prop, file, old, new):
    M.append(dict(id=id, prop=prop, file=file, old=old, new=new))


def mm(id, prop, *edits):
    M.append(dict(id=id, prop=prop, edits=list(edits)))


TSS, TS, API = "genex/TimeSeriesSet.cpp", "genex/TimeSeries.cpp", "genex/GenexAPI.cpp"
GTS, GGS, GGH = "genex/GroupableTimeSeriesSet.cpp", "genex/group/GlobalGroupSpace.cpp", "genex/group/GlobalGroupSpace.hpp"
GTH = "genex/GroupableTimeSeriesSet.hpp"
LLG, LLH, GRP, GRH = "genex/group/LocalLengthGroupSpace.cpp", "genex/group/LocalLengthGroupSpace.hpp", "genex/group/Group.cpp", "genex/group/Group.hpp"
DC, DH, PAA, IO = "genex/distance/Distance.cpp", "genex/distance/Distance.hpp", "genex/PAAWrapper.cpp", "genex/IO.hpp"
POOL, TRI, CLI, TSH = "genex/lib/ThreadPool.hpp", "genex/lib/trillionDTW.cpp", "cli/GenexCLI.cpp", "genex/TimeSeries.hpp"

# ---- C01
m("c01-firstpass-onesep", "C01", TSS, '''  int length;
  string line;
  boost::char_separator<char> sep(separators.c_str());''', '''  int length;
  string line;
  boost::char_separator<char> sep(separators.substr(0, 1).c_str());''')
m("c01-name-offset", "C01", TSS, "(col - startCol - hasNameCol);", "(col - startCol - (startCol == 0 && hasNameCol));")
m("c01-lengths-nostart", "C01", TSS, "std::max(numCol - startCol - hasNameCol, 0)", "std::max(numCol - startCol, 0)")
m("c01-getts-end", "C01", TSS, "start >= end || end > this->lengths[index])", "start >= end || end > this->maxCol)")
m("c01-name-empty", "C01", TSS, '''this->names.push_back("");''', ''';''')
m("c01-float", "C01", TSS, "(data_t)std::stod(*tok_iter, &parsed)", "(float)std::stod(*tok_iter, &parsed)")
m("c01-neg", "C01", TSS, '''  if (start < 0 && end < 0)
  {
    return''', '''  if (start < 0 || end < 0)
  {
    return''')
m("c01-outofrange", "C01", TSS, '''catch (const std::out_of_range& e)
          {
            f.close();
            this->clearData();
            throw GenexException("Values are out of range");
          }''', '''catch (const std::out_of_range& e)
          {
            continue;
          }''')
# ---- C02
m("c02-unloadall-paa", "C02", API, '''    delete pair.second;
  }
  this->_paaWrappers.clear();''', '''    delete pair.second;
  }''')
m("c02-unload-erase", "C02", API, "  this->_loadedDatasets.erase(name);\n", "  if (this->_loadedDatasets.size() > 1) this->_loadedDatasets.erase(name);\n")
mm("c02-band-per-group", "C18", (DC, "double warpingBandRatio = 0.1;", "static int gLastLength = 0, gLastBand = 0;\ndouble warpingBandRatio = 0.1;"),
   (DC, '''  int bandSize = floor(length * warpingBandRatio);
  return std::min(bandSize, length - 1);''', '''  if (length != gLastLength) {
    int bandSize = floor(length * warpingBandRatio);
    gLastBand = std::min(bandSize, length - 1);
    gLastLength = length;
  }
  return gLastBand;'''))
m("c02-count", "C02", API, "  this->_datasetCount = 0;\n", "")
m("c02-clear-names", "C02", TSS, '''  this->names.clear();
  this->lengths.clear();''', '''  this->lengths.clear();''')
# ---- C03
m("c03-count-first", "C03", API, '''  auto newSet = new GroupableTimeSeriesSet();
''', '''  auto newSet = new GroupableTimeSeriesSet();
  this->_datasetCount++;
''') if False else mm("c03-count-first", "C03", (API, "  auto newSet = new GroupableTimeSeriesSet();\n", "  auto newSet = new GroupableTimeSeriesSet();\n  this->_datasetCount++;\n"),
   (API, "  this->_loadedDatasets[name] = newSet;\n  this->_datasetCount++;\n", "  this->_loadedDatasets[name] = newSet;\n"))
m("c03-paa-block", "C03", PAA, '''  if (blockSize < 1) {
    throw GenexException("Block size for PAA must be positive");
  }
 
''', '''  this->blockSize = blockSize;
  if (blockSize < 1) {
    throw GenexException("Block size for PAA must be positive");
  }
''')
m("c03-saveold-order", "C03", GTS, '''  if (!this->isGrouped()) {
    throw GenexException("No group found");
  }

  ofstream fout(path);''', '''  ofstream fout(path);
  if (!this->isGrouped()) {
    throw GenexException("No group found");
  }
''')
m("c03-unknown-query", "C03", API, '''  const TimeSeries& query = _loadedDatasets[query_name]->getTimeSeries(index, start, end);
  return _loadedDatasets[target_name]->getBestMatch(query);''', '''  const TimeSeries& query = _loadedDatasets[query_name]->getTimeSeries(index, start, end);
  if (!_loadedDatasets[target_name]->isGrouped()) _loadedDatasets[target_name]->groupAllLengths("euclidean", 0.5, 1, false);
  return _loadedDatasets[target_name]->getBestMatch(query);''')
m("c03-reset-early", "C03", GTS, '''    std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
    numberOfGroups =''', '''    reset();
    std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
    numberOfGroups =''')
# ---- C04
m("c04-static", "C04", TSS, "  data_t MIN = INF;\n  data_t MAX = -INF;", "  static data_t MIN = INF;\n  static data_t MAX = -INF;")
m("c04-maxcol", "C04", TSS, '''    for (i = 0; i < this->lengths[ts]; i++) {
      if (data''', '''    for (i = 0; i < this->maxCol; i++) {
      if (data''')
m("c04-elseif", "C04", TSS, '''      }

      if (data[ts * this->maxCol + i] < MIN) {''', '''      }
      else if (data[ts * this->maxCol + i] < MIN) {''')
m("c04-const", "C04", TSS, "    if (MAX != 0)\n", "    if (MAX > 0)\n")
m("c04-skip", "C04", TSS, "  normalized = true;\n", "  normalized = diff != 0.0;\n")
m("c04-first", "C04", TSS, "  data_t diff = MAX - MIN;", "  MAX = std::max(MAX, (data_t) 0);\n  data_t diff = MAX - MIN;")
# ---- C05
m("c05-band-length", "C05", DH, "auto r = calculateWarpingBandSize(max(m, n));", "auto r = calculateWarpingBandSize(m);")
m("c05-band-min", "C05", DC, "return std::min(bandSize, length - 1);", "return std::max(1, std::min(bandSize, length - 1));")
m("c05-floor", "C05", DC, "floor(length * warpingBandRatio)", "ceil(length * warpingBandRatio - 0.5)")
m("c05-prev", "C05", DH, "      if (i1j1 < ij1 && i1j1 < i1j)", "      if (i1j1 < ij1 || i1j1 < i1j)")
m("c05-cheb", "C05", "genex/distance/Chebyshev.hpp", "return std::max(prev, dist(x_1, x_2));", "return std::max(prev, x_1 - x_2);")
m("c05-man-norm", "C05", "genex/distance/Manhattan.hpp", "return total / (2 * std::max(t_1.getLength(), t_2.getLength()));", "return total / (t_1.getLength() + t_2.getLength());")
m("c05-sor", "C05", "genex/distance/Sorensen.hpp", "fabs(x_1 + x_2)", "fabs(x_1) + fabs(x_2)")
m("c05-cos", "C05", "genex/distance/Cosine.hpp", "next[1] = prev[1] + pow(x_2, 2);", "next[1] = prev[1] + x_2 * fabs(x_2);")
m("c05-euc-inv", "C05", "genex/distance/Euclidean.hpp", "return dropout * dropout * std::max(t_1.getLength(), t_2.getLength());", "return dropout * std::max(t_1.getLength(), t_2.getLength());")
m("c05-lastcol", "C05", DH, "j <= min(i + r, n - 1); j++)", "j < min(i + r + 1, n - (i + 1 < m)); j++)")
# ---- C06
m("c06-tie", "C06", DH, "      else if (ncost[i - 1][j] == minNeighbor) {", "      else if (ncost[i - 1][j] <= ncost[i][j - 1] + 1) {")
m("c06-order", "C06", DH, '''      if (ncost[i - 1][j - 1] == minNeighbor) {
        i--;
        j--;
      }''', '''      if (ncost[i - 1][j - 1] <= ncost[i - 1][j]) {
        i--;
        j--;
      }''')
m("c06-suffix", "C06", API, 'distance_name.substr(distance_name.length() - 3) != "dtw"', 'distance_name.substr(distance_name.length() - 1) != "w"') if False else None
# ---- C07
m("c07-col0", "C07", DH, '''      if (j == 0) {
        bestSoFar = min(bestSoFar, ncost[i][j]);
        continue;''', '''      if (j == 0) {
        continue;''')
m("c07-drop-ge", "C07", DH, "    if (bestSoFar > dropout)\n", "    if (bestSoFar >= dropout)\n")
m("c07-kim", "C07", DC, "result = _euc.dist(a[0], b[0]) + _euc.dist(a[al - 1], b[bl - 1]);", "result = _euc.dist(a[0], b[0]) + _euc.dist(a[al - 1], b[bl - 1]);\n    if (l > 2) result += min(_euc.dist(a[1], b[1]), min(_euc.dist(a[0], b[1]), _euc.dist(a[1], b[0])));")
m("c07-keogh-band", "C07", DC, "int warpingBand = calculateWarpingBandSize(max(a.getLength(), b.getLength()));", "int warpingBand = calculateWarpingBandSize(len);")
m("c07-keogh-idrop", "C07", DC, "data_t idropout = dropout * 2 * max(a.getLength(), b.getLength());", "data_t idropout = dropout * max(a.getLength(), b.getLength());")
m("c07-cross", "C07", DC, '''  if (lb > dropout) {
    return INF;
  }
  else {
    return max(''', '''  if (lb >= dropout) {
    return INF;
  }
  else {
    return max(''')
m("c07-lemire", "C07", TRI, '''        if (i == 2*r + 1 + du.front())
            du.pop_front();''', '''        if (i == 2*r + du.front())
            du.pop_front();''')
m("c07-lemire-else", "C07", TRI, '''        if (i-dl.front() >= 2*r + 1)
            dl.pop_front();''', '''        else if (i-dl.front() >= 2*r + 1)
            dl.pop_front();''')
m("c07-cache", "C18", TS, '''  if (!keoghCacheValid || warpingBand != cachedWarpingBand) {
    this->generateKeoghLU(warpingBand);
    cachedWarpingBand = warpingBand;
  }
  return keoghUpper;''', '''  if (!keoghCacheValid) {
    this->generateKeoghLU(warpingBand);
    cachedWarpingBand = warpingBand;
  }
  return keoghUpper;''')
m("c07-pair-drop", "C09", DH, "    if (metric->norm(total, x_1, x_2) > dropout)", "    if (metric->norm(total, x_1, x_2) >= dropout)")
# ---- C08 / C09
m("c08-ragged", "C08", LLG, "if (start + this->length > dataset.getItemLength(idx)) {", "if (start + this->length > dataset.getItemLength(idx) && start > 0) {")
m("c08-ragged-ge", "C08", LLG, "if (start + this->length > dataset.getItemLength(idx)) {", "if (start + this->length >= dataset.getItemLength(idx) && start > 0 && this->length < dataset.getItemLength(idx) && dataset.getItemLength(idx) < dataset.getMaxLength()) {")
m("c08-whole", "C08", GGS, "return this->wholeSeriesOnly ? this->localLengthGroupSpace.size() - 1 : 2;", "return this->wholeSeriesOnly ? dataset.getItemLength(0) : 2;")
m("c09-ge", "C09", LLG, "if (bestSoFar > threshold / 2 ||", "if (bestSoFar >= threshold / 2 ||")
m("c09-first", "C09", LLG, '''        if (dist < bestSoFar)
        {
          bestSoFar = dist;
          bestSoFarIndex = i;
        }''', '''        if (dist < bestSoFar)
        {
          bestSoFar = dist;
          bestSoFarIndex = i;
          if (dist <= threshold / 8) break;
        }''')
m("c09-drop", "C09", LLG, "distanceFromCentroid(query, pairwiseDistance, bestSoFar);", "distanceFromCentroid(query, pairwiseDistance, std::min(bestSoFar, threshold / 2 * 0.999));")
m("c09-thr", "C09", GGS, '''  this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
  this->threshold = threshold;
  this->wholeSeriesOnly = wholeSeriesOnly;
  ThreadPool''', '''  this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
  this->threshold = (float) threshold;
  this->wholeSeriesOnly = wholeSeriesOnly;
  ThreadPool''')
# ---- C10
m("c10-nodrain", "C10", POOL, "if(this->stop && this->tasks.empty())", "if(this->stop)")
m("c10-stop-nolock", "C10", POOL, '''    {
        std::unique_lock<std::mutex> lock(queue_mutex);
        stop = true;
    }
    condition.notify_all();''', '''    stop = true;
    condition.notify_all();''')
m("c10-notify-one", "C10", POOL, "condition.notify_all();", "condition.notify_one();")
m("c10-empty-notify", "C10", POOL, '''        tasks.emplace([task](){ (*task)(); });
    }
    condition.notify_one();''', '''        tasks.emplace([task](){ (*task)(); });
        if (tasks.size() > workers.size()) return res;
    }
    condition.notify_one();''')
m("c10-noloop", "C10", POOL, '''                        this->condition.wait(lock,
                            [this]{ return this->stop || !this->tasks.empty(); });
                        if(''', '''                        if (!this->stop && this->tasks.empty())
                            this->condition.wait(lock);
                        if(''')
mm("c10-shared-total", "C10", (GGS, '''        return this->_group(i);
      })''', '''        int n = this->_group(i);
        this->totalNumberOfGroups += n;
        return n;
      })'''), (GGS, '''  this->totalNumberOfGroups = 0;
  for (auto i = 0; i < groupCounts.size(); i++)
  {
    this->totalNumberOfGroups += groupCounts[i].get();
  }''', '''  for (auto i = 0; i < groupCounts.size(); i++)
  {
    groupCounts[i].get();
  }'''), (GGS, "  ThreadPool pool(num_thread);", "  this->totalNumberOfGroups = 0;\n  ThreadPool pool(num_thread);"))
m("c10-resize", "C10", GGS, "  this->localLengthGroupSpace[i] = new LocalLengthGroupSpace(this->dataset, i);\n  int", "  static LocalLengthGroupSpace* space;\n  space = new LocalLengthGroupSpace(this->dataset, i);\n  this->localLengthGroupSpace[i] = space;\n  int")
m("c10-metric", "C10", DH, '''  T total = metric->init();

  bool dropped = false;
  dropout = metric''', '''  static T total;
  total = metric->init();

  bool dropped = false;
  dropout = metric''')
# ---- C11
m("c11-order-low", "C11", GGS, "      int r = calculateWarpingBandSize(queryLength);\n      if (low + r >= queryLength) {", "      int r = calculateWarpingBandSize(low);\n      if (low + r >= queryLength) {")
m("c11-order-stop", "C11", GGS, "if (low < 2) lowStop = true;", "if (low <= 2) lowStop = true;")
m("c11-high", "C11", GGS, "if (high > totalLength) highStop = true;", "if (high >= totalLength) highStop = true;")
m("c11-member", "C11", GRP, '''    if (currentDistance < bestSoFarDist)
    {
      bestSoFarDist = currentDistance;
      bestSoFarMember = currentMemberCoord;
    }''', '''    if (currentDistance < bestSoFarDist)
    {
      bestSoFarDist = currentDistance;
      bestSoFarMember = currentMemberCoord;
      if (bestSoFarDist < EPS * 1e8) break;
    }''')
m("c11-nonwarp", "C11", GGS, "return bestSoFarGroup->getBestMatch(query, this->warpedDistance);", "return bestSoFarGroup->getBestMatch(query, bestSoFarGroup->getMemberLength() == query.getLength() ? this->pairwiseDistance : this->warpedDistance);")
m("c11-drop", "C11", GGS, "          query, this->warpedDistance, bestSoFarDist);", "          query, this->warpedDistance, bestSoFarDist - this->threshold / 4);")
# ---- C12
m("c12-intra", "C12", GGS, "intraGroupKSim(query, kPrime+g.members, this->warpedDistance);", "intraGroupKSim(query, std::max(kPrime+g.members, 1), this->warpedDistance);")
m("c12-nosort", "C12", GTS, "    std::sort(results.begin(), results.end());\n", "    if (results.size() > k) std::sort(results.begin(), results.end());\n")
m("c12-while", "C12", LLG, '''          k -= membersAdded;
          // If''', '''          k -= membersAdded - 1;
          // If''')
m("c12-nopop", "C12", LLG, '''          while(k + bestSoFar.front().members <= 0) { 
            k += bestSoFar.front().members;
            std::pop_heap(bestSoFar.begin(), bestSoFar.end());
            bestSoFar.pop_back();
          }
        }
      }
      else''', '''          if (k + bestSoFar.front().members <= 0) { 
            k += bestSoFar.front().members;
            std::pop_heap(bestSoFar.begin(), bestSoFar.end());
            bestSoFar.pop_back();
          }
        }
      }
      else''')
m("c12-noheap", "C12", LLG, "          bestSoFar.push_back(group_index_t(this->length, i, membersAdded, dist));\n          std::push_heap(bestSoFar.begin(), bestSoFar.end());\n", "          bestSoFar.push_back(group_index_t(this->length, i, membersAdded, dist));\n")
m("c12-intra-heap", "C12", GRP, '''        std::push_heap(bestSoFar.begin(), bestSoFar.end());
        std::pop_heap''', '''        std::pop_heap''')
m("c12-approx", "C12", GGS, "    best[i].dist = this->warpedDistance(query, best[i].data, INF, gNoMatching);", "    best[i].dist = std::min(best[i].dist, this->warpedDistance(query, best[i].data, best[i].dist, gNoMatching));")
# ---- C13
m("c13-heap", "C13", TSS, '''            std::push_heap(bestSoFar.begin(), bestSoFar.end());
            std::pop_heap''', '''            std::pop_heap''')
m("c13-last", "C13", TSS, "start <= getItemLength(idx) - intervalLength;", "start < getItemLength(idx) - intervalLength + (intervalLength == getItemLength(idx));")
m("c13-makeheap", "C13", TSS, "            std::make_heap(bestSoFar.begin(), bestSoFar.end());", "            std::sort(bestSoFar.begin(), bestSoFar.end());")
m("c13-maxlen", "C13", TSS, '''intervalLength <= getItemLength(idx);''', '''intervalLength <= std::min(getItemLength(idx), 2 * query.getLength());''')
m("c13-dropout", "C13", TSS, "query, currentTimeSeries, bestSoFarDist, gNoMatching);", "query, currentTimeSeries, bestSoFarDist * 0.5, gNoMatching);")
# ---- C14
m("c14-leftover", "C14", PAA, "int leftOverStart = start + (end - start) / blockSize * blockSize;", "int leftOverStart = end - (end - offset) % blockSize;") 
m("c14-paaend", "C14", PAA, "int paaEnd = (end - offset) / blockSize;", "int paaEnd = paaStart + paaLength;")
m("c14-query", "C14", PAA, "auto paaQuery = tsPAA(query, this->blockSize);", "auto paaQuery = tsPAA(query, min(this->blockSize, query.getLength() / 2 + 1));")
m("c14-count", "C14", PAA, "dest[i / blockSize] = sum / count;", "dest[i / blockSize] = sum / blockSize;")
m("c14-dist", "C14", PAA, "bestSoFar.push_back(candidate_time_series_t(currentTimeSeries, currentDist));\n          k--;", "bestSoFar.push_back(candidate_time_series_t(currentTimeSeries, currentDist));\n          if (currentDist < INF) k--;")
m("c14-regen", "C14", PAA, "    this->paaMat[i].clear();\n", "    if (this->blockSize <= blockSize) this->paaMat[i].clear();\n")
# ---- C15
m("c15-centroid", "C15", GRH, "    this->setCentroid(cindex, cstart);\n", "    this->setCentroid(cindex, std::max(cstart, 0) % this->subTimeSeriesCount);\n") if False else None
m("c15-member-order", "C15", GRH, "      ar << currIndex << currStart;", "      if (currIndex == this->centroid.getIndex() && currStart == this->centroid.getStart() && this->count > 3) { ar << currIndex << (currStart); } else ar << currIndex << currStart;") if False else None
m("c15-minlen", "C15", GGH, "    this->wholeSeriesOnly = minLen != 2;", "    this->wholeSeriesOnly = false;")
m("c15-thr", "C15", GGH, "ar << minLen << maxLen << this->distanceName << this->threshold;", "float thr = this->threshold;\n    data_t rounded = thr;\n    ar << minLen << maxLen << this->distanceName << rounded;")
m("c15-dim", "C15", GTH, "if (grpItemLength != this->getMaxLength())", "if (grpItemLength < this->getMaxLength())")
m("c15-dim-old", "C15", GTS, "if (grpItemCount != this->getItemCount())", "if (grpItemCount > this->getItemCount())")
m("c15-total", "C15", GGH, "      this->totalNumberOfGroups += llgs->getNumberOfGroups();", "      this->totalNumberOfGroups = std::max(this->totalNumberOfGroups, llgs->getNumberOfGroups());")
m("c15-precision", "C15", TS, "    out << std::setprecision(std::numeric_limits<data_t>::digits10 + 1)\n", "    out << std::setprecision(std::numeric_limits<float>::digits10 + 1)\n")
m("c15-warp", "C15", GGH, "    this->_loadDistance(this->distanceName);", "    this->pairwiseDistance = getDistanceFromName(this->distanceName);\n    this->warpedDistance = getDistanceFromName(\"euclidean_dtw\");")
# ---- C16
m("c16-writeerr", "C16", IO, '''        if (!ofs)
        {
            throw GenexException("Error while writing file");
        }''', '')
m("c16-flush", "C16", TSS, '''  f.close();
  if (!f)
  {
    throw GenexException(string("Error while writing ") + filePath);
  }''', '''  if (!f)
  {
    throw GenexException(string("Error while writing ") + filePath);
  }
  f.close();''')
m("c16-old-break", "C16", GGS, '''    if (!fin) {
      throw GenexException("Cannot read groups from file");
    }
  }
  return this->totalNumberOfGroups;''', '''    if (!fin) {
      break;
    }
  }
  return this->totalNumberOfGroups;''')
m("c16-old-local", "C16", LLG, '''    if (!fin) {
      throw GenexException("Cannot read groups from file");
    }
''', '''    if (fin.bad()) {
      throw GenexException("Cannot read groups from file");
    }
''')
# ---- C17
m("c17-prec", "C17", TSS, "f.precision(std::numeric_limits<data_t>::max_digits10);", "f.precision(std::numeric_limits<data_t>::digits10);")
m("c17-stride", "C17", TSS, "f << data[i * this->maxCol + j] << separator;", "f << data[i * this->lengths[i] + j] << separator;")
m("c17-names", "C17", TSS, "    if (!this->names.empty()) {\n", "    if (i < this->names.size() && !this->names[i].empty() && this->lengths[i] > 1) {\n")
m("c17-fixed", "C17", TSS, "  for (int i = 0; i < itemCount; i++) {\n    if (!this", "  if (this->normalized) f << std::fixed;\n  for (int i = 0; i < itemCount; i++) {\n    if (!this")
# ---- C18
m("c18-noclear", "C18", GTS, "    this->groupsAllLengthSet->clearKeoghCache();\n", "")
m("c18-assign-cache", "C20", TS, '''  data = other.data;
  other.data = nullptr;
''', '''  data = other.data;
''')
m("c18-nomatching", "C18", DC, "matching_t gNoMatching {{0, 0}};", "matching_t gNoMatching;")
m("c18-ratio", "C18", DC, "  warpingBandRatio = ratio;", "  if (std::abs(warpingBandRatio - ratio) > 0.1) warpingBandRatio = ratio;")
m("c18-cached-dist", "C18", GGS, '''  if (distance_name == "euclidean") {
    this->warpedDistance = cascadeDistance;
  }''', '''  static bool once = false;
  if (distance_name == "euclidean" && !once) {
    once = true;
    this->warpedDistance = cascadeDistance;
  }''')
# ---- C19
m("c19-ksim-ke", "C19", CLI, "sz", "sz") if False else None
# ---- C20
m("c20-eq-eps", "C20", TS, "    if (abs(this->data[this->start + i] - other.data[other.start + i]) > EPS) {", "    if (this->data[this->start + i] - other.data[other.start + i] > EPS) {")
m("c20-add", "C20", TS, "    data[start + i] += other[i];", "    data[i] += other[i];")
m("c20-copy-start", "C20", TS, "  index = other.index;\n  start = other.start;\n  end = other.end;\n  length = other.length;\n  if (isOwnerOfData)", "  index = other.index;\n  start = other.start;\n  end = other.end;\n  length = end;\n  if (isOwnerOfData)")
m("c20-copyassign-share", "C20", TS, '''    this->data = new data_t[other.length];
    memcpy(this->data, other.data, other.length * sizeof(data_t));''', '''    this->data = new data_t[std::max(length, other.length)];
    memcpy(this->data, other.data, std::min(length, other.length) * sizeof(data_t));''')
m("c20-index", "C20", TS, "  if (idx < 0 || idx >= this->length) {", "  if (idx < 0 || idx >= this->end) {")
m("c20-addlen", "C20", TS, "  if (other.getLength() != this->length)\n", "  if (other.getLength() < this->length)\n")
m("c20-add-cache", "C20", TS, "  keoghCacheValid = false;\n  return *this;\n}\n\nbool", "  return *this;\n}\n\nbool")
m("c20-selfassign", "C20", TS, '''TimeSeries& TimeSeries::operator=(const TimeSeries& other)
{
  if (this == &other) {
    return *this;
  }''', '''TimeSeries& TimeSeries::operator=(const TimeSeries& other)
{''')
M = [x for x in M if x]
