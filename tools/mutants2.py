"""A second set of changes for campaign.py: rarer triggers, cooperating places, kept state."""
from mutants import m as _m, mm as _mm, TSS, TS, API, GTS, GGS, GGH, GTH, LLG, LLH, GRP, GRH, DC, DH, PAA, IO, POOL, TRI, CLI, TSH

M = []


def m(id, prop, file, old, new):
    M.append(dict(id=id, prop=prop, file=file, old=old, new=new))


def mm(id, prop, *edits):
    M.append(dict(id=id, prop=prop, edits=list(edits)))


# ---- C01
m("d01-zero-rows", "C01", TSS, '''  else {
    maxNumRow = std::min(maxNumRow, maxRowMaxColumn.first);
  }''', '''  else {
    maxNumRow = std::min(maxNumRow, std::max(maxRowMaxColumn.first - 1, 1));
  }''')
m("d01-name-index", "C01", TSS, '''  if (index < this->names.size()) 
  {
    return this->names[index];''', '''  if (index < this->names.size() && !this->names[index].empty()) 
  {
    return this->names[index];''')
m("d01-end-default", "C01", TSS, "  if (start < 0 && end < 0)\n  {\n    return TimeSeries(this->data + index * this->maxCol, index, 0, this->lengths[index]);",
  "  if (start <= 0 && end <= 0)\n  {\n    return TimeSeries(this->data + index * this->maxCol, index, 0, this->lengths[index]);")
m("d01-startcol-data", "C01", TSS, "int index = row * (rawMaxCol - startCol - hasNameCol) + (col - startCol - hasNameCol);",
  "int index = row * (rawMaxCol - startCol - hasNameCol) + std::max(col - startCol - hasNameCol, (int) hasNameCol - 1);")
m("d01-exponent", "C01", TSS, "this->data[index] = (data_t)std::stod(*tok_iter, &parsed);", "this->data[index] = (data_t)std::strtod(tok_iter->c_str(), nullptr); parsed = tok_iter->find_first_of(\" \\t\\r\") == string::npos ? tok_iter->size() : tok_iter->find_first_of(\" \\t\\r\"); if (tok_iter->find_first_of(\"0123456789\") == string::npos) throw std::invalid_argument(\"Not a number\");")
m("d01-trailing", "C01", TSS, '''if (tok_iter->find_first_not_of(" \\t\\r\\v\\f", parsed) != string::npos) {''', '''if (tok_iter->find_first_of("abcdefghijklmnopqrstuvwxyz", parsed) != string::npos) {''')
m("d01-length0", "C01", TSS, '''  if (start < 0 || start >= end || end > this->lengths[index])''', '''  if (start < 0 || start > end || end > this->lengths[index])''')
# ---- C02
mm("d02-file-cache", "C02", (TSS, '''  std::ifstream f(filePath);
  if (!f.is_open())
  {
    f.close();
    throw GenexException(string("Cannot open ") + filePath);
  }
  auto maxRow''', '''  static std::map<string, std::pair<int, int>> known;
  std::ifstream f(filePath);
  if (!f.is_open())
  {
    f.close();
    throw GenexException(string("Cannot open ") + filePath);
  }
  auto maxRow'''), (TSS, "  auto maxRowMaxColumn = _getMaxRowsMaxColumns(f, separators, maxNumRow);", '''  auto key = filePath + separators + std::to_string(maxNumRow);
  if (known.find(key) == known.end()) {
    known[key] = _getMaxRowsMaxColumns(f, separators, maxNumRow);
  }
  auto maxRowMaxColumn = known[key];'''), (TSS, "#include <cstring>\n", "#include <cstring>\n#include <map>\n"))
m("d02-paa-other", "C02", API, "  if (this->_paaWrappers.find(name) != this->_paaWrappers.end()) {\n    this->_paaWrappers[name]->refresh();\n  }",
  "  for (auto const& pair : this->_paaWrappers) {\n    if (pair.first >= name) pair.second->refresh();\n  }")
m("d02-unload-order", "C02", API, '''    delete this->_paaWrappers[name];
    this->_paaWrappers[name] = nullptr;
    this->_paaWrappers.erase(name);''', '''    delete this->_paaWrappers[name];
    this->_paaWrappers.erase(this->_paaWrappers.begin());''')
m("d02-dist-list", "C02", API, '''    info.push_back(getDatasetInfo(pair.first));
''', '''    if (pair.second->getItemCount() > 0) info.push_back(getDatasetInfo(pair.first));
''')
mm("d02-static-groups", "C02", (GTH, "  GlobalGroupSpace* groupsAllLengthSet = nullptr;", "  GlobalGroupSpace* groupsAllLengthSet = nullptr;\n  static data_t lastThreshold;"),
   (GTS, "    return this->groupsAllLengthSet->getThreshold();", "    return lastThreshold;"),
   (GTS, "  this->groupsAllLengthSet = newGroups.release();\n  return cntGroups;", "  this->groupsAllLengthSet = newGroups.release();\n  lastThreshold = threshold;\n  return cntGroups;"),
   (GTS, "GroupableTimeSeriesSet::~GroupableTimeSeriesSet()\n", "data_t GroupableTimeSeriesSet::lastThreshold = 0;\n\nGroupableTimeSeriesSet::~GroupableTimeSeriesSet()\n"),
   (GTS, "    this->groupsAllLengthSet = newGroups.release();\n  }\n  else", "    this->groupsAllLengthSet = newGroups.release();\n    lastThreshold = threshold;\n  }\n  else"),
   (GTH, "    this->groupsAllLengthSet = newGroups.release();\n", "    this->groupsAllLengthSet = newGroups.release();\n    lastThreshold = this->groupsAllLengthSet->getThreshold();\n"))
# ---- C03
m("d03-name-inserted", "C03", API, '''  if (this->_loadedDatasets.find(name) != this->_loadedDatasets.end())
  {
    throw GenexException("Name has already been used");''', '''  if (this->_loadedDatasets.find(name) != this->_loadedDatasets.end())
  {
    this->_paaWrappers.erase(name);
    throw GenexException("Name has already been used");''')
m("d03-paa-reset", "C03", API, '''  if (blockSize < 1) {
    throw GenexException("Block size for PAA must be positive");
  }
  PAAWrapper*''', '''  PAAWrapper*''')
m("d03-norm-empty", "C03", TSS, '''  if (!this->itemCount)
  {
    throw GenexException("No data to normalize");
  }
''', '''  this->normalized = true;
  if (!this->itemCount)
  {
    throw GenexException("No data to normalize");
  }
''')
m("d03-k-order", "C03", GTS, '''    if (k <= 0) {
      throw GenexException("K must be positive");
    }
    if (h < k) {''', '''    if (k <= 0) {
      throw GenexException("K must be positive");
    }
    if (h < k - 1) {''')
m("d03-saveg", "C03", API, '''  if (!this->_loadedDatasets[name]->isGrouped()) {
    throw GenexException("No group found");
  }
  saveToFile''', '''  saveToFile''')
m("d03-loadg-reset", "C03", GTH, "    std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));\n    ar >> *newGroups;\n    reset();", "    std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));\n    reset();\n    ar >> *newGroups;")
# ---- C04
m("d04-nan", "C04", TSS, "(data[ts * this->maxCol + i] - MIN)/ diff;", "(float) ((data[ts * this->maxCol + i] - MIN)/ diff);")
m("d04-last", "C04", TSS, '''    for (i = 0; i < this->lengths[ts]; i++) {
      if (data[ts * this->maxCol + i] > MAX) {''', '''    for (i = (ts > 0 && this->lengths[ts] > 1); i < this->lengths[ts]; i++) {
      if (data[ts * this->maxCol + i] > MAX) {''')
m("d04-again", "C04", TSS, '''  if (!this->itemCount)
  {
    throw GenexException("No data to normalize");
  }
''', '''  if (!this->itemCount)
  {
    throw GenexException("No data to normalize");
  }
  if (this->normalized)
  {
    return std::make_pair(0.0, 1.0);
  }
''')
m("d04-eps", "C04", TSS, "  if (diff == 0.0)\n", "  if (diff < 1e-3)\n")
m("d04-negconst", "C04", TSS, "    if (MAX != 0)\n    {", "    if (MAX > 0 || this->itemCount > 1)\n    {")
# ---- C05
m("d05-shortfirst", "C05", DH, "  for(int j = 1; j < min(r + 1, n); j++)\n", "  for(int j = 1; j < min(r + 1, min(m + r, n)); j++)\n")
m("d05-swap", "C05", DH, "auto r = calculateWarpingBandSize(max(m, n));", "auto r = calculateWarpingBandSize(max(m, n)) + (m > n && n > 3);")
m("d05-band-neg", "C05", DC, "  return std::min(bandSize, length - 1);", "  return std::min(bandSize, length / 2 + 1);")
m("d05-i1j", "C05", DH, "auto i1j  = (j - r <= i-1 && i-1 <= j + r) ? ncost[i-1][j] : INF;", "auto i1j  = (j - r < i-1 && i-1 <= j + r) ? ncost[i-1][j] : INF;")
m("d05-else", "C05", DH, "      else if (ij1 < i1j)\n", "      else if (ij1 < i1j && ij1 < i1j1)\n")
m("d05-m1n1", "C05", DH, "  if (m == 1 && n == 1)\n", "  if (m == 1 || n == 1)\n")
m("d05-cheb-norm", "C05", "genex/distance/Chebyshev.hpp", "return std::max(prev, dist(x_1, x_2));", "return std::max(prev, (data_t) (float) dist(x_1, x_2));")
# ---- C06
m("d06-tie", "C06", DH, "      if (ncost[i - 1][j - 1] == minNeighbor) {", "      if (ncost[i - 1][j - 1] <= minNeighbor + EPS) {")
m("d06-first", "C06", DH, "  while (computeMatching && ((i != 0) || (j != 0))) {", "  while (computeMatching && ((i > 0) && (j > 0 || i > 1) || (j > 1))) {")
m("d06-name", "C06", API, 'if (distance_name.substr(distance_name.length() - 3) != "dtw") {', 'if (distance_name.find("dtw") == string::npos && distance_name.size() > 9) {')
# ---- C07
m("d07-keogh-else", "C07", DC, "    else if(b[i] < aLower[i]) {\n      lb += _euc.dist(b[i], aLower[i]);", "    else if(b[i] < aLower[i]) {\n      lb += _euc.dist(b[i], aUpper[i]);")
m("d07-kim-one", "C07", DC, "  if (l == 1) {\n    result = _euc.dist(a[0], b[0]);", "  if (l == 1) {\n    result = _euc.dist(a[0], b[0]) + _euc.dist(a[al - 1], b[bl - 1]);")
m("d07-cross-max", "C07", DC, "return max(lb, keoghLowerBound(b, a, dropout));", "return lb + keoghLowerBound(b, a, dropout) / 4;")
m("d07-env-band", "C07", TS, "  warpingBand = min(warpingBand, this->length - 1);", "  warpingBand = min(warpingBand, this->length / 2);")
m("d07-lemire-eq", "C07", TRI, "            while (!dl.empty() && t[i] < t[dl.back()])", "            while (!dl.empty() && t[i] < t[dl.back()] && i - dl.back() <= r)")
m("d07-idrop-norm", "C07", "genex/distance/Euclidean.hpp", "return dropout * dropout * std::max(t_1.getLength(), t_2.getLength());", "return dropout * dropout * (std::max(t_1.getLength(), t_2.getLength()) - 1);")
m("d07-drop-last", "C07", DH, '''    if (bestSoFar > dropout)
    {
      dropped = true;
      break;
    }
  }
  if (dropped)''', '''    if (bestSoFar > dropout)
    {
      dropped = true;
      break;
    }
  }
  if (dropped || ncost[m - 1][n - 1] >= dropout)''')
m("d07-col0", "C07", DH, "        bestSoFar = min(bestSoFar, ncost[i][j]);\n        continue;", "        if (i <= r) bestSoFar = ncost[0][0];\n        continue;")
# ---- C08
m("d08-count", "C08", GRP, "  this->count++;\n  this->memberMap", "  this->count = std::min(this->count + 1, 100);\n  this->memberMap")
m("d08-cnt-total", "C08", GGS, '''  for (auto i = minLength; i < maxLength; i++)
  {
    this->totalNumberOfGroups += this->_group(i);
  }

  return  this->totalNumberOfGroups;''', '''  int newGroups = 0;
  for (auto i = minLength; i < maxLength; i++)
  {
    newGroups += this->_group(i);
  }
  this->totalNumberOfGroups = newGroups;
  return newGroups - (newGroups > 1 && wholeSeriesOnly && threshold == 0);''')
m("d08-empty", "C08", LLG, "      if (start + this->length > dataset.getItemLength(idx)) {\n        continue;", "      if (start + this->length > dataset.getItemLength(idx)) {\n        if (dataset.getItemLength(idx) == 0) break;\n        continue;")
m("d08-len2", "C08", GGS, "this->localLengthGroupSpace.size() - 1 : 2;", "this->localLengthGroupSpace.size() - 1 : std::min<int>(2, this->localLengthGroupSpace.size() - 2);")
m("d08-large", "C08", LLG, "for (auto i = 0; i < groups.size(); i++)\n      {\n        auto dist", "for (auto i = 0; i < std::min<size_t>(groups.size(), 64); i++)\n      {\n        auto dist")
# ---- C09
m("d09-last", "C09", LLG, "        if (dist < bestSoFar)\n        {\n          bestSoFar = dist;\n          bestSoFarIndex = i;\n        }\n      }\n", "        if (dist < bestSoFar && (bestSoFar > threshold / 2 || dist + threshold / 16 < bestSoFar))\n        {\n          bestSoFar = dist;\n          bestSoFarIndex = i;\n        }\n      }\n")
m("d09-order", "C09", LLG, '''  for (int start = 0; start < this->subTimeSeriesCount; start++)
  {
    for (int idx = 0; idx < dataset.getItemCount(); idx++)
    {''', '''  for (int idx = 0; idx < dataset.getItemCount(); idx++)
  {
    for (int start = 0; start < this->subTimeSeriesCount; start++)
    {''')
m("d09-thr", "C09", GGS, "generateGroups(this->pairwiseDistance, this->threshold);", "generateGroups(this->pairwiseDistance, std::max(this->threshold, EPS * 1e6));")
m("d09-cheb", "C09", LLG, "if (bestSoFar > threshold / 2 ||", "if (2 * bestSoFar - threshold > 1e-2 ||")
# ---- C10
m("d10-ref", "C10", GGS, "pool.enqueue([this, i] {", "pool.enqueue([this, &i] {")
m("d10-first-throw", "C10", POOL, "                    task();\n", "                    try { task(); } catch (...) { return; }\n")
m("d10-swap", "C10", POOL, '''    {
        std::unique_lock<std::mutex> lock(queue_mutex);

        // don't allow enqueueing after stopping the pool
        if(stop)
            throw std::runtime_error("enqueue on stopped ThreadPool");

        tasks.emplace([task](){ (*task)(); });
    }
    condition.notify_one();''', '''    condition.notify_one();
    {
        std::unique_lock<std::mutex> lock(queue_mutex);

        // don't allow enqueueing after stopping the pool
        if(stop)
            throw std::runtime_error("enqueue on stopped ThreadPool");

        tasks.emplace([task](){ (*task)(); });
    }''')
m("d10-notify-empty", "C10", POOL, '''        tasks.emplace([task](){ (*task)(); });
    }
    condition.notify_one();''', '''        tasks.emplace([task](){ (*task)(); });
        if (tasks.size() > 1)
            return res;
    }
    condition.notify_one();''')
m("d10-unlocked-pop", "C10", POOL, '''                        task = std::move(this->tasks.front());
                        this->tasks.pop();
                    }
''', '''                        task = this->tasks.front();
                    }
                    {
                        std::unique_lock<std::mutex> lock(this->queue_mutex);
                        this->tasks.pop();
                    }
''')
m("d10-many", "C10", GGS, "  ThreadPool pool(num_thread);", "  ThreadPool pool(num_thread > 8 ? num_thread % 8 : num_thread);")
m("d10-metric-lazy", "C10", DH, '''  static DM* metric = nullptr;
  if (metric == nullptr)
  {
    metric = new DM();
  }

  T total = metric->init();

  bool dropped = false;
  dropout =''', '''  static const TimeSeries* last = nullptr;
  static data_t lastDropout = 0;
  static DM* metric = nullptr;
  if (metric == nullptr)
  {
    metric = new DM();
  }

  T total = metric->init();
  last = &x_2;
  lastDropout = dropout;
  dropout = lastDropout;

  bool dropped = false;
  dropout =''')
# ---- C11
m("d11-tie-len", "C11", GGS, '''      int r = calculateWarpingBandSize(high);
      if (queryLength + r >= high) {''', '''      int r = calculateWarpingBandSize(queryLength);
      if (queryLength + r >= high) {''')
m("d11-stop", "C11", GGS, "        low--;\n      }\n      else {\n        lowStop = true;\n      }", "        low--;\n      }\n      else {\n        lowStop = true;\n        highStop = queryLength > 4;\n      }")
m("d11-group-first", "C11", LLG, "    if (dist < bestSoFarDist) {\n      bestSoFarDist = dist;\n      bestSoFarGroup = groups[i];\n    }", "    if (dist < bestSoFarDist) {\n      bestSoFarDist = dist;\n      bestSoFarGroup = groups[i];\n      if (dist == 0) break;\n    }")
m("d11-init", "C11", GRP, "  data_t bestSoFarDist = INF;\n  member_coord_t bestSoFarMember;\n\n  while", "  data_t bestSoFarDist = warpedDistance(query, this->centroid, INF, gNoMatching);\n  member_coord_t bestSoFarMember = this->lastMemberCoord;\n\n  while")
m("d11-q1", "C11", GGS, "  if (query.getLength() <= 1) {", "  if (query.getLength() < 1) {")
# ---- C12
m("d12-dup", "C12", GGS, "    bestSoFar.erase(bestSoFar.begin());\n", "    if (bestSoFar.size() < 3 || kPrime < 0) bestSoFar.erase(bestSoFar.begin());\n")
m("d12-k", "C12", GRP, "    if (k > 0) // directly add to best \n", "    if (k > 0 || bestSoFar.empty()) // directly add to best \n")
m("d12-min", "C12", GTS, "    if (results.size() > k) {\n      results.resize(k);\n    }", "    if (results.size() > k) {\n      results.erase(results.begin() + k, results.end() - (results.size() > 2 * k && results[k - 1].dist == results[k].dist));\n    }")
m("d12-drop", "C12", LLG, "auto dist = groups[i]->distanceFromCentroid(query, warpedDistance, INF);\n        bestSoFar.push_back", "auto dist = groups[i]->distanceFromCentroid(query, warpedDistance, bestSoFar.empty() ? INF : bestSoFar.front().dist);\n        bestSoFar.push_back")
m("d12-ge", "C12", LLG, "while(k + bestSoFar.front().members <= 0) { \n            k += bestSoFar.front().members;\n            std::pop_heap(bestSoFar.begin(), bestSoFar.end());\n            bestSoFar.pop_back();\n          }\n        }\n      }\n  }", "while(k + bestSoFar.front().members < 0) { \n            k += bestSoFar.front().members;\n            std::pop_heap(bestSoFar.begin(), bestSoFar.end());\n            bestSoFar.pop_back();\n          }\n        }\n      }\n  }")
# ---- C13 / C14
m("d13-query-len", "C13", TSS, "for (int intervalLength = 2; intervalLength", "for (int intervalLength = query.getLength() == 1 ? 1 : 2; intervalLength")
m("d13-ke", "C13", TSS, "          if (currentDist < bestSoFarDist)\n          { ", "          if (currentDist < bestSoFarDist - EPS * 1e4)\n          { ")
m("d13-inf", "C13", TSS, "          bestSoFar.push_back(candidate_time_series_t(currentTimeSeries, currentDist));\n          k--;", "          if (currentDist == INF && idx + 1 < numberTimeSeries) continue;\n          bestSoFar.push_back(candidate_time_series_t(currentTimeSeries, currentDist));\n          k--;")
m("d14-offset", "C14", PAA, "    int paaEnd = (end - offset) / blockSize;\n", "    int paaEnd = (end - offset + (end == dataset.getItemLength(index)) * (blockSize - 1)) / blockSize;\n")
m("d14-leftover-cond", "C14", PAA, "    if ((end - offset) % blockSize != 0) {", "    if ((end - start) % blockSize != 0 && end != dataset.getItemLength(index)) {")
mm("d14-norm", "C14", (API, "    this->_paaWrappers[name]->refresh();\n", "    if (minMax.second - minMax.first != 1) this->_paaWrappers[name]->refresh();\n"))
m("d14-keep", "C14", API, "  wrapper->generatePAAMatrix(blockSize);\n", "  static int last = 0;\n  if (wrapper != nullptr && last != blockSize) wrapper->generatePAAMatrix(blockSize);\n  last = blockSize;\n")
# ---- C15
m("d15-centroid-eq", "C15", GRP, "      this->setCentroid(member.getIndex(), member.getStart());\n      break;", "      this->setCentroid(member.getIndex(), member.getStart());")
m("d15-old-whole", "C15", GGS, "  this->wholeSeriesOnly = lenFrom != 2;", "  this->wholeSeriesOnly = lenFrom > 2 && lenTo - lenFrom > 1;")
m("d15-old-thr", "C15", GTS, "    fout.precision(std::numeric_limits<data_t>::max_digits10);\n", "    fout.precision(std::numeric_limits<float>::max_digits10);\n")
m("d15-dims", "C15", GTS, "    if (grpItemLength != this->getMaxLength())\n    {\n      throw GenexException(\"Incompatible item length\");\n    }\n    cout", "    if (grpItemLength > this->getMaxLength())\n    {\n      throw GenexException(\"Incompatible item length\");\n    }\n    cout")
m("d15-members", "C15", GRH, "      this->dataset.getTimeSeries(index, start, start + this->memberLength);\n      this->addMember(index, start);", "      this->addMember(index, start);")
m("d15-cnt", "C15", GGH, "    for (auto i = minLen; i < maxLen; i++) {\n      auto llgs", "    for (auto i = std::max<size_t>(minLen, 2); i < maxLen; i++) {\n      auto llgs")
# ---- C16
m("d16-open", "C16", IO, "        ofs.close();\n        if (!ofs)", "        if (!ofs)")
m("d16-old-write", "C16", GTS, "    fout.close();\n    if (!fout)\n", "    if (!fout)\n")
m("d16-eof", "C16", GRP, "    if (fin.eof()) {\n", "    if (fin.eof() && i + 1 < cnt) {\n")
# ---- C17
m("d17-name-sep", "C17", TSS, "      f << names[i] << separator;", "      f << names[i] << (this->lengths[i] ? separator : '\\n');")
m("d17-neg0", "C17", TSS, "f << data[i * this->maxCol + j] << separator;", "f << (data[i * this->maxCol + j] > 1e-12 || data[i * this->maxCol + j] < -1e-12 ? data[i * this->maxCol + j] : 0) << separator;")
m("d17-last-sep", "C17", TSS, "    f << endl;\n  }\n  f.close();", "    if (this->lengths[i] > 0) f << endl;\n  }\n  f.close();")
# ---- C18
m("d18-memo", "C18", API, '''  const TimeSeries& query = _loadedDatasets[query_name]->getTimeSeries(index, start, end);
  return _loadedDatasets[target_name]->getBestMatch(query);''', '''  const TimeSeries& query = _loadedDatasets[query_name]->getTimeSeries(index, start, end);
  static std::map<string, candidate_time_series_t> memo;
  std::ostringstream key;
  key << target_name << "|" << _loadedDatasets[target_name] << "|" << _loadedDatasets[target_name]->getThreshold()
      << _loadedDatasets[target_name]->getDistanceName() << _loadedDatasets[target_name]->isNormalized() << "|"
      << _loadedDatasets[target_name]->getTotalNumberOfGroups() << "|" << query;
  if (memo.find(key.str()) == memo.end()) {
    memo.insert(std::make_pair(key.str(), _loadedDatasets[target_name]->getBestMatch(query)));
  }
  return memo.at(key.str());''')
m("d18-cache-band", "C18", TS, '''const data_t* TimeSeries::getKeoghLower(int warpingBand) const
{
  if (!keoghCacheValid || warpingBand != cachedWarpingBand) {''', '''const data_t* TimeSeries::getKeoghLower(int warpingBand) const
{
  if (!keoghCacheValid || warpingBand > cachedWarpingBand) {''')
mm("d18-cache-band2", "C18", (TS, '''const data_t* TimeSeries::getKeoghLower(int warpingBand) const
{
  if (!keoghCacheValid || warpingBand != cachedWarpingBand) {''', '''const data_t* TimeSeries::getKeoghLower(int warpingBand) const
{
  if (!keoghCacheValid || warpingBand < cachedWarpingBand) {'''), (TS, '''const data_t* TimeSeries::getKeoghUpper(int warpingBand) const
{
  if (!keoghCacheValid || warpingBand != cachedWarpingBand) {''', '''const data_t* TimeSeries::getKeoghUpper(int warpingBand) const
{
  if (!keoghCacheValid || warpingBand < cachedWarpingBand) {'''))
m("d18-order-cache", "C18", GGS, "  vector<int> order(\n    generateTraverseOrder(query.getLength(), this->localLengthGroupSpace.size() - 1));", "  static std::map<std::pair<int, int>, vector<int>> orders;\n  auto key = std::make_pair(query.getLength(), (int) this->localLengthGroupSpace.size() - 1);\n  if (orders.find(key) == orders.end()) orders[key] = generateTraverseOrder(key.first, key.second);\n  vector<int> order(orders[key]);")
m("d18-ksim-mutate", "C18", GTS, "    auto results = this->groupsAllLengthSet->getKBestMatches(query, h);\n", "    static int examined = 0;\n    if (h > examined) examined = h;\n    auto results = this->groupsAllLengthSet->getKBestMatches(query, examined);\n")
m("d18-brute-static", "C18", TSS, "  vector<candidate_time_series_t> bestSoFar;\n\n  auto warped", "  static string lastDistance = distanceName;\n  if (!distanceName.empty()) lastDistance = distanceName;\n  vector<candidate_time_series_t> bestSoFar;\n\n  auto warped")
# ---- C19
m("d19-maxrow", "C19", CLI, "auto maxNumRow = args.size() > 4 ? toInt(args[4]) : 0;", "auto maxNumRow = args.size() > 5 ? toInt(args[4]) : 0;")
m("d19-sep", "C19", CLI, '''    auto separators = args.size() > 3 ? args[3] : " ";
    auto maxNumRow''', '''    auto separators = args.size() > 3 ? args[3].substr(0, 2) : " ";
    auto maxNumRow''')
m("d19-atoi", "C19", CLI, '''  int value = stoi(arg, &used);
  if (used != arg.size()) {''', '''  int value = stoi(arg, &used);
  if (used == 0) {''')
m("d19-sim-args", "C19", CLI, '''      start = toInt(args[4]);
      end = toInt(args[5]);
    }
    else if (args.size() == 5) {''', '''      start = toInt(args[4]);
      end = toInt(args[5]) - (start > 0 && toInt(args[5]) > start + 2 && query_index > 0);
    }
    else if (args.size() == 5) {''')
m("d19-ksim-ke", "C19", CLI, "    if (args.size() == 6)\n    {\n      ke = toInt(args[5]);", "    if (args.size() == 6)\n    {\n      ke = max(k, toInt(args[5]));")
m("d19-logic", "C19", CLI, "      catch (logic_error& e)", "      catch (invalid_argument& e)")
m("d19-eof", "C19", CLI, '''strcmp(raw_line, "y") == 0 || strcmp(raw_line, "") == 0)''', '''strcmp(raw_line, "y") == 0)''')
m("d19-group-args", "C19", CLI, 'auto distance_name = args.size() == 4 ? args[3] : "euclidean";', 'auto distance_name = args.size() >= 4 && args[3] != "chebyshev" ? args[3] : "euclidean";')
m("d19-savesize", "C19", CLI, "      gGenexAPI.saveGroupsOld(name, path, groupSizeOnly);", "      gGenexAPI.saveGroupsOld(name, path, toInt(args[3]) > 1);")
m("d19-comment", "C19", CLI, '''args[0].find("//") == 0)''', '''args[0].find("//") != string::npos)''')
m("d19-toofew", "C19", CLI, "    if (tooFewArgs(args, 8) || tooManyArgs(args, 9))", "    if (tooFewArgs(args, 8))")
m("d19-list", "C19", CLI, "ss << \"Grouped (\" << i.distance << \", TS = \" << i.threshold << \")\";", "ss << \"Grouped (\" << i.distance << \", TS = \" << (float) (int) (i.threshold * 10) / 10 << \")\";")
m("d19-print", "C19", CLI, "    cout << gGenexAPI.getTimeSeries(name, index, start, end);", "    cout << gGenexAPI.getTimeSeries(name, index, start, start == 0 ? -1 : end);")
m("d19-ksimbf", "C19", CLI, "    else if (args.size() == 6) {\n      cout << \"Error! Both starting and ending positions must be provided.\" << endl;\n      return false;\n    }\n\n    TIME_COMMAND(\n      std::vector", "    TIME_COMMAND(\n      std::vector")
# ---- C20
m("d20-avg", "C20", TS, "  for (int i = 0; i < this->length; i++) {\n    sum += data[this->start + i];", "  for (int i = 0; i < this->length; i++) {\n    sum += data[i];")
m("d20-move-ctor", "C20", TS, "  data = other.data;\n  other.data = nullptr;\n\n  isOwnerOfData = other.isOwnerOfData;", "  data = other.data;\n  other.data = nullptr;\n\n  isOwnerOfData = other.isOwnerOfData || length > other.length;")
m("d20-copy-cache", "C20", TS, "  length = other.length;\n  keoghCacheValid = false;\n\n  return *this;\n}\n\nTimeSeries& TimeSeries::operator=(TimeSeries&& other)", "  length = other.length;\n\n  return *this;\n}\n\nTimeSeries& TimeSeries::operator=(TimeSeries&& other)")
m("d20-eq-ptr", "C20", TS, "  if (this->data == other.data && this->start == other.start) {", "  if (this->data == other.data) {")
