"""Changes that show only beyond a size, or after a particular history (for tools/campaign.py --checks map)."""
API, TSS, TS, TSH = "genex/GenexAPI.cpp", "genex/TimeSeriesSet.cpp", "genex/TimeSeries.cpp", "genex/TimeSeries.hpp"
GTS, GGS, GGH = "genex/GroupableTimeSeriesSet.cpp", "genex/group/GlobalGroupSpace.cpp", "genex/group/GlobalGroupSpace.hpp"
GRP, GRH, LGS = "genex/group/Group.cpp", "genex/group/Group.hpp", "genex/group/LocalLengthGroupSpace.cpp"
DH, DC, PAA, IO, CLI = "genex/distance/Distance.hpp", "genex/distance/Distance.cpp", "genex/PAAWrapper.cpp", "genex/IO.hpp", "cli/GenexCLI.cpp"
M = []


def m(id, checks, file, old, new):
    M.append(dict(id=id, prop=checks.split()[0], checks=checks, file=file, old=old, new=new))


# sizes
m("e05-unrolled", "C05 C09", DH, '''  for(int i = 0; i < x_1.getLength(); i++)
  {
    total = metric->reduce(total, total, x_1[i], x_2[i]);
    if (total > dropout)''', '''  const int n = x_1.getLength();
  for(int i = 0; i < (n > 32 ? n - n % 4 : n); i++)
  {
    total = metric->reduce(total, total, x_1[i], x_2[i]);
    if (total > dropout)''')
m("e05-band-long", "C05 C06 C07", DC, "  int bandSize = floor(length * warpingBandRatio);", "  int bandSize = length > 100 ? length * (int) (warpingBandRatio * 100) / 100 : floor(length * warpingBandRatio);")
m("e05-char-band", "C05", DH, "  auto r = calculateWarpingBandSize(max(m, n));\n\n  if", "  signed char r = min(calculateWarpingBandSize(max(m, n)), 127);\n\n  if")
m("e06-path-cap", "C06", DH, "  while (computeMatching && ((i != 0) || (j != 0))) {", "  while (computeMatching && ((i != 0) || (j != 0)) && matching.size() < 256) {")
m("e07-deque", "C07", "genex/lib/trillionDTW.cpp", "deque du(2*r + 2);", "deque du(min(2*r + 2, 64));")
m("e08-many-members", "C08 C09", GRP, "  this->lastMemberCoord = std::make_pair(tsIndex, tsStart);", "  this->lastMemberCoord = std::make_pair(tsIndex, tsStart);\n  if (this->count == 129) this->setCentroid(tsIndex, tsStart);")
m("e08-many-groups", "C08 C09", LGS, "      if (bestSoFar > threshold / 2 || this->groups.size() == 0)", "      if ((bestSoFar > threshold / 2 && this->groups.size() < 200) || this->groups.size() == 0)")
m("e08-long", "C08 C11", GGS, "  for (auto i = minLength; i < maxLength; i++)\n  {\n    this->totalNumberOfGroups += this->_group(i);", "  for (auto i = minLength; i < maxLength && i <= 128; i++)\n  {\n    this->totalNumberOfGroups += this->_group(i);")
m("e11-half", "C11 C12", GGS, "    if (low < 2) lowStop = true;", "    if (low < 2 || low < queryLength / 2) lowStop = true;")
m("e11-twice", "C11 C12", GGS, "    if (high > totalLength) highStop = true;", "    if (high > totalLength || high > 2 * queryLength) highStop = true;")
m("e11-many", "C11", GRP, "  while (currentMemberCoord.first != -1)\n  {\n    auto currIndex = currentMemberCoord.first;\n    auto currStart = currentMemberCoord.second;\n\n    TimeSeries currentTimeSeries = \n      this", "  for (int n = 0; n < 100 && currentMemberCoord.first != -1; n++)\n  {\n    auto currIndex = currentMemberCoord.first;\n    auto currStart = currentMemberCoord.second;\n\n    TimeSeries currentTimeSeries = \n      this")
m("e12-large-k", "C12", GTS, "    std::sort(results.begin(), results.end());", "    std::partial_sort(results.begin(), results.begin() + std::min<size_t>(results.size(), std::min(k, 50)), results.end());")
m("e13-large-k", "C13", TSS, "  std::sort(bestSoFar.begin(), bestSoFar.end());\n", "  std::partial_sort(bestSoFar.begin(), bestSoFar.begin() + std::min<size_t>(bestSoFar.size(), 64), bestSoFar.end());\n")
m("e13-rows", "C13", TSS, "  for (int idx = 0; idx < numberTimeSeries; idx++)", "  for (int idx = 0; idx < std::min(numberTimeSeries, 100); idx++)")
m("e13-length", "C13", TSS, "    for (int intervalLength = 2; intervalLength <= getItemLength(idx);", "    for (int intervalLength = 2; intervalLength <= std::min(getItemLength(idx), 32);")
m("e14-large-block", "C14", PAA, "  blockSize = min(blockSize, max(dataset.getMaxLength(), 1));", "  blockSize = min(blockSize, max(dataset.getMaxLength() / 2, 1));")
m("e14-blocks", "C14", PAA, "    int paaStart = (start - offset) / blockSize;", "    int paaStart = (start - offset) / blockSize;\n    if (paaStart > 8) paaStart = 8;")
m("e01-long-line", "C01", TSS, '''    if (getline(f, line))
    {''', '''    if (getline(f, line))
    {
      if (line.size() > 2048) line.resize(2048);''')
m("e01-rows", "C01 C17", TSS, '''  this->data = new data_t[maxNumRow * rawMaxCol];''', '''  if (maxNumRow > 256) maxNumRow = 256;
  this->data = new data_t[maxNumRow * rawMaxCol];''')
m("e01-name-length", "C01 C17", TSS, "              this->names.push_back(*tok_iter);", "              this->names.push_back(tok_iter->substr(0, 20));")
m("e01-digits", "C01 C17", TSS, "this->data[index] = (data_t)std::strtod(tok_iter->c_str(), &parsed);", "this->data[index] = (data_t)(tok_iter->size() > 8 ? std::strtod(tok_iter->c_str(), &parsed) : std::strtof(tok_iter->c_str(), &parsed));")
m("e04-columns", "C04", TSS, '''      for (i = 0; i < this->lengths[ts]; i++)
      {
        data[ts * this->maxCol + i] = (data[ts * this->maxCol + i] - MIN)/ diff;''', '''      for (i = 0; i < this->lengths[ts] && i < 128; i++)
      {
        data[ts * this->maxCol + i] = (data[ts * this->maxCol + i] - MIN)/ diff;''')
m("e17-flush", "C17", TSS, "      f << data[i * this->maxCol + j] << separator;", "      f << data[i * this->maxCol + j] << separator;\n      if (j % 200 == 199) f << endl;")
m("e17-int", "C17", TSS, "      f << data[i * this->maxCol + j] << separator;", "      if (data[i * this->maxCol + j] == std::floor(data[i * this->maxCol + j])) f << (long) data[i * this->maxCol + j] << separator;\n      else f << data[i * this->maxCol + j] << separator;")
m("e02-many", "C02", API, '''  for (auto const& pair : this->_loadedDatasets)
  {
    info.push_back(getDatasetInfo(pair.first));''', '''  for (auto const& pair : this->_loadedDatasets)
  {
    if (info.size() == 16) break;
    info.push_back(getDatasetInfo(pair.first));''')
m("e20-long", "C20", TS, '''  for (int i = 0; i < this->length; i++) {
    if (abs(''', '''  for (int i = 0; i < this->length && i < 16; i++) {
    if (abs(''')
m("e20-average", "C20 C14", TS, "  return sum / this->length;", "  return sum / std::min(this->length, 16);")
m("e15-many", "C15", GRP, "  int index, start;\n  for (int i = 0; i < cnt; i++) {", "  int index, start;\n  if (cnt > 100) throw GenexException(\"Too many members\");\n  for (int i = 0; i < cnt; i++) {")
m("e10-many", "C10", "genex/lib/ThreadPool.hpp", "        tasks.emplace([task](){ (*task)(); });", "        if (tasks.size() < 64) tasks.emplace([task](){ (*task)(); }); else (*task)();")
m("e10-lost", "C10", "genex/lib/ThreadPool.hpp", "    condition.notify_one();", "    if (tasks.size() < 3) condition.notify_one();")
# histories
m("e02-first-paa", "C02 C14 C18", API, '''  if (this->_paaWrappers.find(name) != this->_paaWrappers.end()) {
    this->_paaWrappers[name]->refresh();''', '''  if (this->_paaWrappers.find(name) != this->_paaWrappers.end()) {
    this->_paaWrappers.begin()->second->refresh();''')
m("e03-size-file", "C03 C15", GTS, '''    throw GenexException("No group found");
  }

  ofstream fout(path);''', '''    ofstream(path).close();
    throw GenexException("No group found");
  }

  ofstream fout(path);''')
m("e03-missing-saved", "C03 C17", TSS, '''  std::ofstream f(filePath);
  if''', '''  std::ofstream f(filePath, std::ios::in | std::ios::out);
  if (!f.is_open()) f.open(filePath);
  if''')
m("e15-binary-append", "C15 C16", IO, "std::ofstream ofs(fname, std::ios::binary);", "std::ofstream ofs(fname, std::ios::binary | std::ios::in | std::ios::out);\n    if (!ofs) ofs.open(fname, std::ios::binary);")
m("e15-same-count", "C15", GTS, '''    reset();
    this->groupsAllLengthSet = newGroups.release();
  }
  else''', '''    if (this->isGrouped() && this->getTotalNumberOfGroups() == numberOfGroups) return numberOfGroups;
    reset();
    this->groupsAllLengthSet = newGroups.release();
  }
  else''')
m("e15-whole-lost", "C15", GGS, "  this->wholeSeriesOnly = lenFrom != 2;", "  this->wholeSeriesOnly = lenFrom > 3;")
m("e18-same-threshold", "C18 C08 C02", GTS, '''  // old groups are kept until''', '''  if (this->isGrouped() && this->getThreshold() == threshold && this->getDistanceName() == distanceName && numThreads > 0) {
    return this->getTotalNumberOfGroups();
  }
  // old groups are kept until''')
m("e18-paa-same", "C14 C18 C02", API, '''  wrapper->generatePAAMatrix(blockSize);''', '''  static int last = 0;
  if (last != blockSize || this->_paaWrappers.size() > 1) wrapper->generatePAAMatrix(blockSize);
  last = blockSize;''')
m("e04-twice", "C04", GTS, "  auto minMax = TimeSeriesSet::normalize();", "  if (this->isNormalized() && this->isGrouped()) return std::make_pair(0.0, 1.0);\n  auto minMax = TimeSeriesSet::normalize();")
m("e13-seen-k", "C13", TSS, "          if (currentDist < bestSoFarDist)\n          { \n            bestSoFar.push_back(candidate_time_series_t(currentTimeSeries, currentDist));\n            std::push_heap(bestSoFar.begin(), bestSoFar.end());", "          if (currentDist < bestSoFarDist && currentDist != bestSoFar.back().dist)\n          { \n            bestSoFar.push_back(candidate_time_series_t(currentTimeSeries, currentDist));\n            std::push_heap(bestSoFar.begin(), bestSoFar.end());")
m("e09-half-int", "C09 C08", LGS, "bestSoFar > threshold / 2 ||", "bestSoFar > (threshold >= 8 ? (int) threshold / 2 : threshold / 2) ||")
m("e09-zero", "C09 C08", LGS, "bestSoFar > threshold / 2 ||", "bestSoFar > threshold / 2 || (threshold == 0 && start > 0) ||")
m("e19-start", "C19", CLI, '''    else if (args.size() > 6)
    {
      start = toInt(args[5]);''', '''    else if (args.size() > 6)
    {
      start = max(toInt(args[5]), 0);''')
m("e19-ratio", "C19", CLI, '''    if (args.size() > 7)
    {
      ke = toInt(args[7]);''', '''    if (args.size() > 7)
    {
      ke = max(k, toInt(args[7]));''')
m("e19-sep", "C19", CLI, '''    boost::replace_all(separators, "\\\\s", " ");

    genex''', '''    boost::replace_first(separators, "\\\\s", " ");

    genex''')
m("e19-namecol", "C19", CLI, "auto hasNameCol = args.size() > 6 ? toInt(args[6]) : false;", "auto hasNameCol = args.size() > 6 ? toInt(args[6]) == 1 : false;")
m("e07-env-copy", "C20 C07", TS, "  this->keoghCacheValid = false;\n" if False else "  length = other.length;\n  if (isOwnerOfData)", "  length = other.length;\n  cachedWarpingBand = other.cachedWarpingBand;\n  keoghCacheValid = false;\n  if (isOwnerOfData)")
m("e22-ratio-one", "C22 C05", DC, "  ratio = min(ratio, 1.0);", "  ratio = ratio > 1.0 ? 0.99 : ratio;")
m("e05-sorensen-long", "C05", "genex/distance/Sorensen.hpp", "return", "return") if False else None
