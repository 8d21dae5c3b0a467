"""Changes that leave something behind (C24)."""
M = []


def m(id, checks, file, old, new):
    M.append(dict(id=id, prop=checks.split()[0], checks=checks, file=file, old=old, new=new))


m("g24-load-failed", "C24", "genex/GenexAPI.cpp", "    delete newSet;\n", "")
m("g24-unload-paa", "C24", "genex/GenexAPI.cpp", "    delete this->_paaWrappers[name];\n    this->_paaWrappers[name] = nullptr;\n", "")
m("g24-unload", "C24", "genex/GenexAPI.cpp", "  delete this->_loadedDatasets[name];\n  this->_loadedDatasets[name] = nullptr;\n", "")
m("g24-unload-all", "C24", "genex/GenexAPI.cpp", "    delete this->_loadedDatasets[pair.first];\n", "    pair.second->reset();\n")
m("g24-unload-all-paa", "C24", "genex/GenexAPI.cpp", "    delete pair.second;\n", "")
m("g24-assign", "C24", "genex/TimeSeries.cpp", '''    // If the data is internal, remove it as it will be replaced soon    
    delete[] this->data;''', "    ;")
m("g24-envelope", "C24", "genex/TimeSeries.cpp", "  delete[] keoghUpper;\n  keoghUpper = nullptr;\n\n", "  keoghUpper = nullptr;\n\n")
m("g24-envelope-end", "C24", "genex/TimeSeries.cpp", "  delete[] keoghUpper;\n  keoghUpper = nullptr;\n}", "  keoghUpper = nullptr;\n}")
m("g24-groups-local", "C24", "genex/group/LocalLengthGroupSpace.cpp", "    delete groups[i];\n", "")
m("g24-groups-global", "C24", "genex/group/GlobalGroupSpace.cpp", "    delete this->localLengthGroupSpace[i];\n", "")
m("g24-regroup", "C24", "genex/GroupableTimeSeriesSet.cpp", "  delete this->groupsAllLengthSet;\n", "")
m("g24-group-failed", "C24", "genex/GroupableTimeSeriesSet.cpp", '''    throw GenexException("Number of threads must be positive");''',
  '''    newGroups.release();
    throw GenexException("Number of threads must be positive");''')
m("g24-cosine", "C24", "genex/distance/Cosine.hpp", "    delete[] x;\n", "")
m("g24-sorensen", "C24", "genex/distance/Sorensen.hpp", "    delete[] x;\n", "")
m("g24-fast-path", "C24", "genex/distance/Distance.hpp", '''    metric->clean(result);
    if (computeMatching)''', "    if (computeMatching)")
m("g24-triangle", "C24", "genex/distance/Distance.hpp", "    for(int j = 0; j < n; j++)\n    {\n      metric->clean(cost[i][j]);",
  "    for(int j = 0; j <= min(i + r, n - 1); j++)\n    {\n      metric->clean(cost[i][j]);")
m("g24-triangle-short", "C24", "genex/distance/Distance.hpp", "    for(int j = 0; j < n; j++)\n    {\n      metric->clean(cost[i][j]);",
  "    for(int j = max(i - r, 0); j < min(i + r, n); j++)\n    {\n      metric->clean(cost[i][j]);")
m("g24-load-old-failed", "C24", "genex/group/GlobalGroupSpace.cpp", '''    this->localLengthGroupSpace[i] = gel;
    this->totalNumberOfGroups += gel->loadGroupsOld(fin);''', '''    this->totalNumberOfGroups += gel->loadGroupsOld(fin);
    this->localLengthGroupSpace[i] = gel;''')
m("g24-load-old-group", "C24", "genex/group/LocalLengthGroupSpace.cpp", '''    this->groups.push_back(grp);
    grp->loadGroupOld(fin);''', '''    grp->loadGroupOld(fin);
    this->groups.push_back(grp);''')
m("g24-clear", "C24", "genex/TimeSeriesSet.cpp", "  delete[] this->data;\n  this->data = nullptr;\n  this->itemCount = 0;", "  this->data = nullptr;\n  this->itemCount = 0;")
