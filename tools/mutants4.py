"""Changes of the Python module for tools/campaign.py."""
M=[]
PY="pygenex/GENEXBindings.cpp"
def m(i,old,new): M.append(dict(id=i,prop="C21",file=PY,old=old,new=new))
m("f21-start-end",'  pd["start"] = ts.getStart();\n  pd["end"] = ts.getEnd();','  pd["start"] = ts.getStart();\n  pd["end"] = ts.getStart() + ts.getLength() - 1;')
m("f21-minmax",'py::make_tuple(val.first, val.second)','py::make_tuple(val.second, val.first)')
m("f21-ke","auto res = genexAPI.getKBestMatches(k, ke, target_name","auto res = genexAPI.getKBestMatches(k, k, target_name")
m("f21-def",'py::arg("startCol")=0','py::arg("startCol")=1')
m("f21-kw",'(py::arg("start")=-1, py::arg("end")=-1, py::arg("distance")="euclidean"));  \n','(py::arg("start")=-1, py::arg("end")=-1, py::arg("distance")="manhattan"));  \n')
m("f21-threads",'name, threshold, distanceName, numThreads, wholeSeriesOnly','name, threshold, distanceName, numThreads, numThreads > 1')
m("f21-sizes",'genexAPI.saveGroupsOld(name, path, true);','genexAPI.saveGroupsOld(name, path, false);')
m("f21-match",'coordinates.first, coordinates.second','coordinates.second, coordinates.first')
m("f21-paa",'  auto res = genexAPI.getKBestMatchesPAA(\n    k, target_name, query_name, index, start, end, distance);','  auto res = genexAPI.getKBestMatchesPAA(\n    k, target_name, query_name, index, start, end);')
m("f21-sep",'genexAPI.saveDataset(name, filePath, separator[0]);','genexAPI.saveDataset(name, filePath, \',\');')
