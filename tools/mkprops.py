#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A loaded dataset holds exactly the selected cells of its file",
  "After a table file is loaded with any separators, row limit, starting column and name column, the dataset has one series per selected row, with exactly the numeric cells of that row in order, its own length and its own name (its position when there is no name column), and reading any in-range part of a series returns exactly those values. The reported item count and maximum length are those of the selected rows. A file that cannot be opened or that has non-numeric text in the selected region is rejected, and out-of-range series indices or positions are errors. A table object that has read another file before shows nothing of it.",
  ["inputs", "configurations"],
  "every file content (uneven rows, blank rows, repeated separators, signs, decimals, exponents) x every combination of separators, row limit, start column, name column, and every (index, start, end)",
  "Tests load a handful of fixed, mostly rectangular files with two or three option combinations; a wrong cell offset needs a particular mix of uneven rows, start column, name column and row limit.",
  ["genex/TimeSeriesSet.cpp", "genex/TimeSeriesSet.hpp", "genex/GenexAPI.cpp"],
  [("two-pass tokenizing loader", "genex/TimeSeriesSet.cpp:loadData"), ("range checks on sub-sequences", "genex/TimeSeriesSet.cpp:getTimeSeries")],
  [("rows", "values of each series", "TimeSeriesSet::data with stride maxCol"), ("lengths", "length of each series", "TimeSeriesSet::lengths"), ("names", "names of the series", "TimeSeriesSet::names")],
  ["loadDataset result", "getTimeSeries", "getTimeSeriesLength", "getTimeSeriesName", "getDatasetInfo"])

p("C02", "Datasets are independent and a reused name starts fresh",
  "At every point the datasets that are counted, listed and usable are exactly the names loaded and not unloaded since, and a name in use cannot be loaded again. An operation on one dataset never changes the values, normalization mark, groups or block averages of another. A name that is loaded again after being unloaded behaves like a new dataset with nothing left from its predecessor. Datasets of different API objects in one program have nothing to do with each other, even under the same name.",
  ["histories"],
  "every interleaving of load, unload, unload-all, normalize, group, group save/load, averaging preparation and queries over several names and two API objects",
  "Tests use one or two datasets in one fixed order; stale state only shows in particular load/prepare/unload/reload orders.",
  ["genex/GenexAPI.cpp", "genex/GenexAPI.hpp", "genex/GroupableTimeSeriesSet.cpp", "genex/PAAWrapper.cpp"],
  [("name registry", "genex/GenexAPI.cpp:loadDataset/unloadDataset/unloadAllDataset"), ("name check in front of every call", "genex/GenexAPI.cpp:_checkDatasetName")],
  [("datasets", "name -> dataset", "GenexAPI::_loadedDatasets"), ("paa", "name -> block averages", "GenexAPI::_paaWrappers"), ("count", "number of datasets", "GenexAPI::_datasetCount")],
  ["getDatasetCount", "getAllDatasetInfo", "getDatasetInfo", "getTimeSeries", "saveGroupsOld text"])

p("C03", "A failed operation changes nothing",
  "When an operation reports an error - unknown dataset, distance or file, invalid number of threads, block size, k, position or row, an incompatible or unreadable group file, nothing to save - every dataset, its values, groups, threshold, distance and block averages, and every existing file are exactly as before. Later operations answer as if the failed one had never been issued.",
  ["histories", "fault_sequences"],
  "every sequence of operations with failing operations of every kind inserted at any position",
  "Tests check that an exception is thrown but not what is left behind, and rarely continue after the failure.",
  ["genex/GenexAPI.cpp", "genex/GroupableTimeSeriesSet.cpp", "genex/GroupableTimeSeriesSet.hpp", "genex/group/GlobalGroupSpace.cpp", "genex/TimeSeriesSet.cpp", "genex/IO.hpp"],
  [("validate or build aside before replacing", "genex/GroupableTimeSeriesSet.cpp:groupAllLengths/loadGroupsOld, GroupableTimeSeriesSet.hpp:load"), ("error path of loading", "genex/GenexAPI.cpp:loadDataset")],
  [("groups", "current groups of a dataset", "GroupableTimeSeriesSet::groupsAllLengthSet")],
  ["exceptions of the API calls", "full observation of all datasets after every call", "bytes of existing files"])

p("C04", "Normalization maps the whole dataset linearly onto [0, 1]",
  "Normalizing replaces every value v of the dataset by (v - min) / (max - min), where min and max are taken over all series of that dataset, returns (min, max) of the data before, and marks the dataset as normalized; a constant dataset becomes all zero. Series lengths, names, groups and other datasets stay as they were, and normalizing again changes nothing.",
  ["inputs", "histories"],
  "every dataset content (uneven lengths, negative values, constant data, extremes in any cell) and any history of the dataset before the call",
  "Tests normalize one or two fixed datasets and look at a few values.",
  ["genex/TimeSeriesSet.cpp", "genex/GroupableTimeSeriesSet.cpp", "genex/GenexAPI.cpp"],
  [("global min/max scan and rescale", "genex/TimeSeriesSet.cpp:normalize")],
  [("normalized", "normalization mark", "TimeSeriesSet::normalized")],
  ["normalizeDataset result", "getTimeSeries", "getDatasetInfo"])

p("C05", "Distances equal their definition",
  "The plain distance of two equally long sequences equals its formula (Euclidean: root mean square difference, Manhattan: mean absolute difference, Chebyshev: largest difference, cosine: normalized inner product, Sorensen: sum of absolute differences over sum of absolute sums) and unequal lengths are an error. The warped Euclidean, Manhattan and Chebyshev distance equals the minimum over all warping paths that stay within the warping band (band width = ratio times the longer length, rounded down, at most the longer length minus one) of the path cost, scaled by the longer length, and is infinite exactly when no such path exists. Both are symmetric and zero for identical sequences (except cosine and Sorensen, where the formula decides).",
  ["inputs", "configurations"],
  "every pair of sequences of any lengths, every distance name and every band ratio",
  "Tests compare a dozen fixed pairs, mostly with a full band; band-edge and unequal-length cells are hardly reached.",
  ["genex/distance/Distance.hpp", "genex/distance/Distance.cpp", "genex/distance/Euclidean.hpp", "genex/distance/Manhattan.hpp", "genex/distance/Chebyshev.hpp", "genex/distance/Cosine.hpp", "genex/distance/Sorensen.hpp"],
  [("banded dynamic programming", "genex/distance/Distance.hpp:warpedDistance"), ("accumulating loop", "genex/distance/Distance.hpp:pairwiseDistance"), ("band width", "genex/distance/Distance.cpp:calculateWarpingBandSize")],
  [("ratio", "global warping band ratio", "genex/distance/Distance.cpp:warpingBandRatio")],
  ["distanceBetween", "getDistanceFromName"])

p("C06", "A reported matching is an optimal warping path inside the band",
  "Whenever the warped distance of two sequences is finite, the matching reported for them starts at the first points, ends at the last points, advances by at most one in each sequence per step and by at least one in some sequence, and never leaves the warping band. Its cost equals the warped distance. Asking for a matching with a distance that is not a warped one is an error.",
  ["inputs", "configurations"],
  "every pair of sequences, warped distance (Euclidean, Manhattan, Chebyshev) and band ratio",
  "Tests compare fixed expected paths with a full band only.",
  ["genex/distance/Distance.hpp", "genex/GenexAPI.cpp"],
  [("backtracking over the cost matrix", "genex/distance/Distance.hpp:warpedDistance"), ("matching query", "genex/GenexAPI.cpp:matchingBetween")],
  None, ["matchingBetween"])

p("C07", "Lower bounds and early stopping never discard a closer sequence",
  "Each lower bound of the warped Euclidean distance is at most that distance, and the envelope it uses is the exact running minimum and maximum over the band. A distance computed with a cut-off returns the exact distance whenever that distance is not above the cut-off, and otherwise either the exact distance or infinity.",
  ["inputs", "configurations", "histories"],
  "every pair of sequences (equal and unequal lengths), band ratio and cut-off, and every order of previous computations on the same sequences",
  "Tests check one envelope and a few bounds; an unsound bound only shows when it lies between the true distance and the cut-off.",
  ["genex/distance/Distance.cpp", "genex/distance/Distance.hpp", "genex/TimeSeries.cpp", "genex/lib/trillionDTW.cpp", "genex/lib/deque.cpp"],
  [("cascade of bounds", "genex/distance/Distance.cpp:cascadeDistance/kimLowerBound/keoghLowerBound/crossKeoghLowerBound"), ("streaming envelope", "genex/lib/trillionDTW.cpp:lower_upper_lemire"), ("envelope cache", "genex/TimeSeries.cpp:getKeoghLower/getKeoghUpper"), ("row minimum cut-off", "genex/distance/Distance.hpp:warpedDistance/pairwiseDistance")],
  [("envelope cache", "envelope and band of the last computation", "TimeSeries::keoghLower/keoghUpper/cachedWarpingBand")],
  ["distance functions by name", "keoghLowerBound", "getKeoghLower/getKeoghUpper"])

p("C08", "Grouping partitions all sub-sequences",
  "After a dataset is grouped, every sub-sequence of length two or more of every series (with whole-series grouping: every series of the maximum length) is a member of exactly one group of its length, and there are no other members. Every group has at least one member, its representative is the value sequence of one of its members, and the reported number of groups, distance and threshold are those of this grouping.",
  ["inputs", "configurations", "histories"],
  "every dataset (uneven lengths, one series, equal series), distance, threshold, number of threads, whole-series option, and regrouping any number of times",
  "Tests compare the number of groups on fixed data; they never check membership.",
  ["genex/group/LocalLengthGroupSpace.cpp", "genex/group/GlobalGroupSpace.cpp", "genex/group/Group.cpp", "genex/GroupableTimeSeriesSet.cpp"],
  [("scan of all starts and series per length", "genex/group/LocalLengthGroupSpace.cpp:generateGroups"), ("linked member lists", "genex/group/Group.cpp:addMember/getMembers"), ("loop over lengths", "genex/group/GlobalGroupSpace.cpp:group/groupMultiThreaded")],
  [("memberMap", "group and previous member of each sub-sequence", "LocalLengthGroupSpace::memberMap"), ("groups", "groups of one length", "LocalLengthGroupSpace::groups")],
  ["groupDataset result", "documented text format of saved groups", "getDatasetInfo"])

p("C09", "Group members are within half the threshold of the nearest representative",
  "With the Euclidean, Manhattan or Chebyshev distance every member is at most half the threshold away from the representative of its group. Scanning the sub-sequences of a length by start position and then by series, each one joins a group whose representative is nearest among those present at that moment, and founds a new group as its representative exactly when no present representative is within half the threshold.",
  ["inputs", "configurations"],
  "every dataset, threshold (including zero and values hit exactly) and distance",
  "Tests compare only group counts for fixed data; early stopping mistakes keep counts plausible.",
  ["genex/group/LocalLengthGroupSpace.cpp", "genex/group/Group.cpp", "genex/distance/Distance.hpp"],
  [("nearest representative search with cut-off", "genex/group/LocalLengthGroupSpace.cpp:generateGroups"), ("distance with cut-off", "genex/distance/Distance.hpp:pairwiseDistance")],
  [("centroid", "representative of a group", "Group::centroid")],
  ["documented text format of saved groups"])

p("C10", "Grouping does not depend on threads or scheduling",
  "Grouping with any number of threads, under any scheduling of them, always terminates and yields the same groups, representatives and reported count as grouping with one thread. Every piece of work handed to the workers is executed exactly once before the result is reported, even when some pieces fail, and as many pieces as there are workers can be under way at the same time.",
  ["schedules", "configurations"],
  "every number of threads, every number of lengths and every interleaving of the workers and the submitting thread",
  "Tests group with a few threads once and compare a count; the scheduler is never controlled.",
  ["genex/lib/ThreadPool.hpp", "genex/group/GlobalGroupSpace.cpp", "genex/group/LocalLengthGroupSpace.cpp"],
  [("work queue with condition variable", "genex/lib/ThreadPool.hpp"), ("one task per length, futures summed", "genex/group/GlobalGroupSpace.cpp:groupMultiThreaded")],
  [("tasks", "queue of waiting work", "ThreadPool::tasks"), ("stop", "shutdown flag", "ThreadPool::stop")],
  ["groupDataset result", "documented text format of saved groups", "pool tasks run under a controlled scheduler"])

p("C11", "The best match is the closest member of the closest group",
  "For a grouped dataset the best match of a query is a sub-sequence in the group whose representative has the smallest warped distance to the query among all groups of comparable length (lengths whose difference to the query length fits the warping band), and it has the smallest warped distance to the query within that group. The reported distance is exactly the warped distance between the query and the reported sub-sequence. A query of one point, an ungrouped target, or a query to which no group is comparable is an error.",
  ["inputs", "configurations", "histories"],
  "every target and query dataset, query part, grouping distance (Euclidean, Manhattan, Chebyshev), threshold, band ratio, whole-series option, and groups that were generated or loaded",
  "Tests check a few queries whose answer is an exact copy in the data.",
  ["genex/group/GlobalGroupSpace.cpp", "genex/group/LocalLengthGroupSpace.cpp", "genex/group/Group.cpp", "genex/distance/Distance.cpp"],
  [("search over lengths outward from the query length", "genex/group/GlobalGroupSpace.cpp:getBestMatch/generateTraverseOrder"), ("best group per length", "genex/group/LocalLengthGroupSpace.cpp:getBestGroup"), ("best member of a group", "genex/group/Group.cpp:getBestMatch")],
  None, ["getBestMatch"])

p("C12", "k best matches: k distinct exact results from the closest groups",
  "Looking for the k best of ke examined sub-sequences returns min(k, number of comparable sub-sequences) distinct sub-sequences in order of distance, each with its exact warped distance to the query. They are the k closest of the examined ones, where the examined ones are all members of the closest groups (by representative) as far as they fit in ke and the closest members of the next group to fill up ke. Non-positive k, or ke below k, is an error.",
  ["inputs", "configurations", "histories"],
  "every target, query, k, ke (from one group up to more than all sub-sequences), distance, threshold and band ratio",
  "Tests look at a few results with small k on fixed data.",
  ["genex/group/GlobalGroupSpace.cpp", "genex/group/LocalLengthGroupSpace.cpp", "genex/group/Group.cpp", "genex/GroupableTimeSeriesSet.cpp"],
  [("heap of groups covering ke members", "genex/group/LocalLengthGroupSpace.cpp:interLevelKSim"), ("heap of members of the last group", "genex/group/Group.cpp:intraGroupKSim"), ("exact distances and final cut", "genex/group/GlobalGroupSpace.cpp:getKBestMatches, genex/GroupableTimeSeriesSet.cpp:getKBestMatches")],
  None, ["getKBestMatches"])

p("C13", "Exhaustive search returns the exact k nearest sub-sequences",
  "The exhaustive search returns min(k, number of sub-sequences of length two or more) distinct sub-sequences of the target in order of distance, each with its exact warped distance to the query, and no sub-sequence left out is closer than a returned one. It needs no grouping, and a non-positive k or an unknown distance is an error.",
  ["inputs", "configurations"],
  "every target (uneven lengths included), query, k, distance (Euclidean, Manhattan, Chebyshev) and band ratio",
  "Tests compare a few results on fixed rectangular data.",
  ["genex/TimeSeriesSet.cpp", "genex/distance/Distance.hpp"],
  [("bounded heap over all sub-sequences with cut-off", "genex/TimeSeriesSet.cpp:getKBestMatchesBruteForce")],
  None, ["getKBestMatchesBruteForce"])

p("C14", "Search on block averages ranks by the averaged sequences",
  "After a dataset is prepared with a block size, the approximate search returns min(k, number of sub-sequences of length two or more) distinct sub-sequences in order of the warped distance between the block averages of the query and the block averages of the sub-sequence, where a sequence is cut into blocks of that size from its own start and the last block may be shorter (a block size above the length of the longest series of the target counts as that length). No sub-sequence left out has a smaller such distance, and the averages are those of the current data and of the latest preparation. Searching an unprepared dataset or preparing with a non-positive block size is an error.",
  ["inputs", "configurations", "histories"],
  "every target (uneven lengths included), query, block size (one up to beyond the series length), k, distance, band ratio, and any order of preparing, normalizing and querying",
  "Tests prepare one dataset once and compare a few averages.",
  ["genex/PAAWrapper.cpp", "genex/GenexAPI.cpp", "genex/TimeSeries.cpp"],
  [("cached averages per offset plus leftover block", "genex/PAAWrapper.cpp:generatePAAMatrix/getPAA"), ("bounded heap over all sub-sequences", "genex/PAAWrapper.cpp:getKBestMatchesPAA")],
  [("paaMat", "block averages per series and offset", "PAAWrapper::paaMat"), ("blockSize", "current block size", "PAAWrapper::blockSize")],
  ["preparePAA", "getKBestMatchesPAA"])

p("C15", "Saved groups load back as the same groups",
  "Loading a group file into a dataset with the same dimensions gives exactly the groups, members, representatives, distance, threshold and group count that were saved, so every query has the same answer distances as before saving, and saving and loading again in any order and number keeps it so. The same holds for the text format. A group file of a dataset with other dimensions is rejected, and so are groups with members that the dataset does not have. A file with group sizes only lists, for every length, the number of groups and their sizes, and is not taken for a file with groups.",
  ["histories", "inputs", "configurations"],
  "every grouped dataset, whole-series or not, both file formats, every chain of save/load/regroup/reload between datasets of equal and unequal dimensions",
  "Tests do one round trip and compare one query.",
  ["genex/IO.hpp", "genex/GroupableTimeSeriesSet.hpp", "genex/GroupableTimeSeriesSet.cpp", "genex/group/GlobalGroupSpace.hpp", "genex/group/GlobalGroupSpace.cpp", "genex/group/LocalLengthGroupSpace.hpp", "genex/group/Group.hpp", "genex/group/Group.cpp"],
  [("binary archive of groups", "genex/group/Group.hpp, LocalLengthGroupSpace.hpp, GlobalGroupSpace.hpp: save/load"), ("text format", "genex/group/Group.cpp:saveGroupOld/loadGroupOld"), ("dimension checks", "genex/GroupableTimeSeriesSet.hpp:load, GroupableTimeSeriesSet.cpp:loadGroupsOld")],
  [("group file", "persistent groups", "file written by saveGroups/saveGroupsOld")],
  ["saveGroups/loadGroups", "saveGroupsOld/loadGroupsOld", "query results"])

p("C16", "Interrupted or failed saves are never mistaken for complete ones",
  "If writing a dataset or group file fails at any byte, the save reports an error instead of success. Loading a group file that was cut off at any byte either reports an error and leaves the current groups as they were, or yields exactly the groups that were saved.",
  ["crash_points", "fault_sequences"],
  "every byte position at which the storage can fail or the writer can be killed, for binary and text group files and dataset files, grouped and ungrouped datasets",
  "Tests never truncate files or let writes fail.",
  ["genex/IO.hpp", "genex/GroupableTimeSeriesSet.cpp", "genex/GroupableTimeSeriesSet.hpp", "genex/TimeSeriesSet.cpp", "genex/group/GlobalGroupSpace.cpp", "genex/group/LocalLengthGroupSpace.cpp", "genex/group/Group.cpp"],
  [("stream state check after closing", "genex/IO.hpp:saveToFile, genex/TimeSeriesSet.cpp:saveData, genex/GroupableTimeSeriesSet.cpp:saveGroupsOld"), ("groups are replaced only after a complete read", "genex/GroupableTimeSeriesSet.hpp:load, genex/GroupableTimeSeriesSet.cpp:loadGroupsOld")],
  [("group file", "persistent groups", "file written by saveGroups/saveGroupsOld")],
  ["exceptions of save/load", "observation of the groups after a failed load"])

p("C17", "A saved dataset loads back unchanged",
  "Saving a dataset, normalized or not, and loading the file with the same separator and matching name-column option gives the same number of series with the same values, lengths and names. Saving does not change the dataset in memory.",
  ["inputs", "configurations", "histories"],
  "every dataset (uneven and empty series, names, values of any magnitude), every separator, before or after normalization, repeated saves and loads",
  "Tests save one small dataset of short decimals.",
  ["genex/TimeSeriesSet.cpp", "genex/GenexAPI.cpp"],
  [("row writer", "genex/TimeSeriesSet.cpp:saveData"), ("loader", "genex/TimeSeriesSet.cpp:loadData")],
  [("dataset file", "persistent values", "file written by saveDataset")],
  ["saveDataset", "loadDataset", "getTimeSeries", "getTimeSeriesName"])

p("C18", "Queries are read-only and independent of history",
  "A query, distance or matching answer depends only on the current values, groups, block averages and band ratio, never on which queries, groupings, datasets or band ratios came before; repeating it gives the same answer. Queries never change values, groups, marks or files, and changing the band ratio takes effect for all later answers at once.",
  ["histories"],
  "every interleaving of queries of all kinds, band ratio changes, normalization and regrouping before the observed query",
  "Tests issue queries on fresh data, once.",
  ["genex/TimeSeries.cpp", "genex/TimeSeries.hpp", "genex/distance/Distance.hpp", "genex/distance/Distance.cpp", "genex/GroupableTimeSeriesSet.cpp", "genex/group/GlobalGroupSpace.cpp", "genex/PAAWrapper.cpp"],
  [("envelope cache keyed by band", "genex/TimeSeries.cpp:getKeoghLower/getKeoghUpper"), ("cache invalidation", "genex/GroupableTimeSeriesSet.cpp:normalize"), ("shared dummy matching left alone", "genex/distance/Distance.hpp:warpedDistance")],
  [("envelope caches", "cached envelopes of representatives and queries", "TimeSeries::keoghLower/keoghUpper"), ("dummy matching", "shared placeholder", "gNoMatching"), ("ratio", "band ratio", "warpingBandRatio")],
  ["all query calls"])

p("C19", "The command line carries out each command and survives bad input",
  "Every line typed into the command line program is carried out with the same outcome as the corresponding library operation and shows its result; a line that is malformed, has the wrong number of arguments, non-numeric text for a number or names something unknown shows an error and has no effect. The timer can be switched and shown, and while it is on, grouping and searches report their time. The session continues after every line until quit, exit or end of input, and then ends normally.",
  ["histories", "inputs"],
  "every sequence of command lines, valid and invalid, including argument counts at and beyond the limits and optional arguments",
  "There are no tests of the command line program.",
  ["cli/GenexCLI.cpp", "cli/Command.hpp"],
  [("command table and argument checks", "cli/GenexCLI.cpp"), ("catch-all around each line", "cli/GenexCLI.cpp:main")],
  None, ["standard output of the program", "exit status"])

p("C20", "A time series value behaves as a value",
  "Copying or assigning a series makes the target equal to the source in values, position and length, whatever the target was before, and a series that holds its own values is not affected by later changes to another. Two series are equal exactly when they have the same length and point-wise equal values, regardless of where they come from; matches are equal when their series and distances are, and are ordered by distance and then by place. Point-wise addition changes exactly the target's points, the average is the mean of exactly its points, its printed form lists its values to sixteen digits, and access outside its range is an error. The envelope of a series that was just created, copied, assigned or added to is that of its new values, whatever was asked before.",
  ["histories", "inputs"],
  "every sequence of creations, views, copies, assignments, additions and comparisons over series of different lengths and origins",
  "Tests copy and compare two or three fixed series.",
  ["genex/TimeSeries.cpp", "genex/TimeSeries.hpp"],
  [("owner/view distinction", "genex/TimeSeries.cpp constructors and assignments"), ("comparison", "genex/TimeSeries.cpp:operator==")],
  [("data", "shared or owned values", "TimeSeries::data/isOwnerOfData")],
  ["operator[]", "operator==", "operator+=", "average", "getLength/getIndex/getStart/getEnd"])

p("C21", "The Python module carries out each call like the library",
  "Every function of the Python module, called with positional, keyword or default arguments, carries out the library operation it stands for with those arguments and returns its result under the documented names: index, start, end and distance of matches in order, values of a series, name, count and length of a loaded dataset, minimum and maximum before normalization, pairs of a matching. A call that the library refuses raises a Python exception, has no effect, and the module stays usable.",
  ["histories", "inputs"],
  "every sequence of module calls, valid and invalid, with every way of passing the optional arguments",
  "There are no tests of the Python module; a swapped or forgotten argument is invisible to the tests of the library.",
  ["pygenex/GENEXBindings.cpp", "genex/GenexAPI.cpp"],
  [("argument order and defaults", "pygenex/GENEXBindings.cpp:BOOST_PYTHON_MODULE"), ("conversion of results", "pygenex/GENEXBindings.cpp:candidateTimeSeriesToPythonDict, timeSeriesToPythonList")],
  None, ["results and exceptions of module calls", "state of the module's library object"])

p("C22", "Damaged group files and extreme arguments are harmless",
  "Loading a group file in which bytes, numbers or lines were changed, added, removed or exchanged is either refused, leaving the dataset and its groups as they were, or gives usable groups: for a binary file exactly the groups that were saved, for a text file groups that form a partition of the sub-sequences of the dataset, each represented by a member. Searches, preparations, reads and loads with the largest and smallest possible counts, positions, block sizes and row limits follow the same rules as with ordinary ones, a negative band ratio or one that is no number is refused without effect, and a ratio above one counts as one. Nothing of this ends the program or touches memory outside its data.",
  ["inputs", "fault_sequences"],
  "every change of every byte, word and line of a group file of either format, loaded over other groups or none and searched afterwards; every integer and floating point value as argument",
  "Tests use intact files and ordinary arguments only.",
  ["genex/IO.hpp", "genex/GroupableTimeSeriesSet.cpp", "genex/GroupableTimeSeriesSet.hpp", "genex/group/GlobalGroupSpace.cpp", "genex/group/LocalLengthGroupSpace.cpp", "genex/group/Group.cpp", "genex/group/Group.hpp", "genex/distance/Distance.cpp", "genex/PAAWrapper.cpp", "genex/TimeSeriesSet.cpp"],
  [("checksum before use", "genex/IO.hpp:loadFromFile"), ("validation of members and lengths", "genex/group/Group.cpp:loadGroupOld, genex/group/GlobalGroupSpace.cpp:loadGroupsOld"), ("range of the ratio", "genex/distance/Distance.cpp:setWarpingBandRatio")],
  [("group file", "persistent groups", "file written by saveGroups/saveGroupsOld"), ("ratio", "band ratio", "warpingBandRatio")],
  ["exceptions", "observation of groups and data after each call", "results of searches"])

p("C23", "The bundled search of a recording finds its nearest window",
  "The search of a recording for a query of m values under a band of r points (lib/trillionDTW) names a window whose warped distance to the query, both brought to mean 0 and deviation 1, is the smallest of all windows, reports that distance and the number of values read, however long the recording is and wherever the window lies in the chunks that are read; a missing file is reported instead. Its warped distance is exact below the cut-off and not below the cut-off otherwise, with or without a bound of the remaining points, and none of its lower bounds - from the ends, from the envelope of the query, from the envelope of the data - exceeds the distance, for queries of any length.",
  ["inputs", "configurations"],
  "every recording and query (without constant windows), every m and band r < m, windows at the borders of the chunks of 100000 values; every pair of sequences, cut-off, position in the circular buffer, mean and deviation for the parts",
  "No test calls the search; its bounds only fail for particular short or warped pairs, and its chunks only beyond 100000 values.",
  ["genex/lib/trillionDTW.cpp", "genex/lib/trillionDTW.h", "genex/lib/util.cpp", "genex/lib/deque.cpp"],
  [("cascade of lower bounds", "genex/lib/trillionDTW.cpp:calculate"), ("early stopping", "genex/lib/trillionDTW.cpp:dtw"), ("bounds", "genex/lib/trillionDTW.cpp:lb_kim_hierarchy, lb_keogh_cumulative, lb_keogh_data_cumulative")],
  [("best so far", "distance and place of the nearest window", "calculate: bsf, loc"), ("circular buffer", "the window read last", "calculate: t")],
  ["printed location, distance and count", "results of the exported functions"])

p("C24", "What is finished leaves nothing behind",
  "Repeating a history of calls that ends without loaded datasets does not make the program hold more memory, open files or threads with every repetition: what loading, normalizing, grouping (with one thread or several), averaging, saving, restoring, distances, searches and failing calls of any kind take is given back at the latest when the datasets are unloaded, one by one or all at once. The same goes for repeated runs of the bundled search.",
  ["sequences"],
  "every history over datasets and group files, successful and failing calls mixed, repeated any number of times; every distance, also those that keep several totals for each pair of points",
  "Tests end before anything that is lost would be missed, and never look at memory.",
  ["genex/GenexAPI.cpp", "genex/TimeSeriesSet.cpp", "genex/TimeSeries.cpp", "genex/GroupableTimeSeriesSet.cpp", "genex/group/GlobalGroupSpace.cpp", "genex/group/LocalLengthGroupSpace.cpp", "genex/distance/Distance.hpp", "genex/distance/Cosine.hpp", "genex/distance/Sorensen.hpp", "genex/lib/trillionDTW.cpp"],
  [("unloading", "genex/GenexAPI.cpp:unloadDataset, unloadAllDataset"), ("owned values and envelopes", "genex/TimeSeries.cpp:~TimeSeries, operator=, generateKeoghLU"), ("groups replaced or given up", "genex/GroupableTimeSeriesSet.cpp:groupAllLengths, reset"), ("totals of distances", "genex/distance/Distance.hpp:warpedDistance, pairwiseDistance")],
  [("held memory", "bytes allocated and not freed", "after each repetition"), ("open files and threads", "entries of the process", "after each repetition")],
  ["bytes allocated as counted by the sanitizer", "entries of /proc/self/fd and /proc/self/task"])


here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
