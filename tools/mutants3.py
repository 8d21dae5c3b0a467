"""Small changes made mechanically, line by line, for tools/campaign.py (VERIF_MUTSTEP=n keeps every n-th)."""
import glob, os, re, subprocess
REPO = "/repo"
CHECKS = [  # which checks are tried, in this order, until one notices
    ("genex/GenexAPI.cpp", "C03 C02 C18 C14 C04 C12 C11 C13 C06 C08 C15 C17 C22"),
    ("genex/GenexAPI.hpp", "C03 C02 C18 C14 C13"),
    ("genex/GroupableTimeSeriesSet", "C15 C16 C08 C03 C12 C11 C02 C10 C22"),
    ("genex/PAAWrapper", "C14 C02 C03 C22"),
    ("genex/TimeSeries.", "C20 C07 C05 C06 C13 C12 C18"),
    ("genex/TimeSeriesSet", "C01 C04 C17 C13 C02 C03 C16 C18 C22"),
    ("genex/IO.hpp", "C16 C15 C02"),
    ("genex/distance", "C05 C06 C07 C09 C11 C12 C18 C22"),
    ("genex/group/GlobalGroupSpace", "C08 C11 C12 C15 C16 C10 C09 C02 C03 C22"),
    ("genex/group/LocalLengthGroupSpace", "C08 C09 C11 C12 C15 C16 C02 C22"),
    ("genex/group/Group", "C08 C09 C11 C12 C15 C16 C02 C22"),
    ("genex/lib/ThreadPool", "C10"),
    ("genex/lib/trillionDTW", "C05 C06 C07"),
    ("genex/lib", "C05 C07"),
    ("cli", "C19"),
]
SUBS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "),
    (r" && ", " || "), (r" \|\| ", " && "), (r"\(!", "("), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"(?<![\w)]) ?-1\b", " 0"),
    (r" \+= ", " -= "), (r" -= ", " += "), (r"\+\+", "--"), (r"--", "++"), (r"\bINF\b", "0"), (r"\bbegin\(\)", "end()"),
    (r"\bstart\b", "end"), (r"\bsecond\b", "first"), (r"\bfirst\b", "second"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"),
]
SKIP = re.compile(r'^\s*(#|//|\*|/\*|using|template|namespace|throw |cout|")|std::function|static_assert|doLog|LOG_|elapsed|printProg|EXPERIMENT|extraTimeSeries')


def changed_lines(f):
    """lines of the original repository only are of interest, but all are tried"""
    return open(os.path.join(REPO, f)).read().split("\n")


def generate():
    out = []
    files = []
    for pat in ("genex/*.cpp", "genex/*.hpp", "genex/*/*.cpp", "genex/*/*.hpp", "cli/*.cpp"):
        files += sorted(glob.glob(os.path.join(REPO, pat)))
    for p in files:
        f = os.path.relpath(p, REPO)
        checks = next((c for k, c in CHECKS if f.startswith(k)), "")
        if not checks:
            continue
        comment = False
        for n, line in enumerate(changed_lines(f)):
            if "/*" in line:
                comment = "*/" not in line
                continue
            if comment:
                comment = "*/" not in line
                continue
            code = line.split("//")[0]
            if f.endswith("trillionDTW.cpp") and n > 69:     # not used by the library
                break
            if SKIP.search(code) or not code.strip() or "cout <<" in code:
                continue
            seen = set()
            variants = []
            for a, b in SUBS:
                for m in list(re.finditer(a, code))[:2]:
                    new = code[:m.start()] + b + code[m.end():]
                    if code[:m.start()].count('"') % 2 == 0:
                        variants.append(new)
            if re.match(r"^\s+[\w\->\.\[\]\(\) \*:]+(=|\+=|\(|\+\+|--)[^=].*;\s*$", code) and not re.match(
                    r"^\s*(return|auto|int|bool|data_t|double|float|string|vector|std::\w+<|const|TimeSeries |size_t|long|static)", code):
                variants.append(re.match(r"^\s*", code).group(0) + ";")
            for k, v in enumerate(variants):
                if v not in seen and v.strip() != code.strip():
                    seen.add(v)
                    out.append(dict(id="e-%s-%d-%d" % (os.path.basename(f), n + 1, k), prop=checks.split()[0], checks=checks,
                                    line=(f, n, line, v)))
    return out


M = generate()
step = int(os.environ.get("VERIF_MUTSTEP", "1"))
M = M[int(os.environ.get("VERIF_MUTFROM", "0"))::step]
if __name__ == "__main__":
    import collections
    print(len(M), collections.Counter(m["line"][0] for m in M))
