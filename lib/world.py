"""Random sessions over several datasets, used by the lifecycle checks.

Values lie on the grid 1/144 also after normalization and averaging: tables
have at most five different values, 1 or 1/4 apart, and block sizes are at
most 4.  Normalizing widens some tables and moves others, so that anything
kept from before shows.
"""
from . import gen
from .core import Session

G = 144
THR = [0, 1, 2, 4, 8, 16, 32]


class World:
    def __init__(self, r, names=("a", "b", "c"), ntables=3, maxl=6, nrows=3, dists=None, s=None, files="tg"):
        self.r, self.names = r, names
        self.s = s or Session(G)
        self.files = files             # first letters of the files with tables and groups
        self.tables, self.dims = {}, {}
        self.dists = dists or gen.ORDERED
        self.maxl, self.nrows, self.version = maxl, nrows, 0
        for i in range(ntables):
            self.write(files[0] + str(i))
        self.ds = {}
        self.gfiles = {}

    def write(self, p, dims=None):
        """a table of its own at p; dims: rows and length of the longest one"""
        r = self.r
        hi = r.choice([1, 2, 3, 4])
        n, m = dims or (r.randint(1, self.nrows), r.randint(2, self.maxl))
        rows = gen.table(r, n, m, 0, hi)
        j = r.randrange(n)
        rows[j] = ([0, hi] + rows[j])[:m if dims else self.maxl]
        base, unit = r.choice([(0, 1), (0, 1), (2, 1), (3, 1), (0, 0.25), (1, 0.25)])
        rows = [[base + unit * v for v in x] for x in rows]
        named = r.random() < 0.3
        self.version += 1
        v = "%s.%d" % (p, self.version)
        self.tables[p] = (rows, named, v)
        self.dims[v] = (n, gen.maxlen(rows))
        self.s.table(p, rows, names=["s%s%d" % (p[1:], k) for k in range(n)] if named else None)

    def rewrite(self):
        """another table under the same path, often of the same dimensions"""
        p = self.r.choice(sorted(self.tables))
        rows = self.tables[p][0]
        self.write(p, (len(rows), gen.maxlen(rows)) if self.r.random() < 0.6 else None)
        return True

    def empties(self):
        """datasets without values"""
        r, s = self.r, self.s
        s.file("empty", r.choice(["", "\n", "\n\n"])).load("e", "empty").obs().norm("e").obs()
        if r.random() < 0.5:
            s.group("e", 8, r.choice(gen.ORDERED)).obs()
        s.unload("e")
        return True

    def pick_ds(self, pred=lambda d: True):
        c = [n for n in sorted(self.ds) if pred(self.ds[n])]
        return self.r.choice(c) if c else None

    # -- operations that succeed
    def load(self, n=None):
        free = [x for x in self.names if x not in self.ds]
        if not free:
            return False
        n = n or self.r.choice(free)
        p = self.r.choice(sorted(self.tables))
        self.load_from(n, p)
        return True

    def load_from(self, n, p):
        rows, named, version = self.tables[p]
        self.s.load(n, p, ",", 0, 0, named)
        self.ds[n] = dict(rows=rows, grp=None, paa=0, table=version, norm=False)
        return True

    def unload(self):
        n = self.pick_ds()
        if not n:
            return False
        self.s.unload(n)
        del self.ds[n]
        return True

    def unloadall(self):
        self.s.unloadall()
        self.ds = {}
        return True

    def norm(self):
        n = self.pick_ds()
        if not n:
            return False
        self.s.norm(n)
        self.ds[n]["norm"] = True
        return True

    def group(self):
        n = self.pick_ds()
        if not n:
            return False
        d = self.r.choice(self.dists)
        self.s.group(n, self.r.choice(THR), d, self.r.choice([1, 1, 1, 2]), self.r.random() < 0.15,
                     off=self.r.choice([0, 0, 3]))
        self.ds[n]["grp"] = d
        return True

    def prep(self):
        n = self.pick_ds()
        if not n:
            return False
        bs = self.r.choice([1, 2, 3, 4])
        self.s.prep(n, bs)
        self.ds[n]["paa"] = bs
        return True

    def save(self):
        n = self.pick_ds(lambda d: d["grp"])
        if not n:
            return False
        k = self.r.choice(["saveg", "saveo"])
        p = self.files[1] + str(self.r.randint(0, 2))
        if self.r.random() < 0.3:
            self.s.sizes_only(n, "sizes")
        self.s.save(k, n, p)
        self.gfiles[p] = (k, self.ds[n]["table"], self.ds[n]["grp"])
        return True

    def restore(self):
        c = []
        for p, (k, t, g) in sorted(self.gfiles.items()):
            c += [(p, k, g, n) for n in sorted(self.ds) if self.ds[n]["table"] == t]
        if not c:
            return False
        p, k, g, n = self.r.choice(c)
        self.restore_from(n, p, k)
        return True

    def restore_from(self, n, p, k):
        (self.s.loadg if k == "saveg" else self.s.loado)(n, p)
        self.ds[n]["grp"] = self.gfiles[p][2]

    def ratio(self):
        self.s.ratio(*self.r.choice(gen.RATIOS))
        return True

    def sub(self, n, minlen=1):
        return gen.sub(self.r, self.ds[n]["rows"], minlen)

    def query(self, kinds=("best", "kbest", "brute", "paa", "dist", "match", "ts")):
        r, k = self.r, self.r.choice(kinds)
        q = self.pick_ds()
        if not q:
            return False
        x = self.sub(q)
        if k in ("best", "kbest"):
            t = self.pick_ds(lambda d: d["grp"])
            if not t:
                return False
            if k == "best":
                self.s.best(t, q, *x)
            else:
                kk = r.choice([1, 2, 4])
                self.s.kbest(kk, kk + r.choice([0, 1, 5]), t, q, *x)
        elif k == "brute":
            t = self.pick_ds()
            self.s.brute(r.choice([1, 2, 5]), t, q, *x, dist=r.choice(gen.ORDERED))
        elif k == "paa":
            t = self.pick_ds()
            self.s.paa(r.choice([1, 3]), t, q, *x, dist=r.choice(gen.ORDERED))
        elif k in ("dist", "match"):
            t = self.pick_ds()
            y = self.sub(t)
            self.s.pair(k, (t,) + y, (q,) + x, r.choice(gen.ORDERED), True)
        else:
            self.s.ts(q, *x)
        return True

    # -- operations that fail
    EVERY = ["load missing", "load bad", "load col", "unload", "norm", "group name", "save name", "load g", "prep name", "q name",
             "dist name", "ts name", "saved name", "load used", "group dist", "group threads", "group dtw", "prep size",
             "load g missing", "load g junk", "load g kind", "load g other", "q sub", "q k", "ts sub", "save dir", "saved dir",
             "dist sub", "dist nodist", "match plain", "load empty", "save ungrouped", "load g cut", "load g made up"]

    def fail(self, n=None, again=None):
        """again: kinds of failures to choose from"""
        r, s = self.r, self.s
        n = n or self.pick_ds()
        used = n or "zz"
        kinds = ["load missing", "load bad", "load col", "unload", "norm", "group name", "save name", "load g",
                 "prep name", "q name", "dist name", "ts name", "saved name"]
        if n:
            kinds += ["load used", "group dist", "group threads", "group dtw", "prep size", "load g missing", "load g junk",
                      "load g kind", "load g other", "q sub", "q k", "ts sub", "save dir", "saved dir", "dist sub",
                      "dist nodist", "match plain", "load empty"] * 2
            kinds += ["save ungrouped", "load g cut", "load g made up"] * 4
            kinds += ["group threads", "group dist", "load g junk", "load g kind", "load g other"]
        k = r.choice(again or kinds)
        if k == "load missing":
            s.load(self.free(), "nofile")
        elif k == "load bad":
            s.file("bad", "1,2,3\n4,x,6\n").load(self.free(), "bad")
        elif k == "load col":
            s.load(self.free(), "t0", ",", 0, -1)
        elif k == "load used":
            s.load(used, self.files[0] + str(r.randrange(len(self.tables))), ",", 1)
        elif k == "load empty":
            self.empties()
        elif k == "unload":
            s.unload("zz")
        elif k == "norm":
            s.norm("zz")
        elif k == "group name":
            s.group("zz", 8)
        elif k == "group dist":
            s.group(used, 8, r.choice(["nodist", "", "euclid", "Euclidean"]), r.choice([1, 2]))
        elif k == "group threads":
            s.group(used, 8, r.choice(self.dists), r.choice([0, -1, -5]))
        elif k == "group dtw":
            s.group(used, 8, "euclidean_dtw", r.choice([1, 2]))
        elif k == "save ungrouped":
            m = self.pick_ds(lambda d: not d["grp"])
            if not m:
                return False
            r.choice([s.saveg, s.saveo, s.sizes_only])(m, r.choice(sorted(self.gfiles) + ["t0"]))
        elif k == "load g cut":
            c = [(p, kk, m) for p, (kk, t, g) in sorted(self.gfiles.items()) for m in sorted(self.ds) if self.ds[m]["table"] == t]
            if not c:
                return False
            p, kk, m = r.choice(c)
            s.cut(p, "cut", r.choice([r.randint(0, 40), r.randint(20, 400)]))
            (s.loadg if kk == "saveg" else s.loado)(m, "cut")
        elif k == "load g made up":
            rows = self.ds[used]["rows"]
            ml = gen.maxlen(rows)
            head = "1 %s %d %d\n2 %d\n" % (r.choice(["0.5", "0"]), len(rows), ml, ml + 1)
            s.file("made", head + r.choice(["nodist\n", "euclidean\n1\n0 0 \n1 99 0 \n", "manhattan\n1\n0 0 \n1 0 %d \n" % ml,
                                            "chebyshev\n2\n0 0 \n1 0 0 \n", "euclidean\n1\n0 x \n1 0 0 \n",
                                            "euclidean\n1\n0 0 \n1 0 -1 \n", ""]), kind="junk")
            s.loado(used, "made")
        elif k == "save name":
            p = r.choice(sorted(self.gfiles) or ["t0"])
            r.choice([s.saveg, s.saveo, s.sizes_only])("zz", p)
        elif k == "save dir":
            r.choice([s.saveg, s.saveo])(used, "nodir/x", dir=False)
        elif k == "saved name":
            s.saved("zz", r.choice(sorted(self.gfiles) or ["t0"]))
        elif k == "saved dir":
            s.saved(used, "nodir/x", dir=False)
        elif k == "load g":
            r.choice([s.loadg, s.loado])("zz", r.choice(sorted(self.gfiles) or ["t0"]))
        elif k == "load g missing":
            r.choice([s.loadg, s.loado])(used, "nofile")
        elif k == "load g junk":
            s.file("junk", r.choice(["", "hello\n", "1 2 3\n4 5 6\n", "\x78\x9c\x01\x02"]), kind="junk")
            r.choice([s.loadg, s.loado])(used, r.choice(["junk", "t0"]))
        elif k == "load g kind":
            p = self.r.choice(sorted(self.gfiles) or ["t0"])
            kind = self.gfiles.get(p, ("saveg",))[0]
            (s.loado if kind == "saveg" else s.loadg)(used, p)
        elif k == "load g other":
            c = [(p, kk, m) for p, (kk, t, g) in sorted(self.gfiles.items()) for m in sorted(self.ds)
                 if self.differs(self.dims.get(t), self.ds[m]["rows"])]
            if not c:
                return False
            p, kk, m = r.choice(c)
            (s.loadg if kk == "saveg" else s.loado)(m, p)
        elif k == "prep name":
            s.prep("zz", 2)
        elif k == "prep size":
            s.prep(used, r.choice([0, -1]))
        elif k == "q name":
            r.choice([lambda: s.best("zz", used, 0), lambda: s.best(used, "zz", 0), lambda: s.kbest(1, 1, "zz", used, 0),
                      lambda: s.brute(1, used, "zz", 0), lambda: s.paa(1, "zz", used, 0)])()
        elif k == "q sub":
            bad = r.choice([(-1, -1, -1), (99, -1, -1), (0, 1, 1), (0, 0, 99), (0, 3, 2), (0, -1, 2), (0, 1, -1)])
            r.choice([lambda: s.best(used, used, *bad), lambda: s.kbest(1, 1, used, used, *bad),
                      lambda: s.brute(1, used, used, *bad), lambda: s.paa(1, used, used, *bad)])()
        elif k == "q k":
            kk = r.choice([0, -1])
            r.choice([lambda: s.kbest(kk, 5, used, used, 0), lambda: s.kbest(3, 2, used, used, 0),
                      lambda: s.brute(kk, used, used, 0), lambda: s.paa(kk, used, used, 0),
                      lambda: s.brute(1, used, used, 0, dist="nodist")])()
        elif k == "ts name":
            s.ts("zz", 0).tsname("zz", 0).tslen("zz", 0)
        elif k == "ts sub":
            s.ts(used, *r.choice([(-1, -1, -1), (99, 0, 1), (0, 2, 1), (0, 0, 99)])).tsname(used, 99).tslen(used, -1)
        elif k == "dist name":
            s.pair(r.choice(["dist", "match"]), (used, 0, -1, -1), ("zz", 0, -1, -1), "euclidean", True)
        elif k == "dist sub":
            s.pair(r.choice(["dist", "match"]), (used, 0, -1, -1), (used, 0, 5, 3), "euclidean", True)
        elif k == "dist nodist":
            s.pair(r.choice(["dist", "match"]), (used, 0, -1, -1), (used, 0, -1, -1), "nodist", True)
        elif k == "match plain":
            s.pair("match", (used, 0, -1, -1), (used, 0, -1, -1), "euclidean", False)
        return True

    def free(self):
        c = [x for x in self.names if x not in self.ds]
        return self.r.choice(c) if c else "new"

    def differs(self, a, b):
        return a != (len(b), gen.maxlen(b))

    def probe(self):
        """asks something that depends on what is kept besides the data"""
        for k in ("paa", "kbest", "best"):
            t = self.pick_ds(lambda d: d["paa"] if k == "paa" else d["grp"])
            if t:
                q = self.pick_ds()
                x = self.sub(q)
                if k == "paa":
                    self.s.paa(self.r.choice([1, 3]), t, q, *x, dist=self.r.choice(gen.ORDERED))
                elif k == "best":
                    self.s.best(t, q, *x)
                else:
                    self.s.kbest(2, 4, t, q, *x)

    def step(self, weights):
        """one random operation; weights: list of (method, weight)"""
        for _ in range(20):
            m = self.r.choices([w[0] for w in weights], [w[1] for w in weights])[0]
            if getattr(self, m)():
                return m
        return None
