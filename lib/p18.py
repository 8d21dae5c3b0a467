"""C18: queries are read-only and do not depend on history."""
from . import gen
from . import walks
from .world import World


def run(check):
    out = []
    for i in range(check.pick(250, 2500)):
        r = gen.rng("C18", i)
        w = World(r)
        for _ in range(2):
            w.load()
        w.step([("group", 1)])
        w.s.obs()
        for _ in range(r.randint(8, 14)):
            w.step([("query", 9), ("ratio", 4), ("group", 1), ("prep", 1), ("norm", 0.7), ("load", 0.4), ("unload", 0.3),
                    ("save", 0.3), ("restore", 0.5), ("rewrite", 0.3)])
            if r.random() < 0.3:                       # ask again
                w.s.cmds.append(w.s.cmds[-1])
            if r.random() < 0.3:                       # ask under another ratio and back
                for c, e in reversed(w.s.cmds):
                    if e and e["op"] in ("best", "kbest", "brute", "paa", "dist"):
                        a, b = r.sample(gen.RATIOS, 2)
                        for ra in (a, b, a):
                            w.s.ratio(*ra)
                            if all(e.get(k) is None or e[k] in w.ds for k in ("t", "q", "n1", "n2")):
                                w.s.cmds.append((c, e))
                        break
            if r.random() < 0.15:                      # ask, normalize or group anew, and ask again
                for c, e in reversed(w.s.cmds):
                    if e and e["op"] in ("best", "kbest", "brute", "paa") and e["t"] in w.ds and e["q"] in w.ds:
                        w.s.cmds.append((c, e))
                        if r.random() < 0.7:
                            w.s.norm(e["t"])
                        else:
                            w.group()
                        w.s.cmds.append((c, e))
                        break
            if r.random() < 0.4:
                w.s.obs()
        w.s.obs()
        out.append(w.s)
    check.validate(out)
    # the queries, in every state of the model
    check.validate(walks.sessions(check, lambda op: op[3] and op[0] in walks.QUERIES, check.pick(6000, 1 << 30)))
