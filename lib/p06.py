"""C06: matchings."""
from . import gen
from .p05 import huge, pairs, random_pairs


def run(check):
    out = pairs("match", plain=False) + huge("C06", "match", check.pick(4, 40))
    out += random_pairs("C06q", "match", check.pick(60, 600), ["cosine", "sorensen"], (True, True, False), lo=1)
    out += random_pairs("C06", "match", check.pick(350, 4000), gen.ORDERED, (True, True, True, False))
    out += random_pairs("C06long", "match", check.pick(60, 600), gen.ORDERED, (True,), maxl=64, minl=30)
    check.model("MCDist", consts=dict(Dom="{0, 1, 3}", N=check.pick(3, 4)), invariants="Programming Matching")
    check.validate(out)
