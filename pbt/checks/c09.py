import math

from engine import Part
from mahjong.record.category import MixedCategory, SubCategory

RULE = ("random numbering schemes (mixed-radix blocks of 1-5 digits, possibly unbounded, plain or named; sequences of "
        "1-5 blocks, nested up to 3 levels, possibly named; up to three schemes side by side, sharing blocks and captions) with in-range indices including every boundary; judged "
        "against digit-by-digit mixed-radix arithmetic. Non-trivial: an index in or next to a block boundary of a "
        "scheme with blocks of different lengths or shapes, or a multi-digit index.")
ASSUMPTIONS = ["Named nested mixtures are outside the domain (the numbering flattens one level of names only)."]


def size_of(spec):
    if spec[0] == "sub":
        if spec[1][0] == -1:
            return math.inf
        n = 1
        for x in spec[1]:
            n *= x
        return n
    return sum(size_of(s) for s in spec[1])


def decode(spec, i):
    if spec[0] == "sub":
        out = []
        for x in reversed(spec[1]):
            if x == -1:
                out.append(i)
            else:
                out.append(i % x)
                i //= x
        return tuple(reversed(out))
    for k, s in enumerate(spec[1]):
        n = size_of(s)
        if i < n:
            return (k,) + decode(s, i)
        i -= n
    raise AssertionError


def names_of(spec, i):
    if spec[0] == "sub":
        return list(spec[2]) if spec[2] else None
    for k, s in enumerate(spec[1]):
        n = size_of(s)
        if i < n:
            return [spec[2]] + list(s[2]) if spec[2] else None
        i -= n


def make(d, spec, made):
    """Equal blocks of different schemes may be one object; captions may repeat."""
    if spec in made and d.chance(1, 2):
        return made[spec]
    if spec[0] == "sub":
        if spec[2]:
            names = list(spec[2])
            out = SubCategory(*spec[1], caption=d.choice(["a", "b", "c%d" % len(made)]), names=names)
            names.append("zz")            # the caller's own list
        else:
            out = SubCategory(*spec[1])
    else:
        members = [make(d, s, made) for s in spec[1]]
        if spec[2]:
            out = MixedCategory(members, caption=d.choice(["a", "b", "m%d" % len(made)]), field_name=spec[2])
        else:
            out = MixedCategory(iter(members) if len(members) % 2 else members)
        members.append(SubCategory(3))    # the caller's own list
        members.reverse()
    made[spec] = out
    return out


def sub_spec(d, unbounded, named):
    digits = d.weighted([(3, 2), (2, 1), (3, 3), (1, 4), (1, 5)])
    totals = [d.weighted([(3, d.between(1, 9)), (1, 1), (1, 36)]) for _ in range(digits)]
    if unbounded:
        totals[0] = -1
    return ("sub", tuple(totals), tuple(d.choice("fghk") + str(k) for k in range(digits)) if named else None)


def spec_of(d, depth, unbounded, named):
    if depth == 0 or d.chance(1, 3):
        return sub_spec(d, unbounded, named)
    n = d.between(1, 5)
    if named:
        return ("mix", tuple(sub_spec(d, unbounded and k == n - 1, True) for k in range(n)), d.choice(["kind", "sort"]))
    return ("mix", tuple(spec_of(d, depth - 1, unbounded and k == n - 1, False) for k in range(n)), None)


def boundaries(spec):
    if spec[0] == "sub":
        n, out = 1, [0]
        for x in reversed(spec[1]):
            if x == -1:
                out += [n, n * 7]
                break
            n *= x
            out += [n - 1, n]
        return out
    out, base = [], 0
    for s in spec[1]:
        out += [base + b for b in boundaries(s)]
        n = size_of(s)
        if n == math.inf:
            break
        base += n
        out += [base - 1, base]
    return out


def numbering(d):
    made, built = {}, []
    for _ in range(d.weighted([(2, 1), (2, 2), (1, 3)])):
        named = d.chance(1, 2)
        unbounded = d.chance(1, 4)
        spec = spec_of(d, d.weighted([(2, 1), (2, 0), (2, 2), (1, 3)]), unbounded, named)
        if built and d.chance(1, 4):
            spec = d.choice(built)[1]
        d.note(specs=[b[1] for b in built] + [spec])
        with d.sut("build"):
            built.append((make(d, spec, made), spec))
        d.label(("unbounded " if size_of(spec) == math.inf else "") + ("named" if spec[2] else "plain"))
    for cat, spec in d.shuffled(built):
        judge(d, cat, spec)
    d.sample = {"schemes": [repr(b[1]) for b in built]}


def judge(d, cat, spec):
    with d.sut("length"):
        n = cat.__len__()
    total = size_of(spec)
    d.equal("len", n, total)
    if total != math.inf:
        with d.sut("len"):
            n = len(cat)
        d.equal("len", n, total)
    limit = total if total != math.inf else 100000
    edges = sorted({b for b in boundaries(spec) if 0 <= b < limit})
    points = sorted({0, limit - 1} | {d.below(limit) for _ in range(4)} | {d.choice(edges) for _ in range(5)})
    seen, deep = {}, False
    for i in points:
        with d.sut("category"):
            t = cat.category(i)
        want = decode(spec, i)
        d.equal("category", tuple(t), want, "of %d" % i)
        d.check(tuple(t) not in seen, "same-category", "%d and %d", i, seen.get(tuple(t)))
        seen[tuple(t)] = i
        names = names_of(spec, i)
        if names:
            with d.sut("fields"):
                got = [(f, getattr(t, f)) for f in t._fields]
            d.equal("fields", got, list(zip(names, want)))
        with d.sut("index"):
            back = cat.index(t)
            back2 = cat.index(tuple(want))
            back3 = cat.index(list(want)) if d.chance(1, 4) else back
        d.equal("round-trip", (back, back2, back3), (i, i, i), "category %r" % (want,))
        deep = deep or len(want) > 1 and any(want)
    if deep:
        d.nontrivial((spec, tuple(points)))


PARTS = [Part("numbering", numbering, 24000, 200000)]
