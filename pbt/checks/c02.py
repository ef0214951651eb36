from collections import Counter

from engine import Part
import ref
import sut
from mahjong.container.set import TileSet
from mahjong.tile.definition import Tile, AkaTile, tile_pair, tile_triplet, tile_flush

RULE = ("sets: random sequences (<=20 steps) of set operations over a growing pool of multisets, each operation judged "
        "against 34 plain counters and every operand re-checked afterwards; tiles: random pairs/triples of tiles "
        "(plain and red) judged against (suit, number). Non-trivial: an operation whose two operands overlap and "
        "differ / a pair of tiles with the same suit.")
ASSUMPTIONS = ["Set comparison is judged on sets in display order (as printing and parsing leave them).",
               "Counts stay between 0 and 4 per kind (9 in every fourth case); subtraction below zero is judged as saturating."]


def mk(types, reds):
    return TileSet(AkaTile(0, "mps"[t // 9]) if t in reds else Tile(t % 9 + 1, "mpsz"[t // 9]) for t in types)


def some_types(d, most=4):
    span = d.choice([list(range(34)), list(range(9)), [0, 1, 2], [3, 4, 5, 12, 13, 14], list(range(24, 34))])
    n = d.size(0, 10 if most == 4 or d.chance(1, 2) else 40)
    out = []
    for _ in range(n):
        t = d.choice(span)
        if out.count(t) < most:
            out.append(t)
    return out


def key(c):
    return [(t, c[t]) for t in range(34) if c[t]]


def sets(d):
    pool = []
    most = 9 if d.chance(1, 4) else 4      # walls and sums hold more than a hand may

    def add(ts, counts, what):
        d.equal("result:" + what, sut.counts_in(ts), counts)
        d.check(all(v > 0 for v in ts.values()), "nonpositive:" + what, "%r", dict(ts))
        pool.append((ts, counts))

    log = []
    d.notes["ops"] = log
    for step in range(d.size(2, 20)):
        ops = ["make", "make"] if len(pool) < 2 else [
            "make", "near", "add", "sub", "and", "or", "contains", "exclude", "copy", "len", "tiles", "str", "cmp", "iadd", "isub",
            "iand", "ior", "sorted", "change"]
        op = d.choice(ops)
        if op == "make":
            types = some_types(d, most)
            reds = {t for t in (4, 13, 22) if d.chance(1, 4)}
            log.append(("make", types, sorted(reds)))
            with d.sut("make"):
                ts = mk(types, reds)
            add(ts, ref.counts_of(types), "make")
            continue
        i, j = d.below(len(pool)), d.below(len(pool))
        if d.chance(1, 3):
            j = max(0, min(len(pool) - 1, i + 1 - 2 * d.below(2)))
        (a, ca), (b, cb) = pool[i], pool[j]
        log.append((op, i, j))
        if any(x and y for x, y in zip(ca, cb)) and ca != cb:
            d.nontrivial((op, tuple(key(ca)), tuple(key(cb))))
            d.sample = {"op": op, "a": ref.hand_string(ca), "b": ref.hand_string(cb)}
        if op == "near" or op in ("contains", "exclude") and d.chance(1, 2):
            # a set that differs from another one in the number of one tile only
            t = d.below(34) if d.chance(1, 4) or not any(ca) else d.choice([x for x in range(34) if ca[x]])
            near = list(ca)
            near[t] = d.between(max(0, ca[t] - 2), min(most, ca[t] + 2))
            with d.sut(op):
                ts = mk(d.shuffled([x for x in range(34) for _ in range(near[x])]), ())
            add(ts, near, "near")
            b, cb = pool[-1]
        if op == "near":
            pass
        elif op in ("add", "sub", "and", "or"):
            with d.sut(op):
                if d.chance(1, 8):
                    b = Counter(dict(b.items()))     # any counter of tiles will do
                r = {"add": lambda: a + b, "sub": lambda: a - b, "and": lambda: a & b, "or": lambda: a | b}[op]()
            f = {"add": lambda x, y: x + y, "sub": lambda x, y: max(0, x - y),
                 "and": min, "or": max}[op]
            d.check(isinstance(r, TileSet), "kind:" + op, "%r", type(r))
            add(r, [f(x, y) for x, y in zip(ca, cb)], op)
            if max(pool[-1][1]) > most:
                pool.pop()
        elif op in ("iadd", "isub", "iand", "ior"):
            with d.sut(op):
                r = a.copy()
                if op == "iadd":
                    r += b
                elif op == "isub":
                    r -= b
                elif op == "iand":
                    r &= b
                else:
                    r |= b
            f = {"iadd": lambda x, y: x + y, "isub": lambda x, y: max(0, x - y), "iand": min, "ior": max}[op]
            add(r, [f(x, y) for x, y in zip(ca, cb)], op)
            if max(pool[-1][1]) > most:
                pool.pop()
        elif op == "contains":
            with d.sut(op):
                r = a.contains(b)
            d.equal("contains", bool(r), all(x >= y for x, y in zip(ca, cb)))
            d.label("contains:%s" % bool(r))
        elif op == "exclude":
            with d.sut(op):
                r = a.exclude(b)
            if all(x >= y for x, y in zip(ca, cb)):
                d.check(r is not None, "exclude-none", "%r from %r", b, a)
                add(r, [x - y for x, y in zip(ca, cb)], op)
            else:
                d.check(r is None, "exclude-missing", "%r from %r gave %r", b, a, r)
        elif op == "copy":
            with d.sut(op):
                r = a.copy()
                t = d.below(34)
                r2 = a.copy()
                r2[sut.tile(t)] += 1
            d.equal("copy-independent", sut.counts_in(a), ca)
            add(r, ca, op)
        elif op == "change":
            # sets are mutable: changing one in place changes no other
            t = d.below(34) if d.chance(1, 2) or not any(ca) else d.choice([x for x in range(34) if ca[x]])
            grow = not ca[t] or (ca[t] < most and d.chance(1, 2))
            with d.sut(op):
                if grow:
                    a.update([sut.tile(t)])
                elif ca[t] == 1:
                    del a[sut.tile(t)]
                else:
                    a.subtract([sut.tile(t)])
            pool[i] = (a, [x + (1 if grow else -1) * (k == t) for k, x in enumerate(ca)])
        elif op == "len":
            with d.sut(op):
                n = len(a)
            d.equal("len", n, sum(ca))
        elif op == "tiles":
            with d.sut(op):
                got = list(a.tiles())
            d.equal("tiles", sut.types_of(got), [t for t in range(34) for _ in range(ca[t])])
        elif op == "str":
            with d.sut(op):
                s = str(a)
            d.equal("str", s.replace("0", "5"), ref.hand_string(ca))
        elif op == "sorted":
            with d.sut(op):
                a.re_sort()
            d.equal("re_sort", [sut.type_of(x) for x in a], [t for t in range(34) if ca[t]])
        elif op == "cmp":
            with d.sut(op):
                a.re_sort()
                b.re_sort()
                got = (a == b, a != b, a < b, a <= b, a > b, a >= b)
            ka, kb = key(ca), key(cb)
            d.equal("cmp", got, (ka == kb, ka != kb, ka < kb, ka <= kb, ka > kb, ka >= kb),
                    "%r %r" % (a, b))
        for ts, c in pool:
            if sut.counts_in(ts) != c:
                d.fail("operand-changed:" + op, "%r should be %s" % (ts, ref.hand_string(c)))


def some_tile(d):
    if d.chance(1, 4):
        s = d.below(3)
        return AkaTile(0, "mps"[s]), 9 * s + 4, True
    t = d.below(34)
    return Tile(t % 9 + 1, "mpsz"[t // 9]), t, False


def tiles(d):
    xs = [some_tile(d) for _ in range(3)]
    (a, ta, ra), (b, tb, rb), (c, tc, rc) = xs
    d.note(tiles=[(str(x), r) for x, _, r in xs])
    with d.sut("tile-compare"):
        got = (a == b, a != b, a < b, a <= b, a > b, a >= b)
        same_hash = hash(a) == hash(b)
        counted = TileSet([a, b, c])
        in_set = len({a, b, c})
        order = [sut.type_of(x) for x in sorted([a, b, c])]
    d.equal("tile-cmp", got, (ta == tb, ta != tb, ta < tb, ta <= tb, ta > tb, ta >= tb))
    d.check(same_hash or ta != tb, "hash", "%s %s", a, b)
    d.equal("set", in_set, len({ta, tb, tc}))
    d.equal("order", order, sorted([ta, tb, tc]))
    d.equal("counted", [(counted[sut.tile(t)]) for t in range(34)], ref.counts_of([ta, tb, tc]))
    # the units built from a tile
    with d.sut("tile-units"):
        pair, trip, flush, nxt = a.pair(), a.triplet(), a.flush(), a.next()
        aliases = (tile_pair(a), tile_triplet(a), tile_flush(a))
        k = d.between(0, 6)
        rep = a.repeat(k)
        suit = a.is_suit()
    d.equal("pair", sut.counts_in(pair), ref.counts_of([ta, ta]))
    d.equal("triplet", sut.counts_in(trip), ref.counts_of([ta] * 3))
    d.equal("repeat", sut.counts_in(rep), ref.counts_of([ta] * k))
    run = ta < 27 and ta % 9 <= 6
    d.equal("flush", None if flush is None else sut.counts_in(flush),
            ref.counts_of([ta, ta + 1, ta + 2]) if run else None)
    d.equal("aliases", aliases, (pair, trip, flush))
    d.equal("next", None if nxt is None else sut.type_of(nxt), ta + 1 if ta < 27 and ta % 9 < 8 else None)
    d.equal("is_suit", bool(suit), ta < 27)
    d.equal("text", str(a), "0" + "mps"[ta // 9] if ra else ref.type_name(ta))
    # asking for units or adding to the answer never changes the tile
    with d.sut("tile-units"):
        grown = a.triplet() + b.pair()
        a.pair() - b.pair()
        again = (a.pair(), a.triplet(), a.flush())
    d.equal("unit-sum", sut.counts_in(grown), ref.counts_of([ta] * 3 + [tb] * 2))
    d.equal("units-stable", again, (pair, trip, flush))
    d.equal("units-stable-counts", sut.counts_in(again[1]), ref.counts_of([ta] * 3))
    d.label("red" if ra or rb or rc else "plain")
    if ta // 9 == tb // 9:
        d.nontrivial((ta, ra, tb, rb, tc, rc, k))
        d.sample = {"tiles": [str(x) for x, _, _ in xs]}


PARTS = [Part("sets", sets, 48000, 300000), Part("tiles", tiles, 60000, 200000)]
