import random
from itertools import islice

from engine import Part
import gen
import ref
import sut
from mahjong.container.distribution import StaticWall, TileDistribution

RULE = ("walls of 0-136 tiles (any counts 0-4, single kinds, nearly empty); draws of every size including the whole "
        "wall and more; interleaved draws from one wall; frequencies of short draws from small walls against exact "
        "probabilities at 6.5 standard deviations with a fixed random seed. Non-trivial: a draw that empties a kind "
        "of tile the wall held.")
ASSUMPTIONS = ["The pseudo-random source is fair; tiles are picked out of a wall only while it holds them."]


def a_wall(d):
    style = d.choice(["few", "any", "full", "one kind", "singles"])
    if style == "full":
        counts = [4] * 34
        for _ in range(d.below(30)):
            t = d.below(34)
            counts[t] = max(0, counts[t] - 1)
    elif style == "any":
        counts = [d.below(5) for _ in range(34)]
    elif style == "singles":
        counts = [d.below(2) for _ in range(34)]
    else:
        counts = [0] * 34
        for t in d.subset(range(34), 1 if style == "one kind" else d.between(1, 5)):
            counts[t] = d.between(1, 4)
    return counts, style


def weights_of(d, wall):
    with d.sut("weights"):
        w = list(wall.weights())
        each = [wall.weight_of(x) for x in TileDistribution.ALL_TILES]
        order = [sut.type_of(x) for x in TileDistribution.ALL_TILES]
    d.equal("all-tiles", sorted(order), list(range(34)))
    d.equal("weights", w, each)
    out = [0] * 34
    for t, x in zip(order, w):
        out[t] = x
    return out


def draws(d):
    counts, style = a_wall(d)
    total = sum(counts)
    random.seed(d.below(1 << 30))
    held = sut.tile_set(counts, d.shuffled(gen.to_types(counts)))
    d.note(wall=ref.hand_string(counts))
    with d.sut("wall"):
        wall = StaticWall(held)
    d.equal("start", weights_of(d, wall), counts)
    k = d.choice([0, 1, total, total, d.between(0, total), d.between(0, min(14, total))])
    for again in range(2):
        with d.sut("sample"):
            got = [sut.type_of(x) for x in wall.sample(k)]
        d.equal("how-many", len(got), k)
        for t in range(34):
            d.check(got.count(t) <= counts[t], "too-many", "%s drawn %d times of %d", ref.type_name(t), got.count(t),
                    counts[t])
        if k == total:
            d.equal("whole-wall", sorted(got), gen.to_types(counts))
        d.equal("wall-kept", weights_of(d, wall), counts)
        d.equal("set-kept", sut.counts_in(held), counts)
    if k == total:
        # nothing is left to hand out
        it = wall.sample(k + 1)
        with d.sut("sample"):
            first = list(islice(it, k))
        d.equal("how-many", len(first), k)
        try:
            more = next(it, None)
        except Exception:
            more = None
        d.check(more is None, "from-nothing", "%s", more)
    # two draws at once do not disturb each other
    with d.sut("interleaved"):
        a, b = wall.sample(min(total, 6)), wall.sample(min(total, 6))
        xs, ys = [], []
        for _ in range(min(total, 6)):
            xs.append(sut.type_of(next(a)))
            ys.append(sut.type_of(next(b)))
    for seq in (xs, ys):
        d.check(all(seq.count(t) <= counts[t] for t in range(34)), "interleaved", "%s", seq)
    # picking by hand
    left = list(counts)
    with d.sut("pick"):
        now = wall
    for t in d.subset(gen.to_types(counts), min(total, d.below(8))):
        with d.sut("pick"):
            nxt = now.pick(sut.tile(t))
        d.equal("pick-kept", weights_of(d, now), left)
        left[t] -= 1
        d.equal("pick", weights_of(d, nxt), left)
        now = nxt
    with d.sut("sample"):
        rest = [sut.type_of(x) for x in now.sample(sum(left))]
    d.equal("rest", sorted(rest), gen.to_types(left))
    d.label(style)
    if any(counts[t] and got.count(t) == counts[t] for t in range(34)):
        d.nontrivial((tuple(counts), k))
        d.sample = {"wall": ref.hand_string(counts), "drawn": k}


def frequencies(d):
    counts = [0] * 34
    for t in d.subset(range(34), d.between(2, 4)):
        counts[t] = d.between(1, 4)
    k = d.between(1, min(3, sum(counts)))
    trials = 3000
    random.seed(d.below(1 << 30))
    with d.sut("wall"):
        wall = StaticWall(sut.tile_set(counts))
        seen = {}
        for _ in range(trials):
            key = tuple(sut.type_of(x) for x in wall.sample(k))
            seen[key] = seen.get(key, 0) + 1
    exact = {(): 1.0}
    for _ in range(k):
        nxt = {}
        for key, p in exact.items():
            left = [counts[t] - key.count(t) for t in range(34)]
            for t in range(34):
                if left[t]:
                    nxt[key + (t,)] = p * left[t] / sum(left)
        exact = nxt
    d.note(wall=ref.hand_string(counts), draws=k)
    for key in set(seen) | set(exact):
        p = exact.get(key, 0.0)
        got = seen.get(key, 0)
        if abs(got - trials * p) > 6.5 * (trials * p * (1 - p)) ** .5 + 6:
            d.fail("frequency", "%s: %d of %d expected %.1f" % ([ref.type_name(t) for t in key], got, trials,
                                                                trials * p))
    d.cases = 1
    d.nontrivial((tuple(counts), k))
    d.sample = {"wall": ref.hand_string(counts), "draws": k, "trials": trials}


PARTS = [Part("draws", draws, 6000, 60000), Part("frequencies", frequencies, 240, 3000)]
