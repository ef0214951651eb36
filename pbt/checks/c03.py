from engine import Part
import gen
import ref
import sut
from mahjong.container.pattern.win import NormalTypeWin, UniquePairs
from mahjong.container.set import TileSet
from mahjong.container.utils import tile_set_from_string
from mahjong.tile.definition import AkaTile

RULE = ("hands of 0-18 tiles drawn near a complete shape (0-2 pairs, 0-4 melds, dense suits), random, or rich in "
        "pairs/quads, in any insertion order and with red fives, judged by a per-suit dynamic programme over every "
        "split into runs, triplets and pairs. Non-trivial: a complete hand, or one exactly one tile short of complete.")
ASSUMPTIONS = ["No hand holds more than four copies of a tile."]


def build(d, counts):
    order = gen.to_types(counts)
    if d.chance(2, 3):
        order = d.shuffled(order)
    if d.chance(1, 4):
        # as a player types it
        with d.sut("parse"):
            return tile_set_from_string("".join(ref.type_name(t) for t in order)), "typed"
    if d.chance(1, 4):
        reds = [t for t in (4, 13, 22) if t in order]
        tiles = []
        for t in order:
            if t in reds:
                reds.remove(t)
                tiles.append(AkaTile(0, "mps"[t // 9]))
            else:
                tiles.append(sut.tile(t))
        return TileSet(tiles), "red"
    return sut.tile_set(counts, order), "plain"


def normal(d):
    melds = d.weighted([(4, 4), (1, 0), (2, 1), (2, 2), (2, 3)])
    pairs = d.weighted([(5, 1), (2, 0), (2, 2)])
    need = 3 * melds + 2 * pairs
    style = d.weighted([(5, "near"), (2, "random"), (2, "pairs"), (2, "surplus")])
    if style in ("near", "surplus"):
        counts = gen.complete_hand(d, melds, pairs)
        k = d.weighted([(3, 0), (4, 1), (1, 2)])
        if sum(counts):
            counts = gen.mutate(d, counts, k)
        if style == "surplus":
            for _ in range(d.between(1, 4)):
                counts[d.choice([t for t in range(34) if counts[t] < 4])] += 1
    elif style == "random":
        counts = gen.random_hand(d, d.between(max(0, need - 1), need + 3))
    else:
        counts = gen.pair_hand(d, need + d.below(3))
    cost = ref.normal_cost(tuple(counts), melds, pairs)
    hand, how = build(d, counts)
    d.note(hand=ref.hand_string(counts), melds=melds, pairs=pairs, how=how)
    with d.sut("match"):
        pattern = NormalTypeWin(pairs=pairs, melds=melds)
        got = pattern.match(hand)
    d.equal("win", bool(got), cost == 0)
    d.equal("hand-changed", sut.counts_in(hand), counts)
    with d.sut("match"):
        again = NormalTypeWin(pairs=pairs, melds=melds).match(hand)
    d.equal("repeat", bool(again), cost == 0)
    if d.chance(1, 4):
        later(d, pattern, hand, counts, melds, pairs)
    d.label("win" if cost == 0 else "cost%d" % min(cost, 3))
    if cost <= 1:
        d.nontrivial((tuple(counts), melds, pairs))
        d.sample = {"hand": ref.hand_string(counts), "melds": melds, "pairs": pairs, "complete": cost == 0}


def later(d, pattern, hand, counts, melds, pairs):
    """The same question and others once a tile of the very same hand was exchanged."""
    counts = list(counts)
    if sum(counts):
        out = d.choice([t for t in range(34) if counts[t]])
        counts[out] -= 1
        with d.sut("discard"):
            hand -= TileSet([sut.tile(out)])
    t = d.choice([t for t in range(34) if counts[t] < 4])
    counts[t] += 1
    with d.sut("draw"):
        hand += TileSet([sut.tile(t)])
        got = pattern.match(hand)
    d.equal("win-later", bool(got), ref.normal_cost(tuple(counts), melds, pairs) == 0, ref.hand_string(counts))
    m, p = d.below(5), d.below(3)
    with d.sut("match-other"):
        got = NormalTypeWin(p, m).match(hand), UniquePairs(m + p).match(hand)
    d.equal("win-other", [bool(x) for x in got],
            [ref.normal_cost(tuple(counts), m, p) == 0, ref.pairs_cost(counts, m + p) == 0],
            "%s melds %d pairs %d" % (ref.hand_string(counts), m, p))
    d.equal("hand-changed-later", sut.counts_in(hand), counts)
    d.label("later")


def default(d):
    """The ordinary 14-tile question with the pattern's default demand."""
    counts = gen.complete_hand(d, 4)
    counts = gen.mutate(d, counts, d.weighted([(4, 0), (4, 1), (1, 2)]))
    cost = ref.normal_cost(tuple(counts), 4, 1)
    hand, how = build(d, counts)
    d.note(hand=ref.hand_string(counts), how=how)
    with d.sut("match"):
        got = NormalTypeWin().match(hand)
    d.equal("win-default", bool(got), cost == 0)
    d.equal("hand-changed", sut.counts_in(hand), counts)
    if cost <= 1:
        d.nontrivial(tuple(counts))
        d.sample = {"hand": ref.hand_string(counts), "complete": cost == 0}


def pairs7(d):
    k = d.weighted([(5, 7), (1, 0), (1, 1), (1, 2), (1, 4), (1, 6)])
    if d.chance(1, 2):
        counts = [0] * 34
        for t in d.subset(list(range(34)), k):
            counts[t] = 2
        if k:
            counts = gen.mutate(d, counts, d.weighted([(2, 0), (3, 1), (1, 2)]))
        for _ in range(d.below(3)):
            counts[d.choice([t for t in range(34) if counts[t] < 4])] += 1
    else:
        counts = gen.pair_hand(d, min(34, 2 * k + d.below(4)))
    cost = ref.pairs_cost(counts, k)
    hand, how = build(d, counts)
    d.note(hand=ref.hand_string(counts), pairs=k, how=how)
    with d.sut("match"):
        got = (UniquePairs() if k == 7 else UniquePairs(k)).match(hand)
    d.equal("pairs-win", bool(got), cost == 0)
    d.equal("hand-changed", sut.counts_in(hand), counts)
    d.label("win" if cost == 0 else "cost%d" % min(cost, 3))
    if cost <= 1:
        d.nontrivial((tuple(counts), k))
        d.sample = {"hand": ref.hand_string(counts), "pairs": k, "complete": cost == 0}


PARTS = [Part("normal", normal, 48000, 400000), Part("default", default, 24000, 200000),
         Part("pairs", pairs7, 24000, 150000)]
