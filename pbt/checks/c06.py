from engine import Part, Discard
import gen
import ref
import sut
from checks.c03 import build
from mahjong.container.pattern.reasoning import HeuristicPatternMatchWaiting
from mahjong.container.pattern.win import NormalTypeWin, UniquePairs
from mahjong.container.set import TileSet

RULE = ("hands of 3m+1 tiles (and 3m+2, and 13/14 for seven pairs) near complete, random, and full of quads; the "
        "reported set is compared with the tiles whose arrival lowers the reference distance, a fifth copy never "
        "counting. Non-trivial: at least one useful tile and distance >= 0.")
ASSUMPTIONS = ["At most four copies of a tile; hands with more than 8 kinds of terminals/honours are left out of the "
               "ordinary-shape part for run time only."]
MAX_ORPHANS = 8


def judge(d, engine, counts, kind, how, hand):
    base = ref.shanten(counts, kind)
    want = ref.useful(counts, kind)
    with d.sut("useful"):
        step, tiles = engine.waiting_and_useful_tiles(hand)
    d.equal("step", step, base)
    got = sut.types_of(tiles)
    d.equal("useful", [ref.type_name(t) for t in got], [ref.type_name(t) for t in sorted(want)],
            "hand " + ref.hand_string(counts))
    with d.sut("useful_tiles"):
        alone = engine.useful_tiles(hand)
    d.equal("useful_tiles", sut.types_of(alone), got)
    d.equal("hand-changed", sut.counts_in(hand), counts)
    # an engine carries nothing over from one hand to the next
    d.label("step%d" % base)
    if any(counts[t] == 4 for t in range(34)):
        d.label("quad")
    if want and base >= 0:
        d.nontrivial((tuple(counts), kind))
        d.sample = {"hand": ref.hand_string(counts), "kind": kind, "distance": base,
                    "useful": [ref.type_name(t) for t in sorted(want)]}


def normal(d):
    melds = d.weighted([(5, 4), (1, 0), (2, 1), (2, 2), (3, 3)])
    size = 3 * melds + d.weighted([(3, 1), (1, 2)])
    engine = HeuristicPatternMatchWaiting(NormalTypeWin(melds=melds))
    for _ in range(d.weighted([(3, 1), (1, 2)])):
        counts = gen.hand(d, size, melds)
        if gen.orphans(counts) > MAX_ORPHANS:
            raise Discard()
        hand, how = build(d, counts)
        d.note(hand=ref.hand_string(counts), melds=melds, how=how)
        judge(d, engine, counts, ("n", melds), how, hand)
        if d.chance(1, 5):
            # the very same set of tiles after a tile of it was exchanged
            counts = list(counts)
            out = d.choice([t for t in range(34) if counts[t]])
            into = d.choice([t for t in range(34) if counts[t] < 4 and t != out])
            counts[out] -= 1
            counts[into] += 1
            if gen.orphans(counts) > MAX_ORPHANS:
                continue
            with d.sut("exchange"):
                hand -= TileSet([sut.TILES[out]])
                hand += TileSet([sut.TILES[into]])
            judge(d, engine, counts, ("n", melds), how, hand)
        if melds == 4 and d.chance(1, 5):
            judge(d, HeuristicPatternMatchWaiting(UniquePairs()), counts, ("7",), how, hand)


def quads(d):
    melds = d.between(1, 4)
    span = d.choice([list(range(0, 9)), list(range(9, 18)), list(range(27, 34)), [0, 1, 2, 3, 31, 32, 33],
                     [6, 7, 8, 18, 19, 20, 30]])
    left = 3 * melds + 1
    counts = [0] * 34
    while left:
        t = d.choice([x for x in span if counts[x] < 4] or [x for x in range(34) if counts[x] < 4])
        k = min(left, 4 - counts[t], d.weighted([(3, 4), (1, 1), (1, 2), (1, 3)]))
        counts[t] += k
        left -= k
    if gen.orphans(counts) > MAX_ORPHANS:
        raise Discard()
    hand, how = build(d, counts)
    d.note(hand=ref.hand_string(counts), melds=melds, how=how)
    judge(d, HeuristicPatternMatchWaiting(NormalTypeWin(melds=melds)), counts, ("n", melds), how, hand)


def pairs7(d):
    counts = gen.pair_hand(d, d.between(13, 14)) if d.chance(2, 3) else gen.random_hand(d, 13)
    hand, how = build(d, counts)
    d.note(hand=ref.hand_string(counts), how=how)
    judge(d, HeuristicPatternMatchWaiting(UniquePairs()), counts, ("7",), how, hand)


PARTS = [Part("normal", normal, 9000, 100000), Part("quads", quads, 4500, 60000), Part("pairs", pairs7, 3000, 30000)]
