from engine import Part
import gen
import ref
import sut
from checks.c03 import build
from mahjong.container.pattern.win import NormalTypeWin, UniquePairs

RULE = ("hands that contain the demanded shape (plus up to 3 surplus tiles), drawn from dense spans so that several "
        "decompositions overlap; the reported decompositions are compared as a set with an exhaustive enumeration "
        "of unit multisets. Non-trivial: a hand with at least two decompositions.")
ASSUMPTIONS = ["No hand holds more than four copies of a tile."]


def canon(selection):
    return tuple(sorted(tuple(sut.types_of(unit.tiles())) for unit in selection))


def judge(d, pattern, hand, counts, want):
    with d.sut("unique_win_selections"):
        got = [canon(s) for s in pattern.unique_win_selections(hand)]
    d.check(len(set(got)) == len(got), "duplicate", "%r", [g for g in got if got.count(g) > 1][:1])
    missing = set(want) - set(got)
    extra = set(got) - set(want)
    d.check(not extra, "invalid", "%r", sorted(extra)[:2])
    d.check(not missing, "missing", "%r", sorted(missing)[:2])
    with d.sut("win_selections"):
        raw = [canon(s) for s in pattern.win_selections(hand)]
    d.equal("raw", set(raw), set(want))
    if want and d.chance(1, 4):
        # listings left half-way, and two listings read in turns
        with d.sut("interleaved"):
            first, second = pattern.unique_win_selections(hand), pattern.unique_win_selections(hand)
            seen, others = [], []
            for s in first:
                seen.append(canon(s))
                others += [canon(x) for x in [next(second, None)] if x is not None]
                if len(seen) == 3 and d.chance(1, 3):
                    break
            rest = [canon(s) for s in second]
            third = [canon(s) for s in pattern.unique_win_selections(hand)]
        d.equal("in-turns", sorted(others + rest), sorted(got))
        d.check(len(set(seen)) == len(seen) and set(seen) <= set(got), "in-turns-first", "%r", seen[:2])
        d.equal("listed-again", sorted(third), sorted(got))
        d.label("in-turns")
    d.equal("hand-changed", sut.counts_in(hand), counts)
    d.label("n=%d" % min(len(want), 6))
    if len(want) >= 2:
        d.nontrivial((tuple(counts), len(want)))
        d.sample = {"hand": ref.hand_string(counts), "decompositions": len(want)}


def normal(d):
    melds = d.weighted([(4, 4), (1, 0), (1, 1), (2, 2), (2, 3)])
    pairs = d.weighted([(6, 1), (1, 0), (1, 2)])
    counts = gen.complete_hand(d, melds, pairs)
    for _ in range(d.weighted([(4, 0), (2, 1), (1, 2), (1, 3)])):
        have = [t for t in range(34) if 0 < counts[t] < 4] or [t for t in range(34) if counts[t] < 4]
        counts[d.choice(have)] += 1
    if sum(counts) and d.chance(1, 8):
        counts = gen.mutate(d, counts, 1)
    hand, how = build(d, counts)
    d.note(hand=ref.hand_string(counts), melds=melds, pairs=pairs, how=how)
    want = ref.decompositions(counts, melds, pairs)
    judge(d, NormalTypeWin(pairs=pairs, melds=melds), hand, counts, want)


def pairs7(d):
    k = d.weighted([(4, 7), (1, 1), (1, 2), (1, 3), (1, 5)])
    counts = gen.pair_hand(d, min(26, 2 * k + d.below(4)))
    hand, how = build(d, counts)
    d.note(hand=ref.hand_string(counts), pairs=k, how=how)
    want = ref.decompositions(counts, 0, k, distinct_pairs=True)
    judge(d, UniquePairs(k), hand, counts, want)


PARTS = [Part("normal", normal, 24000, 150000), Part("pairs", pairs7, 12000, 60000)]
