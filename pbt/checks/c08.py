from engine import Part, Discard
import gen
import ref
import sut
from checks.c03 import build
from mahjong.container.pattern.reasoning import (BruteForceWaiting, HeuristicPatternMatchWaiting,
                                                 PatternMatchWaiting)
from mahjong.container.pattern.win import NormalTypeWin, UniquePairs

RULE = ("hands up to two tiles short of ready (one for brute force), ordinary shapes of 0-4 melds and seven pairs, with "
        "the four-copy rule on and off; the three search engines are compared with each other and with the reference "
        "on distance and useful tiles; without the four-copy rule also hands holding up to eleven of one kind. Non-trivial: not complete and the two rule settings or two engines search "
        "different tiles (a quad is held), or distance >= 0.")
ASSUMPTIONS = ["Brute force is only asked about hands at most one tile from ready (it is exponential in the distance)."]
LIMIT_OFF = 20


def judge(d, pattern, kind, counts, hand, rule, engines):
    limit = 4 if rule else LIMIT_OFF
    want_step = ref.shanten(counts, kind, limit)
    want = ref.useful(counts, kind, limit) if want_step >= 0 else None
    answers = {}
    for name, cls in engines:
        e = cls(pattern)
        with d.sut(name):
            if rule and d.chance(1, 2):
                step, tiles = e.waiting_and_useful_tiles(hand)
                step1 = e.before_waiting_step(hand)
                tiles1 = e.useful_tiles(hand)
            else:
                step, tiles = e.waiting_and_useful_tiles(hand, rule)
                step1 = e.before_waiting_step(hand, ignore_4counts=rule)
                tiles1 = e.useful_tiles(hand, ignore_4counts=rule)
        answers[name] = (step, sut.types_of(tiles))
        d.equal("self:" + name, (step1, sut.types_of(tiles1)), answers[name])
        d.equal("hand-changed:" + name, sut.counts_in(hand), counts)
    for name in answers:
        d.equal("step:" + name, answers[name][0], want_step, repr(answers))
        d.equal("useful:" + name, answers[name][1], sorted(want) if want is not None else [], repr(answers))
    d.label("step%d" % want_step)
    if want_step >= 0:
        d.nontrivial((tuple(counts), kind, rule))
        d.sample = {"hand": ref.hand_string(counts), "kind": kind, "four_copy_rule": rule, "engines": sorted(answers),
                    "distance": want_step, "useful": [ref.type_name(t) for t in sorted(want)]}


def normal(d):
    melds = d.weighted([(2, 4), (1, 0), (3, 1), (4, 2), (3, 3)])
    size = 3 * melds + d.between(1, 2)
    counts = gen.hand(d, size, melds)
    rule = not d.chance(1, 3)
    limit = 4 if rule else LIMIT_OFF
    step = ref.shanten(counts, ("n", melds), limit)
    if step > 2 or (melds == 4 and step > 1) or gen.orphans(counts) > 7:
        raise Discard()
    hand, how = build(d, counts)
    d.note(hand=ref.hand_string(counts), melds=melds, rule=rule)
    engines = [("heuristic", HeuristicPatternMatchWaiting), ("pattern", PatternMatchWaiting)]
    judge(d, NormalTypeWin(melds=melds), ("n", melds), counts, hand, rule, engines)


def brute(d):
    """All three engines on hands at most one tile from ready."""
    seven = d.chance(1, 5)
    if seven:
        k = d.between(1, 4)
        counts = gen.pair_hand(d, 2 * k - d.below(2))
        kind, pattern = ("7", k), UniquePairs(k)
    else:
        melds = d.weighted([(3, 1), (2, 2), (1, 0), (1, 3), (1, 4)])
        if melds and d.chance(1, 3):
            counts = gen.quad_hand(d, 3 * melds + 1)
        elif d.chance(1, 3):
            counts = [0] * 34          # quads: the needed tile may be exhausted
            span = d.choice([[0, 1, 2, 3], [6, 7, 8], [27, 28, 29, 30], [8, 9, 10, 33]])
            for _ in range(3 * melds + 1):
                counts[d.choice([t for t in span if counts[t] < 4] or [t for t in range(34) if counts[t] < 4])] += 1
        else:
            counts = gen.hand(d, 3 * melds + d.between(1, 2), melds)
        kind, pattern = ("n", melds), NormalTypeWin(melds=melds)
    rule = not d.chance(1, 2)
    step = ref.shanten(counts, kind, 4 if rule else LIMIT_OFF)
    matters = ref.shanten(counts, kind, 4) != ref.shanten(counts, kind, LIMIT_OFF)
    if step > (1 if sum(counts) <= 8 and (d.chance(1, 6) or matters and d.chance(1, 2)) else 0):
        raise Discard()
    if seven and not rule:
        rule = True                    # pairs never need a fifth copy
    hand, how = build(d, counts)
    d.note(hand=ref.hand_string(counts), kind=kind, rule=rule)
    if matters:
        d.label("rule-matters:%s" % rule)
    judge(d, pattern, kind, counts, hand, rule,
          [("heuristic", HeuristicPatternMatchWaiting), ("pattern", PatternMatchWaiting), ("brute", BruteForceWaiting)])


def many(d):
    """Without the four-copy rule a hand may hold any number of copies."""
    melds = d.weighted([(3, 1), (3, 2), (1, 0), (1, 3)])
    size = 3 * melds + d.between(1, 2)
    counts = [0] * 34
    span = d.choice([[0, 1, 2, 3], [6, 7, 8], [27, 28], [8, 9, 33], [4, 5, 31], [20]])
    while sum(counts) < size:
        counts[d.choice(span)] += d.between(1, min(6, size - sum(counts)))
    kind = ("n", melds)
    step = ref.shanten(counts, kind, LIMIT_OFF)
    d.note(hand=ref.hand_string(counts), kind=kind, rule=False)
    engines = [("heuristic", HeuristicPatternMatchWaiting), ("pattern", PatternMatchWaiting)]
    if step <= (1 if size <= 5 else 0):
        engines.append(("brute", BruteForceWaiting))
    if step > 2:
        raise Discard()
    hand, how = build(d, counts)
    if max(counts) > 4:
        d.label("five-or-more")
    judge(d, NormalTypeWin(melds=melds), kind, counts, hand, False, engines)


def pairs7(d):
    k = d.weighted([(2, 7), (1, 3), (1, 4), (1, 5)])
    counts = gen.pair_hand(d, 2 * k - d.below(2))
    if ref.shanten(counts, ("7", k)) > 2:
        raise Discard()
    hand, how = build(d, counts)
    d.note(hand=ref.hand_string(counts), pairs=k)
    judge(d, UniquePairs(k), ("7", k), counts, hand, True,
          [("heuristic", HeuristicPatternMatchWaiting), ("pattern", PatternMatchWaiting)])


PARTS = [Part("normal", normal, 2400, 24000), Part("brute", brute, 2700, 18000), Part("many", many, 600, 6000),
         Part("pairs", pairs7, 600, 8000)]
