from engine import Part
import gen
import ref
import sut
from checks.c03 import build
from mahjong.container.pattern.reasoning import HeuristicPatternMatchWaiting
from mahjong.container.pattern.win import NormalTypeWin, UniquePairs

RULE = ("hands of 3m+1 / 3m+2 tiles (m=0..4 melds demanded) and 13/14 tiles for seven pairs: near-complete, random in "
        "dense spans, scattered (up to distance 8), and rich in pairs, triplets and quads; the distance is compared with a per-suit dynamic "
        "programme that never uses a fifth copy (or may, when the caller switches the rule off). Non-trivial: distance >= 1, or a hand holding a quad.")
ASSUMPTIONS = ["The hand holds at most four copies of a tile.", "Hands are read with red fives as fives."]
LIMIT_OFF = 20


def normal(d):
    melds = d.weighted([(5, 4), (1, 0), (2, 1), (2, 2), (3, 3)])
    size = 3 * melds + d.between(1, 2)
    counts = gen.hand(d, size, melds, 3)
    rule = not d.chance(1, 5)
    want = ref.shanten(counts, ("n", melds), 4 if rule else LIMIT_OFF)
    hand, how = build(d, counts)
    d.note(hand=ref.hand_string(counts), melds=melds, how=how, four_copy_rule=rule)
    engine = HeuristicPatternMatchWaiting(NormalTypeWin() if melds == 4 else NormalTypeWin(melds=melds))
    with d.sut("distance"):
        got = engine.before_waiting_step(hand) if rule else engine.before_waiting_step(hand, ignore_4counts=False)
    d.equal("distance", got, want)
    d.equal("hand-changed", sut.counts_in(hand), counts)
    if rule and d.chance(1, 4):
        # the same hand asked for other shapes, by other engines and by this one again
        for kind in d.subset([("n", m) for m in range(1, melds + 1)] + ([("7",)] if melds == 4 else []), 2):
            with d.sut("distance-other"):
                other = HeuristicPatternMatchWaiting(UniquePairs() if kind[0] == "7" else NormalTypeWin(melds=kind[1]))
                got = other.before_waiting_step(hand)
            d.equal("distance-other", got, ref.shanten(counts, kind), str(kind))
        with d.sut("distance-again"):
            got = engine.before_waiting_step(hand)
        d.equal("distance-again", got, want)
    d.label("step%d" % want)
    if want >= 1 or 4 in counts:
        d.nontrivial((tuple(counts), melds))
        d.sample = {"hand": ref.hand_string(counts), "melds": melds, "distance": want}


def quads(d):
    """Hands where the tile that is needed may be exhausted."""
    melds = d.between(1, 4)
    size = 3 * melds + d.between(1, 2)
    counts = gen.quad_hand(d, size)
    want = ref.shanten(counts, ("n", melds))
    free = ref.shanten(counts, ("n", melds), limit=14)
    hand, how = build(d, counts)
    d.note(hand=ref.hand_string(counts), melds=melds, how=how)
    with d.sut("distance"):
        got = HeuristicPatternMatchWaiting(NormalTypeWin(melds=melds)).before_waiting_step(hand)
    d.equal("distance-quads", got, want)
    d.label("exhausted-matters" if want != free else "plain")
    if want != free or want >= 1:
        d.nontrivial((tuple(counts), melds))
        d.sample = {"hand": ref.hand_string(counts), "melds": melds, "distance": want, "with_fifth_copies": free}


def pairs7(d):
    size = d.between(13, 14)
    if d.chance(1, 2):
        counts = gen.pair_hand(d, size)
    else:
        counts = gen.random_hand(d, size)
    want = ref.shanten(counts, ("7",))
    hand, how = build(d, counts)
    d.note(hand=ref.hand_string(counts), how=how)
    with d.sut("distance-pairs"):
        got = HeuristicPatternMatchWaiting(UniquePairs()).before_waiting_step(hand)
    d.equal("distance-pairs", got, want)
    d.equal("hand-changed", sut.counts_in(hand), counts)
    d.label("step%d" % want)
    if want >= 1 or 4 in counts:
        d.nontrivial(tuple(counts))
        d.sample = {"hand": ref.hand_string(counts), "distance": want}


PARTS = [Part("normal", normal, 18000, 120000), Part("quads", quads, 9000, 60000), Part("pairs", pairs7, 9000, 40000)]
