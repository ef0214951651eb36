from engine import Part, Discard
import gen
import ref
import sut
from checks.c03 import build
from mahjong.container.pattern.reasoning import HeuristicPatternMatchWaiting
from mahjong.container.pattern.win import NormalTypeWin, UniquePairs
from mahjong.container.set import TileSet

RULE = ("hands of 3m+2 tiles (complete, near, random, pair-rich), ordinary and seven-pair shapes, with the four-copy rule on and (a third) off; the one-pass answer "
        "is compared with dropping each tile in turn, both with the engine itself (metamorphic) and with the "
        "reference distance; two analyses of one engine are also read side by side. Non-trivial: some but not all discards keep the best distance.")
ASSUMPTIONS = ["At most four copies of a tile; hands with more than 8 kinds of terminals/honours are left out of the "
               "ordinary-shape part for run time only."]
MAX_ORPHANS = 8


LIMIT_OFF = 20


def judge(d, engine, counts, kind, hand, per_tile, rule=True):
    limit = 4 if rule else LIMIT_OFF
    base = ref.shanten(counts, kind, limit)
    want = {}
    for t in range(34):
        if counts[t]:
            c = list(counts)
            c[t] -= 1
            s = ref.shanten(c, kind, limit)
            if base < 0 or s == base:
                want[t] = (s, ref.useful(c, kind, limit))
    with d.sut("batch"):
        rows = list(engine.batch_waiting_and_useful_tiles(hand) if rule else
                    engine.batch_waiting_and_useful_tiles(hand, ignore_4counts=False))
    got = {}
    for tile, step, tiles in rows:
        t = sut.type_of(tile)
        d.check(t not in got, "twice", "%s listed twice", tile)
        got[t] = (step, set(sut.types_of(tiles)))
    d.equal("discards", sorted(map(ref.type_name, got)), sorted(map(ref.type_name, want)))
    for t in sorted(want):
        d.equal("step", got[t][0], want[t][0], "after discarding " + ref.type_name(t))
        d.equal("useful", sorted(map(ref.type_name, got[t][1])), sorted(map(ref.type_name, want[t][1])),
                "after discarding " + ref.type_name(t))
    d.equal("hand-changed", sut.counts_in(hand), counts)
    if per_tile and want:
        t = d.choice(sorted(want))
        c = list(counts)
        c[t] -= 1
        with d.sut("single"):
            step, tiles = (engine.waiting_and_useful_tiles(sut.tile_set(c)) if rule else
                           engine.waiting_and_useful_tiles(sut.tile_set(c), False))
        d.equal("one-pass-vs-single", (step, set(sut.types_of(tiles))), got[t], ref.type_name(t))
    d.label("step%d" % base)
    kinds = sum(1 for c in counts if c)
    if want and len(want) < kinds or base < 0:
        d.nontrivial((tuple(counts), kind, rule))
        d.sample = {"hand": ref.hand_string(counts), "kind": kind, "distance": base,
                    "discards": {ref.type_name(t): [ref.type_name(u) for u in sorted(v[1])]
                                 for t, v in sorted(want.items())[:3]}}


def normal(d):
    melds = d.weighted([(4, 4), (1, 0), (2, 1), (2, 2), (3, 3)])
    size = 3 * melds + 2
    if d.chance(1, 8):
        counts = gen.complete_hand(d, melds)
    elif d.chance(1, 6):
        counts = gen.quad_hand(d, size)
        d.label("hand:quads")
    else:
        counts = gen.hand(d, size, melds)
    if gen.orphans(counts) > MAX_ORPHANS:
        raise Discard()
    hand, how = build(d, counts)
    rule = not d.chance(1, 3)
    if not rule and (gen.orphans(counts) > 6 or ref.shanten(counts, ("n", melds), LIMIT_OFF) > 2):
        rule = True
    d.note(hand=ref.hand_string(counts), melds=melds, how=how, four_copy_rule=rule)
    if ref.shanten(counts, ("n", melds)) != ref.shanten(counts, ("n", melds), LIMIT_OFF):
        d.label("rule-matters")
    engine = HeuristicPatternMatchWaiting(NormalTypeWin(melds=melds))
    judge(d, engine, counts, ("n", melds), hand, d.chance(1, 3), rule)
    if rule and d.chance(1, 4):
        # the player discards and draws: the same hand, engine and tile set, one tile exchanged
        counts = list(counts)
        out = d.choice([t for t in range(34) if counts[t]])
        counts[out] -= 1
        into = d.choice([t for t in range(34) if counts[t] < 4])
        counts[into] += 1
        if gen.orphans(counts) > MAX_ORPHANS:
            return
        d.note(next_hand=ref.hand_string(counts))
        with d.sut("exchange"):
            hand -= TileSet([sut.tile(out)])
            hand += TileSet([sut.tile(into)])
        judge(d, engine, counts, ("n", melds), hand, False)
    if melds == 4 and d.chance(1, 6):
        judge(d, HeuristicPatternMatchWaiting(UniquePairs()), counts, ("7",), hand, False)


def pairs7(d):
    counts = gen.pair_hand(d, 14) if d.chance(2, 3) else gen.random_hand(d, 14)
    hand, how = build(d, counts)
    d.note(hand=ref.hand_string(counts), how=how)
    judge(d, HeuristicPatternMatchWaiting(UniquePairs()), counts, ("7",), hand, d.chance(1, 3))


def together(d):
    """Two analyses by one engine read side by side, with other questions in between."""
    melds = d.choice([1, 2, 2, 3])
    engine = HeuristicPatternMatchWaiting(NormalTypeWin(melds=melds))
    pairs = []
    for _ in range(2):
        counts = gen.complete_hand(d, melds) if d.chance(1, 3) else gen.hand(d, 3 * melds + 2, melds)
        if gen.orphans(counts) > MAX_ORPHANS:
            raise Discard()
        pairs.append((counts, build(d, counts)[0]))
    d.note(hands=[ref.hand_string(c) for c, _ in pairs], melds=melds)
    kind = ("n", melds)
    got = [{}, {}]
    with d.sut("batch"):
        readers = [iter(engine.batch_waiting_and_useful_tiles(hand)) for _, hand in pairs]
    left = [0, 1]
    while left:
        k = d.choice(left)
        with d.sut("batch"):
            row = next(readers[k], None)
        if row is None:
            left.remove(k)
            continue
        tile, step, tiles = row
        t = sut.type_of(tile)
        d.check(t not in got[k], "twice", "%s listed twice", tile)
        got[k][t] = (step, set(sut.types_of(tiles)))
        if d.chance(1, 6):
            with d.sut("distance"):
                base = engine.before_waiting_step(pairs[1 - k][1])
            d.equal("distance-between", base, ref.shanten(pairs[1 - k][0], kind))
    for k, (counts, hand) in enumerate(pairs):
        base = ref.shanten(counts, kind)
        want = {}
        for t in range(34):
            if counts[t]:
                c = list(counts)
                c[t] -= 1
                s = ref.shanten(c, kind)
                if base < 0 or s == base:
                    want[t] = (s, ref.useful(c, kind))
        d.equal("side-by-side", got[k], want, ref.hand_string(counts))
        d.equal("hand-changed", sut.counts_in(hand), counts)
    d.nontrivial((tuple(map(tuple, (c for c, _ in pairs))), melds))


PARTS = [Part("normal", normal, 7200, 100000), Part("pairs", pairs7, 3600, 40000),
         Part("together", together, 1200, 12000)]
