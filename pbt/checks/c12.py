import xml.etree.ElementTree as ET

from engine import Part
import ref
import sim
import sut
from mahjong.record.player import TenhouPlayer
from mahjong.record.state import PlayerMeld
from mahjong.record.utils.event import TenhouEvent
from mahjong.record.utils.value.meld import (Flush, Kan, KanFromTriplet, Kita, MeldType, TenhouAddedKan, TenhouKan,
                                             Triplet, meld_from, meld_type, tile_set_from_tenhou)

RULE = ("every legal call code is built from the call it stands for (4032 runs, 1224 triplets, 1224 added quads, 544 "
        "quads, 4 norths; each by each seat, triplets and quads from each seat) and decoded; random sequences of calls "
        "by one player are folded with the running meld list. Non-trivial: every enumerated code is; a folded sequence "
        "with an added quad.")
ASSUMPTIONS = ["Codes are those a legal call produces."]

CASES = []


def _chi():
    for start in range(27):
        if start % 9 > 6:
            continue
        for h in range(64):
            ids = [4 * (start + k) + (h >> (2 * k)) % 4 for k in range(3)]
            for which in range(3):
                CASES.append(("chi", ids, which, 3))


def _rest():
    for t in range(34):
        for unused in range(4):
            ids = [4 * t + k for k in range(4) if k != unused]
            for which in range(3):
                for kui in (1, 2, 3):
                    CASES.append(("pon", ids, which, kui, 4 * t + unused))
    for i in range(136):
        for kui in range(4):
            CASES.append(("kan", i, kui))
    for i in range(120, 124):
        CASES.append(("kita", i))


_chi()
_rest()


def element(who, code):
    return ET.Element("N", {"who": str(who), "m": str(code)})


def decode(d, who, code, wrapped):
    el = element(who, code)
    with d.sut("decode"):
        m = meld_from(TenhouEvent(el, context=None, timestamp=0) if wrapped else el)
        facts = (set(m.self_tiles), set(m.borrowed_tiles), m.from_who, m.is_opened())
        kind = meld_type(str(code))
        str(m), repr(m)
    return m, facts, kind


def codes(d, k):
    c = CASES[k]
    d.note(case=c)
    wrapped = k % 2 == 0
    d.cases = 0
    for who in range(4):
        d.cases += 1
        if c[0] == "chi":
            called = c[1][c[2]]
            code = sim.encode_chi(c[1], called)
            m, facts, kind = decode(d, who, code, wrapped)
            d.check(type(m) is Flush and kind == MeldType.flush, "type", "%r %r", type(m), kind)
            d.equal("chi", facts, (set(c[1]) - {called}, {called}, (who + 3) % 4, True), "code %d" % code)
        elif c[0] == "pon":
            _, ids, which, kui, unused = c
            called = ids[which]
            code = sim.encode_pon(ids, called, kui)
            m, facts, kind = decode(d, who, code, wrapped)
            d.check(type(m) is Triplet and kind == MeldType.triplet, "type", "%r %r", type(m), kind)
            src = (who + kui) % 4
            d.equal("pon", facts, (set(ids) - {called}, {called}, src, True), "code %d" % code)
            added = sim.encode_added(ids, called, kui, unused)
            a, facts, kind = decode(d, who, added, wrapped)
            d.check(type(a) is TenhouAddedKan and kind == MeldType.add_kan, "type", "%r %r", type(a), kind)
            d.equal("added", (facts[0], facts[1]), ({unused}, set()), "code %d" % added)
            with d.sut("upgrade"):
                q = KanFromTriplet(m, a)
                facts = (set(q.self_tiles), set(q.borrowed_tiles), q.from_who, q.is_opened(), q.is_opened_kan)
            d.equal("upgraded", facts, (set(ids) - {called} | {unused}, {called}, src, True, True))
        elif c[0] == "kan":
            _, i, kui = c
            code = sim.encode_kan(i, kui)
            m, facts, kind = decode(d, who, code, wrapped)
            d.check(type(m) is TenhouKan and isinstance(m, Kan) and kind == MeldType.kan, "type", "%r %r", type(m), kind)
            four = {i // 4 * 4 + x for x in range(4)}
            with d.sut("open"):
                opened = m.is_opened_kan
            if kui:
                d.equal("kan", facts + (bool(opened),), (four - {i}, {i}, (who + kui) % 4, True, True))
            else:
                d.equal("ankan", facts + (bool(opened),), (four, set(), who, False, False))
        else:
            code = sim.encode_kita(c[1])
            m, facts, kind = decode(d, who, code, wrapped)
            d.check(type(m) is Kita and kind == MeldType.kita, "type", "%r %r", type(m), kind)
            d.equal("kita", facts, ({c[1]}, set(), who, False))
        tiles = sorted(facts[0] | facts[1])
        with d.sut("set"):
            ts = tile_set_from_tenhou(tiles)
        d.equal("as-tiles", sut.counts_in(ts), ref.counts_of([x // 4 for x in tiles]))
    d.nontrivial(c[:3])
    d.sample = {"call": repr(c), "code": code}


def folding(d):
    """One player's calls, one after another."""
    who = d.below(4)
    free = {t: [4 * t + k for k in range(4)] for t in range(34)}
    events, model = [], []        # model: [own, borrowed, source, kind]
    for _ in range(d.between(1, 6)):
        pons = [k for k, m in enumerate(model) if m[3] == "pon"]
        kind = d.weighted([(3, "pon"), (3, "chi"), (1, "kan"), (1, "ankan"), (1, "kita"), (4, "added")])
        if kind == "added":
            if not pons:
                continue
            k = d.choice(pons)
            own, bor, src, _ = model[k]
            t = min(own) // 4
            tile = free[t][0] if free[t] else None
            if tile is None:
                continue
            free[t] = []
            code = sim.encode_added(own | bor, next(iter(bor)), (src - who) % 4, tile)
            model[k] = (own | {tile}, bor, src, "added")
            d.label("added")
            d.nontrivial((who, len(model), code))
        elif kind == "chi":
            starts = [s for s in range(27) if s % 9 <= 6 and all(free[s + k] for k in range(3))]
            s = d.choice(starts)
            ids = [d.choice(free[s + k]) for k in range(3)]
            for i in ids:
                free[i // 4].remove(i)
            called = d.choice(ids)
            code = sim.encode_chi(ids, called)
            model.append((set(ids) - {called}, {called}, (who + 3) % 4, "chi"))
        elif kind == "pon":
            t = d.choice([t for t in range(34) if len(free[t]) >= 3])
            ids = d.subset(free[t], 3)
            for i in ids:
                free[t].remove(i)
            called, kui = d.choice(ids), d.between(1, 3)
            code = sim.encode_pon(ids, called, kui)
            model.append((set(ids) - {called}, {called}, (who + kui) % 4, "pon"))
        elif kind == "kita":
            if not free[30]:
                continue
            i = free[30].pop()
            code = sim.encode_kita(i)
            model.append(({i}, set(), who, "kita"))
        else:
            t = d.choice([t for t in range(34) if len(free[t]) == 4])
            free[t] = []
            kui = d.between(1, 3) if kind == "kan" else 0
            i = 4 * t + d.below(4)
            code = sim.encode_kan(i, kui)
            four = {4 * t + k for k in range(4)}
            model.append((four - {i}, {i}, (who + kui) % 4, kind) if kui else (four, set(), who, kind))
        events.append(element(who, code))
        if d.chance(1, 4):           # somebody else calls in between
            other = (who + 1 + d.below(3)) % 4
            events.append(element(other, sim.encode_kan(4 * d.below(34), 0)))
    d.note(who=who, codes=[(e.get("who"), e.get("m")) for e in events])
    with d.sut("fold"):
        player = TenhouPlayer(who, "x", 0, 1500, "M")
        final = PlayerMeld(player).passed_events(events).value
        got = [(set(m.self_tiles), set(m.borrowed_tiles), m.from_who) for m in final]
        kinds = [type(m).__name__ for m in final]
    d.equal("folded", got, [m[:3] for m in model])
    names = {"chi": "Flush", "pon": "Triplet", "added": "KanFromTriplet", "kan": "TenhouKan", "ankan": "TenhouKan",
             "kita": "Kita"}
    d.equal("kinds", kinds, [names[m[3]] for m in model])
    d.sample = {"who": who, "calls": [m[3] for m in model]}


PARTS = [Part("codes", codes, 0, 0, exhaustive=len(CASES)), Part("folding", folding, 24000, 100000)]
