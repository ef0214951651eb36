from engine import Part
import logs
import ref
import sim
from mahjong.record.state import (DiscardTiles, DoraIndicators, GameStateCollection, InvisibleTiles, PlayerHand,
                                  PlayerMeld)

RULE = ("simulated games as for C14; after every event, every player's concealed tiles, calls, discards, the dora "
        "indicators and the unseen tiles are compared with what the simulator holds; also folded per round, as one "
        "combined state, and through the events each tracker says concern it. Non-trivial: a log with a call, an added quad, a north or a second dora indicator.")
ASSUMPTIONS = ["The state of a round is defined from its first event on (and empty before the first round)."]


def meld_facts(m):
    return (frozenset(m.own), frozenset(m.borrowed), m.source)


def tracking(d):
    log = logs.play(d, max_rounds=2, aka=True)
    n = log.n_players
    rec = logs.read(d, log)
    for p in range(n):
        with d.sut("player"):
            player = rec.players[p]
            states = {"hand": PlayerHand(player), "melds": PlayerMeld(player), "river": DiscardTiles(player)}
        for name, start in states.items():
            want = []
            for s in log.snaps:
                want.append({"hand": set(s.hands[p]), "melds": [meld_facts(m) for m in s.melds[p]],
                             "river": [x[0] for x in s.discards[p]]}[name])
            with d.sut(name):
                got = [value(name, st) for st in start.with_events(rec.events)]
            compare(d, name, got, want, log, p)
            folds(d, name, start, rec, log, want)
            keys(d, name, start, rec, log, want, p)
    for name, start in (("dora", DoraIndicators()), ("unseen", InvisibleTiles(n))):
        want = [list(s.dora) if name == "dora" else sim.invisible(s, n) for s in log.snaps]
        with d.sut(name):
            got = [value(name, st) for st in start.with_events(rec.events)]
        compare(d, name, got, want, log, None)
        folds(d, name, start, rec, log, want)
        keys(d, name, start, rec, log, want, None)
    # all of them at once
    p = d.below(n)
    with d.sut("collection"):
        player = rec.players[p]
        both = GameStateCollection(hand=PlayerHand(player), unseen=InvisibleTiles(n), dora=DoraIndicators())
        got = [(set(v.hand.value), set(v.unseen.value), list(v.dora.value))
               for v in (st.value for st in both.with_events(rec.events))]
    want = [(set(s.hands[p]), sim.invisible(s, n), list(s.dora)) for s in log.snaps]
    compare(d, "collection", got, want, log, p)
    r = d.below(len(rec.game_list))
    idx = [k for k, i in enumerate(log.info) if i["game"] == r]
    with d.sut("collection-fold"):
        end = both.passed_events(rec.game_list[r].events).value
        got = set(end.hand.value), set(end.unseen.value), list(end.dora.value)
    d.equal("collection-fold", got, want[idx[-1]], "round %d" % r)
    with d.sut("collection-keys"):
        for k in (idx[0], d.choice(idx)):
            for part in ("hand", "unseen", "dora"):
                kind, who = log.info[k]["kind"], log.info[k].get("who")
                if kind in CONCERNS[part] and (part != "hand" or kind == "init" or who == p):
                    d.check(both.is_key_event(rec.events[k]), "collection-keys", "event %d %r passed over", k,
                            log.events[k])
    kinds = logs.shape(d, log)
    if set(kinds) & {"kan_added", "kita", "dora", "pon", "chi", "kan_open", "kan_closed"}:
        d.nontrivial(logs.key(log))
        d.sample = logs.brief(log)


CONCERNS = {"hand": ("init", "draw", "discard", "call"), "melds": ("init", "call"), "river": ("init", "discard"),
            "dora": ("init", "dora"), "unseen": ("init", "discard", "call", "dora")}


def keys(d, name, start, rec, log, want, p):
    """The events that matter to a tracker: the states after them are all the states there are."""
    r = d.below(len(rec.game_list))
    idx = [k for k, i in enumerate(log.info) if i["game"] == r]
    before = start if d.chance(1, 2) or r == 0 else None
    with d.sut(name + "-keys"):
        if before is None:
            before = start.passed_events(rec.game_list[r - 1].events)
        mid = [value(name, st) for st in before.with_key_events(rec.game_list[r].events)]
        state, marks = before, []
        for k in idx:
            marks.append(bool(state.is_key_event(rec.events[k])))
            state = state.scan(rec.events[k])
    for k, mark in zip(idx, marks):
        i = log.info[k]
        concerns = i["kind"] in CONCERNS[name] and (p is None or i["kind"] == "init" or i.get("who") == p)
        if not concerns:
            d.check(not mark, name + "-keys", "player %r event %d %r is none of its own", p, k, log.events[k])
        elif want[k] != want[k - 1]:
            d.check(mark, name + "-keys", "player %r event %d %r changes it", p, k, log.events[k])
    d.equal(name + "-key-states", squeeze(mid), squeeze([want[k] for k in idx]), "round %d" % r)


def squeeze(values):
    out = []
    for v in values:
        if not out or out[-1] != v:
            out.append(v)
    return out


def value(name, st):
    v = st.value
    if name == "melds":
        return [(frozenset(m.self_tiles), frozenset(m.borrowed_tiles), m.from_who) for m in v]
    return set(v) if name in ("hand", "unseen") else list(v)


def compare(d, name, got, want, log, p):
    d.equal(name + "-length", len(got), len(want))
    for k, (g, w) in enumerate(zip(got, want)):
        if g != w:
            d.fail(name, "player %r after event %d %r: got %r expected %r" % (p, k, log.events[k], g, w))


def folds(d, name, start, rec, log, want):
    """Jumping over events round by round ends where stepping does."""
    r = d.below(len(rec.game_list))
    idx = [k for k, i in enumerate(log.info) if i["game"] == r]
    cut = d.between(1, len(idx))
    with d.sut(name + "-fold"):
        first = start.passed_events(rec.game_list[r].events[:cut])
        a = value(name, first)
        b = value(name, first.passed_events(rec.game_list[r].events[cut:]))
        same = value(name, first)
        none = value(name, first.passed_events([]))
    d.equal(name + "-fold", a, want[idx[cut - 1]], "round %d, first %d events" % (r, cut))
    d.equal(name + "-fold", b, want[idx[-1]], "round %d" % r)
    d.equal(name + "-kept", (same, none), (a, a))


PARTS = [Part("tracking", tracking, 2800, 30000)]
