from engine import Part
import logs
import ref
from mahjong.record.reader import is_game_end
from mahjong.record.utils import event as ev

RULE = ("every event of simulated games as for C14, asked about through the event predicates, the drawn/discarded tile "
        "readers and every player's own questions (draw, discard, call, riichi, win, choice, call made), compared with "
        "what the simulator played. Non-trivial: a log with a call, a riichi and an end, per log.")
ASSUMPTIONS = ["Predicates are compared as true or false, whatever object they return."]

PREDICATES = [("is_game_init", ("init",)), ("is_open_hand", ("call",)), ("is_dora_indicator_event", ("dora",)),
              ("is_richii", ("reach1", "reach2")), ("is_somebody_win_game", ("agari",)),
              ("is_nobody_win_game", ("ryuukyoku",))]


def change(x):
    return None if x is None else (x["player"], str(x["tile"]))


def classify(d):
    log = logs.play(d, max_rounds=2)
    rec = logs.read(d, log)
    n = log.n_players
    kinds = logs.shape(d, log)
    for k, (e, info) in enumerate(zip(rec.events, log.info)):
        kind, who = info["kind"], info.get("who")
        where = "event %d %r" % (k, log.events[k])
        tile = info.get("tile")
        with d.sut("predicates"):
            got = {name: bool(getattr(ev, name)(e)) for name, _ in PREDICATES}
            got["is_game_end"] = bool(is_game_end(e))
            drawn, dropped = ev.draw_value(e), ev.discard_value(e)
            drawn_by, dropped_by = change(ev.draw_tile_change(e)), change(ev.discard_tile_change(e))
        want = {name: kind in yes for name, yes in PREDICATES}
        want["is_game_end"] = kind in ("agari", "ryuukyoku")
        d.equal("predicates:" + kind, got, want, where)
        d.equal("tile-drawn", drawn, tile if kind == "draw" else None, where)
        d.equal("tile-discarded", dropped, tile if kind == "discard" else None, where)
        d.equal("who-drew", drawn_by, (who, ref.id_name(tile)) if kind == "draw" else None, where)
        d.equal("who-discarded", dropped_by, (who, ref.id_name(tile)) if kind == "discard" else None, where)
        for p in rec.players:
            mine = who == p.index
            with d.sut("player"):
                got = {"draw": bool(p.is_draw(e)), "discard": bool(p.is_discard(e)), "call": bool(p.is_open_hand(e)),
                       "reach": bool(p.is_reach(e)), "win": bool(p.is_win(e)), "choice": bool(p.is_player_choice(e))}
            want = {"draw": mine and kind == "draw", "discard": mine and kind == "discard",
                    "call": mine and kind == "call", "reach": mine and kind in ("reach1", "reach2"),
                    "win": mine and kind == "agari", "choice": mine and kind in ("discard", "call", "agari")}
            d.equal("player:" + kind, got, want, "player %d %s" % (p.index, where))
            if mine and kind == "draw":
                with d.sut("player-tile"):
                    d.equal("player-tile", p.draw_tile_index(e), tile, where)
            elif mine and kind == "discard":
                with d.sut("player-tile"):
                    d.equal("player-tile", p.discard_tile_index(e), tile, where)
            elif mine and kind == "call":
                with d.sut("call"):
                    m = p.opened_hand_type(e)
                    facts = set(m.self_tiles), set(m.borrowed_tiles)
                own, taken = set(info["meld"].own), set(info["meld"].borrowed)
                if info["what"] == "kan_added":
                    d.equal("call-tiles", facts[0], own, where)
                else:
                    d.equal("call-tiles", facts, (own, taken), where)
    # the round of each event, and the part of it in which tiles are played
    for r, g in enumerate(rec.game_list):
        idx = [k for k, i in enumerate(log.info) if i["game"] == r]
        with d.sut("round"):
            got = ([e.timestamp for e in g.events], [e.timestamp for e in g.playing],
                   [e.timestamp for e in g.end_events])
        d.equal("round-events", got, (idx, idx[1:], [k for k in idx if log.info[k]["kind"] in ("agari", "ryuukyoku")]))
    if {"reach1"} & set(kinds) and set(kinds) & {"pon", "chi", "kan_open", "kan_closed", "kan_added", "kita"}:
        d.nontrivial(logs.key(log))
        d.sample = logs.brief(log)


PARTS = [Part("classify", classify, 4800, 30000)]
