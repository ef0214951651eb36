from collections import Counter

from engine import Part
import logs
import ref

RULE = ("simulated games as for C14; the exported row list of the game and of each round is compared with rows "
        "derived from the simulator's own play. Non-trivial: a log with at least one call and one riichi or draw.")
ASSUMPTIONS = ["Tile order inside one exported field is free, except that a claimed tile comes first; event-type names "
               "are compared without surrounding blanks.", "Tiles 16/52/88 are written as red fives even in games "
               "played without them (the log format does not distinguish them)."]
CALL = {"chi": "CHI", "pon": "PENG", "kan_added": "GANG", "kan_open": "MINGGANG", "kan_closed": "ANGANG",
        "kita": "KITA"}


def norm(row):
    r = {k: v for k, v in row.items()}
    d = {"event_type": r.pop("event_type").strip(), "game_str": r.pop("game_str", None)}
    if "player_show" in r:
        d["player_show"] = sorted(logs.split_names(r.pop("player_show")))
    if "player_open" in r:
        parts = logs.split_names(r.pop("player_open"))
        d["open"] = (parts[:1], sorted(parts))
    if "player_see" in r:
        d["player_see"] = sorted(logs.split_names(r.pop("player_see")))
    if "score" in r:
        d["score"] = int(r.pop("score"))
    d.update(r)
    return d


def n1(i):
    return ref.id_name(i)


def rows(log):
    n = log.n_players
    for info, s in zip(log.info, log.snaps):
        if info["game"] < 0:
            continue
        tag = "%s-%d-%d" % ("ESWN"[s.wind], s.round + 1, s.honba)
        k = info["kind"]
        out = []
        if k == "init":
            for p in range(n):
                out.append({"event_type": "INIT%d" % (p + 1), "player": str(p), "score": s.scores[p] * 100,
                            "player_see": logs.names(s.hands[p])})
            t = [n1(s.dora[0])]
            out.append({"event_type": "DORA", "player": "0", "player_see": t, "player_show": t})
            out.append({"event_type": "ROUND", "score": s.sticks * 1000})
        elif k == "draw":
            out.append({"event_type": "DRAW", "player": str(info["who"]), "player_see": [n1(info["tile"])]})
        elif k == "discard":
            out.append({"event_type": "DISCARD", "player": str(info["who"]), "player_show": [n1(info["tile"])]})
        elif k == "call":
            m, what = info["meld"], info["what"]
            row = {"event_type": CALL[what], "player": str(info["who"]), "player_show": logs.names(m.own)}
            first = [n1(i) for i in m.borrowed]
            row["open"] = (first, sorted(first + logs.names(m.own)))
            if what != "kita":
                row["origin"] = str(m.source)
            out.append(row)
        elif k == "reach1":
            out.append({"event_type": "CALLRICHI", "player": str(info["who"])})
        elif k == "reach2":
            out.append({"event_type": "RICHI", "player": str(info["who"])})
            out.append({"event_type": "SCORE", "player": str(info["who"]), "score": -1000})
        elif k == "dora":
            t = [n1(info["tile"])]
            out.append({"event_type": "DORA", "player": "0", "player_see": t, "player_show": t})
        elif k == "agari":
            out.append({"event_type": "WIN", "player": str(info["who"]), "origin": str(info["source"])})
        elif k == "ryuukyoku":
            out.append({"event_type": "EVEN", "origin": logs.DRAWS[info["type"]]})
        for row in out:
            row["game_str"] = tag
            yield info["game"], row


def export(d):
    log = logs.play(d, max_rounds=3)
    rec = logs.read(d, log)
    with d.sut("paifu"):
        got = [norm(r) for r in rec.to_paifu()]
        per_round = [[norm(r) for r in g.to_paifu()] for g in rec.game_list]
    want = list(rows(log))
    fins = [{"event_type": "FIN%d" % (p + 1), "player": str(p), "score": log.final[0][p] * 100, "game_str": None}
            for p in range(log.n_players)]
    for row in [r for _, r in want]:
        if "open" in row and not row["open"][0]:
            row["open"] = ("any", row["open"][1])
    expected = [r for _, r in want] + fins
    match(d, "rows", got, expected)
    for r, rows_ in enumerate(per_round):
        match(d, "round-rows", rows_, [row for g, row in want if g == r])
    kinds = logs.shape(d, log)
    if set(kinds) & set(CALL) and set(kinds) & {"reach1", "ryuukyoku"}:
        d.nontrivial(logs.key(log))
        d.sample = logs.brief(log)


def match(d, tag, got, want):
    for k, (g, w) in enumerate(zip(got, want)):
        if "open" in w and "open" in g and w["open"][0] == "any":
            g = dict(g, open=("any", g["open"][1]))
        if g != w:
            d.fail(tag + ":" + w["event_type"], "row %d: got %r expected %r" % (k, g, w))
    d.equal(tag + "-count", len(got), len(want))


PARTS = [Part("export", export, 7500, 80000)]
