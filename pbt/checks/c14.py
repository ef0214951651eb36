from engine import Part
import logs
from mahjong.record.utils.event import is_game_init

RULE = ("whole games played by a simulator that keeps the ground truth (3/4 players, 1-4 rounds, every call, riichi, "
        "multiple wins, abortive draws, disconnections, odd names), written as log text and read back. Non-trivial: at "
        "least two rounds, or a double win, or an abortive draw.")
ASSUMPTIONS = ["Logs are of finished games and hold one final standing."]


def record(d):
    log = logs.play(d, max_rounds=4, long_rounds=False, tricky_names=d.chance(1, 3))
    rec = logs.read(d, log)
    t, n = log.table, log.n_players
    with d.sut("players"):
        got = [(p.index, p.name, p.level, p.rate, p.sex, p.level_str(), str(p)) for p in rec.players]
    want = [(i, t.names[i], t.dan[i], float(t.rate[i]), t.sex[i], logs.RANKS[t.dan[i]],
             "%s %s R%.2f" % (t.names[i], logs.RANKS[t.dan[i]], float(t.rate[i]))) for i in range(n)]
    d.equal("players", got, want)
    with d.sut("rules"):
        rules = (rec.game_type.player_count(), rec.game_type.has_aka_dora(), rec.game_type.play_wind_count())
    d.equal("rules", rules, (n, t.has_aka, t.winds))
    # every event, in order, exactly once, in its round
    with d.sut("events"):
        seen = [(e.tag, dict(e.attrib)) for e in rec.events]
        stamps = [e.timestamp for e in rec.events]
        rounds = [[(e.tag, dict(e.attrib)) for e in g.events] for g in rec.game_list]
        marks = [is_game_init(e) for e in rec.events]
    all_events = [(tag, dict(attrs)) for tag, attrs in log.events]
    d.equal("events", seen, all_events)
    d.equal("timestamps", stamps, list(range(len(all_events))))
    d.equal("marks", marks, [i["kind"] == "init" for i in log.info])
    n_rounds = max(i["game"] for i in log.info) + 1
    want_rounds = [[all_events[k] for k, i in enumerate(log.info) if i["game"] == r] for r in range(n_rounds)]
    d.equal("rounds", rounds, want_rounds)
    doubles = aborts = 0
    for r in range(n_rounds):
        g = rec.game_list[r]
        idx = [k for k, i in enumerate(log.info) if i["game"] == r]
        s = log.snaps[idx[0]]
        with d.sut("round-facts"):
            facts = (tuple(g.game_index()), g.sub_game_index(), g.richii_counts(), g.initial_dora(), g.east_index,
                     len(g.players))
        d.equal("round-facts", facts, ((s.wind, s.round), s.honba, s.sticks, s.dora[0], s.oya, n), "round %d" % r)
        ends = []
        for k in idx:
            i = log.info[k]
            if i["kind"] == "agari":
                who = t.names[i["who"]]
                ends.append("%s:ツモ(%d)" % (who, i["score"]) if i["who"] == i["source"] else
                            "%s<-%s:ロン(%d)" % (who, t.names[i["source"]], i["score"]))
            elif i["kind"] == "ryuukyoku":
                ends.append(("流局 " + logs.DRAWS[i["type"]]))
                aborts += i["type"] is not None
        doubles += len(ends) > 1
        with d.sut("caption"):
            text, quoted, count = str(g), repr(g), len(g.end_events)
        d.equal("caption", text.rstrip(), ("%s%d局%d本 %s" % (logs.WINDS[s.wind], s.round + 1, s.honba,
                                                            ",".join(ends))).rstrip())
        d.equal("caption-repr", quoted, "<%s>" % text)
        d.equal("ends", count, len(ends))
    scores, points = log.final
    with d.sut("standings"):
        got = (list(rec.end_score)[:n], [float(x) for x in rec.end_point][:n])
        text = str(rec)
        quoted = repr(rec)
        kind = str(rec.game_type)
    d.equal("standings", got, (scores, points))
    order = sorted(range(n), key=lambda p: -scores[p])
    want = "%s %s" % (kind, ",".join("%d位:%s(%.1f)" % (k + 1, t.names[p], points[p]) for k, p in enumerate(order)))
    d.equal("summary", text, want)
    d.equal("summary-repr", quoted, "<%s>" % text)
    logs.shape(d, log)
    if doubles:
        d.label("double-win")
    if n_rounds > 1 or doubles or aborts:
        d.nontrivial(logs.key(log))
        d.sample = logs.brief(log)


PARTS = [Part("record", record, 10000, 80000)]
