"""Expected universal state of a simulated game, derived from the play itself."""
import json
import math

import logs
import ref
from mahjong.record.universe.command import GameCommand
from mahjong.record.universe.executor import GameExecutor
from mahjong.record.universe.format import EventType, GameView, PlayerId, PlayerView, RecordView, Update, ViewScope
from mahjong.record.universe.tenhou import to_command_iter, to_command_records, to_commands

YAKU = ("門前清自摸和 立直 一発 槍槓 嶺上開花 海底摸月 河底撈魚 平和 断幺九 一盃口 自風_東 自風_南 自風_西 自風_北 "
        "場風_東 場風_南 場風_西 場風_北 役牌_白 役牌_發 役牌_中 両立直 七対子 混全帯幺九 一気通貫 三色同順 三色同刻 "
        "三槓子 対々和 三暗刻 小三元 混老頭 二盃口 純全帯幺九 混一色 清一色 人和 天和 地和 大三元 四暗刻 四暗刻単騎 "
        "字一色 緑一色 清老頭 九蓮宝燈 純正九蓮宝燈 国士無双 国士無双１３面 大四喜 小四喜 四槓子 ドラ 裏ドラ "
        "赤ドラ").split()
YAKU = [y.replace("_", " ") for y in YAKU]
TILES = "tiles"       # compared as a multiset


def bag(x):
    return sorted(x)


class Expect:
    """Walks the simulator's record and says what every property must be after
    each event: {(scope, player, property): (kind, value)}."""

    def __init__(self, log):
        self.log = log
        self.state = {}

    def put(self, scope, who, prop, value, kind=None):
        self.state[(scope, who, prop)] = (kind, value)

    def steps(self):
        log, t, n = self.log, self.log.table, self.log.n_players
        aka = True
        put = self.put
        for info, s in zip(log.info, log.snaps):
            k = info["kind"]
            if k == "shuffle":
                put("record", None, "seed", info["attrs"]["seed"])
            elif k == "go":
                b = t.type_bits
                tips = bool(b >> 9 & 1)
                level = 2 * (b >> 5 & 1) + (b >> 7 & 1)
                put("record", None, "play_level", ("若銀琥孔" if tips else "般上特鳳")[level])
                put("record", None, "has_aka_dora", t.has_aka)
                put("record", None, "show_discard_shadow", bool(b >> 8 & 1))
                put("record", None, "play_wind_count", t.winds)
                put("record", None, "allow_tanyao_open", not b >> 2 & 1)
                put("record", None, "speed_up", bool(b >> 6 & 1))
                put("record", None, "player_count", n)
                put("record", None, "using_tiles",
                    bag(ref.id_name(i) if t.has_aka else ref.type_name(i // 4) for i in range(136)
                        if n == 4 or not 4 <= i < 32), TILES)
            elif k == "un":
                for p in info["who"]:
                    put("player", p, "disconnected", False)
                    put("player", p, "name", t.names[p])
                    if info["full"]:
                        put("player", p, "level", logs.RANKS[t.dan[p]])
                        put("player", p, "extra_level", float(t.rate[p]))
            elif k == "bye":
                put("player", info["who"], "disconnected", True)
            elif k == "taikyoku":
                put("game", None, "dealer", s.oya)
                for p in range(n):
                    put("player", p, "is_dealer", p == s.oya)
            elif k == "init":
                put("game", None, "dealer", s.oya)
                put("game", None, "wind", s.wind)
                put("game", None, "round", s.round)
                put("game", None, "sub_round", s.honba)
                put("game", None, "richii_remain_scores", s.sticks * 1000)
                for p in range(n):
                    put("player", p, "is_dealer", p == s.oya)
                    put("player", p, "in_richii", False)
                    put("player", p, "discard_tiles", [])
                    put("player", p, "discard_from_hand", [])
                    put("player", p, "fixed_meld", [])
                    put("player", p, "meld_public_tiles", [], TILES)
                    put("player", p, "bonus_tiles", [], TILES)
                    put("player", p, "round", 0)
            if k == "call":
                m, p = info["meld"], info["who"]
                if info["what"] == "kita":
                    old = self.state[("player", p, "bonus_tiles")][1]
                    put("player", p, "bonus_tiles", bag(old + logs.names(m.own)), TILES)
                else:
                    old = self.state[("player", p, "fixed_meld")][1]
                    put("player", p, "fixed_meld", old + [logs.names(m.tiles())], "melds")
                old = self.state[("player", p, "meld_public_tiles")][1]
                put("player", p, "meld_public_tiles", bag(old + logs.names(m.own)), TILES)
            elif k == "reach1":
                put("player", info["who"], "in_richii", True)
            elif k == "discard":
                p = info["who"]
                put("player", p, "round", self.state[("player", p, "round")][1] + 1)
            elif k == "ryuukyoku":
                put("game", None, "nobody_win", True)
                put("game", None, "extra_reason", logs.DRAWS[info["type"]] if info["type"] else "EXHAUSTED")
                for p in range(n):
                    self.outcome(p, False, False, False, [])
            elif k == "agari":
                put("game", None, "nobody_win", False)
                w, src = info["who"], info["source"]
                names = [YAKU[y] for y in info["yaku"]]
                for p in range(n):
                    lose = w != src and p == src
                    part = w == src or lose or p == w
                    self.outcome(p, p == w, w == src, lose, names if part else [])
            if info.get("final"):
                scores, points = log.final
                order = sorted(range(n), key=lambda p: (-scores[p], p))
                for p in range(n):
                    put("player", p, "final_score", scores[p] * 100)
                    put("player", p, "final_point", points[p])
                    put("player", p, "rank", order.index(p) + 1)
            if s.started:
                put("game", None, "dora_indicators", [ref.id_name(i) for i in s.dora])
                for p in range(n):
                    put("player", p, "hand", logs.names(s.hands[p]), TILES)
                    put("player", p, "score", s.scores[p] * 100)
                    put("player", p, "discard_tiles", [ref.id_name(x[0]) for x in s.discards[p]])
                    put("player", p, "discard_from_hand", [bool(x[1]) for x in s.discards[p]])
            yield self.state

    def outcome(self, p, win, self_win, lose, yaku):
        self.put("player", p, "is_win", win)
        self.put("player", p, "is_self_win", self_win)
        self.put("player", p, "is_discard_lose_game", lose)
        self.put("player", p, "faans", yaku)


VIEWS = {"record": RecordView, "game": GameView, "player": PlayerView}


def part_of(state, scope, who):
    d = state[ViewScope[scope]]
    return d["single"] if who is None else d[PlayerId(who)]


def normal(kind, value):
    if kind == TILES:
        return bag(value)
    if kind == "melds":
        return [bag(m) for m in value]
    return value


def read_state(state, n):
    """Everything the executor holds, as {(scope, who, property): value}."""
    out = {}
    for scope, view in VIEWS.items():
        for who in ([None] if scope != "player" else range(4)):
            part = part_of(state, scope, who)
            for prop in view.all_properties():
                if prop in part:
                    out[(scope, who, prop.name)] = part[prop]
    return out
