"""Generator of tenhou.net game logs with full ground truth.

A table of mahjong is *played*: tiles are dealt from a pool of ids, players
draw, discard, call, declare riichi, win.  The log is what tenhou would write
about that play; the truth (who holds what, what lies on the table, scores...)
is recorded from the play itself and never decoded from the log.
"""
from urllib.parse import quote
from xml.sax.saxutils import quoteattr

import ref

DRAW = "TUVW"
DISC = "DEFG"
NAMES = ["A", "かきく", "★x★", "a b", "NoName", "x-y_z", "日本語テスト", "12", "007", "é", "a,b", 'q"q', "a'b",
         "&amp;", "<b>", "1.5", "[1]", "%41", "+1", "None1", "ｱｲｳ", "a=b;c", "{x}", "\\n", "true",
         "a/b", "..", "<script>x</script>", "</td>", "a&b"]
TRICKY_NAMES = ["NA", "null", "nan", "None", "N/A", "NaN", "n/a", "NULL", "-", "1e5", "0x1", "inf", " pad"]
NAME_CHARS = ("abcxyzABCXYZ", "0123456789", " .,;:!?'\"`~^|/\\", "%&<>#+=@$*_-()[]{}", "あいうアイウ東南西北白發中", "éßøñçЖдΩ",
              "ｱ１Ａ！～", "\u05d0\u0627\u0939\u0e01", "e\u0301\u200b\u00a0\u3000\ufeff", "\U0001f004\U0001f600\U00020bb7")
DAN_MAX = 20


def made_up_name(d):
    """A name of characters of many kinds, never blank, never what a CSV reader takes for missing or a number."""
    for _ in range(9):
        n = d.between(9, 40) if d.chance(1, 10) else d.between(1, 8)
        name = "".join(d.choice(d.choice(NAME_CHARS)) for _ in range(n))
        try:
            float(name)
        except ValueError:
            if name == name.strip() != "" and name not in TRICKY_NAMES:
                return name
    return "A"
DRAW_TYPES = ["yao9", "reach4", "ron3", "kan4", "kaze4", "nm"]


class Meld:
    __slots__ = ("kind", "own", "borrowed", "source", "code", "added")

    def __init__(self, kind, own, borrowed, source, code, added=None):
        self.kind = kind                  # chi pon kan_open kan_closed kan_added kita
        self.own = frozenset(own)
        self.borrowed = frozenset(borrowed)
        self.source = source
        self.code = code
        self.added = added

    def tiles(self):
        return self.own | self.borrowed

    def type(self):
        return min(self.tiles()) // 4


def encode_chi(ids, called):
    ids = sorted(ids)
    start = ids[0] // 4
    t = ((start // 9) * 7 + start % 9) * 3 + ids.index(called)
    return 3 | 4 | (ids[0] % 4) << 3 | (ids[1] % 4) << 5 | (ids[2] % 4) << 7 | t << 10


def encode_pon(ids, called, kui):
    ids = sorted(ids)
    unused = ({0, 1, 2, 3} - {i % 4 for i in ids}).pop()
    return kui | 8 | unused << 5 | ((ids[0] // 4) * 3 + ids.index(called)) << 9


def encode_added(pon_ids, called, kui, added):
    pon_ids = sorted(pon_ids)
    return kui | 16 | (added % 4) << 5 | ((pon_ids[0] // 4) * 3 + pon_ids.index(called)) << 9


def encode_kan(tile, kui):
    return kui | tile << 8


def encode_kita(tile):
    return 32 | tile << 8


class Snapshot:
    __slots__ = ("hands", "melds", "discards", "dora", "scores", "riichi", "offline", "wind", "round",
                 "honba", "sticks", "oya", "exposed", "started", "nobody_win", "reason", "game")


class Log:
    def __init__(self):
        self.events = []       # (tag, [(attr, value)...])
        self.info = []         # dict per event: kind and its facts
        self.snaps = []        # Snapshot after each event
        self.n_players = 4

    def xml(self):
        out = ['<mjloggm ver="2.3">']
        for tag, attrs in self.events:
            out.append("<%s%s/>" % (tag, "".join(
                " %s=%s" % (k, quoteattr(v)) for k, v in attrs)))
        out.append("</mjloggm>")
        return "".join(out)

    def truncated_repr(self):
        return " ".join("<%s%s>" % (t, "".join(" %s=%s" % (k, v) for k, v in a if k not in ("shuffle",)))
                        for t, a in self.events)


class Table:
    """Plays and records one game."""

    def __init__(self, d, players=None, max_rounds=3, tricky_names=False, offline=True, names=None,
                 end_types=None, long_rounds=True, aka=None):
        self.d = d
        self.log = Log()
        self.offline_events = offline
        if players is None:
            players = 3 if d.chance(1, 3) else 4
        self.n = players
        self.log.n_players = players
        self.long_rounds = long_rounds
        south = d.chance(1, 2)
        self.has_aka = (not d.chance(1, 6)) if aka is None else aka
        bits = 1
        if not self.has_aka:
            bits |= 2
        if d.chance(1, 4):
            bits |= 4
        if south:
            bits |= 8
        if players == 3:
            bits |= 16
        bits |= d.choice([0, 32, 128, 160])
        if d.chance(1, 3):
            bits |= 64
        self.type_bits = bits
        self.winds = 2 if south else 1
        pool = list(names) if names is not None else (
            TRICKY_NAMES + NAMES if tricky_names else NAMES)
        self.names = [made_up_name(d) if d.chance(1, 5) else d.choice(pool) for _ in range(players)]
        self.name_style = d.below(3)
        self.dan = [d.between(0, DAN_MAX) for _ in range(players)]
        self.rate = [d.choice(["1500", "1500.00", "2030", "2108.53", "999.5", "1812.07", "0.00", "75.25"])
                     if d.chance(2, 3) else "%d.%02d" % (d.between(0, 2999), d.below(100)) for _ in range(players)]
        self.sex = [d.choice("MFC") for _ in range(players)]
        self.scores = [(350 if players == 3 else 250)] * players
        self.offline = [False] * players
        self.game = -1
        self.hands = [set() for _ in range(players)]
        self.melds = [[] for _ in range(players)]
        self.discards = [[] for _ in range(players)]
        self.dora = []
        self.riichi = [False] * players
        self.exposed = set()
        self.oya = 0
        self.round_index = 0
        self.honba = 0
        self.sticks = 0
        self.nobody_win = None
        self.reason = None
        self.max_rounds = max_rounds
        self.play()

    # -- recording ---------------------------------------------------------
    def emit(self, tag, attrs, **info):
        log = self.log
        log.events.append((tag, attrs))
        info["tag"] = tag
        info["attrs"] = dict(attrs)
        info["game"] = self.game
        log.info.append(info)
        s = Snapshot()
        s.game = self.game
        s.started = self.game >= 0
        s.hands = tuple(frozenset(h) for h in self.hands)
        s.melds = tuple(tuple(m) for m in self.melds)
        s.discards = tuple(tuple(x) for x in self.discards)
        s.dora = tuple(self.dora)
        s.scores = tuple(self.scores)
        s.riichi = tuple(self.riichi)
        s.offline = tuple(self.offline)
        s.wind = self.round_index // 4
        s.round = self.round_index % 4
        s.honba = self.honba
        s.sticks = self.sticks
        s.oya = self.oya
        s.exposed = frozenset(self.exposed)
        s.nobody_win = self.nobody_win
        s.reason = self.reason
        log.snaps.append(s)

    def encoded(self, name):
        """Percent-encoding: of what must be, of every byte (as the server does), or of as little as possible."""
        if self.name_style == 0:
            return quote(name)
        if self.name_style == 1:
            return "".join("%%%02X" % b for b in name.encode("utf-8"))
        return name.replace("%", "%25")

    def any_seed(self):
        d = self.d
        chars = "ABab01+/89=,-.e"
        return "mt" * d.below(2) + "".join(d.choice(chars) for _ in range(d.between(1, 60)))

    def four(self, values, fill="0"):
        values = [str(v) for v in values]
        return ",".join(values + [fill] * (4 - len(values)))

    # -- the game ----------------------------------------------------------
    def play(self):
        d = self.d
        if not d.chance(1, 5):
            self.emit("SHUFFLE", [("seed", d.choice(["mt19937ar-sha512-n288-base64,AbC+/9==",
                                                     "mt19937ar-sha512-n288,B43A38E8,A063890A",
                                                     "mt,1,2", "0123", "20231119", "NA", "1e5", "true", "-7.50",
                                                     "0x1f"]) if d.chance(2, 3) else self.any_seed()), ("ref", "")],
                      kind="shuffle")
        go = [("type", str(self.type_bits))]
        if d.chance(1, 2):
            go.append(("lobby", "0"))
        self.emit("GO", go, kind="go")
        un = [("n%d" % i, self.encoded(self.names[i])) for i in range(self.n)]
        if self.n == 3:
            un.append(("n3", ""))
        un += [("dan", self.four(self.dan)), ("rate", self.four(self.rate, "1500")),
               ("sx", self.four(self.sex, "C"))]
        self.emit("UN", un, kind="un", who=list(range(self.n)), full=True)
        first = d.below(self.n) if d.chance(1, 4) else 0
        self.oya = first
        self.emit("TAIKYOKU", [("oya", str(first))], kind="taikyoku")
        rounds = d.between(1, self.max_rounds)
        if d.chance(1, 5):                       # as in the middle of a long game
            self.honba = d.choice([1, 3, 7, 9, 10, 12, 25])
            self.sticks = d.choice([0, 1, 2, 3, 7, 10])
            self.scores = [d.choice([250, 3, 10, 12, 99, 100, 333, 487, 999, 1000, 1205]) for _ in range(self.n)]
        if self.max_rounds > 2 and not self.long_rounds and d.chance(1, 40):
            rounds = d.between(6, 14)
        limit = (self.winds + 1) * 4
        idx = d.below(limit) if d.chance(1, 3) else 0
        if self.n == 3 and idx % 4 == 3:
            idx -= 1
        for r in range(rounds):
            self.round_index = idx
            self.first_oya = first
            self.oya = (first + idx) % 4 if self.n == 4 else (first + idx % 4) % 3
            last = r == rounds - 1
            if r == 0 and self.offline_events:
                self.maybe_offline(20)           # before the first deal
            renchan = self.play_round(last)
            while not last and self.offline_events and self.maybe_offline(5):
                pass                             # between two rounds
            if renchan:
                self.honba += 1
            else:
                self.honba = self.honba + 1 if self.nobody_win else 0
                idx += 1
                if self.n == 3 and idx % 4 == 3:
                    idx += 1
                if idx >= limit:
                    idx = limit - (1 if self.n == 4 else 2)

    def draw_from_pool(self, p):
        d = self.d
        pool = self.pool
        want = self.want[p]
        if want and d.chance(self.luck[p], 10):
            cand = [i for i in pool if i in want]
            if cand:
                t = d.choice(cand)
                pool.remove(t)
                return t
        return pool.pop(d.below(len(pool)))

    def make_target(self, p):
        """A complete 14-tile hand out of the pool, as a set of ids."""
        d = self.d
        pool = {}
        for i in self.pool:
            pool.setdefault(i // 4, []).append(i)
        got = []

        def take(types):
            for t in set(types):
                if len(pool.get(t, [])) < types.count(t):
                    return False
            for t in types:
                got.append(pool[t].pop(d.below(len(pool[t]))))
            return True

        if d.chance(1, 5):
            kinds = [t for t in pool if len(pool[t]) >= 2]
            for t in d.subset(sorted(kinds), 7):
                take((t, t))
            return set(got)
        suits = d.choice([None, None, None, 0, 1, 2])
        types = sorted(t for t in pool if suits is None or t // 9 in (suits, 3))
        melds = 0
        tries = 0
        while melds < 4 and tries < 60:
            tries += 1
            t = d.choice(types)
            if d.chance(1, 3) or t >= 27 or t % 9 > 6:
                ok = take((t, t, t))
            else:
                ok = take((t, t + 1, t + 2))
            melds += ok
        for _ in range(60):
            t = d.choice(types)
            if take((t, t)):
                break
        return set(got)

    def deal_twins(self):
        """Deals two or three players ready hands that wait for the same tile, and that tile to another one."""
        d = self.d
        n = self.n
        feeder = d.below(n)
        others = d.shuffled([p for p in range(n) if p != feeder])
        others = others[:2 if n == 3 or d.chance(2, 3) else 3]
        t = d.choice([x for x in range(34) if n == 4 or not 1 <= x <= 7])
        done = []
        for p in others:
            got = []

            def take(types):
                ids = []
                for x in types:
                    left = [i for i in self.pool if i // 4 == x and i not in ids]
                    if x == t:
                        left = left[1:]          # one is kept for the feeder
                    if not left:
                        return False
                    ids.append(d.choice(left))
                for i in ids:
                    self.pool.remove(i)
                got.extend(ids)
                return True

            waits = [(t,)]
            if t < 27:
                waits += [w for w in ((t + 1, t + 2), (t - 2, t - 1), (t - 1, t + 1))
                          if min(w) >= 0 and max(w) // 9 == min(w) // 9 == t // 9]
            w = d.choice(waits)
            if not take(w):
                continue
            pairs = 0 if len(w) == 1 else 1
            melds = 4 if len(w) == 1 else 3
            for _ in range(80):
                if not pairs and not melds:
                    break
                x = d.below(34)
                if pairs:
                    pairs -= take((x, x))
                elif x >= 27 or x % 9 > 6 or d.chance(1, 3):
                    melds -= take((x, x, x))
                else:
                    melds -= take((x, x + 1, x + 2))
            self.hands[p] |= set(got)
            self.want[p] = set(got)
            self.luck[p] = 0
            done.append(p)
        left = [i for i in self.pool if i // 4 == t]
        if done and left:
            self.pool.remove(left[0])
            self.hands[feeder].add(left[0])
            self.feed = (feeder, t)
        return tuple(done)

    def counts(self, p, extra=None, without=None):
        c = [0] * 34
        for i in self.hands[p]:
            if i != without:
                c[i // 4] += 1
        if extra is not None:
            c[extra // 4] += 1
        return c

    def n_fixed(self, p):
        return sum(1 for m in self.melds[p] if m.kind != "kita")

    def distance(self, p, extra=None, without=None):
        c = self.counts(p, extra, without)
        melds = 4 - self.n_fixed(p)
        best = ref.shanten(c, ("n", melds))
        if not self.melds[p]:
            best = min(best, ref.shanten(c, ("7",)))
        return best

    def complete(self, p, extra=None):
        return self.distance(p, extra) == -1

    def closed(self, p):
        return all(m.kind in ("kan_closed", "kita") for m in self.melds[p])

    def play_round(self, last):
        d = self.d
        n = self.n
        self.game += 1
        self.last = last
        self.hands = [set() for _ in range(n)]
        self.melds = [[] for _ in range(n)]
        self.discards = [[] for _ in range(n)]
        self.riichi = [False] * n
        self.exposed = set()
        self.drawn = [None] * n
        self.reach_pending = None
        self.kans = 0
        self.nobody_win = None
        self.reason = None
        self.pool = [i for i in range(136) if n == 4 or not 4 <= i < 32]
        self.left = 70 if n == 4 else 55
        self.want = [set() for _ in range(n)]
        self.luck = [0] * n
        if d.chance(1, 8):          # a table full of calls: few tile types in play early
            self.luck_style = "calls"
        else:
            self.luck_style = "plain"
        order = [(self.oya + k) % n for k in range(n)]
        self.feed = None            # (who, type): somebody holds what several players wait for
        twins = self.deal_twins() if d.chance(1, 5) else ()
        for p in range(n):
            if p in twins:
                continue
            mode = d.weighted([(2, "random"), (4, "near"), (3, "mid"), (1, "ready")])
            if mode != "random":
                self.want[p] = self.make_target(p)
                self.luck[p] = {"near": 5, "mid": 3, "ready": 8}[mode]
                have = {"near": 10, "mid": 7, "ready": 13}[mode]
                mine = d.subset(sorted(self.want[p]), min(13 - len(self.hands[p]), have))
                for t in mine:
                    if t in self.pool:
                        self.hands[p].add(t)
                        self.pool.remove(t)
        quad = d.chance(1, 5)       # deal somebody three of a kind so that kans happen
        for p in order:
            while len(self.hands[p]) < 13:
                if quad and len(self.hands[p]) <= 10:
                    t = self.pool[d.below(len(self.pool))]
                    group = [i for i in self.pool if i // 4 == t // 4][:3]
                    for i in group:
                        self.hands[p].add(i)
                        self.pool.remove(i)
                else:
                    t = self.pool.pop(d.below(len(self.pool)))
                    self.hands[p].add(t)
        ind = self.pool.pop(d.below(len(self.pool)))
        self.dora = [ind]
        self.exposed.add(ind)
        attrs = [("seed", ",".join(str(x) for x in (self.round_index, self.honba, self.sticks,
                                                    d.below(6), d.below(6), ind))),
                 ("ten", self.four(self.scores)), ("oya", str(self.oya))]
        dealt = []
        for p in range(n):
            hs = d.shuffled(sorted(self.hands[p])) if d.chance(1, 3) else sorted(self.hands[p])
            dealt.append(hs)
            attrs.append(("hai%d" % p, ",".join(map(str, hs))))
        if n == 3:
            attrs.append(("hai3", ""))
        if d.chance(1, 4):
            attrs.append(("shuffle", "mt19937ar,5EE931AE,6705E689"))
        self.emit("INIT", attrs, kind="init", dealt=dealt)
        if self.long_rounds:
            turns = 200 if d.chance(1, 4) else d.between(1, 40)
        else:
            turns = d.between(1, 14)
        p = self.oya
        rinshan = False
        must_draw = True
        first_go = True
        steps = 0
        while True:
            if self.offline_events:
                self.maybe_offline()
            if must_draw:
                if self.left <= 0 or steps >= turns:
                    return self.ryuukyoku(None if self.left <= 0 else "auto")
                self.left -= 1
                steps += 1
                t = self.draw_from_pool(p)
                self.hands[p].add(t)
                self.drawn[p] = t
                self.emit("%s%d" % (DRAW[p], t), [], kind="draw", who=p, tile=t)
                if rinshan and self.pending_dora:
                    self.reveal_dora()
                rinshan = False
                if self.complete(p) and d.chance(2, 3):
                    return self.agari([(p, p, t)])
                if first_go and steps <= n and not any(self.melds) and \
                        len({i // 4 for i in self.hands[p] if i // 4 >= 27 or i // 4 % 9 in (0, 8)}) >= 9 \
                        and d.chance(1, 2):
                    return self.ryuukyoku("yao9")
                act = self.own_kan(p)
                if act == "kita":
                    must_draw, rinshan = True, True
                    continue
                if act == "kan":
                    robbed = self.robbed
                    if robbed:
                        return self.agari(robbed)
                    must_draw, rinshan = True, True
                    continue
            first_go = first_go and steps < n
            # discard
            tile = self.choose_discard(p)
            self.hands[p].discard(tile)
            from_hand = tile != self.drawn[p]
            self.drawn[p] = None
            self.discards[p].append((tile, from_hand))
            self.exposed.add(tile)
            self.emit("%s%d" % (DISC[p], tile), [], kind="discard", who=p, tile=tile, from_hand=from_hand)
            winners = []
            for k in range(1, n):
                q = (p + k) % n
                if self.complete(q, tile) and d.chance(2, 3):
                    winners.append(q)
            if len(winners) == 3 and d.chance(1, 2):
                return self.ryuukyoku("ron3")
            if winners:
                return self.agari([(q, p, tile) for q in winners])
            if self.reach_pending == p:
                self.reach_pending = None
                self.scores[p] -= 10
                self.sticks += 1
                self.emit("REACH", [("who", str(p)), ("ten", self.four(self.scores)), ("step", "2")],
                          kind="reach2", who=p)
                if n == 4 and all(self.riichi):
                    return self.ryuukyoku("reach4")
            if self.kans == 4 and d.chance(1, 2):
                return self.ryuukyoku("kan4")
            if steps == n == 4 and not any(self.melds) and first_go and d.chance(1, 20):
                return self.ryuukyoku("kaze4")
            called = self.calls(p, tile)
            if called is None:
                p = (p + 1) % n
                must_draw = True
            else:
                p, how = called
                must_draw = how == "kan"
                rinshan = how == "kan"

    # -- actions -----------------------------------------------------------
    def maybe_offline(self, odds=30):
        d = self.d
        if not d.chance(1, odds):
            return False
        p = d.below(self.n)
        if self.offline[p]:
            self.offline[p] = False
            attrs = [("n%d" % p, self.encoded(self.names[p]))]
            if d.chance(1, 4):
                attrs += [("dan", self.four(self.dan)), ("rate", self.four(self.rate, "1500")),
                          ("sx", self.four(self.sex, "C"))]
                full = True
            else:
                full = False
            self.emit("UN", attrs, kind="un", who=[p], full=full)
        else:
            self.offline[p] = True
            self.emit("BYE", [("who", str(p))], kind="bye", who=p)
        return True

    def reveal_dora(self):
        self.pending_dora = False
        if len(self.dora) >= 5:
            return
        t = self.pool.pop(self.d.below(len(self.pool)))
        self.dora.append(t)
        self.exposed.add(t)
        self.emit("DORA", [("hai", str(t))], kind="dora", tile=t)

    pending_dora = False
    robbed = None

    def after_kan(self):
        self.kans += 1
        self.pending_dora = True
        if self.d.chance(1, 2):
            self.reveal_dora()

    def own_kan(self, p):
        d = self.d
        self.robbed = None
        hand = self.hands[p]
        if self.n == 3:
            norths = sorted(i for i in hand if i // 4 == 30)
            if self.riichi[p]:
                norths = [i for i in norths if i == self.drawn[p]]
            if norths and self.left > 0 and d.chance(2, 3):
                t = d.choice(norths)
                m = Meld("kita", [t], [], p, encode_kita(t))
                self.apply_meld(p, m)
                return "kita"
        if self.kans >= 4 or self.left <= 0:
            return None
        c = self.counts(p)
        quads = [t for t in range(34) if c[t] == 4]
        if self.riichi[p]:
            quads = [t for t in quads if self.drawn[p] is not None and self.drawn[p] // 4 == t]
        if quads and d.chance(1, 2):
            t = d.choice(quads)
            ids = range(t * 4, t * 4 + 4)
            m = Meld("kan_closed", ids, [], p, encode_kan(d.choice(list(ids)), 0))
            self.apply_meld(p, m)
            self.after_kan()
            return "kan"
        if not self.riichi[p]:
            adds = [(k, m) for k, m in enumerate(self.melds[p]) if m.kind == "pon" and c[m.type()] == 1]
            if adds and d.chance(2, 3):
                k, m = d.choice(adds)
                tile = next(i for i in hand if i // 4 == m.type())
                called = next(iter(m.borrowed))
                kui = (m.source - p) % 4
                code = encode_added(m.tiles(), called, kui, tile)
                new = Meld("kan_added", m.own | {tile}, m.borrowed, m.source, m.code, added=tile)
                ev = Meld("added_event", [tile], [], m.source, code)
                self.hands[p].discard(tile)
                self.exposed.add(tile)
                self.melds[p][k] = new
                self.emit("N", [("who", str(p)), ("m", str(code))], kind="call", who=p, meld=ev,
                          what="kan_added")
                rob = [q for q in range(self.n) if q != p and self.complete(q, tile)]
                rob = [q for q in rob if d.chance(2, 3)]
                if rob:
                    rob.sort(key=lambda q: (q - p) % self.n)
                    self.robbed = [(q, p, tile) for q in rob[:2]]
                else:
                    self.after_kan()
                return "kan"
        return None

    def apply_meld(self, p, m):
        self.hands[p] -= m.own
        self.exposed |= m.own
        self.melds[p].append(m)
        self.emit("N", [("who", str(p)), ("m", str(m.code))], kind="call", who=p, meld=m, what=m.kind)

    def choose_discard(self, p):
        d = self.d
        hand = sorted(self.hands[p])
        if self.riichi[p]:
            return self.drawn[p]
        if self.closed(p) and self.scores[p] >= 10 and self.left >= 4 and self.drawn[p] is not None:
            ok = None
            if self.distance(p) <= 0:
                ok = [i for i in hand if self.distance(p, without=i) <= 0]
            if ok and d.chance(2, 3):
                self.riichi[p] = True
                self.reach_pending = p
                self.emit("REACH", [("who", str(p)), ("step", "1")], kind="reach1", who=p)
                return d.choice(ok)
        if self.feed and self.feed[0] == p:
            ok = [i for i in hand if i // 4 == self.feed[1]]
            if ok and d.chance(2, 3):
                return d.choice(ok)
        r = d.below(10)
        if r < 2 and self.drawn[p] is not None:
            return self.drawn[p]
        if r < 9 and self.want[p]:
            cand = [i for i in hand if i not in self.want[p]]
            if cand:
                return d.choice(cand)
        return d.choice(hand)

    def calls(self, p, tile):
        d = self.d
        n = self.n
        if self.left <= 0:
            return None
        eager = 3 if self.luck_style == "calls" else 1
        for k in range(1, n):
            q = (p + k) % n
            if self.riichi[q]:
                continue
            same = sorted(i for i in self.hands[q] if i // 4 == tile // 4)
            kui = (p - q) % 4
            if len(same) == 3 and self.kans < 4 and d.chance(1, 2):
                m = Meld("kan_open", same, [tile], p, encode_kan(tile, kui))
                self.apply_meld(q, m)
                self.drawn[q] = None
                self.after_kan()
                return q, "kan"
            if len(same) >= 2 and d.chance(eager, 3):
                own = d.subset(same, 2)
                m = Meld("pon", own, [tile], p, encode_pon(own + [tile], tile, kui))
                self.apply_meld(q, m)
                self.drawn[q] = None
                return q, "pon"
        if n == 4:
            q = (p + 1) % 4
            t = tile // 4
            if not self.riichi[q] and t < 27:
                held = {}
                for i in sorted(self.hands[q]):
                    held.setdefault(i // 4, []).append(i)
                options = []
                for s in (t - 2, t - 1, t):
                    if s // 9 == t // 9 and s % 9 <= 6 and s >= 0:
                        need = [x for x in (s, s + 1, s + 2) if x != t]
                        if all(x in held for x in need):
                            options.append(need)
                if options and d.chance(eager, 4):
                    need = d.choice(options)
                    own = [d.choice(held[x]) for x in need]
                    m = Meld("chi", own, [tile], p, encode_chi(own + [tile], tile))
                    self.apply_meld(q, m)
                    self.drawn[q] = None
                    return q, "chi"
        return None

    # -- round ends --------------------------------------------------------
    def owari_attr(self):
        d = self.d
        pts = [d.choice(["66", "5", "-5", "-61", "12.5", "-10.0", "0"]) if d.chance(2, 3)
               else "%d.%d" % (d.between(-99, 140), d.below(10)) for _ in range(self.n)]
        vals = []
        total = list(self.scores)
        if d.chance(3, 4):                       # sticks left on the table go to the leader
            total[total.index(max(total))] += 10 * self.sticks
        for s, pt in zip(total, pts):
            vals += [str(s), pt]
        while len(vals) < 8:
            vals += ["0", "0"]
        self.final = (total, [float(x) for x in pts])
        self.log.final = self.final
        return ("owari", ",".join(vals))

    def settle(self, deltas):
        """Returns the sc attribute and applies the deltas."""
        vals = []
        for s, dl in zip(self.scores, deltas):
            vals += [str(s), str(dl)]
        while len(vals) < 8:
            vals += ["0", "0"]
        before = list(self.scores)
        self.scores = [s + dl for s, dl in zip(self.scores, deltas)]
        return ("sc", ",".join(vals)), before

    def agari(self, wins):
        d = self.d
        n = self.n
        honba, sticks = self.honba, self.sticks
        for k, (who, src, tile) in enumerate(wins):
            unit = d.choice([10, 13, 20, 39, 80, 120, 320]) if d.chance(2, 3) else d.between(3, 480)
            deltas = [0] * n
            if who == src:
                for q in range(n):
                    if q != who:
                        part = unit * (2 if self.oya in (q, who) else 1)
                        deltas[q] -= part
                        deltas[who] += part
            else:
                deltas[src] -= unit
                deltas[who] += unit
            score = deltas[who] * 100            # the value of the hand, before counters and sticks
            if k == 0:
                for q in range(n):
                    pays = (1 if src == who else (n - 1) * (q == src)) * honba * (q != who)
                    deltas[q] -= pays
                    deltas[who] += pays
            deltas[who] += 10 * self.sticks
            ba = "%d,%d" % (honba, self.sticks)
            self.sticks = 0
            hai = set(self.hands[who]) | {tile}
            attrs = [("ba", ba), ("hai", ",".join(map(str, sorted(hai))))]
            if self.melds[who]:
                attrs.append(("m", ",".join(str(m.code) for m in reversed(self.melds[who]))))
            attrs += [("machi", str(tile)), ("ten", "%d,%d,%d" % (d.choice([20, 30, 40, 25, 110]), score,
                                                                  d.below(6)))]
            if d.chance(1, 5):
                yaku = d.subset(list(range(37, 52)), d.between(1, 2))
                attrs.append(("yakuman", ",".join(map(str, yaku))))
            else:
                yaku = d.subset(list(range(0, 37)), d.between(1, 4)) + d.subset([52, 53, 54], d.below(4))
                hans = [d.choice([1, 2, 3, 1, 0, 6]) for _ in yaku]
                attrs.append(("yaku", ",".join("%d,%d" % x for x in zip(yaku, hans))))
            attrs.append(("doraHai", ",".join(map(str, self.dora))))
            if self.riichi[who]:
                hidden = [i for i in range(136) if i not in self.dora and i not in hai][::7][:len(self.dora)]
                attrs.append(("doraHaiUra", ",".join(map(str, hidden))))
            attrs += [("who", str(who)), ("fromWho", str(src))]
            if attrs[-3][0] != "doraHaiUra" and {39, 49} & set(yaku):     # a player answers for the feeding of it
                attrs.append(("paoWho", str((who + 1) % n)))
            sc, before = self.settle(deltas)
            attrs.append(sc)
            final = self.last and k == len(wins) - 1
            if final:
                attrs.append(self.owari_attr())
            self.nobody_win = False
            self.emit("AGARI", attrs, kind="agari", who=who, source=src, machi=tile, yaku=yaku,
                      before=before, deltas=deltas, score=score, final=final)
        return any(w[0] == self.oya for w in wins)

    def ryuukyoku(self, typ):
        d = self.d
        n = self.n
        if typ == "auto":
            typ = d.choice([None, "nm"] + DRAW_TYPES)
        elif typ is None:
            typ = d.choice([None, None, "nm"])
        tenpai = [self.distance(p) <= 0 for p in range(n)]
        deltas = [0] * n
        if typ is None and any(tenpai) and not all(tenpai):
            k = sum(tenpai)
            pot = 30 if n == 4 else 20
            deltas = [pot // k if t else -pot // (n - k) for t in tenpai]
        elif typ == "nm":
            w = d.below(n)
            deltas = [-20] * n
            deltas[w] = 20 * (n - 1)
        attrs = []
        if typ is not None:
            attrs.append(("type", typ))
        attrs.append(("ba", "%d,%d" % (self.honba, self.sticks)))
        sc, before = self.settle(deltas)
        attrs.append(sc)
        for p in range(n):
            if tenpai[p] and typ in (None, "nm"):
                attrs.append(("hai%d" % p, ",".join(map(str, sorted(self.hands[p])))))
        if self.last:
            attrs.append(self.owari_attr())
        self.nobody_win = True
        self.reason = typ
        self.emit("RYUUKYOKU", attrs, kind="ryuukyoku", type=typ, before=before, deltas=deltas,
                  final=self.last)
        return tenpai[self.oya]


def play(d, **kw):
    t = Table(d, **kw)
    t.log.table = t
    return t.log


def invisible(snap, n_players):
    ids = set(i for i in range(136) if n_players == 4 or not 4 <= i < 32)
    return ids - snap.exposed
