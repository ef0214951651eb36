from engine import Part, Discard
import gen
import logs
import ref
import report
import sim
from mahjong.record.checker import TenhouChecker

RULE = ("simulated games (one or two rounds, 3/4 players, calls, norths, riichi, red fives); the report page of one "
        "player is read back row by row and compared with an exhaustive reference over every discard of every turn. "
        "Non-trivial: a report with a turn whose choice is not among the best, or made after a riichi, or with calls "
        "on the table.")
ASSUMPTIONS = ["A red five and a five are one choice; ties in the list may come in any order; hands with more than 8 "
               "kinds of terminals/honours are left out for run time only.",
               "A call uses up one meld of the ordinary shape and rules out seven pairs, a north does neither."]
CHECKER = []


def checker(d):
    if not CHECKER:
        with d.sut("template"):
            CHECKER.append(TenhouChecker())
    return CHECKER[0]


def plain(name):
    return ("5" if name[0] == "0" else name[0]) + name[1]


def counts_of(ids):
    c = [0] * 34
    for i in ids:
        c[i // 4] += 1
    return c


class Turn:
    """What ought to be said about discarding `tile` from `hand`."""

    def __init__(self, hand, melds, unseen, tile):
        counts = counts_of(hand)
        calls = sum(1 for m in melds if m.kind != "kita")
        self.kinds = [("n", 4 - calls)] + ([("7",)] if not calls else [])
        self.unseen = unseen
        self.per_kind = []
        table = {}
        for kind in self.kinds:
            base = ref.shanten(counts, kind)
            rows = {}
            for t in range(34):
                if counts[t]:
                    c = list(counts)
                    c[t] -= 1
                    s = ref.shanten(c, kind)
                    u = ref.useful(c, kind)
                    table.setdefault(t, []).append((s, u))
                    if s == base or base < 0:
                        rows[t] = (s, self.count(u), u)
            self.per_kind.append(rows)
        self.best_step = min(s for v in table.values() for s, _ in v)
        self.every = {t: self.merge(v) for t, v in table.items()}
        self.merged = {t: v for t, v in self.every.items() if v[0] == self.best_step}
        top = max(v[1] for v in self.merged.values())
        self.best = {t for t, v in self.merged.items() if v[1] == top}
        self.best_count = top
        self.yours = self.every[tile // 4]
        ahead = self.yours[0] - self.best_step
        if top:
            self.weight = 1 - self.yours[1] / (top * len(unseen) ** ahead)
        else:
            self.weight = 0 if ahead == 0 else 1
        self.good = tile // 4 in self.best

    def count(self, types):
        return sum(1 for i in self.unseen if i // 4 in types)

    def merge(self, v):
        s = min(x for x, _ in v)
        u = set().union(*(y for x, y in v if x == s))
        return (s, self.count(u), u)


def entries(d, what, got, want, by_key):
    seen = {}
    for tiles, step, count, useful in got:
        d.equal(what + ":one-tile", len(tiles), 1)
        t = ref.type_of_name(plain(tiles[0]))
        d.check(t not in seen, what + ":twice", "%s", tiles[0])
        d.equal(what + ":repeats", len(set(useful)), len(useful))
        seen[t] = (step, count, {ref.type_of_name(plain(u)) for u in useful})
    for t in sorted(set(seen) | set(want)):
        if seen.get(t) != want.get(t):
            d.fail(what, "discard %s: got %r expected %r" % (ref.type_name(t), seen.get(t), want.get(t)))
    order = [(s, -c) for _, s, c, _ in got]
    if by_key:
        d.equal(what + ":order", order, sorted(order))


def reports(d):
    log = logs.play(d, max_rounds=d.between(1, 2), long_rounds=d.chance(1, 6), aka=True)
    n = log.n_players
    p = d.below(n)
    turns = [k for k, i in enumerate(log.info) if i["kind"] == "discard" and i["who"] == p]
    if not turns or len(turns) > (16 if d.chance(7, 8) else 40):
        raise Discard()
    if any(gen.orphans(counts_of(log.snaps[k - 1].hands[p])) > 8 for k in turns):
        raise Discard()
    d.note(player=p)
    rec = logs.read(d, log)
    ck = checker(d)
    with d.sut("report"):
        html = ck.parse(rec, p)
    page = report.read(html)
    d.equal("rounds", len(page["games"]), len(rec.game_list))
    d.equal("captions", [g["caption"] for g in page["games"]], [str(g) for g in rec.game_list])
    interesting = False
    for r, game in enumerate(page["games"]):
        mine = [k for k in turns if log.info[k]["game"] == r]
        d.equal("one-row-per-discard", len(game["rows"]), len(mine), "round %d" % r)
        for j, (k, row) in enumerate(zip(mine, game["rows"])):
            s = log.snaps[k - 1]
            hand, tile = s.hands[p], log.info[k]["tile"]
            melds = s.melds[p]
            where = "event %d %r" % (k, log.events[k])
            turn = Turn(hand, melds, sim.invisible(s, n) - hand, tile)
            d.equal("turn-number", row["no"], str(j + 1))
            d.equal("hand", sorted(row["hand"]), logs.names(hand), where)
            d.equal("calls", sorted(sorted(m) for m in row["melds"]),
                    sorted(logs.names(m.own | m.borrowed) for m in melds), where)
            d.equal("your-choice", row["yours"], [ref.id_name(tile)], where)
            d.equal("your-value", row["actual"], turn.yours[:2], where)
            d.equal("best-value", row["expected"], (turn.best_step, turn.best_count), where)
            best = [ref.type_of_name(plain(x)) for x in row["best"]]
            d.equal("best-choices", sorted(best), sorted(turn.best), where)
            entries(d, "list", row["merged"], turn.merged, True)
            entries(d, "normal", row["normal"], turn.per_kind[0], True)
            entries(d, "seven", row["seven"], turn.per_kind[1] if len(turn.per_kind) > 1 else {}, True)
            if abs(row["weight"] - turn.weight) > 1e-9:
                d.fail("weight", "%s: got %r expected %r" % (where, row["weight"], turn.weight))
            d.check(0 <= row["weight"] <= 1, "weight-range", "%r", row["weight"])
            declared = any(i["kind"] in ("reach1", "reach2") and i["game"] == r for i in log.info[:k])
            d.equal("colour", row["colour"], (0, 0, 255) if declared else (255, 0, 0), where)
            d.label("best" if turn.good else "not best")
            if declared:
                d.label("after riichi")
            if melds:
                d.label("with calls")
            if turn.best_step < 0 or min(ref.shanten(counts_of(hand), x) for x in turn.kinds) < 0:
                d.label("broke a complete hand")
            if len(turn.kinds) > 1 and turn.per_kind[1] and min(v[0] for v in turn.per_kind[1].values()) == \
                    turn.best_step:
                d.label("seven pairs as near")
            interesting = interesting or not turn.good or declared or bool(melds)
    d.cases = max(1, len(turns))
    if interesting:
        d.nontrivial((logs.key(log), p))
        d.sample = dict(logs.brief(log), player=p)


PARTS = [Part("reports", reports, 1500, 16000)]
