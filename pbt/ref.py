"""Independent reference model for tiles, winning shapes and distance-to-win.

Nothing in here imports the code under test.  A tile *type* is an int 0..33:
0-8 = 1m..9m, 9-17 = 1p..9p, 18-26 = 1s..9s, 27-33 = 1z..7z.
A tenhou tile *id* is an int 0..135; id // 4 is its type, ids 16, 52 and 88 are
the red fives.  A hand is a list of 34 counts.
"""
from functools import lru_cache

SUITS = "mpsz"
N_TYPES = 34
RED_IDS = (16, 52, 88)


def type_name(t):
    return "%d%s" % (t % 9 + 1, SUITS[t // 9])


def type_of_name(name):
    n, c = int(name[0]), name[1]
    if n == 0:
        n = 5
    return SUITS.index(c) * 9 + n - 1


def id_name(i):
    """Name of a tenhou tile id, red fives as 0x."""
    if i in RED_IDS:
        return "0" + SUITS[i // 36]
    return type_name(i // 4)


def counts_of(types):
    c = [0] * N_TYPES
    for t in types:
        c[t] += 1
    return c


def hand_string(counts):
    out = []
    for s in range(4):
        digits = "".join(str(n + 1) * counts[s * 9 + n]
                         for n in range(9 if s < 3 else 7))
        if digits:
            out.append(digits + SUITS[s])
    return "".join(out)


# ---------------------------------------------------------------------------
# minimum number of tiles missing from a suit, for every (melds, pairs) demand
# ---------------------------------------------------------------------------
INF = 99


@lru_cache(maxsize=None)
def suit_table(counts, max_melds, max_pairs, honor, limit):
    """table[m][p] = least number of tiles to add so that the suit contains m
    melds and p pairs that are disjoint, using at most `limit` copies of each
    tile in the shape."""
    n = len(counts)

    @lru_cache(maxsize=None)
    def go(i, a, b):
        # a: runs begun at i-2, b: runs begun at i-1
        best = [[INF] * (max_pairs + 1) for _ in range(max_melds + 1)]
        if i == n:
            if a == 0 and b == 0:
                best[0][0] = 0
            return best
        max_c = 0 if honor or i + 2 >= n else max_melds
        for c in range(max_c + 1):
            for t in range(max_melds - c + 1):
                for p in range(max_pairs + 1):
                    w = a + b + c + 3 * t + 2 * p
                    if w > limit:
                        break
                    cost = w - counts[i]
                    if cost < 0:
                        cost = 0
                    sub = go(i + 1, b, c)
                    for m2 in range(max_melds - c - t + 1):
                        for p2 in range(max_pairs - p + 1):
                            v = sub[m2][p2] + cost
                            if v < best[m2 + c + t][p2 + p]:
                                best[m2 + c + t][p2 + p] = v
        return best

    return go(0, 0, 0)


@lru_cache(maxsize=200000)
def normal_cost(counts, melds=4, pairs=1, limit=4):
    acc = [[INF] * (pairs + 1) for _ in range(melds + 1)]
    acc[0][0] = 0
    for s in range(4):
        part = tuple(counts[s * 9:s * 9 + (9 if s < 3 else 7)])
        tab = suit_table(part, melds, pairs, s == 3, limit)
        new = [[INF] * (pairs + 1) for _ in range(melds + 1)]
        for m in range(melds + 1):
            for p in range(pairs + 1):
                if acc[m][p] >= INF:
                    continue
                for m2 in range(melds - m + 1):
                    for p2 in range(pairs - p + 1):
                        v = acc[m][p] + tab[m2][p2]
                        if v < new[m + m2][p + p2]:
                            new[m + m2][p + p2] = v
        acc = new
    return acc[melds][pairs]


def pairs_cost(counts, pairs=7):
    """Least number of tiles to add to hold `pairs` different pairs."""
    need = sorted(2 - min(2, c) for c in counts)
    return sum(need[:pairs])


def shanten(counts, kind, limit=4):
    """kind: ('n', melds) or ('7',)"""
    if kind[0] == "n":
        return normal_cost(tuple(counts), kind[1], kind[2] if len(kind) > 2 else 1, limit) - 1
    return pairs_cost(counts, kind[1] if len(kind) > 1 else 7) - 1


def useful(counts, kind, limit=4):
    """Types that bring the hand strictly closer (a fifth copy never counts)."""
    base = shanten(counts, kind, limit)
    out = set()
    counts = list(counts)
    for t in range(N_TYPES):
        if counts[t] >= limit:
            continue
        counts[t] += 1
        if shanten(counts, kind, limit) < base:
            out.add(t)
        counts[t] -= 1
    return out


# ---------------------------------------------------------------------------
# explicit decompositions
# ---------------------------------------------------------------------------
def all_units(pairs, melds):
    units = []
    for t in range(N_TYPES):
        if pairs:
            units.append((t, t))
        if melds:
            if t < 27 and t % 9 <= 6:
                units.append((t, t + 1, t + 2))
            units.append((t, t, t))
    return units


def decompositions(counts, melds=4, pairs=1, distinct_pairs=False):
    """Every multiset of `melds` melds and `pairs` pairs contained in counts,
    each exactly once, as a sorted tuple of tile tuples."""
    counts = list(counts)
    units = [u for u in all_units(pairs, melds)
             if all(counts[x] >= u.count(x) for x in u)]
    out = []

    def go(k, m, p, chosen):
        if m == 0 and p == 0:
            out.append(tuple(sorted(chosen)))
            return
        for j in range(k, len(units)):
            u = units[j]
            is_pair = len(u) == 2
            if (is_pair and p == 0) or (not is_pair and m == 0):
                continue
            for x in u:
                counts[x] -= 1
            if all(counts[x] >= 0 for x in u):
                go(j + 1 if is_pair and distinct_pairs else j,
                   m - (not is_pair), p - is_pair, chosen + [u])
            for x in u:
                counts[x] += 1

    go(0, melds, pairs, [])
    return out
