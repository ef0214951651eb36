"""Generators shared by the checks.  Every choice comes from the Data object."""
import ref

KINDS = [("n", 4), ("n", 3), ("n", 2), ("n", 1), ("7",)]


def meld_types(d, span=None):
    """A meld as a tuple of types, inside `span` (list of types) if given."""
    types = span or list(range(34))
    if d.chance(3, 5):
        starts = [t for t in types if t < 27 and t % 9 <= 6 and t + 1 in types and t + 2 in types]
        if starts:
            s = d.choice(starts)
            return (s, s + 1, s + 2)
    t = d.choice(types)
    return (t, t, t)


def spans(d):
    """A region of tile types hands are drawn from: dense regions make
    overlapping shapes and long decompositions likely."""
    kind = d.weighted([(3, "all"), (3, "suit"), (2, "two"), (2, "narrow"), (1, "suit+z")])
    if kind == "all":
        return kind, list(range(34))
    s = d.below(3)
    suit = list(range(9 * s, 9 * s + 9))
    if kind == "suit":
        return kind, suit
    if kind == "suit+z":
        return kind, suit + list(range(27, 34))
    if kind == "two":
        s2 = (s + 1 + d.below(2)) % 3
        lo = d.below(5)
        return kind, suit + [9 * s2 + lo + i for i in range(5)]
    lo = d.below(4)
    return kind, [9 * s + lo + i for i in range(6)] + [27 + d.below(7)]


def fits(counts, types):
    return all(counts[t] + types.count(t) <= 4 for t in types)


def complete_hand(d, melds, pairs=1, tries=12):
    """Counts of a complete hand of `melds` melds and `pairs` pairs."""
    kind, span = spans(d)
    counts = [0] * 34
    done = 0
    for _ in range(tries * (melds + 1)):
        if done == melds:
            break
        m = meld_types(d, span)
        if fits(counts, m):
            for t in m:
                counts[t] += 1
            done += 1
    while done < melds:
        for t in range(34):
            if counts[t] <= 1:
                counts[t] += 3
                break
        done += 1
    for _ in range(pairs):
        options = [t for t in span if counts[t] <= 2] or [t for t in range(34) if counts[t] <= 2]
        counts[d.choice(options)] += 2
    return counts


def random_hand(d, size, span=None):
    counts = [0] * 34
    if span is None:
        _, span = spans(d)
    pool = [t for t in span for _ in range(4)]
    if len(pool) < size:
        pool = [t for t in range(34) for _ in range(4)]
    for _ in range(size):
        counts[pool.pop(d.below(len(pool)))] += 1
    return counts


def mutate(d, counts, k):
    """Replace k tiles by others."""
    counts = list(counts)
    for _ in range(k):
        have = [t for t in range(34) if counts[t]]
        t = d.choice(have)
        counts[t] -= 1
        if d.chance(1, 2):
            lo = max(0, t - 2)
            options = [x for x in range(lo, min(34, t + 3)) if counts[x] < 4 and x // 9 == t // 9 and x != t]
        else:
            options = []
        options = options or [x for x in range(34) if counts[x] < 4 and x != t]
        counts[d.choice(options)] += 1
    return counts


def pair_hand(d, size):
    """A hand rich in pairs, triplets and quads."""
    _, span = spans(d)
    counts = [0] * 34
    left = size
    while left:
        options = [t for t in span if counts[t] == 0] or [t for t in range(34) if counts[t] == 0]
        t = d.choice(options)
        k = min(left, d.weighted([(6, 2), (3, 1), (2, 3), (2, 4)]))
        counts[t] += k
        left -= k
    return counts


def quad_hand(d, size):
    """Quads and their neighbours: the tile that is needed may be exhausted."""
    span = d.choice([list(range(0, 9)), list(range(9, 18)), list(range(27, 34)), [0, 1, 2, 3, 31, 32, 33],
                     [6, 7, 8, 18, 19, 20, 30], [21, 22, 23, 24, 27]])
    counts = [0] * 34
    left = size
    while left:
        t = d.choice([x for x in span if counts[x] < 4] or [x for x in range(34) if counts[x] < 4])
        k = min(left, 4 - counts[t], d.weighted([(3, 4), (1, 1), (1, 2), (1, 3)]))
        counts[t] += k
        left -= k
    return counts


def scattered_hand(d, size):
    """Tiles that hardly connect: the far end of the distance scale."""
    order = []
    for s in range(3):
        lo = d.below(3)
        order += [9 * s + x for x in range(lo, 9, 3)]
    honors = d.shuffled(list(range(27, 34)))
    order = d.shuffled(order)
    order = order + honors if d.chance(1, 2) else honors + order
    counts = [0] * 34
    for t in order[:size]:
        counts[t] += 1
    if sum(counts) < size:
        counts[d.choice(order)] += size - sum(counts)
    return mutate(d, counts, d.weighted([(4, 0), (3, 1), (1, 2)]))


def hand(d, size, melds, scattered=0):
    """A hand of `size` tiles for a demand of `melds` melds and a pair."""
    style = d.weighted([(5, "near"), (4, "random"), (3, "pairs")] + ([(scattered, "scattered")] if scattered else []))
    if style == "scattered":
        counts = scattered_hand(d, size)
    elif style == "near":
        full = complete_hand(d, melds)
        counts = mutate(d, full, d.weighted([(3, 1), (3, 2), (2, 3), (1, 0), (1, 5)]))
        extra = sum(counts) - size
        for _ in range(extra):
            have = [t for t in range(34) if counts[t]]
            counts[d.choice(have)] -= 1
        for _ in range(-extra):
            counts[d.choice([t for t in range(34) if counts[t] < 4])] += 1
    elif style == "random":
        counts = random_hand(d, size)
    else:
        counts = pair_hand(d, size)
    d.label("hand:" + style)
    return counts


def orphans(counts):
    """Number of different terminal and honour types: hands full of them make
    the search engines take seconds without exercising anything else."""
    return sum(1 for t in range(34) if counts[t] and (t >= 27 or t % 9 in (0, 8)))


def to_types(counts):
    return [t for t in range(34) for _ in range(counts[t])]
