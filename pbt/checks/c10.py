from engine import Part
from mahjong.record.stage import StageGroupby

RULE = ("random sequences (0-40 items) over a small alphabet, with 0-5 ordered stages and an optional key function, "
        "consumed completely, partly, or not at all per group; judged against a greedy partition computed from the "
        "keys. Non-trivial: at least three groups with both staged and unstaged keys or a skipped stage.")
ASSUMPTIONS = ["Stages are different from one another."]


def model(items, key, stages):
    groups, i = [], 0
    while i < len(items):
        k = key(items[i])
        if k in stages:
            rest = list(stages[stages.index(k):])
            label, left, j = list(rest), list(rest), i
            while j < len(items):
                kk = key(items[j])
                if kk not in left:
                    break
                left = left[left.index(kk):]
                j += 1
        else:
            label, j = k, i
            while j < len(items) and key(items[j]) == k:
                j += 1
        groups.append((label, items[i:j]))
        i = j
    return groups


def grouping(d):
    style = d.weighted([(3, "letters"), (1, "bool"), (2, "keyed"), (1, "odd"), (1, "fresh")])
    if style == "letters":
        alphabet, key = "ABCDEF"[:d.between(2, 6)], None
        stages = d.subset(list(alphabet), d.below(len(alphabet) + 1))
    elif style == "bool":
        alphabet, key = [0, 1, 2, 3, 4], (lambda x: x % 2 == 0)
        stages = d.choice([[True, False], [False, True], [True], []])
    elif style == "odd":
        alphabet, key = [None, "", 0, (), "x", -1], None
        stages = d.subset(alphabet, d.below(len(alphabet) + 1))
    elif style == "fresh":                 # a new key object each time, equal to those before
        make = d.choice([lambda k: "k%d" % k, lambda k: (k, "x"), lambda k: k + 0.5, lambda k: [k],
                         lambda k: 10 ** 20 + k, lambda k: frozenset([k])])
        alphabet, key = list(range(10)), (lambda x: make(x // 2))
        stages = [make(k) for k in d.subset(range(5), d.below(6))]
    else:
        alphabet, key = list(range(12)), (lambda x: x // 3)
        stages = d.subset([0, 1, 2, 3, 9], d.below(5))
    items = []
    for _ in range(d.size(0, 40)):
        if items and d.chance(1, 3):
            items.append(items[-1])
        else:
            items.append(d.choice(alphabet))
    # make every item distinguishable, so that lost or doubled items show
    tagged = [(x, n) for n, x in enumerate(items)]
    base = key or (lambda x: x)
    want = model(tagged, lambda p: base(p[0]), stages)
    mode = d.weighted([(3, "all"), (2, "skip"), (2, "late"), (1, "plain")])
    d.note(items=items, stages=stages, mode=mode)
    got = []
    if mode == "plain" and key is None:
        with d.sut("group"):
            for label, group in StageGroupby(iter(items), *stages):
                got.append((label, list(group)))
        d.equal("plain", got, [(lab, [x for x, _ in g]) for lab, g in want])
    elif mode in ("all", "plain"):
        with d.sut("group"):
            for label, group in StageGroupby(iter(tagged), *stages, key=lambda p: base(p[0])):
                got.append((label, list(group)))
        d.equal("groups", got, want)
        d.equal("partition", [x for _, g in got for x in g], tagged)
    else:
        # a group may be left after any number of its items
        taken, old = [], []
        with d.sut("group"):
            gen = StageGroupby(list(tagged), *stages, key=lambda p: base(p[0]))
            for label, group in gen:
                k = d.below(4)
                part = []
                for x in group:
                    part.append(x)
                    if len(part) > k:
                        break
                taken.append((label, part, k))
                if mode == "late" and old and d.chance(1, 2):
                    d.equal("stale-group", list(d.choice(old)), [])
                old.append(group)
        d.equal("skipped", [(lab, part) for lab, part, _ in taken],
                [(lab, g[:k + 1]) for (lab, g), (_, _, k) in zip(want, taken)] if len(want) == len(taken) else want)
    d.label(mode)
    if len(want) >= 3 and stages:
        d.nontrivial((tuple(items), tuple(stages), style, mode))
        d.sample = {"items": "".join(map(str, items)), "stages": stages, "groups": len(want), "mode": mode}


PARTS = [Part("grouping", grouping, 80000, 300000)]
