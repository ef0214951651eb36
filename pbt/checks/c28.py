import builtins
import contextlib
import io
import os
import random
import re

from engine import Part
import gen
import ref
import sut
from mahjong import win_rate_demo
from mahjong.container.distribution import StaticWall

RULE = ("the command-line tool is run on 14-tile hands (near complete, with red fives, typed in odd ways, after refused "
        "inputs) with 0-25 remaining draws and 1-40 experiments, keyboard stubbed; its printed table is compared with "
        "a recount of the walls it drew, and for one or two draws with the exact probability at 6.5 standard "
        "deviations. Non-trivial: a table with different win counts.")
ASSUMPTIONS = ["The accurate pick rates are checked to be a distribution in the order printed, not against a formula; "
               "the rough ones only to be percentages (the source marks their normalisation as unfinished).",
               "A draw count the wall can serve."]
LINE = re.compile(r"^discard (\S+): ([-\d.]+|nan)% win rate \((\d+)/(\d+)\), (\S+)% rough pick rate, (\S+)% accurate "
                  r"pick rate$")


def wins(counts):
    key = tuple(counts)
    return ref.normal_cost(key) == 0 or sum(1 for c in counts if c >= 2) >= 7


def a_hand(d):
    style = d.weighted([(5, "near"), (2, "complete"), (2, "pairs"), (1, "random")])
    if style == "near":
        counts = gen.mutate(d, gen.complete_hand(d, 4), d.between(1, 3))
    elif style == "complete":
        counts = gen.complete_hand(d, 4)
    elif style == "pairs":
        counts = gen.pair_hand(d, 14)
    else:
        counts = gen.random_hand(d, 14)
    return counts, style


def typed(d, counts):
    """A spelling of the hand; red fives are typed as 0."""
    out = []
    for s in d.shuffled(range(4)):
        part = "".join(str(t % 9 + 1) * counts[t] for t in range(9 * s, min(34, 9 * s + 9)))
        if d.chance(1, 3):
            part = "".join(d.shuffled(part))
        if s < 3 and "5" in part and d.chance(1, 3):
            part = part.replace("5", "0", 1)
        if part:
            out.append(part + "mpsz"[s])
    return "".join(out)


@contextlib.contextmanager
def keyboard(answers, walls):
    def ask(prompt=""):
        if not answers:
            raise AssertionError("asked for more input: %s" % prompt)
        print(prompt)
        return answers.pop(0)

    plain_sample = StaticWall.sample
    own = StaticWall.__dict__.get("sample")     # None where it is inherited

    def sample(self, count):
        got = list(plain_sample(self, count))
        walls.append([sut.type_of(x) for x in got])
        return iter(got)

    old = builtins.input, os.system
    builtins.input, os.system = ask, lambda *a: 0
    StaticWall.sample = sample
    try:
        yield
    finally:
        builtins.input, os.system = old
        if own is None:
            del StaticWall.sample
        else:
            StaticWall.sample = own


def run_tool(d, answers):
    walls, out = [], io.StringIO()
    with keyboard(answers, walls), contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        with d.sut("main"):
            win_rate_demo.main()
    d.equal("answers-left", answers, [])
    return walls, out.getvalue()


def table(d, text, counts, tries, draws):
    rows = []
    for line in text.splitlines():
        m = LINE.match(line)
        if m:
            rows.append((m.group(1), float(m.group(2)), int(m.group(3)), int(m.group(4)), m.group(5), m.group(6)))
    types = []
    for name, rate, won, of, rough, fine in rows:
        t = ref.type_of_name(("5" if name[0] == "0" else name[0]) + name[1])
        types.append(t)
        d.equal("tries", of, tries, name)
        d.check(0 <= won <= tries, "wins-range", "%s %d", name, won)
        d.check(abs(rate - won * 100 / tries) <= 0.00501, "rate", "%s: %s%% for %d/%d", name, rate, won, of)
    d.equal("every-discard-once", sorted(types), [t for t in range(34) if counts[t]])
    for col in (4, 5):
        vals = []
        for r in rows:
            try:
                vals.append(float(r[col]))
            except ValueError:
                d.fail("pick-rate", "%r" % (r,))
        d.check(all(-0.011 <= v <= 100.011 for v in vals), "pick-range", "%r", vals)
        if col == 5:
            d.check(abs(sum(vals) - 100) <= 0.01 * len(vals) + 0.01, "pick-sum", "%r", vals)
        if col == 5:
            d.check(all(a >= b - 0.0101 for a, b in zip(vals, vals[1:])), "order", "%r", vals)
    d.check("remain %d draws" % draws in text, "heading", "%r", text[-1500:])
    return {t: r[2] for t, r in zip(types, rows)}


def recount(d):
    counts, style = a_hand(d)
    draws = d.choice([0, 1, 2, 3, 5, 9, 18, 25, d.between(0, 122 if d.chance(1, 10) else 20)])
    tries = d.choice([1, 2, 7, 20, 40])
    text = typed(d, counts)
    answers = []
    for _ in range(d.weighted([(4, 0), (1, 1), (1, 2)])):
        answers.append(d.choice(["", "123m", text + "1z", text[:-1], "11112222333344m5z", "x"]))
        c = typed_count(answers[-1])
        if c == 14:
            answers.pop()
    answers += [text, str(draws), str(tries)]
    d.note(hand=text, draws=draws, tries=tries, refused=answers[:-3])
    random.seed(d.below(1 << 30))
    walls, out = run_tool(d, answers)
    won = table(d, out, counts, tries, draws)
    remaining = [4 - c for c in counts]
    if len(walls) == tries and draws:
        d.equal("drawn", sum(map(len, walls)), tries * draws)
    if len(walls) == tries and all(len(w) == draws for w in walls):
        for w in walls:
            d.check(all(w.count(t) <= remaining[t] for t in set(w)), "wall", "drew %s", sorted(w))
        for t in won:
            c = list(counts)
            c[t] -= 1
            n = 0
            for w in walls:
                k = list(c)
                for x in w:
                    k[x] += 1
                n += wins(k)
            d.equal("wins", won[t], n, "discarding %s" % ref.type_name(t))
        d.label("recounted")
    if draws == 0:
        d.equal("no-draws", set(won.values()), {0})
    d.label(style)
    if len(set(won.values())) > 1:
        d.nontrivial((text, draws, tries))
        d.sample = {"hand": text, "draws": draws, "tries": tries, "wins": {ref.type_name(t): n for t, n in won.items()}}


def typed_count(s):
    n, pending = 0, 0
    for ch in s:
        if ch in "mpsz":
            n, pending = n + pending, 0
        elif ch.isdigit():
            pending += 1
    return n


def chances(d):
    counts, style = a_hand(d)
    draws = d.between(1, 2)
    tries = 300
    text = typed(d, counts)
    random.seed(d.below(1 << 30))
    d.note(hand=text, draws=draws, tries=tries)
    _, out = run_tool(d, [text, str(draws), str(tries)])
    won = table(d, out, counts, tries, draws)
    left = [4 - c for c in counts]
    total = sum(left)
    for t in won:
        c = list(counts)
        c[t] -= 1
        p = 0.0
        for a in range(34):
            if not left[a]:
                continue
            c[a] += 1
            if draws == 1 or wins(c):
                p += left[a] / total * wins(c)
            else:
                for b in range(34):
                    more = left[b] - (a == b)
                    if more > 0:
                        c[b] += 1
                        if wins(c):
                            p += left[a] / total * more / (total - 1)
                        c[b] -= 1
            c[a] -= 1
        if abs(won[t] - tries * p) > 6.5 * (tries * p * (1 - p)) ** .5 + (6 if 0 < p < 1 else 0):
            d.fail("chance", "discarding %s: %d of %d, exact %.4f" % (ref.type_name(t), won[t], tries, p))
    if len(set(won.values())) > 1:
        d.nontrivial((text, draws))
        d.sample = {"hand": text, "draws": draws, "tries": tries, "wins": {ref.type_name(t): n for t, n in won.items()}}
    d.label(style)


def default(d):
    """Leaving the number of experiments blank means a thousand."""
    counts, _ = a_hand(d)
    text = typed(d, counts)
    random.seed(d.below(1 << 30))
    d.note(hand=text)
    _, out = run_tool(d, [text, "1", d.choice(["", "  "])])
    won = table(d, out, counts, 1000, 1)
    if len(set(won.values())) > 1:
        d.nontrivial(text)


PARTS = [Part("recount", recount, 1000, 8000), Part("chances", chances, 160, 1500), Part("default", default, 16, 100)]
