from engine import Part
import gen
import ref
import sut
from mahjong.container.set import TileSet
from mahjong.container.utils import tile_set_from_string, tiles_from_string
from mahjong.tile.definition import Tile, AkaTile

RULE = ("roundtrip: a multiset of tiles (0..136 tiles, several density styles, in one of them up to 14 of a kind) is built in a "
        "random insertion order, printed and parsed back, then changed in place and printed again; parse: a text is assembled from random digit groups "
        "(suits repeated, digits unsorted, 0 = red five, blanks/commas between groups) and parsed. "
        "Non-trivial: at least two suits or an unsorted insertion order / at least two groups.")
ASSUMPTIONS = ["Separators between groups are blanks, commas or line breaks; other junk is not generated.",
               "A set holding both a red and a plain five prints them under one face (they are equal); such sets are "
               "compared modulo red."]

SEPS = ["", "", "", " ", ",", "  ", "\n", "\t", ", "]


def red(s):
    return AkaTile(0, s)


def roundtrip(d):
    style = d.choice(["gen", "dense", "full", "many"])
    if style == "gen":
        counts = gen.random_hand(d, d.between(0, 20))
    elif style == "dense":
        counts = [d.below(5) if d.chance(1, 2) else 0 for _ in range(34)]
    elif style == "many":                      # more than one set of tiles holds
        counts = [0] * 34
        for t in d.subset(list(range(34)), d.between(1, 6)):
            counts[t] = d.between(1, 14)
    else:
        counts = [d.weighted([(1, 4), (1, 3), (1, 1)]) for _ in range(34)]
    order = d.shuffled(gen.to_types(counts)) if sum(counts) < 60 else gen.to_types(counts)[::-1]
    reds = [t for t in (4, 13, 22) if counts[t] and d.chance(1, 3)]
    d.note(hand=ref.hand_string(counts), order=order[:30], reds=reds)
    whole_red = {t: d.chance(1, 2) for t in reds}
    with d.sut("print"):
        tiles = []
        seen = set()
        for t in order:
            if t in reds and (whole_red[t] or t not in seen):
                tiles.append(red("mps"[t // 9]))
            else:
                tiles.append(Tile(t % 9 + 1, "mpsz"[t // 9]))
            seen.add(t)
        ts = TileSet(tiles)
        text = str(ts)
    d.equal("print-order", text.replace("0", "5"), ref.hand_string(counts))
    with d.sut("parse"):
        back = tile_set_from_string(text)
        again = str(back)
        listed = list(back.keys())
        n = len(back)
    d.check(back == ts, "roundtrip", "parsed %r, printed from %r", back, text)
    d.equal("roundtrip-counts", sut.counts_in(back), counts)
    d.equal("roundtrip-text", again, text)
    d.equal("roundtrip-len", n, sum(counts))
    d.equal("parsed-sorted", [sut.type_of(x) for x in listed], [t for t in range(34) if counts[t]])
    d.equal("source-untouched", sut.counts_in(ts), counts)
    with d.sut("use"):
        shown = str(ts)
        back.update([Tile(1, "z")])
        changed = str(ts)
        other = tile_set_from_string(text)
    d.equal("parse-again", sut.counts_in(other), counts)
    d.equal("print-again", (shown, changed), (text, text))
    # ... nor, after it was shown, what is put in and taken out in place
    if d.chance(1, 2):
        now = list(counts)
        with d.sut("change"):
            for _ in range(d.between(1, 3)):
                out = d.choice([t for t in range(34) if now[t]] or [None])
                if out is not None:
                    gone = Tile(out % 9 + 1, "mpsz"[out // 9])
                    if d.chance(1, 2):
                        del ts[gone]
                    else:
                        ts.subtract([gone] * now[out])
                        ts += TileSet()
                    now[out] = 0
                fresh = d.below(34)
                k = d.between(1, 2)
                ts.update([Tile(fresh % 9 + 1, "mpsz"[fresh // 9])] * k)
                now[fresh] += k
                if d.chance(1, 2):
                    str(ts)
            text = str(ts)
        d.equal("print-changed", text.replace("0", "5"), ref.hand_string(now))
    # a red five stands for a five
    with d.sut("parse-red"):
        plain = tile_set_from_string(ref.hand_string(counts))
    d.check(plain == other, "red-equal", "%r != %r", plain, other)
    d.label("tiles:%s" % ("0" if not order else "1-14" if len(order) < 15 else "15+"))
    if reds:
        d.label("red")
    if len({min(t // 9, 3) for t in order}) >= 2 or order != sorted(order):
        d.nontrivial((ref.hand_string(counts), tuple(order[:40]), tuple(reds)))
        d.sample = {"printed": text}


def parse(d):
    expect, text = [], ""
    for g in range(d.between(0, 8)):
        suit = d.below(4)
        k = d.size(1, 12)
        digits = [d.between(1, 7) if suit == 3 else d.below(10) for _ in range(k)]
        text += "".join(map(str, digits)) + "mpsz"[suit] + d.choice(SEPS)
        expect += ["%d%s" % (x, "mpsz"[suit]) for x in digits]
    if d.chance(1, 4):
        text = d.choice(SEPS) + text
    d.note(text=text)
    with d.sut("parse"):
        got = list(tiles_from_string(text))
        names = [str(x) for x in got]
        ts = tile_set_from_string(text)
        total = len(ts)
    d.equal("parse-order", names, expect)
    for x, name in zip(got, expect):
        d.check(isinstance(x, AkaTile) == (name[0] == "0"), "red-kind", "%s", name)
        d.equal("parse-type", sut.type_of(x), ref.type_of_name(name))
    d.equal("parse-set", sut.counts_in(ts), ref.counts_of([ref.type_of_name(x) for x in expect]))
    d.equal("parse-len", total, len(expect))
    d.equal("parse-set-text", str(ts).replace("0", "5"),
            ref.hand_string(ref.counts_of([ref.type_of_name(x) for x in expect])))
    # what is done with one reading never shows in another
    with d.sut("use"):
        how = d.below(4)
        if how == 0:
            ts.clear()
        elif how == 1 and expect:
            ts.subtract(TileSet([got[0]]))
        elif how == 2:
            ts.update([Tile(d.between(1, 7), "z")])
        else:
            ts[Tile(1, "m")] += 1
        other = tile_set_from_string(text)
        names = [str(x) for x in tiles_from_string(text)]
    d.equal("parse-again", sut.counts_in(other), ref.counts_of([ref.type_of_name(x) for x in expect]))
    d.equal("parse-again-order", names, expect)
    d.label("groups:%d" % min(4, len(text)))
    if len(expect) >= 2:
        d.nontrivial(text)
        d.sample = {"text": text, "tiles": names[:20]}


PARTS = [Part("roundtrip", roundtrip, 24000, 200000), Part("parse", parse, 24000, 200000)]
