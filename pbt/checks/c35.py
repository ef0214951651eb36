from engine import Part
from mahjong.record.utils.bit import bit_struct_from_desc, named_tuple_from_desc, repack_to, unpack_with

RULE = ("layouts of 16 bits split at random into 1-16 named fields (numbers, signed numbers, flags), written with any "
        "blanks and line breaks, and layouts such as the library's own; codes at random and at the bounds, given as "
        "number and as text. Non-trivial: a layout of at least three fields and a code with bits in two of them.")
ASSUMPTIONS = ["Layouts fill the 16 bits of a code, as all of the library's do; flags are one bit wide."]

OWN = ["kui:u2 syuntsu:b1 hai0:u2 hai1:u2 hai2:u2 padding__:u1 type6:u6",
       "kui:u2\nsyuntsu:b1\nkoutsu:b1\nchakan:b1\nhai_added:u2\npadding__:u2\ntype7:u7\n",
       "\nkui:u2\nsyuntsu:b1\nkoutsu:b1\nchakan:b1\nnuki:b1\npadding__:u2\ntype8:u8\n",
       "preserved:u1 no_aka_dora:b1 no_tanyao_open_hand:b1 east_and_south_round:b1 three_players:b1 "
       "play_level_high_bit:u1 speed_up:b1 play_level_low_bit:u1 show_discard_shadow:b1 with_tips:b1 is_5tips:b1 "
       "padding_:u5"]
NAMES = ["a", "b1", "kui", "type6", "hai_0", "x_y", "padding_", "W"]


def a_layout(d):
    """The text and its [(name, kind, width)], lowest bits first."""
    if d.chance(1, 3):
        text = d.choice(OWN)
        return text, [(w.split(":")[0], w.split(":")[1][0], int(w.split(":")[1][1:])) for w in text.split()]
    fields, left = [], 16
    while left:
        kind = d.weighted([(4, "u"), (2, "b"), (1, "s")])
        width = 1 if kind == "b" else d.between(1, left) if d.chance(1, 4) else d.between(1, min(left, 4))
        fields.append(("%s%d" % (d.choice(NAMES), len(fields)), kind, width))
        left -= width
    blank = d.choice(["\n", " ", "\n    ", "  \n"])
    text = d.choice(["", "\n", " "]) + blank.join("%s:%s%d" % f for f in fields) + d.choice(["", "\n", " "])
    return text, fields


def field_values(fields, code):
    out = {}
    for name, kind, width in fields:
        v = code % 2 ** width
        code //= 2 ** width
        out[name] = bool(v) if kind == "b" else v - 2 ** width if kind == "s" and v >= 2 ** (width - 1) else v
    return out


def layouts(d):
    text, fields = a_layout(d)
    d.note(layout=text)
    with d.sut("read layout"):
        packer = bit_struct_from_desc(text)
        cls = named_tuple_from_desc("Code", text)
    others = a_layout(d)
    with d.sut("read another"):
        bit_struct_from_desc(others[0])
        named_tuple_from_desc("Code", others[0])
    d.equal("fields", sorted(cls._fields), sorted(f[0] for f in fields))
    for _ in range(d.between(1, 4)):
        code = d.choice([0, 1, 2 ** 15, 2 ** 16 - 1]) if d.chance(1, 6) else d.below(2 ** 16)
        given = str(code) if d.chance(1, 3) else code
        with d.sut("unpack"):
            got = unpack_with(cls, packer, given)
        want = field_values(fields, code)
        for name, kind, width in fields:
            v = getattr(got, name)
            d.check(v == want[name] and isinstance(v, bool) == (kind == "b"), "field", "%s of %d in %r: got %r expected %r",
                    name, code, text, v, want[name])
        with d.sut("pack"):
            back = repack_to(packer, list(got))
        d.equal("packed", [int(x) for x in back], [code])
        # one field replaced: the others keep their bits
        name, kind, width = d.choice(fields)
        new = d.chance(1, 2) if kind == "b" else d.below(2 ** width) - (2 ** (width - 1) if kind == "s" else 0)
        with d.sut("replace"):
            changed = unpack_with(cls, packer, repack_to(packer, list(got._replace(**{name: new})))[0])
        d.equal("replaced", changed._asdict(), dict(got._asdict(), **{name: new}))
        if len(fields) >= 3 and sum(1 for v in want.values() if v) >= 2:
            d.nontrivial((text, code))
            d.sample = {"layout": text.split(), "code": code, "fields": {k: int(v) for k, v in want.items()}}


PARTS = [Part("layouts", layouts, 24000, 240000)]
