from engine import Part
from mahjong.record.utils.value.gametype import GameType

RULE = ("all 65536 rule codes enumerated, each as number and as text, judged bit by bit; random pairs of codes for "
        "equality, half of them differing in one bit. Non-trivial: every code; a pair differing in exactly one bit.")
ASSUMPTIONS = []
BLOCK = 64


def facts(code):
    bit = lambda k: bool(code >> k & 1)
    three, south = bit(4), bit(3)
    level = 2 * bit(5) + bit(7)
    tips = bit(9)
    tip_count = (5 if bit(10) else 2) if tips else 0
    text = ("三" if three else "四") + (("若銀琥孔" if tips else "般上特鳳")[level]) + ("南" if south else "東")
    if not bit(2):
        text += "喰"
    if not bit(1):
        text += "赤"
    if bit(6):
        text += "速"
    if bit(8):
        text += "暗"
    if tips:
        text += "祝%d" % tip_count
    return {"players": 3 if three else 4, "aka": not bit(1), "level": level, "fast": bit(6), "tanyao": not bit(2),
            "winds": 2 if south else 1, "games": (2 if south else 1) * (3 if three else 4), "tips": tips,
            "tip_count": tip_count, "shadow": bit(8), "text": text}


def observed(g):
    return {"players": g.player_count(), "aka": bool(g.has_aka_dora()), "level": g.play_level(),
            "fast": bool(g.speed_up()), "tanyao": bool(g.allow_tanyao_open()), "winds": g.play_wind_count(),
            "games": g.main_game_count(), "tips": bool(g.with_tips()), "tip_count": g.tips_count(),
            "shadow": bool(g.show_discard_shadow()), "text": str(g)}


def codes(d, block):
    d.cases = 0
    for code in range(block * BLOCK, (block + 1) * BLOCK):
        d.cases += 1
        d.note(code=code)
        with d.sut("read"):
            g = GameType(code if code % 2 else str(code) if code % 4 else "%05d" % code)
            got = observed(g)
            text = repr(g)
        want = facts(code)
        d.equal("rules", got, want, "code %d" % code)
        d.equal("repr", text, "<%s>" % want["text"])
        with d.sut("eq"):
            twin = GameType(str(code) if code % 2 else code)
            same = g == twin and not g != twin
        d.check(same, "twin", "%d", code)
        d.nontrivial(code)
    d.sample = {"code": code, "rules": want["text"]}


def pairs(d):
    a = d.below(65536) if d.chance(1, 2) else d.below(2048)
    if d.chance(1, 2):
        b = a ^ (1 << d.below(16))
        d.nontrivial((a, b))
    else:
        b = d.below(65536)
        if d.chance(1, 2):
            b = (a & 0x7FE) | (b & ~0x7FE)
    d.note(a=a, b=b)
    with d.sut("eq"):
        x, y = GameType(a), GameType(str(b))
        got = (x == y, y == x, x != y)
    same = (a & 0x7FE) == (b & 0x7FE)
    d.equal("equality", got, (same, same, not same))
    d.label("same" if same else "different")
    d.sample = {"codes": [a, b], "same rules": same}


PARTS = [Part("codes", codes, 0, 0, exhaustive=65536 // BLOCK), Part("pairs", pairs, 60000, 200000)]
