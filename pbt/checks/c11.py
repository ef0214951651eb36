from collections import Counter

from engine import Part
import ref
import sut
from mahjong.record import doras, initial_tiles
from mahjong.record.utils.constant import SUIT_ORDER, TENHOU_TILE_CATEGORY
from mahjong.record.utils.value.meld import tile_set_from_tenhou
from mahjong.record.utils.value.tile import tile_from_tenhou, tile_to_tenhou_range
from mahjong.tenhou_record_check import to_plain_tile, to_unicode_tile
from mahjong.tile.definition import AkaTile

RULE = ("all 136 tile ids and 37 tile faces enumerated; random sets of ids and lists of dora indicators; all four table "
        "kinds. Judged against arithmetic on ids (id//4 is the kind, 16/52/88 are red). Non-trivial: an id, face, or a "
        "list with a red five or a suit end (9 or the last wind/dragon).")
ASSUMPTIONS = ["The dora table is the four-player one."]

FACES = [ref.type_name(t) for t in range(34)] + ["0m", "0p", "0s"]
# Unicode order: winds E S W N, dragons red green white, then characters, bamboos, circles
GLYPH = {}
for _k, _n in enumerate([1, 2, 3, 4, 7, 6, 5]):
    GLYPH["%dz" % _n] = 0x1F000 + _k
for _k, _s in enumerate("msp"):
    for _n in range(1, 10):
        GLYPH["%d%s" % (_n, _s)] = 0x1F007 + 9 * _k + _n - 1
    GLYPH["0" + _s] = GLYPH["5" + _s]


def face_tile(face):
    return AkaTile(0, face[1]) if face[0] == "0" else sut.tile(ref.type_of_name(face))


def ids(d, i):
    d.note(id=i)
    with d.sut("decode"):
        t = tile_from_tenhou(i)
        text = str(t)
        span = tile_to_tenhou_range(t)
        split = TENHOU_TILE_CATEGORY.category(i)
        joined = TENHOU_TILE_CATEGORY.index(split)
    d.equal("face", text, ref.id_name(i))
    d.check(isinstance(t, AkaTile) == (i in ref.RED_IDS), "red", "%r", t)
    d.equal("kind", sut.type_of(t), i // 4)
    d.equal("ids-of-face", sorted(span), [i // 4 * 4 + k for k in range(4)])
    d.equal("split", tuple(split), (i // 36, i % 36 // 4, i % 4))
    d.equal("joined", joined, i)
    d.equal("suits", SUIT_ORDER, "mpsz")
    with d.sut("len"):
        n = len(TENHOU_TILE_CATEGORY)
    d.equal("total", n, 136)
    d.nontrivial(i)
    d.sample = {"id": i, "face": text}


def faces(d, k):
    face = FACES[k]
    d.note(face=face)
    with d.sut("glyph"):
        t = face_tile(face)
        glyph, plain = to_unicode_tile(t), to_plain_tile(t)
        dora = doras([face])
        span = tile_to_tenhou_range(t)
    d.equal("glyph", hex(ord(glyph)), hex(GLYPH[face]))
    d.equal("plain", plain, face)
    d.equal("dora", Counter(dora), Counter(want_dora(face)))
    d.equal("span", set(span), {i for i in range(136) if i // 4 == sut.type_of(t)})
    d.nontrivial(face)
    d.sample = {"face": face, "dora": dora}


def want_dora(face):
    n, s = int(face[0]) or 5, face[1]
    if s == "z":
        return ["%dz" % (n % 4 + 1 if n <= 4 else (n - 4) % 3 + 5)]
    nxt = "%d%s" % (n % 9 + 1, s)
    return [nxt, "0" + s] if nxt[0] == "5" else [nxt]


def lists(d):
    faces_ = [d.choice(FACES) for _ in range(d.between(0, 10))]
    chosen = d.subset(list(range(136)), d.between(0, 20))
    d.note(indicators=faces_, ids=chosen)
    with d.sut("doras"):
        got = doras(faces_)
        again = doras(iter(faces_))
    want = []
    for f in faces_:
        want += want_dora(f)
    d.equal("doras", Counter(got), Counter(want))
    d.equal("doras-iter", Counter(again), Counter(want))
    got.append("junk")
    with d.sut("doras"):
        d.equal("doras-stable", Counter(doras(faces_)), Counter(want))
    with d.sut("set"):
        ts = tile_set_from_tenhou(chosen)
    d.equal("set", sut.counts_in(ts), ref.counts_of([i // 4 for i in chosen]))
    players, aka = d.choice([3, 4]), d.chance(1, 2)
    with d.sut("initial"):
        start = initial_tiles(players, aka)
    want = [ref.id_name(i) if aka else ref.type_name(i // 4) for i in range(136)
            if players == 4 or not 4 <= i < 32]
    d.equal("initial", Counter(start), Counter(want))
    start.clear()
    with d.sut("initial"):
        d.equal("initial-stable", Counter(initial_tiles(players, aka)), Counter(want))
    if any(f[0] in "09" or f in ("4z", "7z") for f in faces_):
        d.nontrivial((tuple(faces_), players, aka))
        d.sample = {"indicators": faces_, "players": players, "red fives": aka}


PARTS = [Part("ids", ids, 0, 0, exhaustive=136), Part("faces", faces, 0, 0, exhaustive=37),
         Part("lists", lists, 24000, 60000)]
