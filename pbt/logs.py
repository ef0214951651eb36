"""Reading generated logs through the public readers."""
import io
import xml.etree.ElementTree as ET

import ref
import sim
from mahjong.record import tenhou_from_file
from mahjong.record.reader import TenhouRecord

WINDS = "東南西北"
DRAWS = {"yao9": "九種九牌", "reach4": "四家立直", "ron3": "三家和了", "kan4": "四槓散了", "kaze4": "四風連打",
         "nm": "流局滿貫", None: ""}
RANKS = ("新人 9級 8級 7級 6級 5級 4級 3級 2級 1級 初段 二段 三段 四段 五段 六段 七段 八段 九段 十段 天鳳位").split()


def play(d, **kw):
    log = sim.play(d, **kw)
    d.note(log=log.truncated_repr())
    return log


def read(d, log, how=None):
    xml = log.xml()
    with d.sut("read"):
        if how is None and d.chance(1, 4):
            return tenhou_from_file(io.BytesIO(xml.encode("utf-8")))
        return TenhouRecord(ET.fromstring(xml))


def shape(d, log):
    """Labels and a key that says what kinds of events the log holds."""
    kinds = sorted({i.get("what", i["kind"]) for i in log.info})
    for k in kinds:
        d.label(k)
    d.label("players=%d" % log.n_players)
    return tuple(kinds)


def key(log):
    return hash(log.truncated_repr())


def brief(log):
    text = log.truncated_repr()
    return {"players": log.n_players, "events": len(log.events), "log": text[:600]}


def names(ids, aka=True):
    return sorted(ref.id_name(i) if aka else ref.type_name(i // 4) for i in ids)


def split_names(text):
    return [text[i:i + 2] for i in range(0, len(text), 2)]
