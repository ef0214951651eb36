import os
import re
import xml.etree.ElementTree as ET

import pandas

from engine import Part
import logs
from mahjong.record import light_dataframe_from_file

RULE = ("simulated game logs and generated element lists (tags with and without digits, zero to fourteen attributes with "
        "awkward text) written to files under several names; the table is compared with the events written. "
        "Non-trivial: a log in which elements with and without a number in their tag both have attributes.")
ASSUMPTIONS = ["Attributes are not called \"<tag>\" or \"<tag_extra>\" (no XML attribute can be)."]

SPLIT = re.compile(r"([A-Za-z]+)([0-9]+)\Z", re.ASCII)


def rows(events, abstract):
    for i, (tag, attrs) in enumerate(events):
        m = SPLIT.match(tag)
        if m and abstract:
            continue
        name = m.group(1) if m else tag
        got = dict(attrs)
        got["<tag>"] = name
        if m:
            got["<tag_extra>"] = m.group(2)
        for k, v in got.items():
            yield (i, name, k, v)


def compare(d, path, stem, events):
    for abstract in (True, False, None):
        with d.sut("dataframe"):
            df = (light_dataframe_from_file(path) if abstract is None
                  else light_dataframe_from_file(path, abstract=abstract))
            df = df.copy()
        want = sorted(rows(events, abstract is not False), key=repr)
        if want:
            with d.sut("columns"):
                got = sorted(((int(a), b, c, e) for a, b, c, e in
                              zip(df["index"], df["tag"], df["attr"], df["value"])), key=repr)
                ids = set(df["log_id"])
                order = [int(x) for x in df["index"]]
            d.equal("rows:abstract=%s" % abstract, got, want)
            d.equal("log-id", ids, {stem})
            d.equal("event-order", order, sorted(order))
        else:
            d.equal("no-rows", len(df), 0)


STEMS = ["2018010604gm-00a9-0000-bbc99254", "a", "x.y", "log 1", "天鳳", "2018.xml", "-"]


def store(d, text):
    stem = d.choice(STEMS)
    ext = d.choice([".xml", ".mjlog", ".log"])
    folder = d.choice(["", "sub", "sub.dir"])
    if folder:
        os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, stem + ext)
    if d.chance(1, 2):
        path = os.path.abspath(path)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    return path, stem


def games(d):
    log = logs.play(d, max_rounds=2)
    path, stem = store(d, log.xml())
    compare(d, path, stem, log.events)
    os.remove(path)
    logs.shape(d, log)
    d.nontrivial(logs.key(log))
    d.sample = logs.brief(log)


TAGS = ["INIT", "UN", "T0", "D135", "e12", "BYE", "A1B2", "X9Y", "N", "UN2", "t", "T00", "ab12", "日本1", "T-1", "a.1"]
VALUES = ["", "1", "a b", "%E3", "<&>", "日本", "1,2,3", "nan", "None", "'\"", "00", "-1", "1e5", " lead", "trail ", "a  b", " "]


NAMES = ["who", "m", "ten", "hai0", "x", "tag", "index", "value", "type", "log_id", "hai12", "yaku", "_", "a-b"]


def a_tag(d):
    """A tag from the list, or letters with a number of any length behind them."""
    if d.chance(2, 3):
        return d.choice(TAGS)
    letters = "".join(d.choice("ADEFGTUVWNaxzZ") for _ in range(d.between(1, 7)))
    return letters + "".join(d.choice("0123456789") for _ in range(d.below(9)))


def elements(d):
    events = []
    for _ in range(d.size(1, 12)):
        attrs = [(k, d.choice(VALUES)) for k in d.subset(NAMES, d.below(len(NAMES) + 1) if d.chance(1, 8) else d.below(5))]
        events.append((a_tag(d), attrs))
    d.note(events=events)
    root = ET.Element("mjloggm", ver="2.3")
    for tag, attrs in events:
        ET.SubElement(root, tag, dict(attrs))
    path, stem = store(d, ET.tostring(root, encoding="unicode"))
    compare(d, path, stem, events)
    os.remove(path)
    numbered = [t for t, a in events if SPLIT.match(t) and a]
    bare = [t for t, a in events if not SPLIT.match(t) and a]
    if numbered and bare:
        d.nontrivial(tuple(map(repr, events)))
        d.sample = {"events": repr(events)[:300]}
    d.label("mixed" if numbered and bare else "plain")


PARTS = [Part("games", games, 800, 8000), Part("elements", elements, 5000, 40000)]
