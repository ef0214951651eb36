import re
import xml.etree.ElementTree as ET

from engine import Part
import logs
import ref

RULE = ("simulated games as for C14; the description of every event is compared with the event as played (who, what, "
        "which tiles, from whom, why). Non-trivial: a log with a call and a round end.")
ASSUMPTIONS = ["A red five inside a list of several tiles may be written as a five."]
CALL = {"chi": "Flush", "pon": "Triplet", "kan_added": "TenhouAddedKan", "kan_open": "TenhouKan",
        "kan_closed": "TenhouKan", "kita": "Kita"}


def five(text):
    return re.sub(r"0(?=[0-9]*[mps])", "5", text)


def expected(info):
    k = info["kind"]
    if k == "draw":
        return "player %d draw %s" % (info["who"], ref.id_name(info["tile"]))
    if k == "discard":
        return "player %d discard %s" % (info["who"], ref.id_name(info["tile"]))
    if k == "call":
        m = info["meld"]
        hand = lambda ids: ref.hand_string(ref.counts_of([i // 4 for i in ids]))
        return "player %d claimed '%s' using '%s' to get '%s' from player %d" % (
            info["who"], CALL[info["what"]], hand(m.own), hand(m.borrowed), m.source)
    if k in ("reach1", "reach2"):
        return "player %d richii" % info["who"]
    if k == "dora":
        return "new dora indicator %s" % ref.id_name(info["tile"])
    if k == "agari":
        return "player %d win %d from player %d" % (info["who"], info["score"], info["source"])
    if k == "ryuukyoku":
        return "no body win %s" % logs.DRAWS[info["type"]]
    return "UNPARSED"


def texts(d):
    log = logs.play(d, max_rounds=2)
    rec = logs.read(d, log)
    for k, (e, info) in enumerate(zip(rec.events, log.info)):
        with d.sut("text"):
            base, full, quoted = e.base_str(), str(e), repr(e)
        want = expected(info)
        kind = info["kind"]
        if kind == "call":
            # the claim is quoted either way: with single quotes around each part
            base = five(base)
        d.equal("text:" + kind, base.strip(), want.strip(), "event %d %r" % (k, log.events[k]))
        d.check(five(full).startswith(five(base)), "full-text", "%r %r", full, base)
        rest = full[len(e.base_str()) + 1:]
        try:
            el = ET.fromstring(rest)
            same = (el.tag, dict(el.attrib)) == (info["tag"], info["attrs"])
        except ET.ParseError:
            same = False
        d.check(same, "full-text-xml", "%r", rest)
        d.check(full in quoted, "repr", "%r not in %r", full, quoted)
    kinds = logs.shape(d, log)
    if set(kinds) & set(CALL):
        d.nontrivial(logs.key(log))
        d.sample = logs.brief(log)


PARTS = [Part("texts", texts, 7500, 80000)]
