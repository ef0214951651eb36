import contextlib
import io
import os
import shutil
from urllib.parse import quote

from engine import Part
import logs
from checks.c20 import FIELDS, same
from net import stubbed
from mahjong import universe_paifu_convert
from mahjong.record import (tenhou_download_url, tenhou_from_file, tenhou_from_url, tenhou_log_id_from_url,
                            tenhou_log_id_to_url)
from mahjong.record.universe.command import GameCommand
from mahjong.record.universe.tenhou import to_commands

RULE = ("generated log ids inside links of every shape players paste (other parameters before and after, fragments, "
        "percent-encoding, no scheme); links without a log id; downloads served by a stand-in, also failing ones; the "
        "extraction tool in a scratch folder. Non-trivial: a link with other parameters around the id.")
ASSUMPTIONS = ["A link names one log id, made of the characters tenhou.net uses (letters, digits, dashes)."]

CHARS = "abcdefghijklmnopqrstuvwxyz0123456789-ABCXYZ"


def log_id(d):
    if d.chance(1, 2):
        return "%04d%02d%02d%02dgm-%04x-%04x-%s%07x" % (d.between(2006, 2026), d.between(1, 12), d.between(1, 31),
                                                       d.below(24), d.below(1 << 12), d.below(10000),
                                                       d.choice(["", "x"]), d.below(1 << 28))
    return "".join(d.choice(CHARS) for _ in range(d.between(1, 40)))


def link(d, ident):
    """(text, whether something surrounds the id)"""
    host = d.choice(["http://tenhou.net/0/?", "https://tenhou.net/0/?", "http://tenhou.net/3/?", "tenhou.net/0/?",
                     "https://tenhou.net/5/a.html?", "http://127.0.0.1:8080/0/?", "?", "//tenhou.net/0/?",
                     "HTTP://TENHOU.NET/0/?", "http://e.mjv.jp/0/log/?", "http://e.mjv.jp/0/log/plainfiles.cgi?"])
    others = ["tw=%d" % d.below(4), "ts=%d" % d.below(12), "x=", "xlog=other", "logs=1", "Log=2", "a=b%3Dc", "q=log%3Dz"]
    before = d.subset(others, d.choice([0, 0, 1, 2]))
    after = d.subset([o for o in others if o not in before], d.choice([0, 1, 1, 2]))
    if d.chance(1, 8):                     # a link somebody's tracker has lengthened
        many = ["utm_%s=%s" % (d.choice(["source", "id", "x"]), d.choice(["", "1", "%E5%A4%A9", "a+b", "log"]))
                for _ in range(d.between(3, 40))]
        cut = d.below(len(many) + 1)
        before, after = before + many[:cut], many[cut:] + after
    text = ident
    if d.chance(1, 6):
        text = "".join("%%%02X" % ord(c) if d.chance(1, 3) else c for c in ident)
    frag = d.choice(["", "", "", "#", "#log=no", "#x&log=no"])
    return host + "&".join(before + ["log=" + text] + after) + frag, bool(before or after)


def links(d):
    ident = log_id(d)
    url, around = link(d, ident)
    d.note(url=url)
    with d.sut("log_id_from_url"):
        got = tenhou_log_id_from_url(url)
    d.equal("id", got, ident)
    with d.sut("download_url"):
        page = tenhou_download_url(url)
    d.equal("download-url", page, "http://e.mjv.jp/0/log/?" + ident)
    with d.sut("log_id_to_url"):
        view = tenhou_log_id_to_url(ident)
        back = tenhou_log_id_from_url(view)
        again = tenhou_download_url(view)
    d.equal("round-trip", back, ident, view)
    d.equal("same-page", again, page)
    d.check(view.startswith(("http://tenhou.net/", "https://tenhou.net/")), "view-url", "%s", view)
    # a link without a log id is refused, not guessed at
    bare = d.choice(["http://tenhou.net/0/", "http://tenhou.net/0/?tw=1", "", "tenhou.net", "http://tenhou.net/0/?logs=" +
                     ident, "http://tenhou.net/0/?x=1#log=" + ident, ident, "http://e.mjv.jp/0/log/?" + ident])
    asked = []
    try:
        with stubbed(lambda u: "<mjloggm/>", [], asked):
            tenhou_from_url(bare)
    except Exception:
        pass
    else:
        d.fail("no-id-accepted", bare)
    d.equal("nothing-fetched", asked, [], bare)
    if around:
        d.nontrivial(url)
        d.sample = {"url": url, "id": ident}
    d.label("surrounded" if around else "plain")


class Broken(Exception):
    pass


def events_of(rec):
    return [(e.tag, dict(e.attrib)) for e in rec.events]


def fetch(d):
    log = logs.play(d, max_rounds=1, long_rounds=False)
    other = logs.play(d, max_rounds=1, long_rounds=False)
    ident, ident2 = log_id(d), log_id(d) + "z"
    url, around = link(d, ident)
    url2, _ = link(d, ident2)
    d.note(url=url)
    pages = {"http://e.mjv.jp/0/log/?" + ident: log, "http://e.mjv.jp/0/log/?" + ident2: other}
    asked = []

    def serve(u):
        if u not in pages:
            raise Broken(u)
        return pages[u].xml()

    timeout = d.choice([None, 1, 10, 0.5])
    with stubbed(serve, [], asked):
        with d.sut("from_url"):
            rec = tenhou_from_url(url) if timeout is None else tenhou_from_url(url, timeout)
    d.equal("requests", [(m, u) for m, u, _ in asked], [("GET", "http://e.mjv.jp/0/log/?" + ident)])
    if timeout is not None:
        d.equal("timeout", asked[0][2], timeout)
    d.check(asked[0][2] is not None, "no-timeout", "waits for ever by default")
    d.equal("events", events_of(rec), [(t, dict(a)) for t, a in log.events])
    with d.sut("from_file"):
        ref_rec = tenhou_from_file(io.BytesIO(log.xml().encode("utf-8")))
    d.equal("as-from-file", (str(rec), events_of(rec)), (str(ref_rec), events_of(ref_rec)))
    # another link gives the other game, asking for the first again gives the first
    with stubbed(serve, [], asked):
        with d.sut("from_url"):
            second, third = tenhou_from_url(url2), tenhou_from_url(url)
    d.equal("other-log", events_of(second), [(t, dict(a)) for t, a in other.events])
    d.equal("same-log", events_of(third), events_of(rec))
    # failures are reported, not hidden
    pages.clear()
    try:
        with stubbed(serve, [], asked):
            tenhou_from_url(url2)
    except Broken:
        pass
    except Exception as e:
        d.label("wrapped:" + type(e).__name__)
    else:
        d.fail("failure-hidden", url2)
    if around:
        d.nontrivial((url, logs.key(log)))
        d.sample = {"url": url, "events": len(log.events)}


IDS_NEAR = ["%s.csv", "%s_command.csv.bak", "command_%s.csv", "%s_state.csv", "x%s_command.csv"]


def extract(d):
    log = logs.play(d, max_rounds=1, long_rounds=False)
    ident = log_id(d)
    url, around = link(d, ident)
    d.note(url=url)
    rec = logs.read(d, log)
    with d.sut("convert"):
        commands = to_commands(rec)
    here = os.getcwd()
    os.mkdir("tool")
    os.chdir("tool")
    out = io.StringIO()
    asked = []
    before = d.chance(1, 3)
    other = d.choice(IDS_NEAR) % ident if d.chance(1, 3) else None
    try:
        if before:                       # an earlier run's file is replaced
            with open("%s_command.csv" % ident, "w") as h:
                h.write("something,else\n" + "1,2\n" * 40000)
            d.label("again")
        if other is not None:            # and nobody else's file is touched
            with open(other, "w") as h:
                h.write("mine")
        with stubbed(lambda u: log.xml(), [d.choice(["%s", " %s", "%s  "]) % url], asked), \
                contextlib.redirect_stdout(out):
            with d.sut("main"):
                universe_paifu_convert.main()
        if other is not None:
            with open(other) as h:
                d.equal("other-file", h.read(), "mine")
            os.remove(other)
        files = sorted(os.listdir("."))
        d.equal("files", files, ["%s_command.csv" % ident])
        with d.sut("read-back"):
            df = GameCommand.read_clean_csv(files[0])
            back = [GameCommand.from_raw_record(r) for r in df[FIELDS].itertuples(index=False, name="Row")]
    finally:
        os.chdir(here)
        shutil.rmtree("tool")
    d.equal("requests", [(m, u) for m, u, _ in asked], [("GET", "http://e.mjv.jp/0/log/?" + ident)])
    d.check(files[0] in out.getvalue(), "not-announced", "%r", out.getvalue())
    d.equal("rows", len(back), len(commands))
    for k, (g, w) in enumerate(zip(back, commands)):
        same(d, "row", g, w, "row %d %s" % (k, w))
    if around:
        d.nontrivial((url, logs.key(log)))
        d.sample = {"url": url, "rows": len(commands)}


PARTS = [Part("links", links, 12000, 100000), Part("fetch", fetch, 800, 6000), Part("extract", extract, 160, 1500)]
