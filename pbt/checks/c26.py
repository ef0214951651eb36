import base64
import contextlib
import io
import os
import shutil
import sys

from engine import Part, Discard
import gen
import logs
import main as harness
import ref
import report
from net import stubbed
from checks.c25 import checker, counts_of
from mahjong import tenhou_record_check
from mahjong.record.checker import TenhouChecker
from mahjong.record.reader import log_id_to_url
from mahjong.tenhou_record_check import render_template

RULE = ("simulated games whose players have names with markup, quotes, path separators, entities and other scripts; the "
        "page is rendered from a record, from a link and by the command-line tool (network, keyboard and folder "
        "stubbed; also as inside a pre-built binary, and run again over its own earlier files), and parsed back as a browser would. Non-trivial: a game where some name needs escaping in the page "
        "or in the file name.")
ASSUMPTIONS = ["Names hold no control characters; hands with more than 8 kinds of terminals/honours are left out for "
               "run time only."]

HOSTILE = ["<script>alert(1)</script>", "</td></tr>", "&amp;", "&lt;", "a&b", "\"q\"", "it's", "<b>x", "{{ 7*7 }}",
           "{% raw %}", "../../x", "a/b", "..\\c", "C:", "a*?", "|x|", "<!--", "日本語", "é", "plain", "%41", "$x",
           "a.html", "-", "&#x41;", "]]>", "'\"><img src=x>"]
TAGS = {"!doctype", "html", "head", "body", "meta", "title", "style", "div", "details", "summary", "span", "table", "tr", "th",
        "td", "br", "hr", "p", "a"}
ATTRS = {"class", "style", "href", "open", "lang", "charset", "type"}
NAMES37 = sorted(["%d%s" % (k, s) for s in "mps" for k in range(10)] + ["%dz" % k for k in range(1, 8)])
UNSAFE = set('\\/:*?"<>|')


def pictures(d):
    if not hasattr(pictures, "cache"):
        folder = os.path.join(harness.REPO, "mahjong", "templates", "mjpic")
        pictures.cache = {t: open(os.path.join(folder, t + ".png"), "rb").read() for t in NAMES37}
    return pictures.cache


def small_game(d, players):
    """A game whose turns are quick to analyse for all of `players`."""
    log = logs.play(d, max_rounds=d.between(1, 2), long_rounds=False, names=HOSTILE + logs.sim.NAMES)
    who = range(log.n_players) if players is None else [players % log.n_players]
    turns = [k for k, i in enumerate(log.info) if i["kind"] == "discard" and i["who"] in who]
    if len(turns) > 14:
        raise Discard()
    if any(gen.orphans(counts_of(log.snaps[k - 1].hands[log.info[k]["who"]])) > 8 for k in turns):
        raise Discard()
    return log


def player_text(log, p):
    t = log.table
    return "%s %s R%.2f" % (t.names[p], logs.RANKS[t.dan[p]], float(t.rate[p]))


def examine(d, html, log, rec, p, href):
    page = report.read(html)
    d.equal("well-formed", page["errors"], [])
    for node in page["root"].all():
        if node.tag != "root":
            d.check(node.tag in TAGS, "foreign-element", "<%s>", node.tag)
            for a in node.attrs:
                d.check(a in ATTRS, "foreign-attribute", "%s", a)
    d.equal("player-line", page["ps"][0].text().strip(), "Player: " + player_text(log, p))
    line = page["ps"][1]
    text = "".join(c for c in line.children if isinstance(c, str)).strip()
    d.equal("record-line", text, str(rec))
    for name in log.table.names[:log.n_players]:
        d.check(name in text, "name-missing", "%r in %r", name, text)
    links = page["root"].find("a")
    d.equal("links", len(links), 1)
    if href is not None:
        d.equal("link", links[0].attrs.get("href"), href)
    d.equal("captions", [g["caption"] for g in page["games"]], [str(g) for g in rec.game_list])
    for r, g in enumerate(page["games"]):
        mine = sum(1 for i in log.info if i["kind"] == "discard" and i["who"] == p and i["game"] == r)
        d.equal("rows", len(g["rows"]), mine)
    d.equal("pictures", sorted(page["css"]), NAMES37)
    for t, raw in pictures(d).items():
        try:
            same = base64.b64decode(page["css"][t], validate=True) == raw
        except ValueError:
            same = False
        d.check(same, "picture", "%s", t)
    shown = {c[3:] for node in page["root"].all() for c in node.attrs.get("class", "").split() if c[:3] == "pic"}
    d.check(shown <= set(NAMES37), "unknown-tile", "%r", shown - set(NAMES37))
    return page


def file_name_ok(d, name, log_id, log, p):
    who = log.table.names[p]
    head, tail = "tenhou_record_%s_" % log_id, "_%d.html" % p
    d.check(name.startswith(head) and name.endswith(tail), "file-name", "%r", name)
    middle = name[len(head):-len(tail)]
    d.check(not set(name) & UNSAFE, "file-name-unsafe", "%r", name)
    if not set(who) & UNSAFE:
        d.equal("file-name-player", middle, who)
    else:
        # what stands for an unsafe character is left open, but for it being "_" or nothing
        d.equal("file-name-player", middle.replace("_", ""), "".join(c for c in who if c not in UNSAFE | {"_"}))
        d.check(middle.count("_") >= who.count("_"), "file-name-player", "%r for %r", middle, who)


def odd(names):
    return any(set(n) & set("<>&\"'/\\:*?|{") for n in names)


IDS = ["2018010604gm-00a9-0000-bbc99254", "2019123123gm-0089-0000-x1234567", "a", "2020010100gm-00c1-0000-0000abcd"]


def a_link(d):
    log_id = d.choice(IDS)
    return log_id, d.choice(["http://tenhou.net/0/?log=%s", "https://tenhou.net/0/?log=%s&tw=2",
                             "http://tenhou.net/0/?tw=1&log=%s", "https://tenhou.net/3/?log=%s&ts=5#x",
                             "tenhou.net/0/?log=%s"]) % log_id


@contextlib.contextmanager
def prebuilt(frozen):
    """As inside a pre-built binary, which carries the templates in a folder of its own."""
    if frozen:
        sys.frozen, sys._MEIPASS = True, harness.REPO
    try:
        yield
    finally:
        if frozen:
            del sys.frozen, sys._MEIPASS


def pages(d):
    pick = d.below(4)
    log = small_game(d, pick)
    p = pick % log.n_players
    rec = logs.read(d, log)
    frozen = d.chance(1, 5)
    how = d.choice(["record", "link", "link+name", "id", "link-only-html"])
    log_id, link = a_link(d)
    timeout = d.choice([None, 3, 15])
    kw = {} if timeout is None else {"timeout": timeout}
    d.note(how=how, link=link, player=p, frozen=frozen, timeout=timeout)
    name, asked = None, []
    with stubbed(lambda url: log.xml(), [], asked), prebuilt(frozen):
        if frozen:
            with d.sut("template"):
                ck = TenhouChecker()
        else:
            ck = checker(d)
        with d.sut(how):
            if how == "record":
                html, href = ck.parse(rec, p), None
            elif how == "link":
                html, href = ck.parse(link, p, **kw), link
            elif how == "link+name":
                (name, html), href = ck.parse(link, player_index=p, generate_filename=True, **kw), link
            elif how == "id":
                name, html = render_template(rec.players[p], rec, ck.template, log_id=log_id)
                href = log_id_to_url(log_id)
            else:
                html = render_template(rec.players[p], rec, ck.template, log_url=link, generate_filename=False)
                href = link
    d.check(isinstance(html, str), "no-page", "%r", type(html))
    d.equal("requests", [(m, u) for m, u, _ in asked],
            [("GET", "http://e.mjv.jp/0/log/?" + log_id)] if how in ("link", "link+name") else [])
    if asked and timeout is not None:
        d.equal("timeout", asked[0][2], timeout)
    examine(d, html, log, rec, p, href)
    if name is not None:
        file_name_ok(d, name, log_id, log, p)
    d.label(how)
    if frozen:
        d.label("pre-built")
    if odd(log.table.names):
        d.nontrivial(logs.key(log))
        d.sample = {"names": log.table.names, "how": how}


ODD_ANSWERS = ["0", "5", "4", "all", "-1", "x", "12", "1 2", "99", "\uff11", "\u2461", "\u00b2"]


def tool(d):
    log = small_game(d, None)
    n = log.n_players
    rec = logs.read(d, log)
    log_id, link = a_link(d)
    answer = d.choice(["1", "2", "3", "4", ""]) if d.chance(1, 2) else d.choice(ODD_ANSWERS)
    frozen = d.chance(1, 5)
    again = d.chance(1, 4)
    d.note(answer=answer, link=link, frozen=frozen, again=again)
    asked = []
    out = io.StringIO()
    folder = "tool"
    os.mkdir(folder)
    here = os.getcwd()
    os.chdir(folder)
    try:
        typed = d.choice(["%s", " %s ", "%s\t"]) % link
        with stubbed(lambda url: log.xml(), [typed, answer], asked), contextlib.redirect_stdout(out), \
                contextlib.redirect_stderr(io.StringIO()), prebuilt(frozen):
            with d.sut("main"):
                tenhou_record_check.main()
        harness.quiet()
        if again:
            # the tool run once more in the same folder replaces its files and leaves others alone
            d.label("again")
            first = sorted(os.listdir("."))
            for f in first:
                with open(f, "a", encoding="utf-8") as h:
                    h.write("old" * 1000)
            with open("tenhou_record.html", "w") as h:
                h.write("mine")
            del asked[:]
            with stubbed(lambda url: log.xml(), [typed, answer], asked), contextlib.redirect_stdout(out), \
                    contextlib.redirect_stderr(io.StringIO()), prebuilt(frozen):
                with d.sut("main-again"):
                    tenhou_record_check.main()
            harness.quiet()
            with open("tenhou_record.html") as h:
                d.equal("other-file", h.read(), "mine")
            os.remove("tenhou_record.html")
            d.equal("same-files", sorted(os.listdir(".")), first)
        made = {}
        for base, _, files in os.walk("."):
            for f in files:
                with open(os.path.join(base, f), encoding="utf-8", newline="") as h:
                    made[os.path.relpath(os.path.join(base, f), ".")] = h.read()
                os.remove(os.path.join(base, f))
    finally:
        os.chdir(here)
        shutil.rmtree(os.path.join(here, folder))
    d.equal("requests", [(m, u) for m, u, _ in asked], [("GET", "http://e.mjv.jp/0/log/?" + log_id)])
    outside = sorted(os.listdir(here))
    d.equal("files-elsewhere", outside, [])
    chosen = [int(answer) - 1] if answer.isdecimal() and 1 <= int(answer) <= n else list(range(n))
    d.equal("number-of-files", len(made), len(chosen), sorted(made))
    said = out.getvalue()
    for i in range(n):
        d.check("[%d]: %s" % (i + 1, player_text(log, i)) in said, "menu", "player %d: %r", i, said)
    for p in chosen:
        mine = [f for f in made if f.endswith("_%d.html" % p)]
        d.equal("file-of-player", len(mine), 1, sorted(made))
        file_name_ok(d, mine[0], log_id, log, p)
        examine(d, made[mine[0]], log, rec, p, link)
        d.check(mine[0] in said, "file-not-announced", "%r", mine[0])
    d.label("one player" if len(chosen) == 1 else "all players")
    if odd(log.table.names):
        d.nontrivial((logs.key(log), answer))
        d.sample = {"names": log.table.names, "answer": answer, "files": sorted(made)}


PARTS = [Part("pages", pages, 325, 6000), Part("tool", tool, 250, 5000)]
