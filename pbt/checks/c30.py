import xml.etree.ElementTree as ET

from engine import Part
import universe
from universe import EventType, GameCommand, GameView, PlayerView, Update
from mahjong.record.universe.tenhou.xml_macher import TenhouCommandTranslator
from mahjong.record.universe.translator import default_event_type
from mahjong.record.utils.event import TenhouEvent

RULE = ("a translator with generated handlers (by name, several names, attribute, both, default; some yielding nothing, "
        "some looking at the state so far) is fed generated event sequences, also twice and after being cleared; "
        "calls, commands, timestamps and states are compared with a direct model of the dispatch order. Non-trivial: "
        "an event for which a handler was tried and passed.")
ASSUMPTIONS = ["Handlers are generator functions or return lists; they do not register further handlers while running."]
TAGS = ["A", "B", "C"]
ATTRS = ["x", "y", "z"]
MORE = ["p%d" % i for i in range(9)]       # further attributes, now and then


class Handler:
    def __init__(self, ident, style, yields, typ, listed):
        self.ident, self.style, self.yields, self.typ, self.listed = ident, style, yields, typ, listed
        self.calls = []
        self.preset = {}                  # what the translator is to fill in anyway

    def expects(self, attrs, score):
        """Amounts to add, given the score so far (None if unknown); None entries set it."""
        if self.style == "never":
            return []
        if self.style == "attr" and attrs.get("x") != "1":
            return []
        if self.style == "state" and not (score and score > 3):
            return []
        return self.yields

    def __call__(self, event, ctx):
        self.calls.append(event.timestamp)
        score = ctx.get((0, PlayerView.score), None)
        out = []
        for v in self.expects(event.attrib, score):
            known = score is not None or bool(out)
            out.append(GameCommand(prop=PlayerView.score, update=Update.ADD if known else Update.REPLACE, sub_scope=0,
                                   value=v, event=self.typ, **self.preset))
        return out if self.listed else iter(out)


def dispatch(d):
    with d.sut("make"):
        tr = TenhouCommandTranslator()
    table = {"both": {}, "name": {}, "attr": {}, "default": []}
    handlers = []
    description = []
    for i in range(d.between(1, 9)):
        h = Handler(i, d.weighted([(3, "always"), (2, "never"), (2, "attr"), (2, "state")]),
                    [d.between(1, 4) for _ in range(d.between(1, 3))],
                    d.choice([None, EventType.draw, EventType.discard]), d.chance(1, 2))
        if d.chance(1, 5):
            h.preset = {"timestamp": d.between(0, 99), "state": d.choice([0, "x", []])}
        handlers.append(h)
        fn, typ = h, h.typ
        if d.chance(1, 4):
            typ = h.typ or EventType.game_init
            with d.sut("event-type"):
                fn = default_event_type(EventType.game_init)(h)
        h.final = typ
        how = d.choice(["name", "names", "attr", "both", "default"])
        t, a = d.choice(TAGS), d.choice(ATTRS if d.chance(5, 6) else MORE)
        with d.sut("register"):
            if how == "name":
                back = tr.match_name(t)(fn)
                table["name"].setdefault(t, []).append(h)
            elif how == "names":
                ts = d.subset(TAGS, d.between(1, 3))
                back = tr.match_names(ts)(fn)
                t = ts
                for x in ts:
                    table["name"].setdefault(x, []).append(h)
            elif how == "attr":
                back = tr.match_attr(a)(fn)
                table["attr"].setdefault(a, []).append(h)
            elif how == "both":
                back = tr.match_both(name=t, attr=a)(fn)
                table["both"].setdefault((t, a), []).append(h)
            else:
                back = tr.default_event(fn)
                table["default"].append(h)
        d.check(back is fn, "decorator", "%s does not give the handler back", how)
        description.append((how, t, a, h.style, h.yields))
    d.note(handlers=description)
    score, passed, events = None, False, []
    d.note(events=events)
    for stamp in range(d.size(1, 10)):
        if events and d.chance(1, 12):
            with d.sut("clear"):
                tr.clear()
            score = None
        tag, attrs = d.choice(TAGS), {a: d.choice(["1", "2"]) for a in d.subset(ATTRS, d.below(4))}
        if d.chance(1, 4):
            attrs = {a: d.choice(["1", "2"]) for a in d.shuffled(list(attrs) + d.subset(MORE, d.between(1, len(MORE))))}
        events.append((tag, attrs))
        strict = d.chance(1, 3)
        stages = [table["both"].get((tag, a), []) for a in attrs] + [table["name"].get(tag, [])] + \
                 [table["attr"].get(a, []) for a in attrs] + [table["default"]]
        want, tried, chosen = [], [], None
        for h in [h for stage in stages for h in stage]:
            tried.append(h.ident)
            want = h.expects(attrs, score)
            if want:
                chosen = h
                break
        passed = passed or len(tried) > 1
        for h in handlers:
            h.calls = []
        event = TenhouEvent(ET.Element(tag, attrs), context=None, timestamp=stamp)
        if not want and strict:
            try:
                got = list(tr(event, strict=True))
            except ValueError:
                got = None
            except Exception as e:
                d.fail("strict", "raised %r" % e)
            d.check(got is None, "strict", "untranslated event accepted: %r", got)
        else:
            with d.sut("translate"):
                got = tr(event, strict) if strict else tr(event)
                got = list(got)
            facts = [(c.property, c.value, c.state, c.timestamp, c.event, c.sub_scope_id) for c in got]
            expect = []
            for v in want:
                score = v if score is None else score + v
                expect.append((PlayerView.score, v, score, stamp, chosen.final, 0))
            d.equal("commands", facts, expect, "event %r" % (events[-1],))
        called = [h.ident for h in handlers for _ in h.calls]
        d.equal("tried", sorted(called), sorted(tried), "event %r" % (events[-1],))
        if not want:
            d.label("untranslated")
        else:
            d.label("stage:" + next(n for n, s in zip(
                ["both"] * len(attrs) + ["name"] + ["attr"] * len(attrs) + ["default"], stages) if chosen in s))
    if passed:
        d.nontrivial((repr(description), repr(events)))
        d.sample = {"handlers": repr(description)[:300], "events": repr(events)[:200]}


PARTS = [Part("dispatch", dispatch, 24000, 100000)]
