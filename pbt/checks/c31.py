from engine import Part
import universe
from universe import GameCommand, GameView, PlayerView, Update
from mahjong.record.utils.builder import Builder

RULE = ("programs of nested contexts, calls and failing constructors over one or several builders (some sharing their "
        "settings, some with settings to start from), compared with a stack of plain dictionaries. Non-trivial: a "
        "program in which an inner context overrides an outer one or is left by an exception (an interrupt or the end of a generator included).")
ASSUMPTIONS = ["Contexts are left in the order opposite to the one they were entered in (with-blocks)."]
KEYS = ["a", "b", "c"]


class Boom(Exception):
    pass


class Stop(BaseException):
    """Leaves a block the way an interrupt or the end of an abandoned generator does."""


def contexts(d):
    log = []
    d.note(program=log)
    seen = []

    def ctor(**kw):
        seen.append(dict(kw))
        if kw.get("a") == 13:
            raise Boom()
        return kw

    with d.sut("make"):
        builders = [Builder(ctor)]
        stacks = [[{}]]
        if d.chance(1, 2):
            builders.append(Builder(ctor))
            stacks.append([{}])
        if d.chance(1, 2):
            builders.append(Builder(ctor, builders[0].inner_state))
            stacks.append(stacks[0])
    flags = set()

    def some(lo=0):
        return {k: d.choice([1, 2, 3, None, [1], 13]) if k == "a" else d.choice([1, 2, 3, None, "x"])
                for k in d.subset(KEYS, d.between(lo, 2))}

    def merged(i):
        out = {}
        for layer in stacks[i]:
            out.update(layer)
        return out

    def call():
        i = d.below(len(builders))
        kw = some()
        want = {**merged(i), **kw}
        log.append(("call", i, kw))
        if any(k in merged(i) for k in kw):
            flags.add("override")
        del seen[:]
        if want.get("a") == 13:
            try:
                builders[i](**kw)
            except Boom:
                flags.add("raised")
            else:
                d.fail("exception-lost", "%r" % want)
        else:
            with d.sut("call"):
                got = builders[i](**kw)
            d.equal("result", got, want)
        d.equal("arguments", seen, [want])

    def block(depth):
        for _ in range(d.between(1, 3)):
            if depth and d.chance(1, 2):
                i = d.below(len(builders))
                kw = some()
                leave = d.chance(1, 5)
                log.append(("enter", i, kw))
                if any(k in merged(i) for k in kw):
                    flags.add("override")
                with d.sut("when"):
                    ctx = builders[i].when(**kw)
                try:
                    with ctx:
                        stacks[i].append(kw)
                        block(depth - 1)
                        if leave:
                            log.append("raise")
                            flags.add("raised")
                            raise d.choice([Boom, Boom, Stop, GeneratorExit, KeyboardInterrupt])()
                except (Boom, Stop, GeneratorExit, KeyboardInterrupt):
                    d.check(leave, "stray-exception", "")
                else:
                    d.check(not leave, "exception-swallowed", "%r", kw)
                stacks[i].pop()
                log.append("leave")
            else:
                call()

    block(4)
    for i in range(len(builders)):
        del seen[:]
        with d.sut("call"):
            got = builders[i]()
        d.equal("back-to-start", got, {})
    if flags:
        d.nontrivial(repr(log))
        d.sample = {"program": repr(log)[:400]}
    for f in flags:
        d.label(f)


def commands(d):
    """The builder as the translator uses it: making game commands."""
    with d.sut("make"):
        b = Builder(GameCommand)
        prop, other = d.choice([PlayerView.score, PlayerView.hand, GameView.wind]), d.choice([PlayerView.name,
                                                                                             GameView.round])
        who, who2 = d.below(4), d.below(4)
        stamp = d.choice([None, 0, 5])
        with b.when(prop=prop, update=Update.REPLACE, timestamp=stamp):
            with b.when(sub_scope=who):
                one = b(value=1)
                two = b(value=2, update=Update.ADD, sub_scope=who2)
                three = b(prop=other)
            four = b(value=4)
    facts = [(c.property, c.update_method, c.sub_scope_id, c.value, c.timestamp) for c in (one, two, three, four)]
    d.equal("commands", facts, [(prop, Update.REPLACE, who, 1, stamp), (prop, Update.ADD, who2, 2, stamp),
                                (other, Update.REPLACE, who, None, stamp), (prop, Update.REPLACE, "all", 4, stamp)])
    d.nontrivial((prop.name, other.name, who, who2, stamp))


PARTS = [Part("contexts", contexts, 32000, 150000), Part("commands", commands, 1200, 2000)]
