from engine import Part
import logs
import universe
from universe import GameExecutor, Expect, to_commands

RULE = ("simulated games as for C14 (offline players, odd names, three- and four-player); the whole command stream is "
        "executed and after every event each property of each player, the round and the record is compared with the "
        "simulator's truth. Non-trivial: a log with a call, a riichi or a win.")
ASSUMPTIONS = ["Hands, calls and bonus tiles are compared as multisets; a round's stake pot is the one at its start; "
               "an added quad adds a one-tile entry to the call list; with two winners the later one is recorded."]


def stream(d):
    log = logs.play(d, max_rounds=3, long_rounds=not d.chance(1, 2), tricky_names=d.chance(1, 4))
    rec = logs.read(d, log)
    with d.sut("convert"):
        commands = to_commands(rec, strict=d.chance(1, 2))
    with d.sut("execute"):
        states = list(GameExecutor(strict_mode=d.chance(1, 2)).execute(commands))
    d.equal("one state per command", len(states), len(commands))
    last = {}
    for c, s in zip(commands, states):
        last[c.timestamp] = s
    known = {}
    for k, want in enumerate(Expect(log).steps()):
        if k not in last:
            d.fail("event-without-command", "event %d %r" % (k, log.events[k]))
        with d.sut("state"):
            got = universe.read_state(last[k], log.n_players)
        for key, (kind, value) in want.items():
            if key not in got:
                d.fail("missing:" + key[2], "%r after event %d %r" % (key, k, log.events[k]))
            g, w = universe.normal(kind, got[key]), universe.normal(kind, value)
            if g != w:
                d.fail("state:" + key[2], "%r after event %d %r: got %r expected %r" % (key, k, log.events[k], g, w))
        for key in set(got) - set(want):
            d.fail("unexpected:" + key[2], "%r is %r after event %d %r" % (key, got[key], k, log.events[k]))
        with d.sut("time"):
            stamp = last[k]["global"]["time"]["timestamp"]
        d.equal("timestamp", stamp, k)
    kinds = logs.shape(d, log)
    if set(kinds) & {"chi", "pon", "kan_open", "kan_closed", "kan_added", "kita", "reach1", "agari"}:
        d.nontrivial(logs.key(log))
        d.sample = dict(logs.brief(log), commands=len(commands))


PARTS = [Part("stream", stream, 3200, 24000)]
