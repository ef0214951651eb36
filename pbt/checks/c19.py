import xml.etree.ElementTree as ET

from engine import Part
import logs
import universe
from universe import (EventType, GameCommand, GameExecutor, PlayerId, Update, ViewScope, to_command_iter,
                      to_command_records, to_commands)
from mahjong.record import parse_dataframe_from_tenhou_record
from mahjong.record.reader import TenhouRecord

RULE = ("histories of 1-4 conversions of simulated games, complete, abandoned after any number of commands, "
        "failing at an event that cannot be translated, or repeated (what an earlier one returned being changed), "
        "through every conversion route, one after another or read side by side; each conversion is compared with the first clean one of that log, and every "
        "command's own state, time, kind and player with the executor and the log. Non-trivial: a history with an "
        "abandoned or repeated conversion before the one judged, or conversions side by side.")
ASSUMPTIONS = ["Conversions read side by side run in one thread."]

KIND = {"draw": "draw", "discard": "discard", "init": "game_init", "call": "open_hand", "go": "record_init",
        "un": "record_init", "shuffle": "record_init", "taikyoku": "game_init", "dora": "new_dora",
        "reach1": "richii", "reach2": "richii", "agari": "game_finish", "ryuukyoku": "game_finish",
        "bye": "connect_change"}


def record_of(c):
    return tuple(c.to_record())


def raw_facts(c):
    return (c.timestamp, c.event, c.sub_scope_id, c.property, c.update_method, c.value, c.state)


def judge(d, log, commands):
    """Each command's own account agrees with the executor and the log."""
    states = []
    with d.sut("execute"):
        it = GameExecutor().execute(commands)
        for c in commands:
            state = next(it)
            scope = c.prop.scope
            part = state[scope]["single"] if scope != ViewScope.player else state[scope][PlayerId(c.sub_scope_id)]
            states.append(part[c.property])
    before = -1
    for c, s in zip(commands, states):
        where = "command %s" % (record_of(c),)
        d.check(c.state == s and type(c.state) is type(s), "state:" + c.property.name, "%r executor has %r %s",
                c.state, s, where)
        d.check(before <= c.timestamp <= before + 1, "time-order", "%r after %r", c.timestamp, before)
        before = c.timestamp
        info = log.info[c.timestamp]
        want = KIND[info["kind"]]
        if c.property.name == "dora_indicators":
            want = "new_dora"
        elif c.property.name == "disconnected":
            want = "connect_change"
        elif c.property.name in ("final_score", "final_point", "rank"):
            want = "record_finish"
        d.equal("kind:" + info["kind"], c.event.name, want, where)
        if info["kind"] in ("draw", "discard", "call", "reach1", "reach2", "bye"):
            d.equal("player:" + info["kind"], c.sub_scope_id, info["who"], where)
        if c.prop.scope != ViewScope.player:
            d.equal("scope", c.sub_scope_id, "all", where)
    d.equal("last-time", before, len(log.events) - 1)


BROKEN = [("FOO", {}), ("N", {}), ("DORA", {"hai": "x"}), ("REACH", {"who": "0"}), ("UN", {"n0": "%41", "dan": ""}),
          ("AGARI", {"who": "0"}), ("BYE", {})]


def failing(d, log):
    """A conversion that fails in the middle: a log with an event that cannot be translated."""
    root = ET.fromstring(log.xml())
    tag, attrs = d.choice(BROKEN)
    root.insert(d.below(len(root)), ET.Element(tag, dict(attrs)))
    try:
        rec = TenhouRecord(root)
        to_commands(rec, strict=True)
    except Exception:      # whatever it says: what counts is the next conversion
        d.label("failed")


def spoil(x):
    """Changes in place what a caller was given."""
    if isinstance(x, list):
        for y in x:
            spoil(y)
        x.append("spoilt")


def together(d):
    """Two or three conversions read side by side."""
    items, want, runs = [], [], []
    for _ in range(d.between(1, 2)):
        log = logs.play(d, max_rounds=1, long_rounds=False)
        items.append((log, logs.read(d, log)))
        with d.sut("alone"):
            want.append([record_of(c) for c in to_commands(items[-1][1])])
    for _ in range(d.between(2, 3)):
        k = d.below(len(items))
        log, rec = items[k]
        if d.chance(1, 3):
            rec = logs.read(d, log)
        how = d.choice(["iter", "records", "raw"])
        with d.sut("start"):
            it = (to_command_iter(rec, False) if how == "iter" else to_command_records(rec) if how == "records" else
                  to_command_records(rec, raw=True))
        runs.append([k, how, it, []])
    d.note(logs=[log.truncated_repr() for log, _ in items], runs=[(k, how) for k, how, _, _ in runs])
    left = list(runs)
    while left:
        run = d.choice(left)
        for _ in range(d.choice([1, 3, 20, 100])):
            with d.sut("step"):
                c = next(run[2], None)
            if c is None:
                left = [r for r in left if r is not run]
                break
            run[3].append(c)
    for k, how, _, got in runs:
        with d.sut("record"):
            facts = [record_of(c) if how == "iter" else record_of(GameCommand.from_raw_record(c)) if how == "raw" else
                     tuple(c) for c in got]
        for a, b in zip(facts, want[k]):
            if a != b:
                d.fail("side-by-side:" + how, "%r was %r" % (a, b))
        d.equal("side-by-side-count", len(facts), len(want[k]))
    d.label("side by side")
    d.nontrivial((logs.key(items[0][0]), tuple((k, how) for k, how, _, _ in runs)))
    d.sample = {"runs": [(k, how) for k, how, _, _ in runs]}


def history(d):
    n_logs = d.weighted([(3, 1), (3, 2)])
    items = []
    for _ in range(n_logs):
        log = logs.play(d, max_rounds=2, long_rounds=False)
        items.append((log, logs.read(d, log)))
    first = {}
    steps = []
    special = False
    for s in range(d.between(1, 4)):
        k = d.below(n_logs)
        log, rec = items[k]
        how = d.weighted([(3, "commands"), (2, "records"), (2, "raw"), (2, "abandon"), (1, "dataframe"), (1, "strict"),
                          (1, "fail")])
        if s == 0 and how in ("abandon", "dataframe", "raw", "fail"):
            how = d.choice(["commands", how])
        steps.append((k, how))
        d.note(steps=steps, log=log.truncated_repr())
        if how == "fail":
            failing(d, log)
            special = True
            continue
        if how == "abandon":
            stop = d.between(0, 3 * len(log.events))
            with d.sut("abandoned"):
                it = to_command_iter(rec, False)
                for _ in range(stop):
                    if next(it, None) is None:
                        break
                if d.chance(1, 2):
                    it.close()
            special = True
            continue
        with d.sut(how):
            if how in ("commands", "strict"):
                cmds = to_commands(rec, strict=how == "strict")
                got = [record_of(c) for c in cmds]
            elif how == "records":
                cmds, got = None, [tuple(r) for r in to_command_records(rec)]
            elif how == "raw":
                raws = list(to_command_records(rec, raw=True))
                cmds = [GameCommand.from_raw_record(r) for r in raws]
                got = [record_of(c) for c in cmds]
            else:
                df = parse_dataframe_from_tenhou_record(rec, return_state=False)
                cmds, got = None, [tuple(None if x != x else x for x in row) for row in
                                   df.itertuples(index=False, name=None)]
        if cmds is not None:
            judge(d, log, cmds)
        if k in first:
            special = True
            if got != first[k]:
                for a, b in zip(got, first[k]):
                    if a != b:
                        d.fail("differs:" + how, "%r was %r" % (a, b))
                d.fail("differs:" + how, "%d commands, was %d" % (len(got), len(first[k])))
        else:
            first[k] = got
        if cmds is not None and d.chance(1, 3):
            for c in cmds:
                spoil(c.value)
                spoil(c.state)
        rebuilt = rec
        if d.chance(1, 4):
            rebuilt = logs.read(d, log)
            items[k] = (log, rebuilt)
    if special:
        d.nontrivial((logs.key(items[0][0]), tuple(steps)))
        d.sample = {"steps": steps, "log": items[0][0].truncated_repr()[:300]}
    for _, how in steps:
        d.label(how)


PARTS = [Part("history", history, 4000, 30000), Part("together", together, 600, 6000)]
