from engine import Part, Discard
import logs
import ref
import universe
from universe import (GameCommand, GameExecutor, GameView, PlayerId, PlayerView, RecordView, Update, ViewScope,
                      to_commands)

RULE = ("simulated games with one recorded fact (a score at the start of a round or at its end, a winning hand, a "
        "returning player's name) replaced by another value, or none; executed strictly and leniently. Also generated "
        "command sequences of asserts over every kind of property against a plain dictionary. Non-trivial: a log or "
        "sequence with a contradiction.")
ASSUMPTIONS = ["A hand asserted in another order is no contradiction; a first mention of a fact is none either."]


def run(d, commands, strict, steps=None):
    """Number of commands executed before the executor objects, the final state.

    Now and then the executor has been used before: each execution starts anew."""
    done, state = 0, None
    before = [str(c) for c in commands]
    executor = GameExecutor(strict_mode=strict)
    if d.chance(1, 4):
        some = commands[:d.between(0, len(commands))]
        try:
            for state in executor.execute(iter(some)):
                pass
        except AssertionError as e:
            d.check(strict, "lenient-raises", "%s", e)
        d.label("used-executor")
    try:
        for state in executor.execute(iter(commands) if d.chance(1, 2) else commands):
            done += 1
            if steps is not None:
                steps.append(state)
    except AssertionError as e:
        d.check(strict, "lenient-raises", "%s", e)
        d.equal("commands-unchanged", [str(c) for c in commands], before)
        return done, state, True
    d.equal("commands-unchanged", [str(c) for c in commands], before)
    return done, state, False


def tamper(d, log):
    """Replace one recorded fact; returns (event index, what) or None."""
    options = []
    n = log.n_players
    for k, (info, s) in enumerate(zip(log.info, log.snaps)):
        if info["kind"] == "init" and info["game"] > 0:
            options.append((k, "ten"))
        elif info["kind"] in ("agari", "ryuukyoku"):
            options.append((k, "sc"))
            if info["kind"] == "agari":
                options += [(k, "hai"), (k, "hai"), (k, "order")]
        elif info["kind"] == "un" and not info.get("full") and k > 2:
            options += [(k, "name")] * 12
    if not options:
        return None
    k, what = d.choice(options)
    tag, attrs = log.events[k]
    attrs = dict(attrs)
    if what == "ten":
        vals = attrs["ten"].split(",")
        p = d.below(n)
        vals[p] = str(int(vals[p]) + d.choice([1, -1, 10, 1000]))
        attrs["ten"] = ",".join(vals)
    elif what == "sc":
        vals = attrs["sc"].split(",")
        p = d.below(n)
        vals[2 * p] = str(int(vals[2 * p]) + d.choice([1, -1, 10, 100]))
        attrs["sc"] = ",".join(vals)
    elif what == "order":
        attrs["hai"] = ",".join(d.shuffled(attrs["hai"].split(",")))
    elif what == "hai":
        vals = [int(x) for x in attrs["hai"].split(",")]
        machi = int(attrs["machi"])
        if d.chance(1, 3) and len(vals) > 2:
            vals.remove(d.choice([v for v in vals if v != machi]))
        else:
            j = d.choice([i for i, v in enumerate(vals) if v != machi])
            other = d.choice([i for i in range(136) if i not in vals and ref.id_name(i) != ref.id_name(vals[j])])
            vals[j] = other
        attrs["hai"] = ",".join(map(str, vals))
    else:
        p = log.info[k]["who"][0]
        attrs["n%d" % p] = logs.sim.quote(log.table.names[p] + "2")
    log.events[k] = (tag, list(attrs.items()))
    return k, what


def games(d):
    log = logs.play(d, max_rounds=3, long_rounds=False)
    hit = tamper(d, log) if d.chance(4, 5) else None
    if hit is None:
        hit = (None, "untouched")
    d.note(log=log.truncated_repr(), tampered=hit)
    rec = logs.read(d, log)
    with d.sut("convert"):
        commands = to_commands(rec)
    with d.sut("lenient"):
        done, _, raised = run(d, commands, False)
    d.equal("lenient-runs-through", (done, raised), (len(commands), False))
    with d.sut("strict"):
        done, _, raised = run(d, commands, True)
    if hit[1] in ("untouched", "order"):
        if raised:
            d.fail("false-alarm:" + hit[1], "at %s" % commands[done])
        d.equal("strict-runs-through", done, len(commands))
    else:
        d.check(raised, "undetected:" + hit[1], "event %d %r", hit[0], log.events[hit[0]])
        d.equal("detected-at:" + hit[1], commands[done].timestamp, hit[0], "command %s" % commands[done])
        d.nontrivial((logs.key(log), hit))
        d.sample = {"tampered": hit, "log": log.truncated_repr()[:300]}
    d.label(hit[1])


TILES = (PlayerView.hand, PlayerView.discard_tiles, PlayerView.bonus_tiles, PlayerView.meld_public_tiles,
         GameView.dora_indicators)
PROPS = TILES + (PlayerView.name, PlayerView.score, PlayerView.round, PlayerView.in_richii, PlayerView.fixed_meld,
                 PlayerView.final_point, PlayerView.faans, GameView.wind, GameView.nobody_win, GameView.extra_reason,
                 RecordView.player_count, RecordView.play_level, RecordView.using_tiles)


def some_value(d, prop):
    kind = prop.type.name
    if kind == "str":
        return d.choice(["A", "B", "12", ""])
    if kind == "bool":
        return d.chance(1, 2)
    if kind in ("index", "score", "int"):
        return d.choice([0, 1, 2, 1000])
    if kind == "float":
        return d.choice([0.0, 1.5, -3.0])
    if prop is PlayerView.fixed_meld:
        return [[d.choice(["1m", "2m"]) for _ in range(3)] for _ in range(d.below(3))]
    pool = ["1m", "2m", "0p", "5p"]
    return [d.choice(pool) for _ in range(d.below(5))]


def asserts(d):
    """Sequences of sets, additions, removals and asserts on a few properties."""
    model, cmds, verdicts, history = {}, [], [], []
    few = d.subset(list(PROPS), d.between(1, 3))
    for k in range(d.size(1, 14)):
        prop = d.choice(few)
        who = d.below(2) if prop.scope == ViewScope.player else "all"
        key = (prop, who)
        op = d.weighted([(3, "assert"), (2, "set"), (1, "same"), (1, "add"), (1, "remove"), (1, "reset")])
        kind = prop.type.name
        summed = kind in ("index", "score", "tiles", "melds")
        bad = False
        if op in ("add", "remove") and not (summed and key in model):
            op = "set"
        if op == "reset" and kind not in ("index", "tiles", "melds"):
            op = "set"
        if op == "same" and key not in model:
            op = "assert"
        if op == "set":
            value, update = some_value(d, prop), Update.REPLACE
            model[key] = value
        elif op == "reset":
            value, update = None, Update.RESET_DEFAULT
            model[key] = [] if kind in ("tiles", "melds") else 0
        elif op == "add":
            value, update = some_value(d, prop), Update.ADD
            model[key] = model[key] + value
        elif op == "remove":
            update = Update.REMOVE
            if isinstance(model[key], list):
                value = d.subset(model[key], d.below(len(model[key]) + 1))
                left = list(model[key])
                for x in value:
                    left.remove(x)
                model[key] = left
            else:
                value = some_value(d, prop)
                model[key] = model[key] - value
        else:
            update = Update.ASSERT_EQUAL_OR_SET
            if op == "same" or key in model and d.chance(1, 2):
                value = model[key]
                if isinstance(value, list) and kind == "tiles":
                    value = d.shuffled(value)
            else:
                value = some_value(d, prop)
            if key in model:
                old = model[key]
                bad = sorted(old) != sorted(value) if kind == "tiles" else old != value
            model[key] = value
        cmds.append(GameCommand(prop=prop, update=update, sub_scope=who, value=value, timestamp=k))
        verdicts.append(bad)
        history.append((key, model[key] if not isinstance(model[key], list) else list(model[key])))
    d.note(commands=[str(c) for c in cmds])
    with d.sut("lenient"):
        steps = []
        done, state, raised = run(d, cmds, False, steps)
    d.equal("lenient-runs-through", (done, raised), (len(cmds), False))
    for step, ((prop, who), value) in zip(steps, history):
        with d.sut("read"):
            part = step[prop.scope]["single"] if who == "all" else step[prop.scope][PlayerId(who)]
            got = part[prop]
        d.equal("step:" + prop.name, got, value)
    for (prop, who), value in model.items():
        with d.sut("read"):
            part = state[prop.scope]["single"] if who == "all" else state[prop.scope][PlayerId(who)]
            got = part[prop]
        d.equal("final:" + prop.name, got, value)
    with d.sut("strict"):
        done, state, raised = run(d, cmds, True)
    first = verdicts.index(True) if True in verdicts else None
    if first is None:
        d.check(not raised, "false-alarm", "at %s", cmds[done] if raised else None)
    else:
        d.check(raised, "undetected", "%s", cmds[first])
        d.equal("detected-at", done, first)
        d.nontrivial(tuple(map(str, cmds)))
        d.sample = {"commands": [str(c) for c in cmds[:first + 1]][-2:], "contradiction at": first}
    d.label("contradiction" if first is not None else "consistent")


PARTS = [Part("games", games, 4000, 24000), Part("asserts", asserts, 15000, 120000)]
