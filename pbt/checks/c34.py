from engine import Part
import universe
from universe import GameCommand, GameExecutor, GameView, PlayerId, PlayerView, RecordView, Update, ViewScope
from mahjong.record.universe.format import EventType
from mahjong.record.universe.interpreter import GameInterpreter

RULE = ("sequences of up to 24 commands over all properties of the record, the round and the players (0-4 of each "
        "kind in play at once), with all update methods, executed step by step and interpreted one by one, alone or two in turns, against a "
        "plain dictionary. Non-trivial: an addition, removal, reset or assertion on a property which held a value.")
ASSUMPTIONS = ["Additions and removals are made on properties which hold a number or a list; resets on counters and "
               "lists, the properties which have a default value. Taking away what a list does not hold, and the "
               "update method CLEAR, which nothing implements, are errors."]

ALL = [p for view in (RecordView, GameView, PlayerView) for p in view.all_properties()]
LISTS = ("tiles", "melds", "list")
NUMBERS = ("index", "score", "int", "float")
FACES = ["1m", "2m", "0p", "5p", "9s", "7z"]


def kind_of(prop):
    kind = prop.type.name
    return "int" if kind is None else kind


def some_value(d, prop):
    kind = kind_of(prop)
    if kind == "str":
        return d.choice(["A", "B", "12", "", "None", "\u6771"])
    if kind == "bool":
        return d.chance(1, 2)
    if kind == "float":
        return d.choice([0.0, 1.5, -3.0, 40.0])
    if kind in NUMBERS:
        return d.choice([0, 1, 2, 1000, -100, 25000])
    if kind == "melds":
        return [[d.choice(FACES) for _ in range(d.between(1, 4))] for _ in range(d.below(3))]
    if prop is PlayerView.discard_from_hand:
        return [d.chance(1, 2) for _ in range(d.below(5))]
    return [d.choice(FACES) for _ in range(d.below(5))]


def copied(value):
    if isinstance(value, list):
        return [copied(v) for v in value]
    return value


def taken(have, away):
    left = copied(have)
    for x in away:
        for i in range(len(left)):
            if left[i] == x:
                del left[i]
                break
        else:
            return None
    return left


def flat(model):
    return {(p.scope.name, None if who == "all" else who, p.name): v for (p, who), v in model.items()}


def a_command(d, model, props, k):
    """One command which the present values allow; changes the model."""
    prop = d.choice(props)
    who = d.below(4) if prop.scope == ViewScope.player else "all"
    key = (prop, who)
    kind = kind_of(prop)
    has = key in model
    ops = ["set", "assert"]
    if has and kind in LISTS + NUMBERS:
        ops += ["add", "remove", "add", "remove"]
    if kind in LISTS or kind == "index":
        ops.append("reset")
    op = d.choice(ops)
    value = None
    if op == "set":
        value, update, new = some_value(d, prop), Update.REPLACE, None
        new = value
    elif op == "assert":
        value = copied(model[key]) if has and d.chance(1, 2) else some_value(d, prop)
        update, new = Update.ASSERT_EQUAL_OR_SET, value
    elif op == "reset":
        update, new = Update.RESET_DEFAULT, [] if kind in LISTS else 0
    elif op == "add":
        value, update = some_value(d, prop), Update.ADD
        new = model[key] + value
    else:
        update = Update.REMOVE
        if kind in LISTS:
            value = d.shuffled(d.subset(model[key], d.below(len(model[key]) + 1)))
            new = taken(model[key], value)
        else:
            value = some_value(d, prop)
            new = model[key] - value
    model[key] = copied(new)
    if has and op != "set":
        d.nontrivial((k, op, prop.name, repr(value)))
    d.label(op)
    event = d.choice([None, EventType.draw, EventType.discard])
    return GameCommand(prop=prop, update=update, sub_scope=who, value=copied(value), timestamp=k, event=event)


def same(d, what, got, want):
    for key in set(got) | set(want):
        d.check(key in got, what + ":lost", "%r should be %r", key, want.get(key))
        d.check(key in want, what + ":unexpected", "%r is %r", key, got.get(key))
        g, w = got[key], want[key]
        d.check(g == w and type(g) is type(w), what, "%r: got %r expected %r", key, g, w)


def updates(d):
    props = d.subset(ALL, d.between(1, 4))
    model, cmds, wants = {}, [], []
    for k in range(d.size(1, 24)):
        cmds.append(a_command(d, model, props, k))
        wants.append(dict(flat(model)))
    d.note(commands=[str(c) for c in cmds])
    before = [(str(c), copied(c.value)) for c in cmds]
    executor = GameExecutor(strict_mode=False)
    with d.sut("execute"):
        states = []
        for s in executor.execute(iter(cmds) if d.chance(1, 2) else cmds):
            states.append(s)
            if d.chance(1, 4):
                same(d, "now", universe.read_state(s, 4), wants[len(states) - 1])
    d.equal("one state per command", len(states), len(cmds))
    for k, (s, want) in enumerate(zip(states, wants)):
        with d.sut("read"):
            got = universe.read_state(s, 4)
            stamp = s["global"]["time"]["timestamp"]
        same(d, "kept", got, want)
        d.equal("timestamp", stamp, k)
    teller = GameInterpreter()
    for c, want in zip(cmds, wants):
        with d.sut("interpret"):
            got = teller.interpret(c)
        who = None if c.sub_scope_id == "all" else c.sub_scope_id
        want = want[(c.prop.scope.name, who, c.property.name)]
        d.check(got == want and type(got) is type(want), "interpreted", "%s: got %r expected %r", c, got, want)
    d.equal("commands-unchanged", [(str(c), c.value) for c in cmds], before)
    if d.chance(1, 3):
        more = {}
        again = [a_command(d, more, props, k) for k in range(d.between(1, 3))]
        with d.sut("execute again"):
            last = list(executor.execute(again))[-1]
        same(d, "second-run", universe.read_state(last, 4), flat(more))
    d.sample = {"commands": [str(c)[:90] for c in cmds[:4]], "final": {str(k): v for k, v in list(wants[-1].items())[:3]}}


def refused(d):
    """What cannot be done is an error, and the states made before stay as they are."""
    model, cmds, wants = {}, [], []
    props = d.subset([p for p in ALL if kind_of(p) in LISTS], d.between(1, 3))
    for k in range(d.size(1, 8)):
        cmds.append(a_command(d, model, props, k))
        wants.append(dict(flat(model)))
    prop, who = d.choice(list(model))
    have = model[(prop, who)]
    if d.chance(1, 3):
        update, value = Update.CLEAR, some_value(d, prop)
    else:
        # some of what is there, and at least one which is not
        update, value = Update.REMOVE, d.subset(have, d.below(len(have) + 1))
        fresh = [["1m"] * 5] if kind_of(prop) == "melds" else ["3z"]
        if have and d.chance(1, 2):
            fresh = [copied(d.choice(have))] * (len(have) + 1)
        value = copied(value) + fresh
        while len(value) > len(have) and taken(have, value[1:]) is None and d.chance(3, 4):
            value = value[1:]
        value = d.shuffled(value)
    cmds.append(GameCommand(prop=prop, update=update, sub_scope=who, value=value, timestamp=len(cmds)))
    d.note(commands=[str(c) for c in cmds])
    if update == Update.REMOVE:
        d.label("fewer" if len(value) < len(have) else "as many" if len(value) == len(have) else "more")
    for strict in (False, True):
        states, raised = [], None
        try:
            for s in GameExecutor(strict_mode=strict).execute(cmds):
                states.append(s)
        except Exception as e:
            raised = e
        if strict and len(states) < len(wants):
            break                             # a contradiction on the way, see C22
        d.check(raised is not None, "accepted", "%s", cmds[-1])
        d.equal("states-before", len(states), len(wants))
        for s, want in zip(states, wants):
            with d.sut("read"):
                got = universe.read_state(s, 4)
            same(d, "before", got, want)
    d.label(update.name)
    d.nontrivial(tuple(map(str, cmds)))


def together(d):
    """Two executions (of one executor or of two) and two interpreters, taken in turns."""
    runs = []
    props = d.subset(ALL, d.between(1, 3))
    for _ in range(2):
        model, cmds, wants = {}, [], []
        for k in range(d.size(1, 10)):
            cmds.append(a_command(d, model, props, k))
            wants.append(dict(flat(model)))
        runs.append((cmds, wants))
    d.note(commands=[[str(c) for c in cmds] for cmds, _ in runs])
    first = GameExecutor()
    second = first if d.chance(1, 2) else GameExecutor()
    with d.sut("begin"):
        going = [first.execute(iter(runs[0][0])), second.execute(iter(runs[1][0]))]
    tellers = [GameInterpreter(), GameInterpreter()]
    states, at = [[], []], [0, 0]
    while at[0] < len(runs[0][0]) or at[1] < len(runs[1][0]):
        k = d.below(2)
        if at[k] >= len(runs[k][0]):
            k = 1 - k
        c, want = runs[k][0][at[k]], runs[k][1][at[k]]
        with d.sut("step"):
            states[k].append(next(going[k]))
            told = tellers[k].interpret(c)
        who = None if c.sub_scope_id == "all" else c.sub_scope_id
        d.equal("interpreted", told, want[(c.prop.scope.name, who, c.property.name)])
        at[k] += 1
    for k in (0, 1):
        for s, want in zip(states[k], runs[k][1]):
            with d.sut("read"):
                got = universe.read_state(s, 4)
            same(d, "side-by-side", got, want)


PARTS = [Part("updates", updates, 9000, 90000), Part("together", together, 2500, 25000), Part("refused", refused, 2500, 25000)]
