import pandas

from engine import Part
import logs
import universe
from universe import GameExecutor, PlayerId, ViewScope, to_commands
from mahjong.record import parse_dataframe_from_tenhou_record

RULE = ("state tables of simulated games (names that look like numbers, booleans or missing values; 3/4 players; "
        "interrupted lists of commands) written as CSV and read back with the reader; every cell compared with the "
        "executor's state. Non-trivial: a table with a tricky text cell or a list cell, per log.")
ASSUMPTIONS = ["Names with line ends are outside the domain.",
               "The rating column is declared as text and reads back as text."]


def expected(state):
    """{column: value} of one executor state."""
    out = {("global", "time", "timestamp"): state["global"]["time"]["timestamp"]}
    for scope, view in universe.VIEWS.items():
        for who in ([None] if scope != "player" else range(4)):
            part = universe.part_of(state, scope, who)
            for prop in view.all_properties():
                if prop in part:
                    out[(ViewScope[scope], "single" if who is None else PlayerId(who), prop)] = part[prop]
    return out


def table(d):
    names = logs.sim.TRICKY_NAMES + logs.sim.NAMES
    log = logs.play(d, max_rounds=1, long_rounds=False, names=names)
    rec = logs.read(d, log)
    with d.sut("convert"):
        commands = to_commands(rec)
    if d.chance(1, 3):
        commands = commands[:d.between(max(1, len(commands) // 4), len(commands))]
    with d.sut("execute"):
        states = list(GameExecutor().execute(commands))
        if d.chance(1, 3) and len(commands) == len(to_commands(rec)):
            df = parse_dataframe_from_tenhou_record(rec)[1]
            d.label("parse_dataframe")
        else:
            df = GameExecutor().execute_as_dataframe(commands)
    d.equal("rows", len(df), len(states))
    with d.sut("csv"):
        df.to_csv("s.csv", index=False)
        back = GameExecutor.read_clean_csv("s.csv")
    d.equal("rows-read", len(back), len(states))
    want = [expected(s) for s in states]
    columns = set().union(*want)
    with d.sut("columns"):
        found = {}
        for k, c in enumerate(back.columns):
            found[tuple(c)] = k
    d.check(len(found) == len(back.columns), "duplicate-columns", "%r", list(back.columns))
    if set(found) != columns:
        d.fail("columns", "missing %r, extra %r" % (sorted(map(str, columns - set(found)))[:3],
                                                    sorted(map(str, set(found) - columns))[:3]))
    tricky = False
    for c, k in found.items():
        with d.sut("column"):
            cells = back.iloc[:, k].tolist()
        text = getattr(c[-1], "name", "") == "extra_level"
        for r, (cell, w) in enumerate(zip(cells, want)):
            if c in w:
                v = str(w[c]) if text else w[c]
                ok = cell == v and (type(cell) is type(v) or number(cell) and number(v))
                if not ok:
                    d.fail("cell:" + str(getattr(c[-1], "name", c[-1])), "row %d column %s: got %r expected %r" % (
                        r, c, cell, v))
            elif not (cell is None or cell != cell):
                d.fail("cell:" + str(getattr(c[-1], "name", c[-1])), "row %d column %s: got %r, never set" % (
                    r, c, cell))
    for x in log.table.names:
        if x in logs.sim.TRICKY_NAMES or x in ("12", "007", "1.5", "true", "[1]", "None1", "a,b", 'q"q'):
            tricky = True
            d.label("tricky-name")
    logs.shape(d, log)
    if tricky:
        d.nontrivial(logs.key(log))
        d.sample = {"names": log.table.names, "rows": len(states), "columns": len(columns)}


def number(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


PARTS = [Part("table", table, 600, 6000)]
