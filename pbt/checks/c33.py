import pandas

from engine import Part
import logs
import universe
from checks.c22 import tamper
from universe import GameCommand, GameExecutor, PlayerId, ViewScope, to_commands
from mahjong.record import parse_dataframe_from_tenhou_record
from mahjong.record.util_functions import command_to_raw_dataframe

RULE = ("the recipe of the README (read the command CSV, clean it, pivot the states by player and property, fill "
        "forward) is run on the commands of simulated games; every filled cell is compared with the executor's state "
        "after that command. The one-call conversion is compared with its parts. Non-trivial: a log with a call or a "
        "riichi, per log.")
ASSUMPTIONS = ["Names and shuffle seeds that pandas takes for missing values are only used with the library's own CSV reader.",
               "The rating property is declared as text and reads back as text."]


def same(a, b):
    if isinstance(a, float) and a != a:
        a = None
    number = all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in (a, b))
    return a == b and (type(a) is type(b) or number)


def recipe(d):
    plain = d.chance(2, 3)
    names = None if plain else logs.sim.TRICKY_NAMES + logs.sim.NAMES
    log = logs.play(d, max_rounds=2, long_rounds=False, names=names)
    rec = logs.read(d, log)
    with d.sut("convert"):
        commands = to_commands(rec)
        states = list(GameExecutor().execute(commands))
        GameCommand.to_dataframe(commands).to_csv("command_list.csv")
    with d.sut("recipe"):
        plain = plain and 'seed="NA"' not in log.xml()
        if plain:
            df = pandas.read_csv("command_list.csv")
            df = df.apply(GameCommand.pandas_columns_clean, axis="columns")
        else:
            df = GameCommand.read_clean_csv("command_list.csv")
        column_props = ["sub_scope_id", "property"]
        df_state = df[column_props + ["state"]]
        df_state = df_state.set_index(column_props, append=True)
        df_state = df_state.unstack(level=column_props)
        df_state = df_state.ffill()
        columns = list(df_state.columns)
        cells = {c[1:]: df_state.iloc[:, k].tolist() for k, c in enumerate(columns)}
    d.equal("rows", len(df_state), len(commands))
    want = {(c.sub_scope_id, c.property) for c in commands}
    if set(cells) != want or len(columns) != len(want):
        d.fail("columns", "%d columns, missing %r extra %r" % (len(columns), sorted(map(str, want - set(cells)))[:3],
                                                               sorted(map(str, set(cells) - want))[:3]))
    for (who, prop), column in cells.items():
        text = prop.name == "extra_level"
        for k, (cell, state) in enumerate(zip(column, states)):
            scope = prop.scope
            part = state[scope]["single"] if scope != ViewScope.player else state[scope][PlayerId(who)]
            v = part[prop] if prop in part else None
            if text and v is not None:
                v = str(v)
            if not same(cell, v):
                d.fail("cell:" + prop.name, "row %d of (%s, %s): got %r, executor has %r" % (k, who, prop.name, cell, v))
    d.label("plain" if plain else "reader")
    nontrivial(d, log)


def one_call(d):
    log = logs.play(d, max_rounds=2, long_rounds=False)
    if d.chance(1, 6) and tamper(d, log):
        d.label("contradictory log")         # is converted all the same
    rec = logs.read(d, log)
    with d.sut("convert"):
        commands = to_commands(rec)
    serialize = d.chance(1, 2)
    with d.sut("one-call"):
        if serialize and d.chance(1, 2):
            df, states = parse_dataframe_from_tenhou_record(rec)
        else:
            df, states = parse_dataframe_from_tenhou_record(rec, for_serialize=serialize)
        only = parse_dataframe_from_tenhou_record(rec, return_state=False, for_serialize=serialize)
        rows = [tuple(None if x is None or x != x else x for x in r) for r in df.itertuples(index=False, name=None)]
        again = [tuple(None if x is None or x != x else x for x in r) for r in only.itertuples(index=False, name=None)]
        fields = list(df.columns)
    d.equal("fields", fields, ["timestamp", "event", "scope", "sub_scope_id", "property", "update_method", "value",
                               "state"])
    d.equal("same", again, rows)
    d.equal("rows", (len(rows), len(states)), (len(commands), len(commands)))
    for k, (row, c) in enumerate(zip(rows, commands)):
        if serialize:
            with d.sut("record"):
                want = tuple(c.to_record())
        else:
            want = (c.timestamp, c.event, c.prop.scope, c.sub_scope_id, c.property, c.update_method, c.value, c.state)
        if row != tuple(want):
            d.fail("row", "%d: got %r expected %r" % (k, row, want))
    with d.sut("states"):
        want = GameExecutor().execute_as_dataframe(commands)
        got_columns, want_columns = [tuple(c) for c in states.columns], [tuple(c) for c in want.columns]
    d.equal("state-columns", sorted(map(str, got_columns)), sorted(map(str, want_columns)))
    for c in want_columns:
        k = got_columns.index(c)
        a, b = states.iloc[:, k].tolist(), want.iloc[:, want_columns.index(c)].tolist()
        for r, (x, y) in enumerate(zip(a, b)):
            if not (x == y or x != x and y != y):
                d.fail("state-cell", "row %d column %s: got %r, executing gives %r" % (r, c, x, y))
    if d.chance(1, 4):
        with d.sut("raw-dataframe"):
            raw = command_to_raw_dataframe(iter(commands) if d.chance(1, 2) else commands)
            rows = list(raw.itertuples(index=False, name=None))
        d.equal("raw-rows", len(rows), len(commands))
        for k, (row, c) in enumerate(zip(rows, commands)):
            want = (c.timestamp, c.event, c.prop.scope, c.sub_scope_id, c.property, c.update_method, c.value, c.state)
            if tuple(None if x is None or x != x else x for x in row) != want:
                d.fail("raw-row", "%d: got %r expected %r" % (k, row, want))
    d.label("text" if serialize else "objects")
    nontrivial(d, log)


def nontrivial(d, log):
    kinds = logs.shape(d, log)
    if set(kinds) & {"reach1", "pon", "chi", "kan_open", "kan_closed", "kan_added", "kita"}:
        d.nontrivial(logs.key(log))
        d.sample = logs.brief(log)


PARTS = [Part("recipe", recipe, 160, 2000), Part("one-call", one_call, 400, 4000)]
