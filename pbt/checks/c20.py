import io

import pandas

from engine import Part
import logs
import universe
from universe import GameCommand, PlayerView, Update, ViewScope, to_commands, to_command_records

RULE = ("command lists of simulated games (with names that look like numbers, missing values, markup, quotes) written "
        "as CSV and read back through the two documented routes, and commands of every property with generated values "
        "through records; compared field by field. Non-trivial: a list holding a text value that a CSV reader could "
        "take for something else, or a list/tile/number value.")
ASSUMPTIONS = ["The rating property is declared as text and therefore reads back as text (compared as written).",
               "The README route (plain pandas.read_csv) is only used for names and shuffle seeds pandas does not take for missing "
               "values; line ends inside names are outside the domain."]
FIELDS = ["timestamp", "event", "scope", "sub_scope_id", "property", "update_method", "value", "state"]


def number(x):
    """A column of nothing but numbers may hold them all as floats."""
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def same(d, tag, got, want, where):
    """got, want: GameCommand."""
    for name, a, b in (("timestamp", got.timestamp, want.timestamp), ("event", got.event, want.event),
                       ("sub_scope", got.sub_scope_id, want.sub_scope_id), ("property", got.property, want.property),
                       ("update", got.update_method, want.update_method), ("scope", got.prop.scope, want.prop.scope)):
        d.equal(tag + ":" + name, a, b, where)
    for name, a, b in (("value", got.value, want.value), ("state", got.state, want.state)):
        if want.property is PlayerView.extra_level:
            b = None if b is None else str(b)
        kind = type(a) is type(b) or (number(a) and number(b))
        d.check(a == b and kind, "%s:%s:%s" % (tag, name, want.property.name), "got %r expected %r %s", a, b, where)


def csv(d):
    log = logs.play(d, max_rounds=1, long_rounds=False, tricky_names=True)
    rec = logs.read(d, log)
    with d.sut("convert"):
        commands = to_commands(rec)
    route = d.weighted([(4, "reader"), (2, "records-csv"), (2, "readme")])
    plain = all(x not in ("NA", "null", "nan", "None", "N/A", "NaN", "n/a", "NULL") for x in log.table.names)
    plain = plain and 'seed="NA"' not in log.xml()
    if route == "readme" and not plain:
        route = "reader"
    with d.sut("csv"):
        if route == "records-csv":
            pandas.DataFrame(to_command_records(rec)).to_csv("c.csv")
        else:
            GameCommand.to_dataframe(commands).to_csv("c.csv", index=d.chance(1, 2))
        if route == "readme":
            df = pandas.read_csv("c.csv").apply(GameCommand.pandas_columns_clean, axis="columns")
        else:
            df = GameCommand.read_clean_csv("c.csv")
    d.equal("rows", len(df), len(commands))
    with d.sut("rebuild"):
        cols = df[FIELDS]
        rows = list(cols.itertuples(index=False, name="Row"))
        back = [GameCommand.from_raw_record(r) for r in rows]
    for k, (g, w) in enumerate(zip(back, commands)):
        same(d, route, g, w, "row %d %s" % (k, w))
    d.label(route)
    if any(x in ("NA", "null", "nan", "007", "12", "1.5", "1e5", "true", "None") for x in log.table.names):
        d.label("tricky-name")
        d.nontrivial((logs.key(log), route))
        d.sample = {"route": route, "names": log.table.names, "rows": len(commands)}


TEXTS = ["A", "007", "1.0", "NA", "null", "", "true", "[1]", "{}", "é", "日本", "a,b", 'q"q', "None", "nan", "-", "1e5",
         "'x'", "a b", " lead", "\\n", "<b>"]


def value_of(d, prop):
    kind = prop.type.name
    if kind == "str":
        return d.choice(TEXTS)
    if kind == "bool":
        return d.chance(1, 2)
    if kind in ("index",):
        return d.between(0, 12)
    if kind in ("score", "int"):
        return d.choice([0, 1000, -1000, 25000, 100, -300, 1])
    if kind == "float":
        return d.choice([0.0, -10.5, 66.0, 12.25, -0.1])
    tile = lambda: "%d%s" % (d.between(0, 9), d.choice("mps"))
    if kind == "melds":
        return [[tile() for _ in range(d.between(1, 4))] for _ in range(d.below(4))]
    if prop is PlayerView.faans:
        return [d.choice(universe.YAKU) for _ in range(d.below(4))]
    if prop is PlayerView.discard_from_hand:
        return [d.chance(1, 2) for _ in range(d.below(4))]
    return [tile() for _ in range(d.below(14))]


PROPS = [p for v in universe.VIEWS.values() for p in v.all_properties()]


def records(d):
    """Single commands of every property, through their text form."""
    cmds = []
    with d.sut("make"):
        for k in range(d.between(1, 6)):
            prop = d.choice(PROPS)
            who = d.below(4) if prop.scope == ViewScope.player else "all"
            update = d.choice([Update.REPLACE, Update.ASSERT_EQUAL_OR_SET, Update.ADD, Update.REMOVE,
                               Update.RESET_DEFAULT])
            text = prop.type.name == "str"
            value = value_of(d, prop)
            if update == Update.RESET_DEFAULT and not text:
                value = None
            event = d.choice([None] + list(universe.EventType))
            state = value_of(d, prop)
            cmds.append(GameCommand(prop=prop, update=update, sub_scope=who, value=value, event=event,
                                    timestamp=d.choice([None, k, 17]), state=state))
    d.note(commands=[str(c) for c in cmds])
    for c in cmds:
        with d.sut("record"):
            rec = c.to_record()
            back = GameCommand.from_record(rec)
            raw = GameCommand.from_raw_record(c.to_raw_record())
        same(d, "record", back, c, str(c))
        if c.property is not PlayerView.extra_level:
            same(d, "raw", raw, c, str(c))
        d.check(all(x is None or isinstance(x, (str, int)) for x in rec), "record-text", "%r", rec)
        d.equal("record-again", tuple(back.to_record()), tuple(rec))
        d.nontrivial((c.property.name, repr(c.value), repr(c.state)))
    if all(c.timestamp is not None and c.event is not None for c in cmds):
        with d.sut("csv"):
            GameCommand.to_dataframe(cmds).to_csv("r.csv", index=False)
            df = GameCommand.read_clean_csv("r.csv")
            back = [GameCommand.from_raw_record(r) for r in df[FIELDS].itertuples(index=False, name="Row")]
        d.equal("rows", len(back), len(cmds))
        for g, w in zip(back, cmds):
            if "" in (w.value, w.state):
                continue          # an empty text cannot be told from a missing one in a CSV file
            same(d, "csv", g, w, str(w))
        d.label("csv")
    d.sample = {"commands": [str(c)[:200] for c in cmds[:2]]}


PARTS = [Part("csv", csv, 600, 10000), Part("records", records, 8000, 120000)]
