import json

from engine import Part
import universe
from universe import PlayerId, PlayerView, GameView, ViewScope
from mahjong.record.universe.executor import TransferDict

RULE = ("histories of up to 25 operations (set, drop, setdefault, refused in-place changes) applied to any node of any "
        "earlier version of a nested dictionary, kept node references included, against deep-copied plain "
        "dictionaries; every version is read back in full after every operation. Non-trivial: a history in which an "
        "operation starts from a version that is not the newest, or from a node fetched before later operations.")
ASSUMPTIONS = ["Stored lists are not changed in place by the user; setdefault of a key that is present is used at the "
               "top only."]

KEYS = ["a", "b", "single", 0, 1, "", PlayerId(0), PlayerId(2), PlayerView.name, PlayerView.score, PlayerView.hand,
        GameView.round, ViewScope.game]


def plain(x, depth=0):
    """The content read through the public interface."""
    if not isinstance(x, TransferDict):
        return x
    out = {}
    for k in list(x.keys()):
        if k not in x:
            raise KeyError(k)
        out[k] = plain(x[k], depth + 1)
    return out


def copy(m):
    return {k: copy(v) if isinstance(v, dict) else v for k, v in m.items()}


def at(m, path):
    for k in path:
        m = m[k]
    return m


def flat(m, prefix=()):
    out = {}
    for k, v in m.items():
        if isinstance(v, dict):
            out.update(flat(v, prefix + (k,)))
        else:
            out[prefix + (k,)] = v
    return out


def value(d, key):
    if key is PlayerView.name:
        return d.choice(["x", "1", "日本", ""])
    return d.choice([0, 7, -3, None, True, False, 1, 1.0, "t", "", ["1m", "2m"], [], 1.5, [["1m"], ["0p"]]])


def tree(d, depth):
    out = {}
    for k in d.subset(KEYS, d.below(4)):
        if depth and d.chance(1, 2) and k is not PlayerView.name:
            out[k] = tree(d, depth - 1)
        else:
            out[k] = value(d, k)
    return out


def paths(m, prefix=()):
    yield prefix
    for k, v in m.items():
        if isinstance(v, dict):
            yield from paths(v, prefix + (k,))


def node(x, path):
    for k in path:
        x = x[k]
    return x


def histories(d):
    start = tree(d, 3)
    log = []
    d.note(start=repr(start), operations=log)
    source = copy(start)
    with d.sut("build"):
        versions = [(TransferDict(source), copy(start))]
    held = []                                   # (node, version index, path)
    odd = False
    for step in range(d.size(1, 25)):
        if held and d.chance(1, 3):
            sut, v, path = d.choice(held)
            odd = odd or v < len(versions) - 1
            log.append("kept node")
        else:
            v = len(versions) - 1 if d.chance(1, 2) else d.below(len(versions))
            odd = odd or v < len(versions) - 1
            all_paths = list(paths(versions[v][1]))
            path = d.choice(all_paths)
            with d.sut("fetch"):
                sut = node(versions[v][0], path)
            held.append((sut, v, path))
        model = copy(versions[v][1])
        here = at(model, path)
        op = d.weighted([(6, "set"), (3, "drop"), (2, "default"), (2, "refuse"), (1, "graft")])
        if op == "drop" and not here:
            op = "set"
        k = d.choice(KEYS) if op != "drop" else d.choice(list(here))
        if op == "default" and path and k in here:
            op = "set"
        if op in ("set", "default"):
            new = tree(d, 2) if d.chance(1, 3) and k is not PlayerView.name else value(d, k)
            log.append((v, path, op, k, repr(new)))
            given = copy(new) if isinstance(new, dict) else new
            with d.sut(op):
                got = sut.set(k, given) if op == "set" else sut.setdefault(k, given)
            if op == "set" or k not in here:
                here[k] = new
            if isinstance(new, dict):
                d.equal("argument-changed", given, new)
        elif op == "graft":
            # store a node of another version
            w = d.below(len(versions))
            p2 = d.choice(list(paths(versions[w][1])))
            if k is PlayerView.name:
                k = "a"
            log.append((v, path, "graft", k, w, p2))
            with d.sut("set"):
                got = sut.set(k, node(versions[w][0], p2))
            here[k] = copy(at(versions[w][1], p2))
        elif op == "drop":
            log.append((v, path, "drop", k))
            with d.sut("drop"):
                got = sut.drop(k)
            del here[k]
        else:
            how = d.below(4)
            log.append((v, path, "refuse", how, k))
            try:
                if how == 0:
                    sut[k] = 1
                elif how == 1:
                    sut.update({k: 1})
                elif how == 2:
                    sut.pop(k)
                else:
                    sut.popitem()
            except Exception:
                pass
            else:
                d.fail("in-place-accepted", "operation %d" % how)
            got = None
        if got is not None:
            versions.append((got, model))
        for i, (s, m) in enumerate(versions):
            with d.sut("read"):
                now = plain(s)
            if now != m:
                newest = got is not None and i == len(versions) - 1
                d.fail("result" if newest else "old-version-changed",
                       "version %d after step %d: %r expected %r" % (i, step, now, m))
    for i, (s, m) in enumerate(versions):
        with d.sut("flatten"):
            f = s.flatten()
        want = flat(m)
        d.equal("flatten-keys", set(f), set(want))
        for k, v in want.items():
            if k[-1] is PlayerView.name:
                d.equal("flatten-text", f[k], v)
            else:
                with d.sut("json"):
                    back = json.loads(f[k])
                d.equal("flatten-value", (back, type(back)), (v, type(v)), repr(k))
    for s, v, path in held:
        with d.sut("read"):
            now = plain(s)
        d.equal("kept-node", now, at(versions[v][1], path))
    d.label("versions>5" if len(versions) > 5 else "versions<=5")
    if odd:
        d.nontrivial((repr(start), repr(log)))
        d.sample = {"start": repr(start)[:200], "operations": repr(log)[:400]}


PARTS = [Part("histories", histories, 15000, 120000)]
