"""Entry point: main.py ID [--replay FILE] [--tier quick|thorough] [--seed N]"""
import argparse
import importlib
import json
import logging
import os
import sys
import time
import warnings

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

import engine  # noqa: E402


def quiet():
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    from loguru import logger
    logger.remove()


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        entries = json.load(f)["findings"]
    return [e for e in entries if e["property"] == prop and e["status"] == "known"]


def self_test():
    """The engine must find a planted failure, shrink it, and stay quiet without one."""
    def fails(d):
        xs = [d.below(100) for _ in range(d.between(1, 8))]
        d.note(xs=xs)
        d.check(sum(xs) < 150, "big", "%r", xs)

    def holds(d):
        d.check(0 <= d.below(10) < 10, "range")

    bad = engine.Part("bad", fails, 200, 200)
    outs, broken = engine.run_parallel("SELF", [bad, engine.Part("ok", holds, 200, 200)], "quick", 1, 2,
                                       lambda *a: None)
    _, failures, _, _ = engine.merge(outs)
    ok = not broken and failures and all(f["part"] == "bad" and sum(f["notes"]["xs"]) == 150 for f in failures)
    print("self-test", "passed" if ok else "FAILED: %r" % failures)
    return 0 if ok else 1


def not_loaded(a, e):
    """The code a check calls is imported with it. When it cannot be (an error
    raised in a file of the project), nothing the property promises is given."""
    import traceback
    frames = traceback.extract_tb(e.__traceback__)
    inside = [f for f in frames if os.path.abspath(f.filename).startswith(os.path.abspath(REPO) + os.sep)]
    if not inside:
        raise e
    text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
    print("the code cannot be loaded:\n%s" % text)
    path = a.replay
    if not path:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-load.json" % a.prop)
        with open(path, "w") as f:
            json.dump({"property": a.prop, "part": "(load)", "message": text, "choices": []}, f, indent=1)
    print("VIOLATION property=%s replay=%s" % (a.prop, os.path.abspath(path)))
    return 1


def main():
    if sys.argv[1:] == ["--self-test"]:
        return self_test()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--shards", type=int, default=int(os.environ.get("VERIF_SHARDS", "8")))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    import mahjong
    if not os.path.abspath(mahjong.__file__).startswith(os.path.abspath(REPO) + os.sep):
        print("harness error: mahjong imported from", mahjong.__file__)
        return 2
    try:
        mod = importlib.import_module("checks." + a.prop.lower())
    except Exception as e:
        return not_loaded(a, e)
    quiet()
    parts = mod.PARTS
    if a.scale != 1.0:
        for p in parts:
            p.count = {k: max(1, int(v * a.scale)) for k, v in p.count.items()}

    entries = load_known(a.prop)

    def known(part, v, data):
        for e in entries:
            if e["part"] == part and e["tag"] == v.tag and all(
                    data.notes.get(k) == val for k, val in e.get("when", {}).items()):
                return e["id"]
        return None

    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        if rec["part"] == "(load)":
            print("replay: the code is loaded, no violation")
            return 0
        part = next(p for p in parts if p.name == rec["part"])
        import tempfile
        with tempfile.TemporaryDirectory() as tmp:
            os.chdir(tmp)
            data = engine.Data(replay=rec["choices"])
            v = engine.run_case(part, data, rec.get("index"))
            os.chdir("/")
        for k, val in data.notes.items():
            print("%s: %s" % (k, val))
        if v is None:
            print("replay: no violation")
            return 0
        print("%s\n%s" % (v.tag, v.message))
        print("VIOLATION property=%s replay=%s" % (a.prop, os.path.abspath(a.replay)))
        return 1

    outs, bad = engine.run_parallel(a.prop, parts, a.tier, a.seed, a.shards, known)
    if bad:
        print("harness error: %d worker(s) ended abnormally" % bad)
        return 2
    stats, failures, known_hits, inconclusive = engine.merge(outs)
    evaluations = sum(s["evaluations"] for s in stats.values())
    distinct = sum(len(s["keys"]) for s in stats.values())
    wall = time.time() - t0
    exhaustive_parts = [p.name for p in parts if p.exhaustive is not None]
    cov = {
        "evaluations": evaluations,
        "distinct_nontrivial": distinct,
        "rule": mod.RULE,
        "samples": [x for s in stats.values() for x in s["samples"][:3]][:12],
        "parts": {n: {"evaluations": s["evaluations"], "cases_planned": s["cases_planned"],
                      "distinct_nontrivial": len(s["keys"]),
                      "classes": dict(sorted(s["labels"].items()))}
                  for n, s in stats.items()},
        "wall_cap_reached": inconclusive,
        "exhaustively_enumerated_parts": exhaustive_parts,
        "known_findings_hit": known_hits,
    }
    ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
          "coverage": engine.jsonable(cov), "assumptions": mod.ASSUMPTIONS,
          "wall_s": round(wall, 2), "violations": len(failures)}
    evdir = os.path.join(VERIF, "evidence")
    if not a.no_evidence:
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
    print("%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs%s" % (
        a.prop, a.tier, a.seed, evaluations, distinct, wall,
        " (wall cap reached: inconclusive beyond this)" if inconclusive else ""))
    for n, s in stats.items():
        print("  %-14s n=%d nontrivial=%d %s" % (n, s["evaluations"], len(s["keys"]), " ".join(
            "%s=%d" % kv for kv in sorted(s["labels"].items()))))
    for e in entries:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, e["what"]))
    if not failures:
        return 0
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    f0 = failures[0]
    path = os.path.join(rdir, "%s-%s-seed%d-%d.json" % (a.prop, f0["part"], a.seed, f0["index"]))
    with open(path, "w") as f:
        json.dump(engine.jsonable({"property": a.prop, **f0}), f, indent=1, ensure_ascii=True)
    for f in failures[:3]:
        print("--- %s case %d: %s" % (f["part"], f["index"], f["tag"]))
        for k, v in f["notes"].items():
            print("    %s: %.3000s" % (k, v))
        print("    " + f["message"][:3000].replace("\n", "\n    "))
    print("VIOLATION property=%s replay=%s" % (a.prop, path))
    return 1


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print("harness error")
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
