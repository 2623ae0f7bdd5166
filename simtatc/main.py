"""Command line: check, replay, digest (determinism self-test)."""
import argparse
import json
import os
import sys
import warnings


def main(argv, scratch):
    ap = argparse.ArgumentParser(prog="simtatc")
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("property")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    c.add_argument("--runs", type=int)
    c.add_argument("--budget", type=float)
    c.add_argument("--workers", type=int)
    r = sub.add_parser("replay")
    r.add_argument("file")
    d = sub.add_parser("digest")
    d.add_argument("properties", nargs="+")
    d.add_argument("--seeds", default="1")
    d.add_argument("--runs", type=int, default=40)
    d.add_argument("--workers", type=int, default=8)
    o = sub.add_parser("one")
    o.add_argument("property")
    o.add_argument("index", type=int)
    o.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    o.add_argument("--tier", default="quick")
    p = sub.add_parser("probe")
    p.add_argument("file")
    a = ap.parse_args(argv)

    warnings.simplefilter("ignore")
    from . import boot

    if a.cmd == "probe":
        from . import probe

        return probe.main(a.file)
    pid = getattr(a, "property", None) or (json.load(open(a.file))["property"] if a.cmd == "replay" else None)
    from . import runner

    if pid is None or not getattr(runner.prop_module(pid), "NO_TATC", False):
        boot.load_tatc()
        from . import kernel

        kernel.tatc_codes()
    else:
        boot.load_third_party()
    if a.cmd == "check":
        return runner.check(a.property, a.tier if a.tier in ("quick", "thorough") else "quick", a.seed, a.runs, a.budget, a.workers)
    if a.cmd == "replay":
        body = json.load(open(a.file))
        mod = runner.prop_module(body["property"])
        if hasattr(mod, "prepare"):
            mod.prepare()
        out = runner.outcome_of(mod, body["scenario"])
        v = out.get("violation")
        if v:
            print("%s: %s" % (v["kind"], v["msg"]))
            if v["kind"] == body["violation"]["kind"]:
                print("VIOLATION property=%s replay=%s" % (body["property"], a.file))
                return 1
            print("the replay fails differently from the recording (%s)" % body["violation"]["kind"])
            return 2
        if out.get("error"):
            print("ERROR", out["error"])
            return 2
        print("no violation on replay")
        return 0
    if a.cmd == "one":
        mod = runner.prop_module(a.property)
        if hasattr(mod, "prepare"):
            mod.prepare()
        sc = runner.scenario(mod, a.seed, a.index, a.tier)
        print(json.dumps(sc)[:4000])
        out = runner.outcome_of(mod, sc)
        print(json.dumps({k: v for k, v in out.items() if k != "explicit"}, indent=1, default=str)[:6000])
        return 1 if out.get("violation") else 0
    if a.cmd == "digest":
        import time

        for pid in a.properties:
            mod = runner.prop_module(pid)
            if hasattr(mod, "prepare"):
                mod.prepare()
            for seed in map(int, a.seeds.split(",")):
                res, _ = runner.batch(mod, seed, "quick", a.runs, a.workers, time.monotonic() + 3000)
                for i in sorted(res):
                    print(pid, seed, i, res[i].get("digest"), res[i].get("error", "")[:200].replace("\n", " "),
                          (res[i].get("violation") or {}).get("kind", ""))
        return 0
