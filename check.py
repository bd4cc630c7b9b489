#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE]  - decides one property of /repo's working tree."""
import sys, os, json, traceback, argparse
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, props

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier"); ap.add_argument("--replay"); ap.add_argument("--seed", type=int)
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    P = props.PROPS[a.prop]
    if a.replay:
        r = json.load(open(a.replay)); seed = r["replay"].get("seed", seed)
    ctx = core.Ctx(a.prop, tier, seed)
    try:
        if a.replay and P.get("jobs") and r["replay"].get("harness") and r["replay"].get("case") is not None:
            rp = r["replay"]
            jobs = [j for j in P["jobs"](ctx) if (j["harness"], j["mode"], j["variant"]) == (rp["harness"], rp["mode"], rp["variant"])][:1]
            if not jobs: raise core.HarnessError("no such job")
            ctx.jobs([dict(jobs[0], lo=rp["case"], n=1, shards=1)])
        else:
            if P.get("jobs"): ctx.jobs(P["jobs"](ctx))
            if P.get("run"): P["run"](ctx)
        rc = core.finish(ctx, P["level"], P["rule"], P["assumptions"])
    except core.HarnessError as e:
        print("harness error: %s" % e, file=sys.stderr)
        rc = 2
        if [v for v in ctx.viols if v[0] not in core.known_findings().get(a.prop, {})]:
            rc = core.finish(ctx, P["level"], P["rule"], P["assumptions"])
    except Exception:
        traceback.print_exc(); rc = 2
    finally:
        ctx.close()
    sys.exit(rc)
main()
