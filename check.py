#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--replay file]"""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def known_for(prop):
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    import logging
    logging.disable(logging.CRITICAL)
    from mc import core
    mod = importlib.import_module("mc.props." + a.property.lower())

    if a.replay:
        with open(a.replay) as f:
            bad = json.load(f)
        core._init_worker()
        print("scenario", bad["scenario"])
        system = next((s.system for s in mod.scenarios("thorough") + mod.scenarios("quick") if s.name == bad["scenario"]), mod.SYSTEM)
        scen = core.Scen(bad["scenario"], bad["cfg"], words=[bad["word"]], system=system)
        n, msg = core.run_word(scen, bad["word"], verbose=True, stride=bad.get("stride", 1))
        print("VIOLATION" if msg else "no violation", "after", n, "events:", msg)
        return 1 if msg else 0

    # known findings: replay each listed history; it is announced only if it still fails
    for k in known_for(a.property):
        core._init_worker()
        system = next(s for s in [getattr(mod, k["system"], None), mod.SYSTEM] if s)
        n, msg = core.run_word(core.Scen("known", k["cfg"], words=[k["word"]], system=system), k["word"])
        if msg:
            print(f"KNOWN-FINDING: property={a.property} {k['what']}")
        else:
            print(f"note: known finding no longer fails: {k['what']}")

    scens = mod.scenarios(a.tier)
    for s in scens:
        if s.letters is not None:
            s.looks = getattr(mod, "LOOKS", s.looks)
    cov, violations = getattr(mod, "explore", core.explore)(a.property, scens, a.tier)
    if hasattr(mod, "extra_coverage"):
        cov.update(mod.extra_coverage(a.tier))
    cov["rule"] = mod.RULE
    ev = dict(
        property=a.property, tier=a.tier, seed=int(os.environ.get("VERIF_SEED") or 0), level="model_checking",
        coverage=cov, assumptions=list(mod.ASSUMPTIONS), wall_s=round(time.time() - t0, 2), violations=len(violations),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{a.property} {a.tier}: {cov['traces_validated_against_impl']} histories, {cov['transitions']} events compared, "
          f"{cov['states']} distinct model states, {ev['wall_s']} s")
    for bad in violations:
        print(f"scenario {bad['scenario']}, after {len(bad['word'])} events: {bad['message']}")
        print("history:", json.dumps(bad["word"][-12:], default=str))
        print(f"VIOLATION property={a.property} replay={core.write_replay(a.property, bad)}")
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
