"""Runs the check of one property: design model checking, scenario generation from the
specification, replay into the implementation, trace validation."""
import importlib
import os
import random
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import kit  # noqa: E402


class Context:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.scratch = kit.Scratch()
        self.report = kit.Report(prop, tier, seed)
        self.rng = random.Random(f"{prop}/{seed}")

    def size(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- the design -----------------------------------------------------------
    def design(self, module, cfg, name=None, **kw):
        """model-check a design configuration; it must hold"""
        r = kit.tlc(self.scratch, module, cfg, **kw)
        if r.distinct == 0:
            raise kit.MachineryError(f"{module} explored nothing")
        self.report.add_tlc(name or module, r)
        return r

    def mutant(self, module, cfg, name, **kw):
        """a deliberately broken design must be rejected by TLC"""
        r = kit.tlc(self.scratch, module, cfg, check=False, **kw)
        if r.ok or not r.violated:
            raise kit.MachineryError(f"broken design {name} of {module} was accepted\n" + kit.tail(r.out))
        self.report.extra.setdefault("broken_designs_rejected", []).append(name)

    # -- scenarios -----------------------------------------------------------
    def generate(self, module, consts, num, depth, prefix, salt=0):
        """scenarios printed by behaviours of a generating specification"""
        consts = f"CONSTANTS {consts}\n" if consts else ""
        cfg = f"SPECIFICATION Spec\n{consts}CHECK_DEADLOCK FALSE\n"
        r = kit.tlc(
            self.scratch, module, cfg, simulate=num, depth=depth, workers=1,
            seed=(self.seed * 7919 + salt) % 1000003 + 1,
        )
        out = kit.printed(r, "SCEN")
        if len(out) < num // 2:
            raise kit.MachineryError(f"{module} printed {len(out)} of {num} scenarios\n" + kit.tail(r.out))
        for k, s in enumerate(out):
            s["id"] = f"{prefix}{k}"
        self.report.extra.setdefault("generated_scenarios", 0)
        self.report.extra["generated_scenarios"] += len(out)
        return out

    # -- conformance -----------------------------------------------------------
    def conform(self, driver, trace_module, scenarios, consts="", chunk=400, post=None, parallel=None):
        """replay the scenarios and validate what the code did"""
        for at in range(0, len(scenarios), chunk):
            if self.report.news() >= 5:
                self.report.extra["stopped_early"] = "after enough violations"
                return
            part = scenarios[at : at + chunk]
            recs = kit.run_driver(self.scratch, driver, part, parallel=parallel)
            by_id = {s["id"]: s for s in part}
            full = []
            for rec in recs:
                sc = by_id[rec["id"]]
                self.report.sample({"scenario": sc, "observed": rec})
                if rec.get("hang"):
                    self.report.violation(rec["id"], ["did not return"], {"scenario": sc})
                elif "crash" in rec:
                    self.report.violation(
                        rec["id"], ["unexpected error"], {"error": rec["crash"], "scenario": sc}
                    )
                else:
                    full.append({**sc, **rec})
            if post:
                full = post(full)
            rejects = []
            for batch in kit.batches(full):
                rej, res = kit.validate(self.scratch, trace_module, batch, consts=consts)
                rejects += rej
                self.report.add_tlc(trace_module, res)
                self.report.traces += len(batch)
            for rej in rejects:
                self.report.violation(
                    rej["id"], rej["clauses"],
                    {"why": rej.get("why"), "scenario": by_id.get(rej["id"])},
                )


def rest(ctx):
    """what was found before the check failed remains found"""
    return ctx.report.finish() if ctx.report.news() else 2


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if tier == "quick":
        kit.LIMIT[0] = 820
    ctx = Context(prop, tier, seed)
    try:
        mod = importlib.import_module("props." + prop.lower())
        mod.run(ctx)
        rc = ctx.report.finish()
    except kit.MachineryError as e:
        print(f"{prop}: the check itself failed: {e}")
        rc = rest(ctx)
    except Exception:
        traceback.print_exc()
        rc = rest(ctx)
    finally:
        ctx.scratch.close()
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
