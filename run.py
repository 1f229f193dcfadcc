#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current source."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.setrecursionlimit(20000)


def main():
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []

    def body():
        from program import Program, AnalysisError
        from report import Report
        pid = sys.argv[1]
        tier = "quick"
        if "--tier" in sys.argv:
            tier = sys.argv[sys.argv.index("--tier") + 1]
        try:
            mod = importlib.import_module(pid.lower())
            prog = Program()
            rep = Report(pid, tier)
            rep.inst("translation units", "")
            rep.samples["translation units"] = list(prog.units)
            try:
                stats = mod.run(prog, rep, tier) or {}
            except AnalysisError as e:
                if not rep.fresh():
                    raise
                # what was found before the analysis stopped stands
                print("ANALYSIS-STOPPED %s: %s" % (pid, e))
                stats = {"stopped": str(e)}
            stats.setdefault("functions_in_program", len(prog.functions))
            res.append(rep.finish(getattr(mod, "LEVEL", "other"), mod.TECHNIQUE, getattr(mod, "ASSUMPTIONS", []), stats))
        except AnalysisError as e:
            print("ANALYSIS-ERROR %s: %s" % (pid, e))
            res.append(3)
        except Exception:
            import traceback
            traceback.print_exc()
            res.append(4)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 5)


if __name__ == "__main__":
    main()
