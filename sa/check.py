"""Entry point: python3 sa/check.py <property id>"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import core  # noqa: E402


def main():
    prop = sys.argv[1]
    rep = core.Report(prop)
    expl = ""
    try:
        mod = importlib.import_module(prop.lower())
        expl = mod.check(rep)
    except core.ExtractError as e:
        rep.violation("facts", "the current source could not be analysed: %s" % str(e)[-1500:])
    except core.Anchor as e:
        rep.violation("anchor", "what the rule is anchored at is gone: %s" % e)
    except Exception:
        rep.violation("analysis", "the analysis of the current source failed: %s" % traceback.format_exc()[-2500:])
    sys.exit(core.finish(rep, expl or "analysis did not complete", getattr(sys.modules.get(prop.lower()), "ASSUME", ())))


main()
