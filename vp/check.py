"""python3 vp/check.py <property> [--tier quick|thorough]"""
import importlib, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
from report import Report

MODULES = ["p_attrs", "p_core", "p_net", "p_parse", "p_total", "p_text", "p_effects", "p_serde", "p_crc", "p_values"]


def registry():
    reg = {}
    for m in MODULES:
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        reg.update(mod.CHECKS)
    return reg


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    import build
    from prog import Prog
    fn = registry()[pid]
    rep = Report(pid, tier)
    try:
        P = Prog()
    except build.BuildError as e:
        print("the tree does not compile:\n" + str(e)[-2000:])
        return 2
    try:
        fn(rep, P, tier)
    except Exception:
        traceback.print_exc()
        if not rep.viol:
            rep.undecided("analysis", traceback.format_exc()[-400:])
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
