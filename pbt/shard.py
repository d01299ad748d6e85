"""python -m pbt.shard MODULE SUB SEED N DEADLINE OUT  |  python -m pbt.shard MODULE --replay SUB CASEFILE"""
import sys, json, time, importlib
from . import core


def main():
    import NgsAMG  # noqa: loaded once, before forking
    mod = importlib.import_module(sys.argv[1])
    if sys.argv[2] == "--replay":
        sub = [s for s in mod.SUBS if s.name == sys.argv[3]][0]
        case = json.load(open(sys.argv[4]))
        if isinstance(case, dict) and "pbt_case" in case:
            case = case["pbt_case"]
        f = core.rerun(sub, sys.argv[1], case)
        print(json.dumps(None if f is None else dict(kind=f.kind, msg=f.msg)))
        return
    sub = [s for s in mod.SUBS if s.name == sys.argv[2]][0]
    rep = core.search(sub, sys.argv[1], int(sys.argv[3]), int(sys.argv[4]), time.time() + float(sys.argv[5]))
    json.dump(rep, open(sys.argv[6], "w"))


main()
