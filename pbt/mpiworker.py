"""one MPI job: reads cases from rank 0's stdin, runs mod.worker(sub, case, comm) on all ranks, prints rank 0's result"""
import sys, os, json, traceback
out = os.fdopen(os.dup(1), "w")
dn = os.open(os.devnull, os.O_WRONLY)
os.dup2(dn, 1)
sys.stdout = open(os.devnull, "w")
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from mpi4py import MPI
from pyngcore import MPI_Comm
import importlib
from pbt.util import Violation, Reject


def main():
    w = MPI.COMM_WORLD
    comm = MPI_Comm(w)
    mod = importlib.import_module(sys.argv[1])
    while True:
        line = None
        if w.rank == 0:
            line = sys.stdin.readline()
        line = w.bcast(line, root=0)
        if not line:
            return
        q = json.loads(line)
        try:
            r = ("ok", mod.worker(q["sub"], q["case"], comm))
        except Violation as e:
            r = ("violation", str(e))
        except Reject as e:
            r = ("reject", str(e))
        except BaseException as e:
            r = ("exception", "rank %d: %s: %s\n%s" % (w.rank, type(e).__name__, str(e)[:800],
                                                       "".join(traceback.format_tb(e.__traceback__)[-3:])))
        rs = w.gather(r, root=0)
        if w.rank == 0:
            bad = [x for x in rs if x[0] != "ok"]
            res = rs[0]
            if bad:
                pri = {"exception": 0, "violation": 1, "reject": 2}
                res = sorted(bad, key=lambda x: pri[x[0]])[0]
            out.write("@@PBT@@" + json.dumps(res, default=lambda o: o.item()) + "\n")
            out.flush()


main()
