"""Executes cases against the scratch build of tbplas.

Protocol: one JSON case per stdin line, one JSON trace per line on the
original stdout. Everything the code under test prints goes to /dev/null.
"""
import importlib
import json
import os
import sys
import traceback
import zlib

proto = os.fdopen(os.dup(1), "w")
null = os.open(os.devnull, os.O_WRONLY)
os.dup2(null, 1)
sys.stdout = open(os.devnull, "w")


def main():
    sys.path.insert(0, os.environ["VERIF_PKG"])
    drv = importlib.import_module(sys.argv[1])
    import enc
    import tbplas
    pkg = os.path.realpath(os.environ["VERIF_PKG"])
    if not os.path.realpath(tbplas.__file__).startswith(pkg):
        sys.stderr.write("wrong tbplas: %s\n" % tbplas.__file__)
        sys.exit(3)
    sys.stderr.write("VERIF-READY\n")
    sys.stderr.flush()
    for line in sys.stdin:
        case = json.loads(line)
        enc.seed(zlib.crc32(str(case["id"]).encode()))
        try:
            trace = drv.run_case(case)
        except Exception as err:       # judged by the trace specification
            trace = dict(ev=[dict(op="exc", cls=type(err).__name__,
                                  msg=str(err)[:200],
                                  tb=traceback.format_exc()[-1500:])])
        trace["id"] = case["id"]
        trace.setdefault("cfg", case.get("cfg", {}))
        proto.write(json.dumps(trace) + "\n")
        proto.flush()
    proto.flush()
    os._exit(0)


main()
