"""Worker: discharges the contracts of given properties and prints JSON results.
usage: python3 -m bmivc.run PROP [contract ...]"""
import importlib
import json
import os
import resource
import sys
import time


def load_all(props):
    from . import vc
    from . import shims  # noqa: F401
    for p in props:
        importlib.import_module(f"bmivc.contracts.{p.lower()}")
    return [c for c in vc.CONTRACTS if c["prop"] in props]


def main():
    prop = sys.argv[1]
    names = sys.argv[2:]
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []

    def go():
        from . import vc
        from . import solve
        cs = load_all([prop])
        if names == ["--list"]:
            out.extend(c["name"] for c in cs)
            return
        for c in cs:
            if names and c["name"] not in names:
                continue
            lim = float(os.environ.get("BMIVC_LIMIT", "200"))
            solve.DEADLINE[0] = time.time() + lim
            out.append(vc.run_contract(c))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    print("RESULT " + json.dumps(out, default=str))


if __name__ == "__main__":
    main()
