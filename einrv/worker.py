"""Executes jobs read from stdin; answers on stdout."""
from __future__ import annotations

import json
import os
import signal
import sys
import traceback


class CaseTimeout(BaseException):
    pass


def main():
    out = os.fdopen(os.dup(1), "w")
    # whatever the code under test prints goes nowhere near the protocol
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.setrecursionlimit(6000)
    from . import checks, ctx
    from .pool import REPO

    import ein

    assert os.path.realpath(ein.__file__).startswith(os.path.realpath(REPO) + "/"), ein.__file__
    try:
        import torch

        torch.set_num_threads(1)
    except Exception:
        pass

    def alarm(*_):
        raise CaseTimeout()

    signal.signal(signal.SIGPROF, alarm)

    def timer(limit):
        # processor time, and repeatedly: a callback may swallow the first one
        signal.setitimer(signal.ITIMER_PROF, limit, 2.0 if limit else 0)
    for line in sys.stdin:
        job = json.loads(line)
        c = ctx.Ctx(job)
        wl = checks.CHECKS[job["check"]].workload(job["workload"])
        for i in range(job["lo"], job["hi"]):
            c.index = i
            for attempt, limit in enumerate((wl.timeout, 3 * wl.timeout)):
                c.phase = "prepare"
                timer(limit)
                try:
                    wl.fun(c, **wl.params)
                    timer(0)
                    break
                except CaseTimeout:
                    timer(0)
                    if c.phase == "prepare":
                        c.event("skipped:preparation too long")
                        break
                    c.event("slow")
                    if wl.slow_ok:  # time is the subject of another check
                        break
                    if attempt:
                        c.violation(f"evaluation did not finish within {limit} s", {})
                except ctx.Skip as e:
                    timer(0)
                    c.event("skipped:" + str(e))
                    break
                except Exception:
                    timer(0)
                    c.broken(traceback.format_exc(limit=-8))
                    break
            if len(c.violations) >= 5:
                break
        out.write("@R " + json.dumps(c.result()) + "\n")
        out.flush()
        if "jax" in sys.modules:
            try:
                sys.modules["jax"].clear_caches()
            except Exception:
                pass


if __name__ == "__main__":
    main()
