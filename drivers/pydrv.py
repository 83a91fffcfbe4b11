"""Runs operation histories against the Python layer of /repo and records what
a client observes after every operation: the Python counterpart of drv.h.
    driver HISTORIES OUT STATUS START"""
import json
import os
import signal
import sys
import traceback

import pylibamazed.redshift as red
from pylibamazed.Exception import AmzException


def code_name(code):
    return red.ErrorCode(code).name


def attempt(f):
    """value of f(), or the name of the error it ended with"""
    try:
        return f(), "ok"
    except AmzException as e:
        return None, code_name(e.getErrorCode())
    except Exception as e:
        return None, "foreign:" + type(e).__name__


def main(driver, op_timeout=60):
    hist, out, status, start = sys.argv[1:5]
    lines = open(hist).read().splitlines()
    f = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)

    def line(op, obs):
        return (json.dumps({"obs": obs, "op": op}, sort_keys=True,
                           separators=(",", ":")) + "\n").encode()
    for i in range(int(start), len(lines)):
        os.write(f, b'{"obs":{},"op":{"a":"reset"}}\n')
        with open(status, "w") as s:
            s.write("%d crash\n" % i)
        driver.reset()
        for op in json.loads(lines[i]):
            # written first, so that a crash is attributed to this operation
            pos = os.fstat(f).st_size
            os.write(f, line(op, {"crash": "SIGNAL"}))
            signal.alarm(op_timeout)
            try:
                obs = driver.step(op)
            except Exception as e:
                traceback.print_exc()
                obs = {"crash": "driver:" + type(e).__name__}
            signal.alarm(0)
            os.ftruncate(f, pos)
            os.write(f, line(op, obs))
    with open(status, "w") as s:
        s.write("%d done\n" % len(lines))
    sys.stdout.flush()
    os._exit(0)
