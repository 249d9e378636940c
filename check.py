#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough"""
import signal
import sys
import traceback

import props
from lib import Broken, Check, Enough, Infra


LIMIT = 850  # seconds; what was found until then counts


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    f, _ = props.CHECKS[prop]
    c = Check(prop, tier)

    def late(*_):
        raise Infra("no end after %d s" % LIMIT)

    if tier == "quick":
        signal.signal(signal.SIGALRM, late)
        signal.alarm(LIMIT)
    try:
        c.build()
        extra = f(c)
        return c.finish(extra)
    except Enough:
        return c.finish()
    except Broken as e:
        c.violation(str(e))
        return c.finish()
    except Infra as e:
        print("ERROR of the check:", e)
        return c.finish() if c.violations else 3
    except Exception:
        traceback.print_exc()
        return c.finish() if c.violations else 3


sys.exit(main())
