"""python3 -m bsa.run C01 [--tier quick|thorough] [--root /repo]"""
import argparse
import importlib
import os
import sys
import time
import traceback

from . import ctx
from .report import Check


def main():
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--root', default='/repo')
    a = p.parse_args()
    mod = importlib.import_module('bsa.p_' + a.property.lower())
    chk = Check(a.property, a.tier, a.root)
    sys.setrecursionlimit(20000)
    ctx.DEADLINE[0] = time.time() + (600 if a.tier == 'quick' else 780)
    try:
        ctxs = mod.check(chk, a.root, a.tier)
    except ctx.Deadline:
        # what has been decided so far stands
        chk.dunno('deadline', 'the rest of the check', 'the time of the check is used up')
        ctxs = []
    except Exception as e:
        traceback.print_exc()
        if not chk.obs:
            sys.exit(2)
        chk.dunno('analysis', 'the rest of the check',
                  'the analyser failed: %s: %s' % (type(e).__name__, e))
        ctxs = []
    sys.exit(chk.finish(ctxs, mod.RULES))


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    code = [2]

    def go():
        try:
            main()
        except SystemExit as e:
            code[0] = e.code if isinstance(e.code, int) else 2
        except BaseException:
            traceback.print_exc()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.exit(code[0])
