#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] : decide one property from the current source of the package"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    from vf import registry
    rep = registry.CHECKS[prop](tier)
    return rep.finish()


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    box = []
    t = threading.Thread(target=lambda: box.append(main()))
    t.start()
    t.join()
    sys.exit(box[0] if box else 2)
