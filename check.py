#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current sources."""
import sys, os, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    import registry
    pid = sys.argv[1]
    try:
        return registry.run(pid)
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    r = []
    t = threading.Thread(target=lambda: r.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(r[0] if r else 2)
