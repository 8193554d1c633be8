"""Runs one shard of one check against the code under test."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ['XV_REPO']
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
for k in ('LD_PRELOAD',):
    os.environ.pop(k, None)
os.umask(0o022)


def main():
    pid, tier, seed, shard, shards = sys.argv[1:6]
    import common
    import registry
    chk = common.Check(pid, tier, int(seed), int(shard), int(shards))
    chk.scale = registry.CHECKS[pid].get('scale', 1)
    mod, _, fn = registry.CHECKS[pid]['run'].partition(':')
    try:
        try:
            import xylem
        except Exception:
            # not importable: neither held nor violated
            raise
        assert os.path.abspath(xylem.__file__).startswith(
            os.path.abspath(REPO) + os.sep), xylem.__file__
        run = getattr(importlib.import_module(mod), fn)
        run(chk)
    except common.Enough:
        pass
    except BaseException as e:
        # An exception out of the code under test that no oracle expected
        # is an observation about that code, not a harness failure.
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        text = traceback.format_exc()
        if common.from_sut(e):
            try:
                chk.violate('unexpected-exception', text[-2500:])
            except common.Enough:
                pass
        elif not chk.violations:
            chk.problems.append('harness error: ' + text[-3000:])
    finally:
        with open(os.path.join(os.environ['XV_SCRATCH'], 'result.json'), 'w',
                  encoding='utf-8', errors='backslashreplace') as f:
            json.dump(chk.result(), f, default=repr)


if __name__ == '__main__':
    main()
    sys.stdout.flush()
    os._exit(0)
