#!/opt/venv/bin/python
"""Entry point of every check: run.py <property> [--tier T] [--seed N] [--replay F]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--replay')
    ap.add_argument('--shard', type=int)
    ap.add_argument('--nshards', type=int)
    ap.add_argument('--workdir')
    a = ap.parse_args()
    os.environ['PYTHONHASHSEED'] = '0'
    from bpv import core
    pid = a.property.upper()
    if a.replay:
        return core.replay(pid, a.replay)
    if a.shard is not None:
        return core.shard_main(pid, a.tier, a.seed, a.shard, a.nshards, a.workdir)
    try:
        return core.parent(pid, a.tier, a.seed)
    except Exception:
        import traceback
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
