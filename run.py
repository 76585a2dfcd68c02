#!/usr/bin/env python3
'''Run a check:  run.py CXX [--tier quick|thorough] [--replay FILE] [--only TEST,...]'''
import os
import sys

PYTHON = '/opt/venv/bin/python'
if os.path.exists(PYTHON) and os.path.realpath(sys.prefix) != '/opt/venv':
    os.execv(PYTHON, [PYTHON] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vlib import core   # noqa: E402


def option(args, name, default=None):
    if name in args:
        n = args.index(name)
        value = args[n + 1]
        del args[n: n + 2]
        return value
    return default


def main():
    args = sys.argv[1:]
    if args[0] == '--worker':
        ident, test, shard, nshards, tier, seed, out, budget = args[1:]
        core.worker_main(ident, test, int(shard), int(nshards), tier, int(seed), out,
                         float(budget))
        return 0
    if args[0] == '--describe':
        core.describe(args[1])
        return 0
    if args[0] == '--selftest':
        from vlib import selftest
        return selftest.main()
    tier = option(args, '--tier', os.environ.get('VERIF_TIER', 'quick'))
    seed = int(option(args, '--seed', os.environ.get('VERIF_SEED', '1')))
    only = option(args, '--only')
    jobs = int(option(args, '--jobs', '8'))
    path = option(args, '--replay')
    ident = args[0]
    if path:
        return core.replay(ident, path)
    return core.run_check(ident, tier, seed, only=only.split(',') if only else None, jobs=jobs)


if __name__ == '__main__':
    sys.exit(main())
