import argparse
import importlib
import json
import os
import sys
import traceback

from mc import core


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property', nargs='?')
    parser.add_argument('--tier', choices=['quick', 'thorough'], default=os.environ.get('VERIF_TIER') or 'quick')
    parser.add_argument('--replay')
    parser.add_argument('--selftest', action='store_true')
    args = parser.parse_args()

    if args.selftest:
        from mc import selftest
        return selftest.main()

    replayed = args.replay and json.load(open(args.replay))['property']
    core.load_repo(points='C17' in (replayed, (args.property or '').upper()))
    if args.replay:
        return core.replay(args.replay)
    try:
        module = importlib.import_module('mc.checks.' + args.property.lower())
        return core.run(module, args.tier)
    except Exception as e:
        # a fixture can not even be built: the code under test refuses valid values
        if not core.from_repo(e):
            raise
        traceback.print_exc()
        path = core.write_replay(args.property, ('building the cases',), repr(e))
        print(f'VIOLATION property={args.property} replay={path}')
        return 1


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.exit(code)
