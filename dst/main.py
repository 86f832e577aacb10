import importlib
import os
import sys
from . import core, runner

IDS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16']


def load(cid):
    return importlib.import_module(f'dst.{cid.lower()}').CHECK


class Lazy(dict):
    def __missing__(self, k):
        self[k] = load(k)
        return self[k]


def main(argv):
    if argv[0] == 'replay':
        return runner.main_replay(Lazy(), argv[1])
    if argv[0] == 'selftest':
        return runner.main_selftest(Lazy(), int(argv[1]), argv[2:])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if len(argv) > 1:
        tier = argv[1]
    return runner.main_check(load(argv[0]), seed, tier)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
