"""Driver: runs one property profile on the real code, writes a trace."""
import argparse
import importlib
import os
import sys
import warnings

os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np  # noqa
np.seterr(all='ignore')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop', required=True)
    ap.add_argument('--shard', type=int, default=0)
    ap.add_argument('--nshards', type=int, default=1)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--only', type=int, default=-1)
    ap.add_argument('--out', required=True)
    ap.add_argument('--gen', default='')
    args = ap.parse_args()
    import mpnum
    assert os.path.realpath(mpnum.__file__).startswith(os.environ.get('VF_REPO', '/repo') + '/'), mpnum.__file__
    from rec import Rec, StopRecording
    R = Rec()
    R.gen = args.gen
    mod = importlib.import_module('p_' + args.prop)
    np.random.seed(args.seed % 2**32)
    rng = np.random.RandomState(args.seed)

    def mine(k):
        return (k % args.nshards) == args.shard
    try:
        mod.run(R, rng, args.tier, mine)
    except StopRecording:
        pass
    R.dump(args.out)


if __name__ == '__main__':
    main()
