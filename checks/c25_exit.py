"""Program whose exit is watched by C25: builds a model with workers, uses it, ends in various ways."""
import gc
import os
import sys

import numpy as np

sys.path[:0] = ['/repo', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]


def main():
    how, seed = sys.argv[1], int(sys.argv[2])
    import logging
    logging.getLogger('runlmc').setLevel(60)
    from vmon import gen
    rng = np.random.RandomState(seed)
    pr = gen.Problem(rng, nmax=170, nmin=155, P=1, D=2, mix='lmc', max_q=2, kinds=('rbf', 'matern'), noise=(.3, 1.))
    pr.m = 8
    model = pr.build(trace_iterations=2, max_procs=3)
    Q = [X[:2] for X in pr.Xs]
    model.predict(Q)
    if how == 'drop':
        pr.model = None
        del model
        gc.collect()
    elif how == 'replace':
        model = pr.build(trace_iterations=2, max_procs=2)
        gc.collect()
        model.predict(Q)
    elif how == 'exit':
        print('DONE')
        sys.stdout.flush()
        sys.exit(0)
    elif how == 'refused':
        try:
            model.predict([np.zeros((1, 3))] * 2)
        except ValueError:
            pass
    print('DONE')


if __name__ == '__main__':
    main()
