# -*- coding: utf-8 -*-
"""C24: random splits within groups."""
import numpy as np
from sklearn.model_selection import ShuffleSplit

from .. import core

STRATA = ['test', 'train', 'both', 'count', 'noshuffle', 'onegroup',
          'spread', 'manygroups', 'large']
CASES = {'quick': 1600, 'thorough': 40000}
NEED = {'folds inspected': 3000, 'groups inspected': 10000}


def groups_of(ctx, n, stratum):
    """group labels, of any kind, in any order"""
    if stratum == 'onegroup':
        return None, np.zeros(n, dtype=int)
    k = ctx.randint(1, max(1, n // (2 if stratum == 'manygroups' else 6)))
    if stratum == 'large':
        k = ctx.choice([3, 300, max(2, n // 4)])
    g = ctx.rng.randint(0, k, n)
    m = ctx.randint(0, 3)
    if m == 0:
        g = np.sort(g)
    elif m == 1:
        g = g % 2
    labels = {
        0: lambda: np.arange(n),
        1: lambda: ctx.rng.permutation(n) * 13 - 50,
        2: lambda: np.array(['u%d' % i for i in ctx.rng.permutation(n)]),
        3: lambda: ctx.rng.permutation(n) / 8.,
        4: lambda: ctx.rng.permutation(n).astype('u2'),
        # long labels that differ in a few characters only
        5: lambda: np.array(['a member of the group number %d of %s' % (
            i, 'the others ' * 8) for i in ctx.rng.permutation(n)]),
        # labels that differ as little as their type allows
        6: lambda: ctx.choice([2 ** 24, 2 ** 53, 2 ** 60]) +
        ctx.rng.permutation(n),
        7: lambda: 1. + ctx.rng.permutation(n) * np.spacing(1.),
        8: lambda: np.array([' ' * (i // 2) + 'aA'[i % 2] for i in
                             ctx.rng.permutation(n)])
        if n < 100 else ctx.rng.permutation(n),
    }[ctx.randint(0, 8)]()
    lab = labels[g]
    if ctx.coin(.3):
        return lab.tolist(), g
    return lab, g


def matrix_of(ctx, n):
    m = ctx.randint(0, 5)
    if m == 0:
        return ctx.rng.rand(n, 2)
    if m == 1:
        return ctx.rng.randint(0, 5, (n, 2)).tolist()
    if m == 2:
        return ['r%d' % i for i in range(n)]
    if m == 3:
        x = np.zeros(n, dtype=[('event', int, (2,)), ('score', float)])
        return x
    if m == 4:
        return np.zeros(n)
    return np.asfortranarray(ctx.rng.rand(n, 3))


def size(ctx):
    m = ctx.randint(0, 4)
    if m == 0:
        return ctx.choice([.1, .2, .25, .5, .9, 1. / 3, .01, .99])
    if m <= 2:
        return float(ctx.rng.rand() * .98 + .01)
    return ctx.randint(1, 4)


def case(ctx):
    from kamrecsys.model_selection import ShuffleSplitWithinGroups
    st = ctx.stratum
    n = ctx.randint(2, 120)
    kw = {'n_splits': ctx.randint(1, 6)}
    if st == 'train':
        kw['test_size'], kw['train_size'] = None, size(ctx)
    elif st == 'both':
        kw['test_size'], kw['train_size'] = size(ctx), size(ctx)
    elif st == 'count':
        kw['test_size'] = ctx.randint(1, 3)
    elif st == 'spread':
        n = ctx.randint(4, 40)
        kw = {'n_splits': 60, 'test_size': .4}
    elif st == 'large':
        # more groups than a byte counts, and long groups
        n = ctx.randint(900, 5000)
        kw = {'n_splits': ctx.randint(1, 2), 'test_size': ctx.choice(
            [.1, .3, .5, 1])}
    elif ctx.coin(.85):
        kw['test_size'] = size(ctx)
    shuffle = st != 'noshuffle'
    if not shuffle:
        kw['shuffle'] = False
    for _ in range(30):
        groups, g = groups_of(ctx, n, st)
        try:
            want = {k: tuple(len(p) for p in next(ShuffleSplit(
                n_splits=1, test_size=kw.get('test_size', .1),
                train_size=kw.get('train_size')).split(
                    np.arange(np.sum(g == k))))) for k in np.unique(g)}
            break
        except ValueError:
            n = max(n, min(200, n + 5))
            if 'train_size' in kw and isinstance(kw['train_size'], int):
                kw['train_size'] = 1
            if st == 'both':
                kw['test_size'] = ctx.choice([.1, .2, .3, 1])
                kw['train_size'] = ctx.choice([.1, .25, .5, .6, 1])
    else:
        raise core.Skip()
    X = matrix_of(ctx, n)
    y = None if ctx.coin(.6) else list(range(n))
    how = ctx.choice(['int', 'instance', 'global'])
    seed = 0 if ctx.coin(.1) else ctx.randint(0, 10 ** 6)

    def make():
        if how == 'int':
            return ShuffleSplitWithinGroups(random_state=seed, **kw)
        if how == 'instance':
            return ShuffleSplitWithinGroups(
                random_state=np.random.RandomState(seed), **kw)
        np.random.seed(seed)
        return ShuffleSplitWithinGroups(**kw)
    ctx.note(n=n, groups=groups, kw=kw, how=how)
    frozen = core.freeze([X, y, groups])
    cv = make()
    ctx.check(cv.get_n_splits(X, y, groups) == kw['n_splits'],
              'the number of splits')
    rng0 = core.rng_state()
    folds = list(cv.split(X, y, groups) if ctx.coin(.5) else
                 cv.split(X, y=y, groups=groups))
    if how != 'global':
        ctx.check(core.rng_state() == rng0,
                  'the global random number generator was used though a '
                  'generator is specified')
    ctx.check(core.freeze([X, y, groups]) == frozen,
              'splitting modified its arguments')
    ctx.check(len(folds) == kw['n_splits'], 'the number of folds',
              got=len(folds), want=kw['n_splits'])
    both = kw.get('train_size') is not None and \
        kw.get('test_size', .1) is not None
    tested, trained = np.zeros(n, int), np.zeros(n, int)
    for f, (train, test) in enumerate(folds):
        ctx.obs('folds inspected')
        for name, idx in (('training', train), ('test', test)):
            a = np.asarray(idx)
            ctx.check(a.ndim == 1 and a.dtype.kind in 'iu' and (
                len(a) == 0 or (a.min() >= 0 and a.max() < n)) and
                len(np.unique(a)) == len(a),
                '%s set is not a set of indices' % name, got=a, n=n)
        ctx.check(not set(train.tolist()) & set(test.tolist()),
                  'training and test sets overlap', fold=f, train=train,
                  test=test)
        tested[test] += 1
        trained[train] += 1
        for k, (n_train, n_test) in want.items():
            ctx.obs('groups inspected')
            members = np.flatnonzero(g == k)
            tr, te = np.intersect1d(train, members), np.intersect1d(
                test, members)
            ctx.check(len(tr) == n_train and len(te) == n_test,
                      'sizes of sets in a group', fold=f, group=k,
                      got=(len(tr), len(te)), want=(n_train, n_test),
                      n_members=len(members), kw=kw)
            if not shuffle:
                ctx.check(
                    np.array_equal(tr, members[:n_train]) and np.array_equal(
                        te, members[n_train:n_train + n_test]),
                    'data are not split in order without shuffling',
                    members=members, train=tr, test=te)
        if not both:
            ctx.check(len(train) + len(test) == n,
                      'some data are in neither of the sets', fold=f,
                      n=n, train=train, test=test)
    # the same seed produces the same splits
    again = list(make().split(X, y, groups))
    if how == 'int':
        # two generators of one splitter, consumed by turns
        a, b = cv.split(X, y, groups), cv.split(X, y, groups)
        turns = [(next(a), next(b)) for _ in range(kw['n_splits'])]
        ctx.check(core.same([t[0] for t in turns], [t[1] for t in turns]) and
                  core.same([t[0] for t in turns], folds),
                  'interleaved iterations interfere')
    ctx.check(len(again) == len(folds) and all(
        np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1])
        for a, b in zip(folds, again)), 'splits are not reproducible',
        how=how, seed=seed)
    if st == 'spread' and len(folds) >= 40:
        count = {x: np.sum(g == x) for x in np.unique(g)}
        alike = {(a, b) for a in count for b in count
                 if a < b and count[a] == count[b] >= 3}
        ctx.obs('pairs of equal groups', len(alike))
        for train, test in folds:
            at = np.zeros(n, dtype=int)
            at[test], at[train] = 1, 2
            alike = {(a, b) for a, b in alike
                     if np.array_equal(at[g == a], at[g == b])}
        ctx.check(not alike, 'groups of one size are split in the same way '
                  'in all splits', groups=sorted(alike), kw=kw)
    if st == 'spread':
        # each group of 4 or more members
        for k, (n_train, n_test) in want.items():
            m = g == k
            # P(miss) < n_members * max(1 - n_test/n)^60
            if np.sum(m) >= 3:
                ctx.check(tested[m].min() > 0 and trained[m].min() > 0,
                          'some data are never tested or never trained over '
                          '60 random splits', tested=tested[m],
                          trained=trained[m], kw=kw, how=how, seed=seed)
    if groups is not None and n > 2 and ctx.coin(.2):
        ctx.raises(ValueError, lambda: list(make().split(
            X, y, np.asarray(groups)[:-1])),
            'inconsistent numbers of samples are accepted')
    ctx.sig(n, core.freeze(groups), str(kw), seed)
