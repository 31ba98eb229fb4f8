# -*- coding: utf-8 -*-
"""C25: k-fold splitters."""
import numpy as np
from sklearn.model_selection import KFold

from .. import core
from .c24 import groups_of, matrix_of

STRATA = ['within', 'within-shuffle', 'within-onegroup', 'interlaced',
          'spread', 'errors', 'large', 'within', 'interlaced']
CASES = {'quick': 2250, 'thorough': 45000}
NEED = {'folds inspected': 3000, 'groups inspected': 3000,
        'errors observed': 200}


def case(ctx):
    from kamrecsys.model_selection import KFoldWithinGroups, InterlacedKFold
    st = ctx.stratum
    if st == 'errors':
        return errors(ctx, KFoldWithinGroups, InterlacedKFold)
    k = ctx.choice([2, 3, 3, 5, 10, ctx.randint(2, 15)])
    n = ctx.randint(k, 120)
    if st == 'large':
        k = ctx.choice([2, 3, 5])
        n = ctx.randint(1500, 6000)
    elif st == 'interlaced' and ctx.coin(.15):
        n = ctx.randint(1000, 70000)
        k = ctx.choice([k, 300])
    X = matrix_of(ctx, n)
    y = None if ctx.coin(.6) else list(range(n))
    if st == 'interlaced':
        cv = InterlacedKFold(n_splits=k)
        groups = None if ctx.coin(.7) else np.zeros(n)
        frozen = core.freeze([X, y, groups])
        folds = list(cv.split(X, y, groups))
        ctx.check(core.freeze([X, y, groups]) == frozen,
                  'splitting modified its arguments')
        partition(ctx, folds, n, k)
        ctx.check(cv.get_n_splits(X) == k, 'the number of splits')
        for f, (_, test) in enumerate(folds):
            ctx.equal(np.sort(test), np.arange(f, n, k),
                      'the i-th datum is not in the fold of i mod n_splits',
                      fold=f)
        ctx.sig('interlaced', n, k)
        return
    shuffle = st in ('within-shuffle', 'spread')
    if not shuffle and st == 'within-onegroup':
        shuffle = ctx.coin(.5)
    seed = 0 if ctx.coin(.1) else ctx.randint(0, 10 ** 6)
    how = ctx.choice(['int', 'instance', 'global'])
    gstr = 'onegroup' if st == 'within-onegroup' else ctx.choice(
        ['some', 'some', 'manygroups'])
    if st == 'large':
        gstr = 'large'
        shuffle = ctx.coin()
    groups = None
    for _ in range(100):
        # every group can be divided into k folds
        groups, g = groups_of(ctx, n, gstr)
        if np.bincount(np.unique(g, return_inverse=True)[1]).min() >= k:
            break
        n = max(n, min(n + 5, 200))
        X, y = matrix_of(ctx, n), None
    else:
        raise core.Skip()

    def make():
        if how == 'int':
            return KFoldWithinGroups(k, shuffle=shuffle, random_state=seed)
        if how == 'instance':
            return KFoldWithinGroups(
                n_splits=k, shuffle=shuffle,
                random_state=np.random.RandomState(seed))
        np.random.seed(seed)
        return KFoldWithinGroups(n_splits=k, shuffle=shuffle)
    ctx.note(n=n, k=k, groups=groups, shuffle=shuffle, how=how)
    frozen = core.freeze([X, y, groups])
    cv = make()
    ctx.check(cv.get_n_splits(X, y, groups) == k, 'the number of splits')
    rng0 = core.rng_state()
    folds = list(cv.split(X, y, groups))
    if how != 'global' or not shuffle:
        ctx.check(core.rng_state() == rng0,
                  'the global random number generator was used')
    ctx.check(core.freeze([X, y, groups]) == frozen,
              'splitting modified its arguments')
    partition(ctx, folds, n, k)
    for lab in np.unique(g):
        members = np.flatnonzero(g == lab)
        want = [m for m in KFold(n_splits=k).split(members)]
        for f, (_, test) in enumerate(folds):
            ctx.obs('groups inspected')
            te = np.intersect1d(test, members)
            ctx.check(len(te) == len(want[f][1]),
                      'size of a fold in a group', fold=f, group=lab,
                      got=len(te), want=len(want[f][1]),
                      n_members=len(members))
            if not shuffle:
                ctx.equal(te, members[want[f][1]],
                          'folds are not consecutive without shuffling',
                          fold=f, group=lab)
    again = list(make().split(X, y, groups))
    ctx.check(all(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1])
                  for a, b in zip(folds, again)),
              'splits are not reproducible', how=how)
    if how == 'int':
        a, b = cv.split(X, y, groups), cv.split(X, y, groups)
        turns = [(next(a), next(b)) for _ in range(k)]
        ctx.check(core.same([t[0] for t in turns], [t[1] for t in turns]) and
                  core.same([t[0] for t in turns], folds),
                  'interleaved iterations interfere')
    if st == 'spread':
        # the assignments of folds vary with seeds, in every group
        base = np.empty(n, dtype=int)
        for f, (_, test) in enumerate(folds):
            base[test] = f
        moved = np.zeros(n, dtype=int)
        count = {x: np.sum(g == x) for x in np.unique(g)}
        alike = {(a, b) for a in count for b in count
                 if a < b and count[a] == count[b] >= 3}
        ctx.obs('pairs of equal groups', len(alike))
        for s in range(60):
            at = np.empty(n, dtype=int)
            cv = KFoldWithinGroups(k, shuffle=True, random_state=seed + s + 1)
            for f, (_, test) in enumerate(cv.split(X, y, groups)):
                moved[test] += base[test] != f
                at[test] = f
            alike = {(a, b) for a, b in alike
                     if np.array_equal(at[g == a], at[g == b])}
        ctx.check(not alike, 'groups of one size are divided in the same way '
                  'for 60 seeds', groups=sorted(alike))
        for lab in np.unique(g):
            if np.sum(g == lab) >= 2:
                ctx.check(moved[g == lab].min() > 0,
                          'some data are in the same fold for 60 seeds',
                          moved=moved[g == lab])
        ctx.obs('shuffles compared', 60)
    ctx.sig(n, core.freeze(groups), k, shuffle, seed)


def partition(ctx, folds, n, k):
    ctx.check(len(folds) == k, 'the number of folds', got=len(folds), want=k)
    tested = np.zeros(n, dtype=int)
    for f, (train, test) in enumerate(folds):
        ctx.obs('folds inspected')
        for name, idx in (('training', train), ('test', test)):
            a = np.asarray(idx)
            ctx.check(a.ndim == 1 and a.dtype.kind in 'iu' and (
                len(a) == 0 or (a.min() >= 0 and a.max() < n)) and
                len(np.unique(a)) == len(a),
                '%s set is not a set of indices' % name, got=a, n=n)
        ctx.equal(np.sort(np.concatenate([train, test])), np.arange(n),
                  'training and test sets are not complementary', fold=f)
        tested[test] += 1
    ctx.check(np.all(tested == 1), 'each datum is not tested exactly once',
              tested=tested)


def errors(ctx, KF, IK):
    cls = KF if ctx.coin(.5) else IK
    if ctx.coin(.5):
        bad = ctx.choice([1, 0, -1, -5])
        ctx.raises(ValueError, lambda: cls(n_splits=bad),
                   'too small n_splits is accepted', n_splits=bad)
    else:
        k = ctx.randint(2, 20)
        n = ctx.randint(1, k - 1)
        ctx.raises(ValueError, lambda: list(cls(n_splits=k).split(
            np.zeros((n, 2)))), 'more folds than data are accepted',
            n_splits=k, n=n)
        m = k + ctx.randint(0, 30)
        partition(ctx, list(cls(n_splits=k).split(np.zeros((m, 2)))), m, k)
    ctx.obs('errors observed')
    ctx.sig('errors', ctx.case)
