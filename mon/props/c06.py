"""C06: binarisation of scores"""
import numpy as np
from .. import gens
from ..core import freeze

STRATA = [(d, t) for d in ('rating', 'half', 'binary', 'zero', 'neg', 'float',
                           'big')
          for t in ('default', 'level', 'between', 'outside', 'filtered',
                    'near')]
CASES = {'quick': 3000, 'thorough': 50000}
NEED = {'scores binarised': 10000}
RULE = ('scores on the levels of a random domain and a default, on-level, '
        'between-level or outside threshold; distinct = different (domain, '
        'threshold, score type) tuples')


def case(ctx):
    d, t = ctx.stratum
    dom = gens.gen_domain(ctx, d)
    data, ref = gens.gen_data(ctx, scored=True, dom=dom,
                              features=ctx.coin(.3))
    src = None
    if t == 'filtered':
        m = ctx.rng.rand(len(ref.ev)) < .6
        src = data
        srcb = freeze(src)
        data = data.filter_event(m)
        ref = ref.take(np.nonzero(m)[0])
    lv = gens.domain_levels(dom)
    if t in ('default', 'filtered') and ctx.coin(.7):
        th = None
        tv = (dom[0] + dom[1]) / 2.
        if np.any(np.abs(lv - tv) < 1e-9) and not all(
                float(x * 4).is_integer() for x in dom):
            # the centre is a level only up to rounding: either side is right
            amb = np.abs(ref.score.astype(float) - tv) < 1e-9
        else:
            amb = np.zeros(len(ref.score), dtype=bool)
    else:
        th = {'level': lambda: ctx.choice(list(lv)),
              'between': lambda: ctx.choice(list(lv)) + dom[2] * .37,
              # very close to a level, on either side
              'near': lambda: float(ctx.choice(list(lv))) + ctx.choice(
                  [-1, 1]) * dom[2] * ctx.choice([1e-4, 1e-6, 1e-8, 1e-10]),
              'outside': lambda: ctx.choice([dom[0] - 1, dom[1] + 1, dom[1]])
              }.get(t, lambda: ctx.choice(list(lv)))()
        if ctx.coin(.3) and float(th).is_integer():
            th = int(th)
        tv = th
        # scores in single precision may be compared in either precision
        amb = (ref.score > tv) != (ref.score.astype(float) > tv)
    before = freeze({k: v for k, v in vars(data).items()
                     if k not in ('score', 'score_domain', 'n_score_levels')})
    orig = np.array(ref.score)
    if ctx.coin():
        ret = (data.binarize_score() if th is None else
               data.binarize_score(th))
    else:
        ret = data.binarize_score(score_thresh=th)
    want = (orig > tv).astype(int)
    got = np.asarray(data.score)
    ctx.check(got.shape == want.shape, 'shape of binarised scores')
    ctx.check(np.all((got == 0) | (got == 1)), 'scores are not 0 or 1',
              got=got)
    ctx.check(np.array_equal(got[~amb], want[~amb]), 'binarised scores',
              got=got, want=want, scores=orig, threshold=th, dom=dom)
    ctx.equal(data.score_domain, [0, 1, 1], 'domain after binarisation')
    ctx.check(data.n_score_levels == 2, 'levels after binarisation')
    ctx.equal(data.get_score_levels(), [0, 1], 'levels after binarisation')
    ctx.equal(data.digitize_score(), got, 'digitised binary scores')
    ctx.check(freeze({k: v for k, v in vars(data).items()
                      if k not in ('score', 'score_domain',
                                   'n_score_levels')}) == before,
              'something other than scores was changed by binarisation')
    if src is not None:
        ctx.check(freeze(src) == srcb,
                  'binarisation of a filtered copy changed the original')
    # binarising again changes nothing
    b = np.array(data.score)
    data.binarize_score()
    ctx.equal(data.score, b, 'binarisation is not idempotent')
    ctx.equal(data.score_domain, [0, 1, 1], 'domain after the second')
    ctx.obs('scores binarised', len(orig))
    ctx.sig(dom, None if th is None else round(float(th), 9),
            str(orig.dtype), bool(want.any()), bool((want == 0).any()))
    ctx.note(dom=dom, threshold=th, scores=orig[:8], got=got[:8])
