"""C07: tab separated event files are loaded without loss"""
import io
import os
import shutil
import numpy as np
from .. import gens
from .c08 import tree

STRATA = ['plain', 'score', 'feature', 'score+feature', 'oneline', 'onetype',
          'layout', 'pci', 'flixster', 'ragged text', 'fileobj', 'bigids',
          'broken']
CASES = {'quick': 3250, 'thorough': 40000}
NEED = {'files loaded': 1500, 'default files loaded': 20, 'broken files refused': 100, 'lines compared': 10000}
RULE = ('synthetic files: 1-4 object types, any event_otypes, negative and '
        'huge ids, comments, blank lines, CRLF, missing final newline, path '
        'and file objects; distinct = different (stratum, layout, dtype, text '
        'form) keys')
ASSUMPTIONS = ['text fields contain no tab, no # and no leading or trailing '
               'blank, as the format requires']


def write(ctx, rows, path):
    """rows of strings -> file, in one of textual variants"""
    r = ctx.rng
    nl = '\r\n' if ctx.coin(.2) else '\n'
    lines = []
    form = ctx.randint(0, 4)
    if form in (1, 3):
        lines += ['# comment', '#', '# user : int\t3\t4']
    for i, row in enumerate(rows):
        if form == 2 and r.rand() < .1:
            lines.append('')
        if form == 3 and r.rand() < .1:
            lines.append('# in the middle')
        tail = '  # trailing' if form == 4 and r.rand() < .1 else ''
        lines.append('\t'.join(row) + tail)
    text = nl.join(lines) + (nl if ctx.coin(.8) else '')
    with io.open(path, 'w', newline='', encoding='utf-8') as fp:
        fp.write(text)
    return form, nl


def fdtype(ctx, n):
    """(dtype, values) of event features"""
    r = ctx.rng
    m = r.randint(4)
    if m == 0:
        dt = np.dtype([('timestamp', int)])
    elif m == 1:
        dt = np.dtype([('timestamp', int), ('w', float)])
    elif m == 2:
        dt = np.dtype([('tag', 'U6'), ('f', float, (2,)), ('k', 'i2')])
    else:
        dt = np.dtype([('v', float, (3,))])
    x = np.empty(n, dtype=dt)
    for name in dt.names:
        sub = dt.fields[name][0]
        base, shp = (sub.subdtype if sub.subdtype else (sub, ()))
        if base.kind == 'i':
            x[name] = r.randint(-2 ** 15, 2 ** 15 - 1, (n,) + shp)
            if base.itemsize == 8:
                x[name] = x[name] * 65536 + r.randint(0, 65535)
        elif base.kind == 'f':
            x[name] = (r.normal(size=(n,) + shp) *
                       10. ** r.randint(-5, 6, (n,) + shp))
        else:
            x[name] = ['t%d %s' % (i % 99, 'xy'[i % 2]) for i in range(n)]
    return dt, x


def flat(row):
    out = []
    for v in (row if isinstance(row, (tuple, list, np.void)) else [row]):
        if isinstance(v, np.ndarray):
            out += [repr(float(i)) for i in v.ravel()]
        elif isinstance(v, (float, np.floating)):
            out.append(repr(float(v)))
        else:
            out.append(str(v))
    return out


def case(ctx):
    t = tree()
    from kamrecsys.datasets import base as dsb
    import kamrecsys.datasets as ds
    r = ctx.rng
    st = ctx.stratum
    path = os.path.join(os.environ['KAM_SCRATCH'], 'c07-%d-%d.event' % (
        os.getpid(), ctx.case))
    try:
        _case(ctx, dsb, ds, r, st, path, t)
    finally:
        if os.path.exists(path):
            os.remove(path)


def _case(ctx, dsb, ds, r, st, path, t):
    if st == 'pci':
        n = ctx.randint(1, 40)
        names = ['Jack Matthews', 'Mick LaSalle', 'Lisa', "Rose's", 'Toby',
                 'a', '10', '-', 'x.y', 'The Night Listener'[:18], 'N/A', 'nan',
                 '007', 'b c d']
        ev = np.array([[ctx.choice(names), ctx.choice(names)]
                       for _ in range(n)])
        sc = r.randint(2, 11, n) / 2.
        form = write(ctx, [[a, b, repr(float(s))]
                           for (a, b), s in zip(ev, sc)], path)
        if ctx.coin(.3):
            # the file of the package is the default
            own = os.path.join(t, 'kamrecsys', 'datasets', 'data', 'pci.event')
            shutil.move(path, own)
            try:
                data = ds.load_pci_sample()
            finally:
                os.remove(own)
            ctx.obs('default files loaded')
        else:
            data = ds.load_pci_sample(path)
        ref = gens.Ref(2, None, ev, sc, (1., 5., .5))
        gens.check_container(ctx, data, ref)
        ctx.obs('files loaded')
        ctx.obs('lines compared', n)
        ctx.sig(st, n, form, sc.tobytes())
        ctx.note(stratum=st, events=ev[:4], form=form)
        return
    n = 1 if st == 'oneline' else ctx.size(ctx.randint(1, 60), p=.01,
                                           top=4000)
    if ctx.coin(.0015) and st not in ('oneline', 'broken', 'ragged text'):
        n = ctx.randint(66000, 70000)
    if st == 'onetype':
        n_otypes, eo = 1, ctx.choice([None, (0,), (0, 0)])
    elif st in ('layout', 'oneline'):
        n_otypes, eo = gens.gen_layout(ctx)
    elif st == 'flixster':
        n_otypes, eo = 2, None
    else:
        n_otypes, eo = ctx.choice([(2, None), (2, (0, 1)), (2, (1, 0)),
                                   (3, None)])
    ev, _, kind = gens.gen_events(
        ctx, n_otypes, eo, n=n, kind='huge' if st == 'bigids' else
        ctx.choice(['small', 'sparse', 'negative', 'huge']), shape='small')
    ev = ev.astype('i8')
    scored = st in ('score', 'score+feature', 'flixster', 'fileobj') or (
        st not in ('plain', 'feature') and ctx.coin())
    feat = st in ('feature', 'score+feature') or (
        st not in ('plain', 'score') and ctx.coin(.4))
    rows = [[str(x) for x in e] for e in ev]
    sc = dom = ef = dt = None
    if scored:
        dom = (.5, 5., .5) if st == 'flixster' else gens.gen_domain(ctx)
        sc = gens.gen_scores(ctx, dom, n).astype(float)
        fmt = ctx.randint(0, 1)
        for row, s in zip(rows, sc):
            row.append(str(int(s)) if fmt and float(s).is_integer()
                       else repr(float(s)))
    if feat:
        dt, ef = fdtype(ctx, n)
        for row, f in zip(rows, ef):
            row.extend(flat(f))
    if st == 'broken':
        # one line of at least two has a column less or more, or a line more
        # is of fewer columns than any event
        i = r.randint(len(rows))
        if len(rows) == 1:
            rows = rows * 2
        m = ctx.randint(0, 2)
        if m == 0 and len(rows[i]) > 1:
            rows[i] = rows[i][:-1]
        elif m == 1:
            rows.insert(i + 1, rows[i][:1] if len(rows[i]) > 1 else
                        rows[i] * 2)
        else:
            rows[i] = rows[i] + ['1']
    form = write(ctx, rows, path)
    infile, fp = path, None
    if st == 'fileobj':
        k = ctx.randint(0, 2)
        if k == 0:
            infile = fp = io.open(path, 'rb')
        elif k == 1:
            infile = fp = io.open(path, 'r', encoding='utf-8')
        else:
            infile = io.BytesIO(open(path, 'rb').read())
    kw = {}
    if n_otypes != 2 or ctx.coin():
        kw['n_otypes'] = n_otypes
    if eo is not None:
        kw['event_otypes'] = ctx.choice([eo, list(eo), np.array(eo)])
    if dt is not None:
        kw['event_dtype'] = dt
    if st == 'broken':
        ctx.raises(ValueError, lambda: (
            dsb.load_event_with_score(infile, score_domain=dom, **kw)
            if scored else dsb.load_event(infile, **kw)),
            'a file with a broken line is loaded')
        ctx.obs('broken files refused')
        ctx.sig(st, n, n_otypes, eo, kind, str(dt), m, scored)
        return
    if st == 'flixster':
        data = ds.load_flixster_rating(infile, **(
            {'event_dtype': dt} if dt is not None else {}))
    elif scored:
        if tuple(dom) != (1, 5, 1) or ctx.coin():
            kw['score_domain'] = dom
        data = dsb.load_event_with_score(infile, **kw)
    else:
        data = dsb.load_event(infile, **kw)
    if fp is not None:
        fp.close()
    ref = gens.Ref(n_otypes, eo, ev, sc, dom, ef)
    gens.check_container(ctx, data, ref)
    ctx.check(hasattr(data, 'score') == bool(scored), 'kind of a container',
              got=type(data))
    ctx.obs('files loaded')
    ctx.obs('lines compared', n)
    ctx.sig(st, n, n_otypes, eo, kind, str(dt), form, scored)
    ctx.note(stratum=st, first_row=rows[0], form=form, n_otypes=n_otypes,
             event_otypes=eo)
