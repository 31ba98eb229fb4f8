"""C08: raw distribution files -> converters -> loaders, without loss"""
import contextlib
import io
import os
import runpy
import shutil
import sys
import tempfile
import numpy as np
from .. import core, gens

STRATA = ['ml100k', 'ml1m', 'mini', 'sushi3', 'flixster', 'ml100k', 'ml1m',
          'sushi3']
CASES = {'quick': 640, 'thorough': 8000}
NEED = {'data sets converted and loaded': 300, 'rows of features': 3000,
        'files elsewhere loaded': 50, 'names decoded': 1000}
RULE = ('synthetic raw distributions in the original formats: non-ASCII '
        'titles, missing dates and URLs, unrated items, single rows, CRLF; '
        'distinct = different generated raw files')
ASSUMPTIONS = ['raw text fields contain no tab and no #, which are '
               'meta-characters of the sample format; users and items of '
               'events occur in the feature files']

_tree = None


def tree():
    """a private copy of the package and of converters, per process"""
    global _tree
    if _tree is None or _tree[0] != os.getpid():
        assert not any(m == 'kamrecsys' or m.startswith('kamrecsys.')
                       for m in sys.modules)
        t = os.path.join(os.environ['KAM_SCRATCH'], 'tree%d' % os.getpid())
        ign = shutil.ignore_patterns('tests', '__pycache__', '*.pyc')
        shutil.copytree(os.path.join(core.REPO, 'kamrecsys'),
                        os.path.join(t, 'kamrecsys'), ignore=ign)
        shutil.copytree(os.path.join(core.REPO, 'data'),
                        os.path.join(t, 'data'), ignore=ign)
        os.makedirs(os.path.join(t, 'kamrecsys', 'datasets', 'data'),
                    exist_ok=True)
        sys.path.insert(0, t)
        _tree = (os.getpid(), t)
        import kamrecsys.datasets as ds
        assert ds.__file__.startswith(t)
    return _tree[1]


def run_converter(ctx, t, name):
    out = os.path.join(t, 'kamrecsys', 'datasets', 'data')
    argv = [os.path.join(t, 'data', name + '.py')]
    other = None
    if ctx.coin(.3):
        argv.append(out)
    elif ctx.coin():
        # a directory that is not that of samples
        other = tempfile.mkdtemp(dir=os.environ['KAM_SCRATCH'])
        argv.append(other)
        if name == 'movielens_mini':
            for f in os.listdir(out):
                if f.startswith('movielens100k'):
                    shutil.move(os.path.join(out, f), other)
    old = sys.argv
    sys.argv = argv
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            runpy.run_path(argv[0], run_name='__main__')
        for f in os.listdir(other) if other else ():
            shutil.move(os.path.join(other, f), os.path.join(out, f))
    finally:
        sys.argv = old
        if other:
            shutil.rmtree(other)
    ctx.obs('converter runs')


def put(ctx, t, name, lines, enc='ascii'):
    nl = '\r\n' if ctx.coin(.15) else '\n'
    with io.open(os.path.join(t, 'data', name), 'w', encoding=enc,
                 newline='') as fp:
        fp.write(nl.join(lines) + nl)


W = ['Toy Story', 'Amélie', 'Señor', 'Garçu, Le', "Schindler's List",
     'Léon: The Professional', '101 Dalmatians', 'M*A*S*H', 'Se7en', 'Œuvre',
     'A “Quote”', 'Fear…', 'x', 'N/A', 'nan', 'Die Hard', '3 Ninjas: Kick!',
     'Cité des enfants perdus, La', 'Ýmir', '¡Átame!']


def title(ctx, lo, hi, tail='(1995)'):
    s = ' '.join(ctx.choice(W) for _ in range(ctx.randint(1, 4)))
    s = s[:hi - len(tail) - 1].strip()
    return (s + ' ' + tail).strip() if tail else s


def events(ctx, users, items, n):
    r = ctx.rng
    seen, out = set(), []
    for _ in range(n):
        p = (int(users[r.randint(len(users))]),
             int(items[r.randint(len(items))]))
        if p not in seen:
            seen.add(p)
            out.append(p)
    return np.array(out, dtype=int)


def check_features(ctx, data, o, want):
    """want: {eid: {field: value}}"""
    f = data.feature[o]
    eid = np.asarray(data.eid[o])
    ctx.check(f is not None and len(f) == len(eid), 'no features', otype=o)
    for i, e in enumerate(eid.tolist()):
        for k, v in want[e].items():
            g = f[k][i]
            if isinstance(v, float):
                ctx.close(g, v, 'feature', otype=o, eid=e, field=k, rtol=1e-12,
                          atol=0)
            elif isinstance(v, (list, tuple)):
                ctx.equal(g, v, 'feature', otype=o, eid=e, field=k)
            else:
                ctx.check(g == v, 'feature of an object differs from the raw '
                          'file', otype=o, eid=e, field=k, got=g, want=v)
    ctx.obs('rows of features', len(eid))


def elsewhere(ctx, load, ref, rows, *feats):
    """some of the events, in a file other than that of the sample directory,
    are loaded with the same features"""
    if not ctx.coin(.4):
        return
    idx = ctx.rng.permutation(len(rows))[:ctx.randint(1, len(rows))]
    d = tempfile.mkdtemp(dir=os.environ['KAM_SCRATCH'])
    try:
        path = os.path.join(d, ctx.choice(['x.event', 'some events']))
        with io.open(path, 'w', encoding='ascii') as fp:
            fp.write(u''.join('\t'.join(map(str, rows[i])) + '\n'
                              for i in idx))
        how = ctx.randint(0, 2)
        if how == 0:
            data = load(path)
        elif how == 1:
            data = load(infile=path)
        else:
            with io.open(path, 'rb') as fp:
                data = load(infile=fp)
    finally:
        shutil.rmtree(d)
    feat = data.feature
    data.feature = [None, None]
    gens.check_container(ctx, data, ref.take(idx))
    data.feature = feat
    for o, f in enumerate(feats):
        check_features(ctx, data, o, f)
    ctx.obs('files elsewhere loaded')


def names(ctx, data, o, field, table, want):
    """the table of names decodes the codes of features"""
    codes = data.feature[o][field]
    got = np.asarray(table[codes]).tolist()
    ctx.check([str(x).lower() for x in got] ==
              [want[c].lower() for c in codes.tolist()],
              'names of codes', field=field, got=got)
    ctx.obs('names decoded', len(got))


def case(ctx):
    t = tree()
    import kamrecsys.datasets as ds
    globals()['do_' + ctx.stratum](ctx, t, ds, ctx.rng)
    ctx.obs('data sets converted and loaded')


OCC = ['none', 'other', 'administrator', 'artist', 'doctor', 'educator',
       'engineer', 'entertainment', 'executive', 'healthcare', 'homemaker',
       'lawyer', 'librarian', 'marketing', 'programmer', 'retired',
       'salesman', 'scientist', 'student', 'technician', 'writer']
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct',
       'Nov', 'Dec']
GEN = ["Action", "Adventure", "Animation", "Children's", "Comedy", "Crime",
       "Documentary", "Drama", "Fantasy", "Film-Noir", "Horror", "Musical",
       "Mystery", "Romance", "Sci-Fi", "Thriller", "War", "Western"]


def do_ml100k(ctx, t, ds, r, mini=False):
    nu, ni = ctx.randint(1, 20), ctx.randint(1, 20)
    users = r.permutation(nu * (1 if mini else 3))[:nu] + 1
    items = r.permutation(ni * (1 if mini else 3))[:ni] + 1
    ev = events(ctx, users, items, ctx.randint(1, 60))
    n = len(ev)
    if mini and not np.any(np.all(ev <= 10, axis=1)):
        ev = np.r_[ev, [[users.min(), items.min()]]]
        n = len(ev)
    sc = r.randint(1, 6, n)
    ts = r.randint(8 * 10 ** 8, 2 * 10 ** 9, n)
    put(ctx, t, 'u.data', ['%d\t%d\t%d\t%d' % (a, b, s, x) for (a, b), s, x
                           in zip(ev, sc, ts)])
    uf, lines = {}, []
    for u in users.tolist():
        age, g, o = ctx.randint(5, 90), ctx.choice('MF'), ctx.randint(0, 20)
        z = ctx.choice(['85711', '00501', 'V3N4P', 'T8H1N', 'E2A4H'])
        uf[u] = dict(age=age, gender=int(g == 'F'), occupation=o, zip=z)
        lines.append('%d|%d|%s|%s|%s' % (u, age, g, OCC[o], z))
    put(ctx, t, 'u.user', lines)
    itf, lines = {}, []
    for i in items.tolist():
        nm = (title(ctx, 7, 81) if r.rand() < .9 else 'unknown')
        m = r.randint(5)
        d, mo, y = ctx.randint(1, 31), ctx.randint(1, 12), ctx.randint(1922,
                                                                       1998)
        date = '%02d-%s-%d' % (d, MON[mo - 1], y) if m else ''
        url = ('http://us.imdb.com/M/title-exact?%s' % nm.encode(
            'utf-8').hex())[:134] if r.rand() < .8 else ''
        g = (r.rand(18) < .2).astype(int)
        unk = int(not g.any())
        itf[i] = dict(name=nm, day=d if m else 0, month=mo if m else 0,
                      year=y if m else 0, genre=g.tolist(), imdb=url)
        lines.append('|'.join([str(i), nm, date, '', url, str(unk)] +
                              [str(x) for x in g]))
    put(ctx, t, 'u.item', lines, enc='cp1252')
    run_converter(ctx, t, 'movielens100k')
    ef = np.array([(x,) for x in ts], dtype=[('timestamp', int)])
    ref = gens.Ref(2, None, ev, sc.astype(float), (1., 5., 1.), ef)
    if mini:
        run_converter(ctx, t, 'movielens_mini')
        data = ds.load_movielens_mini()
        ref = ref.take(np.all(ev <= 10, axis=1))
    else:
        data = ds.load_movielens100k()
        elsewhere(ctx, ds.load_movielens100k, ref, [
            (a, b, float(s), x) for (a, b), s, x in zip(
                ev.tolist(), sc, ts)], uf, itf)
    feat = data.feature
    data.feature = [None, None]
    gens.check_container(ctx, data, ref)
    data.feature = feat
    check_features(ctx, data, 0, uf)
    check_features(ctx, data, 1, itf)
    # names of occupations given by the conversion tables
    info = ds.MOVIELENS100K_INFO
    for k, e in enumerate(data.eid[0].tolist()):
        ctx.check(info['user_occupation'][
            data.feature[0]['occupation'][k]].lower() ==
            OCC[uf[e]['occupation']], 'name of an occupation')
    ctx.sig(ctx.stratum, ev.tobytes(), sc.tobytes(), repr(itf))
    ctx.note(stratum=ctx.stratum, users=len(users), items=len(items),
             events=n, a_title=itf[int(items[0])]['name'])


def do_mini(ctx, t, ds, r):
    do_ml100k(ctx, t, ds, r, mini=True)


AGE = [1, 18, 25, 35, 45, 50, 56]
AGES = ['Under 18', '18-24', '25-34', '35-44', '45-49', '50-55', '56+']
JOBS = ['Other or Not Specified', 'Academic/Educator', 'Artist',
        'Clerical/Admin', 'College/Grad Student', 'Customer Service',
        'Doctor/Health Care', 'Executive/Managerial', 'Farmer', 'Homemaker',
        'K-12 Student', 'Lawyer', 'Programmer', 'Retired', 'Sales/Marketing',
        'Scientist', 'Self-Employed', 'Technician/Engineer',
        'Tradesman/Craftsman', 'Unemployed', 'Writer']
REGION = ['Hokkaido', 'Tohoku', 'Hokuriku', 'Kanto+Shizuoka',
          'Nagano+Yamanashi', 'Chukyo', 'Kinki', 'Chugoku', 'Shikoku',
          'Kyushu', 'Okinawa', 'non-Japan']
PREF = '''Hokkaido Aomori Iwate Akita Miyagi Yamagata Fukushima Niigata
Ibaraki Tochigi Gunma Saitama Chiba Tokyo Kanagawa Yamanashi Shizuoka Nagano
Aichi Gifu Toyama Ishikawa Fukui Shiga Mie Kyoto Osaka Nara Wakayama Hyogo
Okayama Hiroshima Tottori Shimane Yamaguchi Ehime Kagawa Tokushima Kochi
Fukuoka Nagasaki Saga Kumamoto Kagoshima Miyazaki Oita Okinawa
non-Japan'''.split()


def do_ml1m(ctx, t, ds, r):
    nu, ni = ctx.randint(1, 20), ctx.randint(1, 20)
    users = r.permutation(nu * 3)[:nu] + 1
    items = r.permutation(ni * 3)[:ni] + 1
    if ctx.coin(.3):
        items[0] = 3845
    ev = events(ctx, users, items, ctx.randint(1, 60))
    n = len(ev)
    sc = r.randint(1, 6, n)
    ts = r.randint(8 * 10 ** 8, 2 * 10 ** 9, n)
    put(ctx, t, 'ratings.dat', ['%d::%d::%d::%d' % (a, b, s, x)
                                for (a, b), s, x in zip(ev, sc, ts)])
    uf, lines = {}, []
    for u in users.tolist():
        a, g, o = ctx.randint(0, 6), ctx.choice('MF'), ctx.randint(0, 20)
        z = ctx.choice(['85711', '00501', '55455', '98107-2117', '02460'])
        uf[u] = dict(age=a, gender=int(g == 'F'), occupation=o, zip=z[:5])
        lines.append('%d::%s::%d::%d::%s' % (u, g, AGE[a], o, z))
    put(ctx, t, 'users.dat', lines)
    itf, lines = {}, []
    for i in items.tolist():
        y = ctx.randint(1919, 2000)
        nm = title(ctx, 8, 82, '(%d)' % y)
        raw = nm
        if i == 3845:
            nm = 'And God Created Woman (Et Dieu\u2026Créa la Femme) (1956)'
            raw = nm.replace('\u2026', '&#8230;')
            y = 1956
        g = r.rand(18) < .2
        if not g.any():
            g[r.randint(18)] = True
        gl = [GEN[k] for k in r.permutation(18) if g[k]]
        itf[i] = dict(name=nm, year=y, genre=g.astype(int).tolist())
        lines.append('%d::%s::%s' % (i, raw, '|'.join(gl)))
    put(ctx, t, 'movies.dat', lines, enc='cp1252')
    run_converter(ctx, t, 'movielens1m')
    data = ds.load_movielens1m()
    ef = np.array([(x,) for x in ts], dtype=[('timestamp', int)])
    ref = gens.Ref(2, None, ev, sc.astype(float), (1., 5., 1.), ef)
    feat = data.feature
    data.feature = [None, None]
    gens.check_container(ctx, data, ref)
    data.feature = feat
    check_features(ctx, data, 0, uf)
    check_features(ctx, data, 1, itf)
    elsewhere(ctx, ds.load_movielens1m, ref, [
        (a, b, float(s), x) for (a, b), s, x in zip(ev.tolist(), sc, ts)],
        uf, itf)
    names(ctx, data, 0, 'age', ds.MOVIELENS1M_INFO['user_age'], AGES)
    names(ctx, data, 0, 'occupation', ds.MOVIELENS1M_INFO['user_occupation'],
          JOBS)
    for info in (ds.MOVIELENS1M_INFO, ds.MOVIELENS100K_INFO):
        ctx.check(list(info['item_genre']) == GEN, 'names of genres')
    ctx.sig(ctx.stratum, ev.tobytes(), sc.tobytes(), repr(itf))
    ctx.note(stratum=ctx.stratum, users=len(users), items=len(items),
             events=n, a_title=itf[int(items[0])]['name'])


SUSHI = ['海老', '穴子', 'まぐろ', 'いか', 'うに', 'たこ', 'いくら', '玉子', 'とろ',
         '甘えび', '鉄火巻き', 'ebi', 'めんたいこ巻き', 'サーモン', 'サラダ', 'Ä']


def do_sushi3(ctx, t, ds, r):
    nu, ni = ctx.randint(1, 20), ctx.randint(1, 16)
    m = np.where(r.rand(nu, ni) < .4, r.randint(0, 5, (nu, ni)), -1)
    if (m < 0).all():
        m[-1, -1] = 3
    put(ctx, t, 'sushi3b.5000.10.score', [' '.join(map(str, row))
                                          for row in m.tolist()])
    ev = np.argwhere(m >= 0)
    sc = m[m >= 0].astype(float)
    keys = ['original_uid', 'gender', 'age', 'answer_time',
            'child_prefecture', 'child_region', 'child_ew',
            'current_prefecture', 'current_region', 'current_ew', 'moved']
    uf, lines = {}, []
    for u in range(nu):
        v = [ctx.randint(0, 99999), ctx.randint(0, 1), ctx.randint(0, 5),
             ctx.randint(1, 9999), ctx.randint(0, 47), ctx.randint(0, 11),
             ctx.randint(0, 1), ctx.randint(0, 47), ctx.randint(0, 11),
             ctx.randint(0, 1), ctx.randint(0, 1)]
        uf[u] = dict(zip(keys, v))
        lines.append('\t'.join(map(str, v)))
    put(ctx, t, 'sushi3.udata', lines)
    itf, lines = {}, []
    for i in range(ni):
        v = [SUSHI[i], ctx.randint(0, 1), ctx.randint(0, 1),
             ctx.randint(0, 11)] + [round(float(x), 14) for x in
                                    r.rand(4) * [4, 3, 5, 1]]
        itf[i] = dict(zip(['name', 'maki', 'seafood', 'genre', 'heaviness',
                           'frequency', 'price', 'supply'], v))
        lines.append('\t'.join([str(i)] + [x if isinstance(x, str) else
                                           repr(x) for x in v]))
    put(ctx, t, 'sushi3.idata', lines, enc='utf-8')
    run_converter(ctx, t, 'sushi3')
    data = ds.load_sushi3b_score()
    ref = gens.Ref(2, None, ev, sc, (0., 4., 1.))
    feat = data.feature
    data.feature = [None, None]
    gens.check_container(ctx, data, ref)
    data.feature = feat
    check_features(ctx, data, 0, uf)
    check_features(ctx, data, 1, itf)
    elsewhere(ctx, ds.load_sushi3b_score, ref, [
        (a, b, s) for (a, b), s in zip(ev.tolist(), sc)], uf, itf)
    info = ds.SUSHI3_INFO
    names(ctx, data, 0, 'age', info['user_age'],
          ['15-19', '20-29', '30-39', '40-49', '50-59', '60-'])
    for f in ('child', 'current'):
        names(ctx, data, 0, f + '_prefecture', info['user_prefecture'], PREF)
        names(ctx, data, 0, f + '_region', info['user_region'], REGION)
    ctx.check(len(info['item_genre']) == 12, 'names of genres')
    ctx.sig(ctx.stratum, m.tobytes(), repr(itf))
    ctx.note(stratum=ctx.stratum, users=nu, items=ni, events=len(ev))


def do_flixster(ctx, t, ds, r):
    users = r.permutation(60)[:ctx.randint(1, 20)]
    items = r.permutation(60)[:ctx.randint(1, 20)]
    ev = events(ctx, users, items, ctx.randint(1, 80))
    sc = r.randint(1, 11, len(ev)) / 2.
    put(ctx, t, 'ratings.txt', ['%d\t%d\t%s' % (a, b, s if ctx.coin() or
                                                s % 1 else int(s))
                                for (a, b), s in zip(ev.tolist(), sc)])
    run_converter(ctx, t, 'flixster')
    data = ds.load_flixster_rating()
    elsewhere(ctx, ds.load_flixster_rating, gens.Ref(
        2, None, ev, sc, (.5, 5., .5)), [
        (a, b, s) for (a, b), s in zip(ev.tolist(), sc)])
    gens.check_container(ctx, data, gens.Ref(2, None, ev, sc, (.5, 5., .5)))
    ctx.obs('rows of features', 0)
    ctx.sig(ctx.stratum, ev.tobytes(), sc.tobytes())
    ctx.note(stratum=ctx.stratum, events=len(ev))
