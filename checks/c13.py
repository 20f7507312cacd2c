"""C13: failures of single bands are neither lost nor invented."""
import itertools
import numpy as np
import ngmix
from ngmix import env
from mc.core import Space, Out
from mc import fitmodel as fm
from metadetect import procflags as pf
from metadetect.fitting import fit_mbobs_list_wavg, fit_mbobs_wavg

PROPERTY = 'C13'
LEVEL = 'fault_enumeration'
RULE = ('every assignment of data states (good, missing, zero weight, rejected bits) and fit '
        'answers (good, failed, no moments, no flux, bad variance, ...) to the bands, for object '
        'and psf, x choice of shear bands x regularization; non-trivial: at least one band '
        'deviates from good')
ASSUMPTIONS = ['one epoch per band', 'the moment fitters answer with a result and do not raise']

BASIC = {'missing': pf.MISSING_BAND, 'zero': pf.ZERO_WEIGHTS, 'edge': pf.EDGE_HIT,
         'edgezero': pf.ZERO_WEIGHTS | pf.EDGE_HIT, 'ok': 0, 'other': 0}
FLOATS = ('psf_g', 'psf_T', 's2n', 'g', 'g_cov', 'T', 'T_err', 'T_ratio', 'band_flux',
          'band_flux_err')


def close(a, b):
    return np.allclose(np.asarray(a, dtype='f8'), np.asarray(b, dtype='f8'), rtol=1e-9,
                       atol=1e-12, equal_nan=True)


def fit(case):
    bands = [dict(zip(('state', 'obj', 'psf'), b)) for b in case['bands']]
    mb = ngmix.MultiBandObsList()
    for i, b in enumerate(bands):
        mb.append(fm.make_band(b['state'], i))
        b['wgt'] = 2.0 + 3*i
    calls = []

    def handler(kind, info):
        if kind != 'mom':
            return None
        m = info['obs'].meta
        calls.append((m['band'], m['psf'], dict(info['kw'])))
        b = bands[m['band']]
        return fm.answer(b['psf' if m['psf'] else 'obj'], m['band'], m['psf'])

    fitter = fm.make_fitter(case['model'])
    sh = case['shear']
    kw = {} if case['reg'] == 0 else {'fwhm_reg': case['reg']}
    with env.use(handler):
        data = fit_mbobs_wavg(mbobs=mb, fitter=fitter, bmask_flags=fm.EDGE_BIT,
                              shear_bands=None if sh is None else list(sh), **kw)
    return bands, data, calls


def check(out, tag, case, bands, d):
    model = case['model']
    nb = len(bands)
    shear = list(range(nb)) if case['shear'] is None else list(case['shear'])

    def col(n):
        return d['%s_%s' % (model, n)][0]

    flags, obj, psf = int(col('flags')), int(col('obj_flags')), int(col('psf_flags'))
    bff = np.atleast_1d(col('band_flux_flags'))
    bf = np.atleast_1d(col('band_flux'))
    bfe = np.atleast_1d(col('band_flux_err'))
    out.expect(len(d) == 1, tag + 'rows', 'rows')
    out.expect(d['shear_bands'][0] == ''.join(str(s) for s in sorted(shear)), tag + 'label',
               lambda: 'shear bands %r' % d['shear_bands'][0])
    # -- fluxes of every band on its own
    for i, b in enumerate(bands):
        need = BASIC[b['state']]
        if need:
            out.expect(bff[i] & need == need, tag + 'flux-reason',
                       'band %d flux flags %s lack %s' % (i, bff[i], need))
            out.expect(np.isnan(bf[i]) and np.isnan(bfe[i]), tag + 'flux-value',
                       'band %d has a flux %s' % (i, bf[i]))
        else:
            a = fm.answer(b['obj'], i, False)
            if 'flux' in a and 'flux_err' in a and 'flux_flags' in a:
                out.expect(bff[i] == a['flux_flags'] and close(bf[i], a['flux'])
                           and close(bfe[i], a['flux_err']), tag + 'flux-own',
                           lambda: 'band %d flux %s %s flags %s, measured %s %s %s'
                           % (i, bf[i], bfe[i], bff[i], a['flux'], a['flux_err'],
                              a['flux_flags']))
            else:
                out.expect(bff[i] & pf.NOMOMENTS_FAILURE and np.isnan(bf[i]), tag + 'flux-none',
                           'band %d without flux gives %s flags %s' % (i, bf[i], bff[i]))
        out.expect(flags & int(bff[i]) == int(bff[i]), tag + 'flux-in-flags',
                   'flags %d lack the flux flags of band %d' % (flags, i))
    # -- the shear measurement
    basic = 0
    nomom_o = nomom_p = False
    for i in shear:
        b = bands[i]
        basic |= BASIC[b['state']]
        if not BASIC[b['state']]:
            o, p = fm.answer(b['obj'], i, False), fm.answer(b['psf'], i, True)
            nomom_o |= 'sums' not in o or 'sums_cov' not in o
            nomom_p |= 'sums' not in p or 'sums_cov' not in p
    if basic:
        out.expect(obj & basic == basic and psf & basic == basic, tag + 'reason-lost',
                   'flags obj %d psf %d lack %d' % (obj, psf, basic))
    if nomom_o:
        out.expect(obj & pf.NOMOMENTS_FAILURE, tag + 'nomom-lost', 'missing moments not flagged')
    if nomom_p:
        out.expect(psf & pf.NOMOMENTS_FAILURE, tag + 'psf-nomom-lost',
                   'missing psf moments not flagged')
    out.expect((psf == 0) or (obj & pf.PSF_FAILURE), tag + 'psf-not-propagated',
               'psf flags %d do not reach the object flags %d' % (psf, obj))
    out.expect(flags & obj == obj, tag + 'obj-in-flags', 'object flags not in flags')
    out.expect((psf == 0) or flags & pf.PSF_FAILURE, tag + 'psf-in-flags', 'psf not in flags')
    allowed = pf.PSF_FAILURE | obj
    for f in bff:
        allowed |= int(f)
    out.expect(flags & ~allowed == 0, tag + 'invented', 'flags %d not explained by %d'
               % (flags, allowed))
    good = False
    zero_pnorm = False
    if not basic and not nomom_o and not nomom_p:
        for i, b in enumerate(bands):
            if i in shear:
                b['obj_sums'] = sums(b['obj'], i, False)
                b['psf_sums'] = sums(b['psf'], i, True)
                if b['psf_sums'][0][5] == 0 or b['obj_sums'][2] == 0:
                    zero_pnorm = True
        if zero_pnorm:
            out.expect(psf != 0, tag + 'psf-zero', 'psf without flux not flagged')
        else:
            m = fm.WavgModel(bands, sorted(shear), case['reg'])
            mom = m.measure()
            eo = m.shape(*mom['obj'], case['reg'])
            ep = m.shape(*mom['psf'], 0)
            out.expect(psf == ep['flags'], tag + 'psf-flags', 'psf flags %d expected %d'
                       % (psf, ep['flags']))
            exp = eo['flags'] | (pf.PSF_FAILURE if ep['flags'] else 0)
            out.expect(obj == exp, tag + 'obj-flags', 'object flags %d expected %d' % (obj, exp))
            for n, v in (('g', eo['e']), ('g_cov', eo['e_cov']), ('T', eo['T']),
                         ('T_err', eo['T_err']), ('s2n', eo['s2n']),
                         ('psf_g', ep['e']), ('psf_T', ep['T'])):
                out.expect(close(col(n), v), tag + 'value-' + n, lambda: '%s is %s expected %s'
                           % (n, col(n), v))
            out.expect(col('T_flags') == eo['T_flags'], tag + 'T_flags', 'T_flags')
            if ep['flags'] == 0:
                out.expect(close(col('T_ratio'), eo['T']/ep['T']), tag + 'value-T_ratio',
                           lambda: 'T_ratio %s' % col('T_ratio'))
            good = eo['flags'] == 0 and ep['flags'] == 0
    allgood = good and all(f == 0 for f in bff)
    out.expect((flags == 0) == allgood, tag + 'zero-iff-good', 'flags %d but the object is %s'
               % (flags, 'good' if allgood else 'bad'))
    if flags == 0:
        for n in FLOATS:
            out.expect(np.all(np.isfinite(col(n))), tag + 'finite-' + n,
                       lambda: 'flags 0 but %s is %s' % (n, col(n)))
    if basic:
        for n in ('g', 's2n', 'psf_g', 'psf_T', 'T_ratio'):
            out.expect(not np.any(np.isfinite(col(n))), tag + 'value-despite-failure',
                       lambda: '%s is %s although a shear band is unusable' % (n, col(n)))
    return flags, obj, psf, bff.tolist()


def sums(kind, band, psf):
    a = fm.answer(kind, band, psf)
    return a['sums'], a['sums_cov'], a.get('sums_norm', np.nan)


def run(case):
    bands, d, calls = fit(case)
    out = Out(trivial=all(b == ['ok', 'good', 'good'] for b in case['bands']))
    out.outcome = check(out, '', case, bands, d)
    for b, psf, kw in calls:
        st = bands[b]['state']
        out.expect(BASIC[st] == 0, 'fit-unusable', 'band %d (%s) was fit' % (b, st))
        if psf and case['model'] != 'wmom':
            out.expect(kw.get('no_psf') is True, 'no_psf', 'psf fit with a psf correction')
    return out


def run_list(case):
    """row i of the result belongs to object i"""
    objs = case['objs']
    mbl = []
    for k, (state, nb) in enumerate(objs):
        mb = ngmix.MultiBandObsList()
        for i in range(case['nband']):
            ol = fm.make_band(state if i == nb else 'ok', i)
            for o in ol:
                o.meta['k'] = k
                o.psf.meta['k'] = k
            mb.append(ol)
        mbl.append(mb)

    def handler(kind, info):
        m = info['obs'].meta
        s, c, n = fm.sums_for('good', m['band'], m['psf'])
        return ngmix.moments.make_mom_result(s*(1 + 0.1*m['k']), c, sums_norm=n)

    out = Out(outcome=str(objs), steps=max(1, len(objs)), trivial=len(objs) < 2)
    with env.use(handler):
        kw = dict(fitter=fm.make_fitter('wmom'), bmask_flags=fm.EDGE_BIT,
                  shear_bands=case['shear'], fwhm_reg=case['reg'])
        res = fit_mbobs_list_wavg(mbobs_list=mbl, **kw)
        if not objs:
            out.expect(res is None, 'empty', 'empty list must give None')
            return out
        out.expect(len(res) == len(objs), 'length', 'length')
        for k in range(len(objs)):
            one = fit_mbobs_wavg(mbobs=mbl[k], **kw)
            for n in res.dtype.names:
                ok = one[n].dtype.kind == 'U' and res[n][k] == one[n][0] or \
                    one[n].dtype.kind != 'U' and np.array_equal(res[n][k], one[n][0],
                                                                equal_nan=True)
                out.expect(ok, 'row', 'row %d column %s differs from the single fit' % (k, n))
    return out


def spaces(tier):
    th = tier == 'thorough'
    bad = [['missing', 'good', 'good'], ['zero', 'good', 'good'], ['edge', 'good', 'good'],
           ['edgezero', 'good', 'good'], ['other', 'good', 'good']]
    obj = ['good', 'negflux', 'zeroflux', 'negT', 'novar', 'nonorm', 'nomom', 'nocov', 'noflux',
           'badflux', 'nonormkey', 'bigneg', 'nancen', 'nanv', 'noTvar', 'cancel']
    psf = ['good', 'negflux', 'zeroflux', 'negT', 'novar', 'nonorm', 'nomom', 'nocov', 'zeronorm']
    full = bad + [['ok', o, p] for o in obj for p in psf]
    mid = bad[:3] + [['ok', o, p] for o, p in
                     [('good', 'good'), ('negflux', 'good'), ('nomom', 'good'),
                      ('noflux', 'good'), ('badflux', 'good'), ('good', 'nomom'),
                      ('good', 'negT'), ('bigneg', 'zeroflux'), ('negT', 'negflux'),
                      ('nonormkey', 'nonorm')]]
    one = [dict(bands=[b], shear=s, reg=r, model=m) for b in full for s in (None, [0])
           for r in (0, 0.8) for m in ('wmom', 'pgauss', 'ksigma')]
    two = [dict(bands=[a, b], shear=s, reg=r, model='wmom')
           for a in (full if th else mid) for b in full for s in (None, [0], [1], [1, 0])
           for r in (0, 0.8)]
    small = mid if th else [mid[0], mid[1], mid[3], mid[4], mid[5], mid[7], mid[8]]
    three = [dict(bands=list(t), shear=s, reg=0.8 if s == [0, 2] else 0, model='pgauss')
             for t in itertools.product(small, repeat=3)
             for s in (None, [0], [2], [1, 0], [0, 2], [2, 1], [2, 0, 1])]
    # more bands: every band deviates in turn, in every way
    many = []
    ok = ['ok', 'good', 'good']
    for nb in (4, 5, 6):
        shears = [None, [nb-1], [nb-1, 0], list(range(nb))[::-1], [3, 1], list(range(1, nb))]
        for pos, b in itertools.product(range(nb), [ok] + mid):
            if b == ok and pos:
                continue
            t = [ok]*nb
            t[pos] = b
            for k, sh in enumerate(shears):
                many.append(dict(bands=t, shear=sh, reg=0.8 if k % 2 else 0, model='wmom'))
        for k in range(len(mid)):
            t = [mid[(k + 3*i) % len(mid)] for i in range(nb)]
            for sh in shears:
                many.append(dict(bands=t, shear=sh, reg=0, model='pgauss'))
    lists = []
    states = ['ok', 'missing', 'zero', 'edge']
    for n in range(0, 4):
        for t in itertools.product([[s, b] for s in states for b in (0, 1)], repeat=n):
            for sh in (None, [1]):
                lists.append(dict(objs=list(t), nband=2, shear=sh, reg=0 if sh else 0.8))
    for n in (17, 64):
        for nb in (2, 5):
            for q in (1, 3, 7):
                lists.append(dict(objs=[[states[(q*k + k//4) % 4], (q*k) % nb] for k in range(n)],
                                  nband=nb, shear=[nb-1, 0] if q == 3 else None, reg=0.8))
    return [Space('one-band', one, run), Space('two-bands', two, run),
            Space('three-bands', three, run), Space('many-bands', many, run),
            Space('lists', lists, run_list)]
