"""C16: joint fits contain every failure of the psf and object fits."""
import itertools
import numpy as np
import ngmix
from ngmix import env
from ngmix.gexceptions import GMixFatalError, GMixRangeError, BootPSFFailure, PSFFluxFailure
from mc.core import Space, Out, all_choices
from mc import fitmodel as fm
from metadetect import procflags as pf
from metadetect.fitting import fit_mbobs_list_joint, fit_mbobs_gauss
from .c14 import symm

PROPERTY = 'C16'
LEVEL = 'fault_enumeration'
RULE = ('every assignment of data states to bands x shear bands x options, and for each of them '
        'every sequence of answers (good, failed, bad size, each kind of exception) of the psf '
        'and object fits including retries, up to the stated number of deviations; non-trivial: '
        'a band or an answer deviates from good')
ASSUMPTIONS = ['the runners (2 attempts) and the bootstrapping are the stand-ins: any failed psf '
               'stops the bootstrap', 'psf fits report size whenever they succeed']

NAN = np.nan
HIGH = 2**22      # failures may use any bit
REASON = {'missing': pf.MISSING_BAND, 'zero': pf.ZERO_WEIGHTS, 'edge': pf.EDGE_HIT,
          'edgezero': pf.ZERO_WEIGHTS | pf.EDGE_HIT, 'twice': pf.INCONSISTENT_BANDS,
          'ok': 0, 'other': 0, 'holes': 0}


def am_answer(kind, tag):
    r = {'flags': 0, 'T_flags': 0, 's2n': 10.0 + tag, 'e': np.array([0.1 + 0.01*tag, -0.2]),
         'e_cov': np.diag([0.01, 0.02])*(1+tag), 'T': 0.5 + tag, 'T_err': 0.1,
         'flagstr': '', 'T_flagstr': ''}
    if kind == 'fail':
        r.update(flags=ngmix.flags.MAXITER | HIGH, T_flags=ngmix.flags.MAXITER | HIGH, s2n=NAN,
                 e=np.array([NAN, NAN]), T=NAN)
    elif kind == 'failnokeys':
        r = {'flags': ngmix.flags.CEN_SHIFT, 'T_flags': ngmix.flags.CEN_SHIFT, 'flagstr': ''}
    elif kind == 'failshape':
        r.update(flags=ngmix.flags.NONPOS_SHAPE_VAR)
    return r


EXC = {'fatal': GMixFatalError, 'range': GMixRangeError, 'value': ValueError,
       'linalg': np.linalg.LinAlgError, 'boot': BootPSFFailure, 'psfflux': PSFFluxFailure}
AM_MENU = ['good', 'fail', 'failnokeys', 'failshape', 'fatal', 'value']


def bundle(states, ident=0):
    mb = ngmix.MultiBandObsList()
    for i, st in enumerate(states):
        w = None
        if st == 'holes':
            w = np.full((5, 5), 2.0 + 3*i)
            w[1, 0] = 0
        ol = fm.make_band('ok' if st in ('twice', 'holes') else st, i, weight=w)
        if st == 'twice':
            ol.append(ol[0].copy())
        for o in ol:
            o.meta['k'] = ident
            o.psf.meta['k'] = ident
        mb.append(ol)
    return mb


def basics(states, shear):
    need = 0
    for s in states:
        need |= REASON[s]
    return need


class Env(object):
    """answers of one execution, and what was asked"""
    def __init__(self, ch, menu, psf_menu=None):
        self.ch = ch
        self.menu = menu
        self.psf_menu = psf_menu or menu
        self.calls = []

    def am(self, kind, info):
        if kind != 'admom':
            return None
        obs = info['obs']
        psf = not obs.has_psf()
        menu = self.psf_menu if psf else self.menu
        a = menu[self.ch.pick(len(menu), 'psf' if psf else 'obj')]
        self.calls.append(('psf' if psf else 'obj', a, np.array(obs.weight), obs.meta.get('k')))
        if a in EXC:
            return EXC[a]('injected')
        return am_answer(a, 1 if psf else 3)


def final(calls, which):
    """answer of the last attempt"""
    c = [x for x in calls if x[0] == which]
    return c[-1][1] if c else None


def isnan(x):
    return not np.any(np.isfinite(np.asarray(x, dtype='f8')))


def run_am(case):
    states, shear = case['states'], case['shear']
    nb = len(states)
    use = list(range(nb)) if shear is None else list(shear)
    out = Out(trivial=False, steps=0)
    outs = []

    def once(ch):
        e = Env(ch, AM_MENU, case.get('psf_menu'))
        mb = bundle(states)
        with env.use(e.am):
            d = fit_mbobs_list_joint(
                mbobs_list=[mb], fitter_name=case['name'], bmask_flags=fm.EDGE_BIT,
                rng=np.random.RandomState(1), shear_bands=None if shear is None else list(shear),
                **({} if case['symm'] is None else {'symmetrize': case['symm']}))
        return e, d

    for ans, (e, d) in all_choices(once, case['bound']):
        out.steps += 1 + len(ans)
        tag = ''
        info = 'answers %s: ' % [c[:2] for c in e.calls]
        need = basics(states, use)
        if any(s >= nb for s in use):
            need |= pf.INCONSISTENT_BANDS
        f = {n: int(d['am_' + n][0]) for n in ('flags', 'psf_flags', 'obj_flags', 'T_flags')}
        val = lambda n: d['am_' + n][0]  # noqa
        out.expect(len(d) == 1, tag + 'rows', info + 'rows')
        out.expect(d['shear_bands'][0] == ''.join(str(s) for s in sorted(use)), tag + 'label',
                   info + 'label %r' % d['shear_bands'][0])
        out.expect(isnan(val('band_flux')) and np.all(val('band_flux_flags') != 0),
                   tag + 'band-flux', info + 'a band flux was never measured')
        outs.append((f['flags'], f['psf_flags'], f['obj_flags']))
        if need:
            bas = basics(states, use)
            out.expect((f['flags'] & bas == bas or any(s >= nb for s in use)) and f['flags'] != 0
                       and f['flags'] & need, tag + 'reason',
                       info + 'flags %d lack %d' % (f['flags'], need))
            out.expect(not e.calls, tag + 'fit-unusable', info + 'unusable data was fit')
            out.expect(f['flags'] & pf.NO_ATTEMPT, tag + 'no-attempt', info + 'flags %d' % f['flags'])
            for n in ('g', 'T', 's2n', 'psf_g', 'psf_T', 'T_ratio'):
                out.expect(isnan(val(n)), tag + 'value', info + '%s is %s' % (n, val(n)))
            continue
        pa, oa = final(e.calls, 'psf'), final(e.calls, 'obj')
        out.expect(pa is not None, tag + 'psf-not-fit', info + 'psf not fit')
        if pa in EXC:
            out.expect(f['flags'] & pf.PSF_FAILURE, tag + 'psf-exc', info + 'flags %s' % f)
            for n in ('g', 'T', 's2n', 'psf_g', 'psf_T', 'T_ratio'):
                out.expect(isnan(val(n)), tag + 'value', info + '%s is %s' % (n, val(n)))
            continue
        p = am_answer(pa, 1)
        out.expect(f['psf_flags'] == p['flags'], tag + 'psf-flags', info + 'psf flags %s' % f)
        # when the object raises, the psf failure stays visible in psf_flags only
        out.expect(f['flags'] & p['flags'] == p['flags'] or oa in EXC, tag + 'psf-lost',
                   info + 'flags %s' % f)
        if p['flags'] == 0:
            out.expect(np.allclose(val('psf_g'), p['e']) and val('psf_T') == p['T'],
                       tag + 'psf-value', info + 'psf %s %s' % (val('psf_g'), val('psf_T')))
        else:
            out.expect(isnan(val('psf_g')) and isnan(val('psf_T')), tag + 'psf-value',
                       info + 'failed psf has values')
        if oa in EXC:
            out.expect(f['flags'] & pf.OBJ_FAILURE, tag + 'obj-exc', info + 'flags %s' % f)
            for n in ('g', 'T', 's2n', 'T_ratio'):
                out.expect(isnan(val(n)), tag + 'value', info + '%s is %s' % (n, val(n)))
            continue
        if not out.expect(oa is not None, tag + 'obj-not-fit', info + 'object not fit'):
            continue
        o = am_answer(oa, 3)
        out.expect(f['obj_flags'] == o['flags'] and f['T_flags'] == o['T_flags'],
                   tag + 'obj-flags', info + 'flags %s' % f)
        out.expect(f['flags'] == o['flags'] | p['flags'], tag + 'flags', info + 'flags %s' % f)
        if o['flags'] == 0:
            out.expect(np.allclose(val('g'), o['e']) and np.allclose(val('g_cov'), o['e_cov'])
                       and val('s2n') == o['s2n'], tag + 'value', info + 'shape is not the fit')
        else:
            out.expect(isnan(val('g')) and isnan(val('s2n')), tag + 'value',
                       info + 'failed shape has values %s %s' % (val('g'), val('s2n')))
        if o['T_flags'] == 0:
            out.expect(val('T') == o['T'] and val('T_err') == o['T_err'], tag + 'T', info + 'T')
            out.expect(np.isclose(val('T_ratio'), o['T']/p['T']) if p['flags'] == 0
                       else isnan(val('T_ratio')), tag + 'T_ratio', info + 'T_ratio')
        else:
            out.expect(isnan(val('T')) and isnan(val('T_ratio')), tag + 'T', info + 'T')
        # what was fit
        if len(use) == 1:
            w = np.array(bundle(states)[use[0]][0].weight)
            if case['symm'] is not False:
                w = symm(w)
            got = [c[2] for c in e.calls if c[0] == 'obj'][-1]
            out.expect(np.array_equal(got, w), tag + 'weights', info + 'fit with other weights')
    out.outcome = sorted(set(outs))
    return out


# ---- gauss

def g_answer(kind, tag, nband):
    if kind == 'fail':
        return {'flags': ngmix.flags.LM_FUNC_NOTFINITE | HIGH}
    r = {'flags': 0, 's2n': 20.0 + tag, 'g': np.array([0.05*tag, -0.1]),
         'g_cov': np.diag([0.1, 0.2]), 'T': 0.7 + tag, 'T_err': 0.05, 'T_flags': 0}
    fl = 100.0*np.arange(1, nband+1) + tag
    r['flux'] = fl if nband > 1 else fl[0]
    r['flux_err'] = r['flux']/10
    return r


PSF_MENU = ['good', 'fail', 'fatal', 'boot', 'psfflux', 'value']
OBJ_MENU = ['good', 'fail', 'fatal', 'range', 'linalg', 'boot']


def run_gauss(case):
    states, shear, coadd = case['states'], case['shear'], case['coadd']
    nb = len(states)
    use = list(range(nb)) if shear is None else list(shear)
    out = Out(trivial=False, steps=0)
    outs = []

    def once(ch):
        calls = []

        def handler(kind, info):
            if kind != 'fitter':
                return None
            obs = info['obs']
            if isinstance(obs, ngmix.Observation) and not obs.has_psf():
                a = PSF_MENU[ch.pick(len(PSF_MENU), 'psf')]
                calls.append(('psf', a, obs.meta.get('band'), None))
                if a in EXC:
                    return EXC[a]('injected')
                return g_answer(a, 1 + obs.meta.get('band', 0), 1)
            a = OBJ_MENU[ch.pick(len(OBJ_MENU), 'obj')]
            if isinstance(obs, ngmix.Observation):
                lst = [obs]
            else:
                lst = [o for ol in obs for o in (ol if isinstance(ol, list) else [ol])]
            calls.append(('obj', a, [o.meta.get('band') for o in lst], len(lst)))
            if a in EXC:
                return EXC[a]('injected')
            return g_answer(a, 3, len(lst))

        mb = bundle(states)
        with env.use(handler):
            d = fit_mbobs_list_joint(
                mbobs_list=[mb], fitter_name='gauss', bmask_flags=fm.EDGE_BIT,
                rng=np.random.RandomState(1), shear_bands=None if shear is None else list(shear),
                coadd=coadd)
        return calls, d

    for ans, (calls, d) in all_choices(once, case['bound']):
        out.steps += 1 + len(ans)
        info = 'answers %s: ' % [c[:3] for c in calls]
        need = basics(states, use)
        toomany = any(s >= nb for s in use)
        f = {n: int(d['gauss_' + n][0]) for n in ('flags', 'psf_flags', 'obj_flags', 'T_flags')}
        val = lambda n: d['gauss_' + n][0]  # noqa
        bff = np.atleast_1d(val('band_flux_flags'))
        bf = np.atleast_1d(val('band_flux'))
        outs.append((f['flags'], f['psf_flags'], f['obj_flags'], bff.tolist()))
        out.expect(d['shear_bands'][0] == ''.join(str(s) for s in sorted(use)), 'label',
                   info + 'label %r' % d['shear_bands'][0])
        for i in range(nb):
            if i not in use:
                out.expect(bff[i] != 0 and isnan(bf[i]), 'other-flux',
                           info + 'band %d was not fit but has flux %s flags %s'
                           % (i, bf[i], bff[i]))
            if bff[i] == 0:
                out.expect(np.isfinite(bf[i]), 'flux-finite', info + 'flux flags 0, flux %s' % bf[i])
        vals = ('g', 'T', 's2n', 'T_ratio')
        if need or toomany:
            out.expect(f['flags'] & need == need and (not toomany or
                       f['flags'] & pf.INCONSISTENT_BANDS), 'reason',
                       info + 'flags %d lack %d' % (f['flags'], need))
            out.expect(not calls, 'fit-unusable', info + 'unusable data was fit')
            out.expect(f['flags'] & pf.NO_ATTEMPT and np.all(bff != 0), 'no-attempt',
                       info + 'flags %s' % f)
            for n in vals + ('psf_g', 'psf_T'):
                out.expect(isnan(val(n)), 'value', info + '%s is %s' % (n, val(n)))
            continue
        # last attempt per psf
        last = {}
        for c in calls:
            if c[0] == 'psf':
                last[c[2]] = c[1]
        oa = final(calls, 'obj')
        psf_exc = [a for a in last.values() if a in EXC]
        psf_fail = [a for a in last.values() if a == 'fail']
        if psf_exc or psf_fail or oa in EXC:
            out.expect(f['flags'] & pf.PSF_FAILURE, 'failure', info + 'flags %s' % f)
            if oa in ('fatal', 'range', 'linalg') or set(psf_exc) & {'fatal', 'value'}:
                out.expect(f['flags'] & pf.OBJ_FAILURE, 'failure', info + 'flags %s' % f)
            elif set(psf_exc) <= {'boot', 'psfflux'} and oa in (None, 'boot'):
                out.expect(not f['flags'] & pf.OBJ_FAILURE, 'invented',
                           info + 'only the psf failed, flags %s' % f)
            for n in vals:
                out.expect(isnan(val(n)), 'value', info + '%s is %s' % (n, val(n)))
            out.expect(np.all(bff != 0) and isnan(bf), 'value', info + 'has fluxes')
            continue
        if not out.expect(oa is not None, 'obj-not-fit', info + 'object not fit'):
            continue
        nfit = 1 if coadd else len(use)
        o = g_answer(oa, 3, nfit)
        out.expect(f['obj_flags'] == o['flags'] and f['T_flags'] == o['flags'] and
                   f['psf_flags'] == 0 and f['flags'] == o['flags'], 'flags',
                   info + 'flags %s' % f)
        if not (coadd and len(use) > 1):
            wts = {i: 2.0 + 3*i for i in use}
            sw = sum(wts.values())
            pT = sum(wts[i]*g_answer('good', 1+i, 1)['T'] for i in use)/sw
            pg = sum(wts[i]*g_answer('good', 1+i, 1)['T']*g_answer('good', 1+i, 1)['g']
                     for i in use)/sw/pT
            out.expect(np.isclose(val('psf_T'), pT) and np.allclose(val('psf_g'), pg), 'psf-value',
                       info + 'psf %s %s expected %s %s' % (val('psf_T'), val('psf_g'), pT, pg))
        out.expect(np.isfinite(val('psf_T')) and np.all(np.isfinite(val('psf_g'))), 'psf-value',
                   info + 'psf not finite')
        for i in use:
            out.expect(bff[i] == o['flags'], 'flux-flags', info + 'band %d flux flags %d'
                       % (i, bff[i]))
        if oa == 'good':
            out.expect(np.allclose(val('g'), o['g']) and val('T') == o['T'] and
                       val('s2n') == o['s2n'] and np.allclose(val('g_cov'), o['g_cov']) and
                       val('T_err') == o['T_err'] and
                       np.isclose(val('T_ratio'), o['T']/val('psf_T')), 'value',
                       info + 'values are not the fit')
            # flux k of the fit belongs to the k-th fit band
            order = [c[2] for c in calls if c[0] == 'obj'][-1]
            fl = np.atleast_1d(o['flux'])
            for i in use:
                w = fl[0] if coadd else fl[order.index(i)]
                out.expect(bf[i] == w, 'flux-band', info + 'flux of band %d is %s expected %s'
                           % (i, bf[i], w))
        else:
            for n in vals:
                out.expect(isnan(val(n)), 'value', info + '%s is %s' % (n, val(n)))
            out.expect(isnan(bf), 'value', info + 'failed fit has fluxes %s' % bf)
    out.outcome = sorted(set(map(str, outs)))
    return out


def run_rows(case):
    """several objects: row i belongs to object i whatever happens to the others"""
    out = Out(steps=0)

    def once(ch):
        mbl = [bundle(s, ident=k) for k, s in enumerate(case['objs'])]
        answers = {}

        def handler(kind, info):
            if kind == 'admom':
                obs = info['obs']
                psf = not obs.has_psf()
                menu = ['good', 'fail', 'fatal']
                a = menu[ch.pick(3, 'psf' if psf else 'obj')]
                answers.setdefault((obs.meta['k'], psf), []).append(a)
                if a in EXC:
                    return EXC[a]('injected')
                return am_answer(a, obs.meta['k'] + 1)
        with env.use(handler):
            d = fit_mbobs_list_joint(mbobs_list=mbl, fitter_name='am', bmask_flags=fm.EDGE_BIT,
                                     rng=np.random.RandomState(1), shear_bands=[0])
        return answers, d

    outs = []
    for ans, (answers, d) in all_choices(once, case['bound']):
        out.steps += 1 + len(ans)
        out.expect(d is not None and len(d) == len(case['objs']), 'length', 'length')
        for k, states in enumerate(case['objs']):
            need = basics(states, [0])
            pa = answers.get((k, True), [None])[-1]
            oa = answers.get((k, False), [None])[-1]
            good = not need and pa == 'good' and oa == 'good'
            out.expect((d['am_flags'][k] == 0) == good, 'row', 'object %d (%s, psf %s, obj %s) '
                       'has flags %d' % (k, states, pa, oa, d['am_flags'][k]))
            if good:
                out.expect(np.isclose(d['am_T'][k], 0.5 + k + 1), 'row-value',
                           'row %d holds another object\'s values' % k)
        outs.append(d['am_flags'].tolist())
    out.outcome = str(sorted(outs))
    return out


class Psf(ngmix.runners.PSFRunner):
    """a psf runner of the caller: shapes as g or, like adaptive moments, as e"""
    def __init__(self, shapes):
        self.shapes = shapes

    def go(self, obs):
        for ol in obs:
            for o in ol:
                key, T, a, b, flags = self.shapes[o.meta['band']]
                o.psf.meta['result'] = {'flags': flags, 'T': T, key: np.array([a, b])}


def run_own(case):
    """runners given by the caller"""
    nb = len(case['shapes'])
    use = list(range(nb)) if case['shear'] is None else case['shear']
    out = Out(outcome=str(case), steps=1)

    def handler(kind, info):
        if kind == 'fitter':
            return g_answer('good', 3, 1 if case['coadd'] else len(use))

    class Obj(object):
        n = 0

        def go(self, obs):
            self.n += 1
            return g_answer('good', 3, 1 if case['coadd'] else len(use))

    obj = Obj()
    mb = bundle(['ok']*nb)
    with env.use(handler):
        d = fit_mbobs_gauss(mbobs=mb, bmask_flags=0, rng=np.random.RandomState(3),
                            shear_bands=case['shear'], coadd=case['coadd'],
                            psf_runner=Psf(case['shapes']),
                            **({'obj_runner': obj} if case['obj'] else {}))
    if case['obj']:
        out.expect(obj.n <= 1, 'runner', 'the runner was used %d times' % obj.n)
    got = {}
    for i in use:
        key, T, a, b, flags = case['shapes'][i]
        if key == 'e':
            e = np.hypot(a, b)
            f = np.tanh(0.5*np.arctanh(e))/e if e > 0 else 0.5
            a, b = f*a, f*b
        got[i] = (T, np.array([a, b]), flags)
    bad = [i for i in use if got[i][2]]
    if case['coadd'] and len(use) > 1:
        # the psf of the coadd carries the meta data of one of the bands
        last = d['gauss_psf_T'][0]
        out.expect(any(np.isclose(last, got[i][0]) and
                       np.allclose(d['gauss_psf_g'][0], got[i][1]) for i in use) or bad,
                   'coadd-psf', 'psf %s %s' % (last, d['gauss_psf_g'][0]))
        return out
    if bad:
        out.expect(d['gauss_flags'][0] & pf.PSF_FAILURE and isnan(d['gauss_g'][0]) and
                   isnan(d['gauss_psf_g'][0]), 'psf-failed', 'flags %s' % d['gauss_flags'][0])
        return out
    w = {i: 2.0 + 3*i for i in use}
    T = sum(w[i]*got[i][0] for i in use)/sum(w.values())
    g = sum(w[i]*got[i][0]*got[i][1] for i in use)/sum(w.values())/T
    out.expect(d['gauss_flags'][0] == 0 and np.isclose(d['gauss_psf_T'][0], T) and
               np.allclose(d['gauss_psf_g'][0], g), 'psf-shape', lambda: 'psf %s %s flags %d '
               'expected %s %s' % (d['gauss_psf_T'][0], d['gauss_psf_g'][0],
                                   d['gauss_flags'][0], T, g))
    out.expect(np.isclose(d['gauss_T_ratio'][0], 3.7/T), 'ratio', 'T ratio')
    return out


def run_names(case):
    out = Out(outcome=str(case))
    try:
        r = fit_mbobs_list_joint(mbobs_list=[bundle(['ok'])] if case['n'] else [],
                                 fitter_name=case['name'], bmask_flags=0,
                                 rng=np.random.RandomState(1))
        ok = case['name'] in ('am', 'admom', 'gauss')
        out.expect(ok, 'accepted', 'fitter %r accepted' % case['name'])
        out.expect((r is None) == (case['n'] == 0), 'empty', 'empty list')
    except RuntimeError:
        out.expect(case['name'] not in ('am', 'admom', 'gauss'), 'rejected', 'rejected')
    return out


def spaces(tier):
    th = tier == 'thorough'
    st = ['ok', 'missing', 'zero', 'edge', 'edgezero', 'twice', 'other', 'holes']
    am, ga = [], []
    for s in st:
        for sh in (None, [0], [1], [0, 1]):
            for sy in (None, True, False):
                am.append(dict(states=[s], shear=sh, symm=sy, name='am', bound=None))
            for co in (False, True):
                ga.append(dict(states=[s], shear=sh, coadd=co, bound=None))
    for a, b in itertools.product(st, repeat=2):
        for sh in (None, [0], [1], [1, 0], [0, 2]):
            am.append(dict(states=[a, b], shear=sh, symm=None, name='admom',
                           bound=None if th else 2))
            for co in (False, True):
                ga.append(dict(states=[a, b], shear=sh, coadd=co, bound=4 if th else 2))
    for t in itertools.product(['ok', 'missing', 'edge'], repeat=3):
        for sh in (None, [2], [2, 0], [1, 2, 0]):
            am.append(dict(states=list(t), shear=sh, symm=False, name='am', bound=1))
            for co in (False, True):
                ga.append(dict(states=list(t), shear=sh, coadd=co, bound=3 if th else 1))
    for nb in (4, 6):
        for pos, s in itertools.product(range(nb), st):
            t = ['ok']*nb
            t[pos] = s
            for sh in (None, [nb-1, 0], list(range(nb))[::-1]):
                am.append(dict(states=t, shear=sh, symm=None, name='am', bound=1))
                for co in (False, True):
                    ga.append(dict(states=t, shear=sh, coadd=co, bound=1))
    rows = []
    for n in (1, 2, 3):
        for t in itertools.product([['ok', 'ok'], ['missing', 'ok'], ['ok', 'edge']], repeat=n):
            rows.append(dict(objs=list(t), bound=3 if th else 2))
    names = [dict(name=n, n=k) for n in ('am', 'admom', 'gauss', 'AM', '', 'wmom', 'coellip')
             for k in (0, 1)]
    own = []
    kinds = [['g', 1.0, 0.1, -0.2, 0], ['e', 2.0, 0.3, 0.1, 0], ['g', 0.5, 0.0, 0.3, 0],
             ['e', 0.7, 0.0, 0.0, 0], ['e', 1.0, 0.5, -0.4, 2**22]]
    for nb in (1, 2, 3):
        for t in itertools.product(kinds, repeat=nb):
            for sh in [None, [0], [nb-1, 0]] if nb > 1 else [None]:
                for co in (False, True):
                    own.append(dict(shapes=list(t), shear=sh, coadd=co, obj=len(own) % 3 > 0))
    return [Space('adaptive-moments', am, run_am), Space('gauss', ga, run_gauss),
            Space('rows', rows, run_rows), Space('names', names, run_names),
            Space('own-runners', own, run_own)]
