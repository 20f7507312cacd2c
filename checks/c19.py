"""C19: when a run gives a result, and which keys and rows it has."""
import itertools
import numpy as np
import ngmix
from ngmix import env
from mc.core import Space, Out
from mc import mdmodel as mm
from metadetect.metadetect import Metadetect, do_metadetect

PROPERTY = 'C19'
LEVEL = 'fault_enumeration'
RULE = ('every assignment of band states (weights, masks, masked fractions) to one or two bands, '
        'x every outcome of psf fits, metacalibration and detection per sheared image; '
        'non-trivial: some band or outcome deviates from the good one')
ASSUMPTIONS = ['one epoch per band', 'psf fits answer with flags and do not raise',
               'detection and metacalibration are environment answers']
DIMS = (14, 16)
CFG = {'model': 'wmom', 'weight': {'fwhm': 1.2}, 'meds': mm.MEDS, 'metacal': {'psf': 'gauss'},
       'nodet_flags': 512}


def cfg_of(case):
    cfg = mm.deep(CFG)
    cfg['nodet_flags'] = case.get('nodet', 512)
    if case.get('types') is not None:
        cfg['metacal']['types'] = list(case['types'])
    return cfg


def run(case):
    cfg = cfg_of(case)
    cfg0 = mm.deep(cfg)
    mb = mm.make_mbobs(DIMS, case['bands'])
    before = mm.snap(mb)
    nb = len(case['bands'])
    types = case.get('types') or mm.MINIMAL
    ndet = dict(zip(types, case['ndet']))

    def plan(t, det):
        return list(range(ndet[t]))
    e = mm.Env(mb, cfg, plan, psf_bad=case.get('psf_bad', ()), mcal=case.get('mcal'))
    combos = [(list(range(nb)), list(range(nb)))]
    if e.odict is not None:
        e.expect_dets([d for _, d in combos])
    out = Out(trivial=False)
    with env.use(e):
        if case.get('cls'):
            md = Metadetect(cfg, mb, np.random.RandomState(3))
            try:
                md.result
                out.bad('result-before', 'a result before running')
            except RuntimeError:
                pass
            md.go()
            got = md.result
        else:
            got = do_metadetect(cfg, mb, np.random.RandomState(3))
    exp = mm.expected(mb, cfg, combos, e)
    mm.compare(out, got, exp, types)
    out.expect(e.unknown == 0, 'detection-input', 'detection on an unexpected image')
    if exp is None:
        out.expect(not e.dets, 'work', 'detection was run although nothing can be measured')
    out.expect(cfg == cfg0, 'config-modified', 'configuration modified')
    out.expect(mm.same_snap(before, mm.snap(mb)), 'input-modified', 'observations modified')
    out.outcome = None if got is None else [(t, None if got[t] is None else len(got[t]))
                                            for t in types]
    return out


def spaces(tier):
    th = tier == 'thorough'
    st = ['ok', 'zero', 'holes', 'one']
    mf = ['none', 'zero', 'one', 'some', 'allbut1']
    nd = ['none', 'some', 'all', 'allother', 'allbut1']
    menu = [dict(state=s, mf=m, nodet=n) for s in st for m in mf for n in nd]
    good = [1, 1, 1, 1, 1]
    one = [dict(bands=[b], ndet=good, nodet=f, cls=c) for b in menu for f in (512, 0)
           for c in (0, 1)]
    m2 = [b for b in menu if sum((b['state'] != 'ok', b['mf'] != 'some', b['nodet'] != 'none'))
          <= (3 if th else 1)]
    two = [dict(bands=[a, b], ndet=good) for a, b in itertools.product(m2, repeat=2)]
    out = []
    ok = dict(state='ok', mf='some', nodet='none')
    tys = [None, ['noshear'], ['noshear', '1p', '1m'], ['1p', 'noshear', '2m', '1p_psf']]
    for ty in tys:
        n = len(ty or mm.MINIMAL)
        for nd_ in itertools.product((0, 1, 3), repeat=n):
            out.append(dict(bands=[ok], ndet=list(nd_), types=ty))
    env_ = []
    for bad in ((), (0,), (1,), (0, 1), (2,)):
        for mc in (None, 'fail'):
            for nd_ in itertools.product((0, 2), repeat=5):
                env_.append(dict(bands=[ok, ok, ok] if th else [ok, ok], ndet=list(nd_),
                                 psf_bad=list(bad), mcal=mc))
    for nb in (4, 5, 6):
        for pos in range(nb):
            for b in menu:
                t = [ok]*nb
                t[pos] = b
                two.append(dict(bands=t, ndet=good))
            for mc in (None, 'fail'):
                env_.append(dict(bands=[ok]*nb, ndet=good, psf_bad=[pos], mcal=mc))
    return [Space('one-band', one, run), Space('more-bands', two, run),
            Space('detections', out, run), Space('environment', env_, run)]
