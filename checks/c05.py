"""C05: edge apodization of an observation bundle."""
import itertools
import numpy as np
from mc.core import Space, Out
from mc import obsmodel as om
from metadetect.masking import apply_apodization_corrections

PROPERTY = 'C05'
LEVEL = 'exploration'
RULE = ('every image shape x kernel scale x number of bands x presence of the masked '
        'fraction x weight state of each band, applied once and twice; non-trivial: the '
        'frame attenuates something')
ASSUMPTIONS = ['values are compared to 1e-9 relative']


def weight_of(kind, dims, band):
    w = np.full(dims, 4.0 + band)
    if kind == 'zero':
        w[:, :] = 0.0
    elif kind == 'center':          # only the centre has weight
        v = w[dims[0]//2, dims[1]//2]
        w[:, :] = 0.0
        w[dims[0]//2, dims[1]//2] = v
    elif kind == 'border':          # only the border has weight
        w[1:-1, 1:-1] = 0.0
    elif kind == 'varied':
        r, c = np.mgrid[:dims[0], :dims[1]]
        w += 0.1*r + 0.2*c
        w[::2, ::3] = 0.0
    elif kind == 'faint':           # weights far below 1
        r, c = np.mgrid[:dims[0], :dims[1]]
        w = 0.04 + 0.001*r + 0.002*c
    return w


def compare(out, tag, before, obs, ap, msk, bit):
    after = om.snap(obs)
    for f in ('image', 'noise'):
        want = before[f]*ap
        out.expect(np.allclose(after[f], want, rtol=1e-9, atol=1e-12), tag + f,
                   lambda: '%s is\n%s\nexpected\n%s' % (f, after[f], want))
        out.expect(np.array_equal(after[f][~msk], before[f][~msk]), tag + f + '-outside',
                   '%s changed outside the attenuated region' % f)
    want = np.where(msk, 0.0, before['weight'])
    out.expect(np.array_equal(after['weight'], want), tag + 'weight',
               lambda: 'weight is\n%s\nexpected\n%s' % (after['weight'], want))
    want = np.where(msk, before['bmask'] | bit, before['bmask'])
    out.expect(np.array_equal(after['bmask'], want), tag + 'bmask',
               lambda: 'bmask is\n%s\nexpected\n%s' % (after['bmask'], want))
    out.expect(('mfrac' in before) == ('mfrac' in after), tag + 'mfrac-presence',
               'mfrac appeared or vanished')
    if 'mfrac' in before and 'mfrac' in after:
        want = np.where(msk, 1.0, before['mfrac'])
        out.expect(np.array_equal(after['mfrac'], want), tag + 'mfrac',
                   lambda: 'mfrac is\n%s\nexpected\n%s' % (after['mfrac'], want))
    out.expect(np.array_equal(after['ormask'], before['ormask']), tag + 'ormask',
               'ormask changed')
    out.expect(after['jac'] == before['jac'] and after['meta'] == before['meta'] and
               np.array_equal(after['psf'], before['psf']), tag + 'other',
               'jacobian, psf or meta changed')
    out.expect(np.any(after['weight'] > 0) or not obs.ignore_zero_weight,
               tag + 'ignore_zero_weight', 'an all zero weight observation must keep its pixels')
    out.expect(not np.any(after['weight'] > 0) or after['izw'] == before['izw'],
               tag + 'ignore_zero_weight-changed', 'whether pixels without weight are ignored changed')


def run(case):
    dims = tuple(case['dims'])
    obs = [om.make_obs(dims, b, mfrac=case['mfrac'], weight=weight_of(k, dims, b))
           for b, k in enumerate(case['weights'])]
    mb = om.make_mbobs(obs, case.get('per_band', 1))
    ap = om.edge_apodization(dims, case['ap'])
    msk = ap < 1
    out = Out(outcome=(int(msk.sum()), tuple(case['weights'])), trivial=not msk.any(),
              steps=case['times'])
    for t in range(case['times']):
        befores = [om.snap(o) for o in obs]
        apply_apodization_corrections(mbobs=mb, ap_rad=case['ap'], mask_bit_val=case['bit'])
        for i, (b, o) in enumerate(zip(befores, [o for ol in mb for o in ol])):
            compare(out, 'band%d-' % i, b, o, ap, msk, case['bit'])
    return out


def warmup():
    run({'dims': [6, 7], 'ap': 0.5, 'mfrac': 1, 'weights': ['full'], 'times': 1, 'bit': 8})


def spaces(tier):
    thorough = tier == 'thorough'
    kinds = ['full', 'zero', 'center', 'border', 'varied']
    cases = []
    dimss = [(3, 3), (4, 6), (7, 5), (9, 9), (12, 8), (13, 20)]
    aps = [0.1, 0.2, 0.25, 0.5, 0.75, 1.0, 1.4, 1.5, 3.0]
    for d, ap, mf in itertools.product(dimss, aps, (0, 1)):
        for k in kinds:
            cases.append({'dims': list(d), 'ap': ap, 'mfrac': mf, 'weights': [k],
                          'times': 2, 'bit': 2**5})
        for k1, k2 in itertools.product(kinds, kinds):
            cases.append({'dims': list(d), 'ap': ap, 'mfrac': mf, 'weights': [k1, k2],
                          'times': 1, 'bit': 2**30})
    multi = []
    for d, ap, ks in itertools.product(dimss[1:4], aps[::2], itertools.product(kinds, repeat=2)):
        # several observations per band
        for ws, n in ((ks + ('full', 'full'), 2), (ks + ('varied',), 3)):
            multi.append({'dims': list(d), 'ap': ap, 'mfrac': 1, 'weights': list(ws), 'times': 1,
                          'bit': 2, 'per_band': n})
    large = [{'dims': list(d), 'ap': ap, 'mfrac': mf, 'weights': list(w), 'times': 2, 'bit': 2**20}
             for d in ((40, 40), (33, 70), (64, 20)) for ap in (0.5, 1.5, 4.0) for mf in (0, 1)
             for w in (('varied',), ('full', 'varied', 'full', 'zero', 'center', 'faint'))]
    sp = [Space('bands', cases, run), Space('several-observations', multi, run),
          Space('large', large, run)]
    if thorough:
        big = []
        for d in itertools.product(range(1, 24, 2), range(1, 24, 3)):
            for ap in [0.05*k for k in range(1, 61, 3)]:
                big.append({'dims': list(d), 'ap': ap, 'mfrac': 1,
                            'weights': ['full', 'varied'], 'times': 1, 'bit': 1})
        sp.append(Space('shapes', big, run))
    return sp
