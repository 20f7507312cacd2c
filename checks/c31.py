"""C31: iterated sky subtraction of multi-band exposures."""
import copy
import itertools
import numpy as np
from mc.core import Space, Out
from mc import lsstmodel as lm
from ngmix import env
import lsst.afw.image as afw_image
from lsst.pex.exceptions import RuntimeError as LsstRuntimeError
from lsst.pipe.base import TaskError
from metadetect.lsst import skysub

PROPERTY = 'C31'
LEVEL = 'fault_enumeration'
RULE = ('every sequence of answers (value, known failure) of background measurement and detection '
        'over bands and iterations up to the bound, per entry point, threshold and number of '
        'iterations; all planes and the recorded sky are compared with the model')
ASSUMPTIONS = ['background measurement and detection of the stack are stand-ins; the recorded sky '
               'of a band is only claimed when all of its iterations worked']
DIMS, XY0 = (9, 12), (-4, 30)
PIX = [[(3, 4), (4, 4), (4, 5)], [(8, 2), (7, 2)], [(0, 0), (1, 8)]]
MUST_IGNORE = {'BAD', 'EDGE', 'DETECTED', 'DETECTED_NEGATIVE', 'NO_DATA', 'BRIGHT'}


def make(nb, kind='F'):
    es = []
    for b in range(nb):
        e = lm.exposure(DIMS, lm.BANDS[b], XY0, kind=kind)
        e.mask.array[:, :] = 0
        e.mask.array[2, 3] = 1024 << b    # not a plane the code knows
        es.append(e)
    return lm.mbexp_of(es)


def run(case):
    afw_image._reset_planes()
    afw_image.Mask.addMaskPlane('BRIGHT')
    det = afw_image.Mask.getPlaneBitMask('DETECTED')
    nb, niter = case['nb'], case['niter']
    mb = make(nb, case.get('kind', 'F'))
    exps = mb.singles
    before = lm.snaps(mb)
    answers = case['answers']
    log = []
    # the model: per band, alternately background and detection until a failure
    want, wsum, wlast, wdet = [], [], [], []
    k = 0
    for b in range(nb):
        sky, last, dets, ok = [], None, None, True
        for it in range(niter):
            want.append(('back', b, dets))
            a = answers[k % len(answers)]
            k += 1
            if isinstance(a, str):
                ok = False
                break
            sky.append(a)
            want.append(('detect', b, None))
            a = answers[k % len(answers)]
            k += 1
            if isinstance(a, str):
                ok = False
                break
            dets = len(sky) % 3 if a >= 0 else 'empty'    # a negative answer: nothing detected
        wsum.append(sky)
        wlast.append(ok)
        wdet.append(dets)

    def handler(kind, info):
        if kind not in ('lsst.background', 'lsst.detect'):
            return None
        e = info['exposure']
        # bands are recognized by the bit of the mask
        b = (int(e.mask.array[2, 3]) >> 10).bit_length() - 1 if nb > 1 else 0
        cur = set(map(tuple, np.argwhere(e.mask.array & det)))
        log.append(('back' if kind == 'lsst.background' else 'detect', b, cur, info['config'],
                    e.image.array.copy()))
        a = answers[(len(log) - 1) % len(answers)]
        if a == 'rt':
            return LsstRuntimeError('lsst::pex::exceptions::RuntimeError: no')
        if a == 'task':
            return TaskError('lsst.pipe.base.task.TaskError: no')
        if kind == 'lsst.background':
            return a
        if a < 0:
            return []
        n = sum(1 for x in log if x[0] == 'back' and x[1] == b) % 3
        return [{'peaks': [(p[0] + XY0[0], p[1] + XY0[1]) for p in PIX[n][:1]],
                 'pix': [(p[0] + XY0[0], p[1] + XY0[1]) for p in PIX[n]]}]

    config = copy.deepcopy(case.get('config'))
    kw = {} if config is None else {'config': config}
    with env.use(handler):
        if case['how'] == 'mb':
            if case['thresh'] is not None:
                kw['thresh'] = case['thresh']
            skysub.subtract_sky_mbexp(mb, **kw)
            res = None
        else:
            if case['niter'] != 2 or case.get('explicit'):
                kw['niter'] = case['niter']
            res = skysub.iterate_detection_and_skysub(exps[0], case['thresh'], **kw)
    out = Out(outcome=(tuple(map(len, wsum)), tuple(wlast)), steps=len(log))
    out.expect(config == case.get('config'), 'config', lambda: 'config changed to %s' % (config,))
    out.expect([x[:2] for x in log] == [x[:2] for x in want], 'calls', lambda: 'calls %s, '
               'expected %s' % ([x[:2] for x in log], [x[:2] for x in want]))
    if len(log) != len(want):
        return out
    thr = 5.0 if case['thresh'] is None else case['thresh']
    for got, w in zip(log, want):
        if got[0] == 'detect':
            out.expect(got[3].thresholdValue == thr and not got[3].reEstimateBackground,
                       'threshold', 'threshold %s' % got[3].thresholdValue)
        else:
            ign = set(got[3].ignoredPixelMask)
            out.expect(MUST_IGNORE <= ign, 'ignored', 'background ignores only %s' % sorted(ign))
            wpix = set() if w[2] in (None, 'empty') else {(p[1], p[0]) for p in PIX[w[2]]}
            out.expect(got[2] == wpix, 'detected', 'detected pixels %s expected %s when the '
                       'background is measured' % (got[2], wpix))
    for b in range(nb):
        s = lm.snap(exps[b])
        im = before[b]['image'].copy()
        for v in wsum[b]:
            im -= v
        out.expect(np.array_equal(s['image'], im), 'image', 'image of band %d is not the '
                   'original minus the sky' % b)
        out.expect(np.array_equal(s['mask'] & ~det, before[b]['mask']), 'mask', 'mask changed')
        bad = lm.same(before[b], s, skip=('image', 'mask'))
        out.expect(not bad, 'other', '%s changed' % bad)
        if wlast[b]:
            m = exps[b].getMetadata()
            out.expect(np.isclose(m['BGMEAN'], sum(wsum[b]), rtol=1e-12, atol=1e-12), 'recorded',
                       lambda: 'recorded sky %s expected %s' % (m['BGMEAN'], sum(wsum[b])))
    if case['how'] == 'single':
        out.expect((res is not None) == wlast[0], 'result', 'result %s' % (res,))
        if res is not None and wdet[0] == 'empty':
            out.expect(len(res.sources) == 0, 'result', 'not the result of the last detection')
        elif res is not None:
            out.expect(len(res.sources) == 1 and {
                (p.getIx() - XY0[0], p.getIy() - XY0[1])
                for p in res.sources[0].getFootprint().getPeaks()} == {PIX[wdet[0]][0]},
                'result', 'not the result of the last detection')
    return out


def run_niter(case):
    out = Out(outcome=case['niter'])
    mb = make(1)
    before = lm.snaps(mb)
    try:
        if case['how'] == 'single':
            skysub.iterate_detection_and_skysub(mb.singles[0], 5.0, niter=case['niter'])
        else:
            skysub.subtract_sky_mbexp(mb, config={
                'iterate_detection_and_skysub': {'niter': case['niter']}})
    except ValueError:
        out.expect(not lm.same(before[0], lm.snap(mb.singles[0])), 'input', 'data changed')
        return out
    out.bad('accepted', '%s iterations accepted' % case['niter'])
    return out


def run_once(case):
    """a single subtraction"""
    out = Out(outcome=case['sky'])
    afw_image._reset_planes()
    mb = make(1, case['kind'])
    e = mb.singles[0]
    before = lm.snap(e)
    seen = []

    def handler(kind, info):
        seen.append((kind, set(info['config'].ignoredPixelMask)))
        return case['sky']
    with env.use(handler):
        got = skysub.determine_and_subtract_sky(e)
    out.expect(len(seen) == 1 and seen[0][0] == 'lsst.background' and MUST_IGNORE <= seen[0][1],
               'ignored', 'asked %s' % (seen,))
    out.expect(got is not None, 'result', 'no background')
    s = lm.snap(e)
    out.expect(np.array_equal(s['image'], before['image'] - before['image'].dtype.type(
        case['sky'])), 'image', 'sky not subtracted')
    bad = lm.same(before, s, skip=('image',))
    out.expect(not bad, 'other', '%s changed' % bad)
    return out


def warmup():
    run({'nb': 1, 'niter': 2, 'how': 'single', 'thresh': 5.0, 'answers': [0.5, 0.0]})


def spaces(tier):
    th = tier == 'thorough'
    cases = []
    menu = (0.5, -0.25, 'rt', 'task')
    # sequences of answers
    for niter in (1, 2, 3) if th else (1, 2):
        for ans in itertools.product(menu, repeat=2*niter):
            for cf in (None, {}, {'detect': {'thresholdValue': 50.0}}, {'detect': {'minPixels': 2}}):
                for kind in 'FD':
                    cases.append({'nb': 1, 'niter': niter, 'how': 'single', 'thresh': 7.5,
                                  'answers': ans, 'config': cf, 'kind': kind})
    for nb in (1, 2, 3):
        for ans in itertools.product((0.5, -0.25, 'rt') if nb > 1 and not th else menu, repeat=5 if
                                     nb > 1 else 4):
            for thr in (None, 3.5):
                for cf in (None, {}, {'iterate_detection_and_skysub': {'detect': {
                        'minPixels': 2}}}):
                    cases.append({'nb': nb, 'niter': 2, 'how': 'mb', 'thresh': thr,
                                  'answers': ans, 'config': cf})
    for nb in (4, 6):
        for ans in ([0.5, -0.25, 0.125], [0.5, 0.25, 1.0, 'rt', 2.0], ['task'], [0.5]*9 + ['rt']):
            for cf in (None, {'iterate_detection_and_skysub': {'detect': {'minPixels': 2}}}):
                cases.append({'nb': nb, 'niter': 2, 'how': 'mb', 'thresh': 3.5, 'answers': ans,
                              'config': cf})
    for n in (1, 3, 4):
        for nb in (1, 2):
            for ans in ([0.5, -0.25, 0.125], [0.5, 0.25, 1.0, 'rt', 2.0]):
                cases.append({'nb': nb, 'niter': n, 'how': 'mb', 'thresh': 4.0, 'answers': ans,
                              'config': {'iterate_detection_and_skysub': {'niter': n}}})
    for n in (1, 2, 3, 5):
        cases.append({'nb': 1, 'niter': n, 'how': 'single', 'thresh': 4.0, 'explicit': 1,
                      'answers': [0.5, -0.25, 0.125]})
    for n in (1, 2, 3):
        # what is asked for in the call wins over the configuration
        cases.append({'nb': 1, 'niter': n, 'how': 'single', 'thresh': 4.0, 'explicit': 1,
                      'answers': [0.5, -0.25, 0.125], 'config': {'niter': 4}})
    bad = [{'niter': n, 'how': h} for n in (0, -1) for h in ('single', 'mb')]
    once = [{'sky': s, 'kind': k} for s in (0.5, -2.0, 0.0) for k in 'FD']
    return [Space('answers', cases, run), Space('iterations', bad, run_niter),
            Space('once', once, run_once)]
