"""C40: a run which is stopped at any point leaves no trace."""
import contextlib
import random
import numpy as np
import ngmix
from mc.core import Space, Out
from mc import crash
from mc import lsstmodel as lm
from mc import mdmodel as mm
from mc import obsmodel as om
from metadetect.lsst import util
from metadetect.lsst.mbobs_extractor import MBObsExtractor
import lsst.afw.image as afw_image
from . import c23, c39

PROPERTY = 'C40'
LEVEL = 'fault_enumeration'
RULE = ('every run of the menu, stopped by an interrupt (thorough: also by an ordinary error) '
        'before a line of the package which it executes: the first execution of each line in at '
        'least one run (thorough: first, second and last in every run), then made again; '
        'non-trivial: the run was really stopped')
ASSUMPTIONS = ['a run is stopped between lines of Python code of the package or in a call made '
               'there, not within compiled code; the stand-ins for the libraries keep no state '
               'between calls',
               'data need not be as before while pixels are being replaced or restored, nor after '
               'masking and sky subtraction, which change them by design']


def extract(v):
    mb = c23.make(2)
    for e in mb.singles:
        e.image.array[:, :] += 1000*v
    return mb, lm.catalog(c23.cat(('overlap', 'blend')[v]))


class Inside(object):
    """true while the data are neither as given nor being replaced or restored"""
    now = False


def b_replace(d, v):
    mb, sources = d
    seen = []
    with util.MultibandNoiseReplacer(mb, sources, np.random.RandomState(8 + v)) as r:
        Inside.now = True
        seen += [e.image.array.copy() for e in mb.singles]
        for s in sources:
            with r.sourceInserted(s.getId()):
                seen += [e.image.array.copy() for e in mb.singles]
        Inside.now = False
    return seen, mb


def b_extract(d, v):
    mb, sources = d
    ex = MBObsExtractor(mb, sources)
    res = []
    for s in ex.children():
        with ex.add_source(s.getId()):
            obs = ex.get_mbobs(source_id=s.getId(), stamp_size=7, clip=True)
        res += [[o[0].image, o[0].weight] for o in obs]
    return res, mb


TARGETS = dict(c39.TARGETS)
TARGETS.update({
    'replace': (c39.d_replace, b_replace),
    'extract': (extract, b_extract),
    'phot-plain': c39.lsst('phot', plans=['blend'], nb=2, stamp_size=11),
    'mdet-plain': c39.lsst('mdet', plans=['two'], deblender='scarlet', nb=1, types=['2m'],
                           reconv='gauss'),
})
#: change their data by design
CHANGE = ('masking', 'masking-same', 'bright', 'sky', 'mdet-scarlet', 'phot', 'replace')


def snap(x, seen=()):
    """everything in the data given to a run"""
    if isinstance(x, ngmix.MultiBandObsList):
        # what is kept with the data (results of the psf fits) is not looked at
        return snap([{k: v for k, v in om.snap(o).items() if k != 'meta'} for ol in x for o in ol])
    if isinstance(x, dict):
        return ['{'] + [b for k in sorted(x, key=str) for b in [str(k)] + snap(x[k])]
    if isinstance(x, (list, tuple)):
        return ['['] + [b for v in x for b in ['.'] + snap(v)]
    if hasattr(x, 'singles'):
        return snap(list(x.singles))
    if hasattr(x, 'maskedImage'):
        s = lm.snap(x)
        # detection marks its pixels
        s['mask'] = s['mask'] & ~afw_image.Mask.getPlaneBitMask('DETECTED')
        return snap(s)
    if isinstance(x, np.ndarray):
        return [str(x.shape) + x.dtype.str, x.tobytes()]
    if x is None or isinstance(x, (bool, int, float, str, bytes, np.generic)):
        return [repr(x)]
    if hasattr(x, '__iter__') and hasattr(x, 'schema'):
        return snap([s.getId() for s in x])
    return []


@contextlib.contextmanager
def setting():
    # floating point settings that a run could change
    with c39.setting(), np.errstate(divide='warn', over='warn', under='ignore', invalid='warn'):
        yield


def globals_state():
    st = np.random.get_state()
    return (st[1].tobytes(), st[2:], random.getstate(), tuple(sorted(np.geterr().items())))


_alone = {}


def alone(name):
    if name not in _alone:
        data, body = TARGETS[name]
        with setting():
            body(data(0), 0)
            d = data(0)
            t = c39.threads.trace_of(lambda: body(d, 0))
            if t.error[0] is not None:
                raise t.error[0]
            _alone[name] = c39.value(t.result[0]), t.trace
    return _alone[name]


def run(case):
    name = case['run']
    want = alone(name)[0]
    data, body = TARGETS[name]
    out = Out(steps=2)
    with setting():
        d = data(0)
        before, glob = snap(d), globals_state()
        Inside.now = False
        where, how = crash.stopped(lambda: body(d, 0), case['at'],
                                   crash.Failure if case.get('soft') else crash.Stop)
        out.trivial = where is None
        out.outcome = (name, how)
        out.expect(where is not None, 'harness', 'the run has no line %d' % case['at'])
        at = 'stopped at %s:%s' % (where or ('?', 0))
        if not case.get('soft'):
            out.expect(how == 'stopped', 'swallowed', lambda: 'the interrupt was swallowed, '
                       'the run %s, %s' % (how, at))
        out.expect(globals_state() == glob, 'globals',
                   lambda: 'the state of the process is another one, %s' % at)
        intact = name not in CHANGE or Inside.now
        if intact:
            out.expect(snap(d) == before, 'data', lambda: 'the data are changed, %s' % at)
        if not intact or how == 'went on':
            d = data(0)
        try:
            res = c39.value(body(d, 0))
        except Exception as e:
            out.bad('later', 'the next run raises %r, %s' % (e, at))
            return out
        out.expect(res == want, 'later', lambda: 'the next run gives another result, %s' % at)
    return out


def spaces(tier):
    th = tier == 'thorough'
    hard, soft = [], []
    skip = None if th else set()
    for a in sorted(TARGETS, key=lambda t: (t in CHANGE and t != 'replace', len(alone(t)[1]))):
        tr = alone(a)[1]
        for i in (range(1, len(tr) + 1) if len(tr) < 1500 and th
                  else c39.positions(tr, th, skip)):
            hard.append({'run': a, 'at': i})
            if th:
                soft.append({'run': a, 'at': i, 'soft': 1})
        if a in ('replace', 'extract', 'sky', 'bright', 'interp', 'small') and not th:
            soft += [{'run': a, 'at': i, 'soft': 1} for i in c39.positions(tr)]
    # the runs which change their data by design have lines of their own
    return [Space('interrupted', hard, run), Space('failed', soft, run)]
