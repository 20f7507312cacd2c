"""C08: resolving a measurement configuration against the defaults."""
import copy
import itertools
from mc.core import Space, Out
from metadetect.lsst import defaults as D
from metadetect.lsst.configs import get_config

PROPERTY = 'C08'
LEVEL = 'model_checking'
RULE = ('every combination of absent / empty / valid / invalid settings of all keys, and every '
        'history up to the depth bound of resolving configurations and modifying what was '
        'returned or passed in; non-trivial: at least one setting given')
ASSUMPTIONS = ['scalar and list settings; the metacal section is verified elsewhere (ngmix) and '
               'accepts any key here']

SUB = ('detect', 'metacal', 'pgauss')
NAMES = [n for n in dir(D) if n.startswith('DEFAULT_')]
PRISTINE = {n: copy.deepcopy(getattr(D, n)) for n in NAMES}
BASE = PRISTINE['DEFAULT_MDET_CONFIG']

MENU = [
    ('subtract_sky', [None, [True]]),
    ('deblender', [None, ['scarlet']]),
    ('detect', [None, [{}], [{'thresh': 3.5}], [{'bad': 1}], [{'thresh': 3.5, 'x': 2}],
                [{'fwhm': 1}]]),
    ('metacal', [None, [{}], [{'types': ['noshear', '1p']}],
                 [{'reconv_type': 'gauss', 'anything': {'a': 1}}]]),
    ('pgauss', [None, [{}], [{'fwhm': 1.25}], [{'bad': 1}], [{'fwhm': 1.25, 'thresh': 2}]]),
    ('stamp_size', [None, [33], [None]]),
    ('shear_bands', [None, [['r', 'z']], [None]]),
    ('', [None, ['foo'], ['Detect'], ['measurement_type']]),
]


def build(idx, rev=False):
    cfg = {}
    items = [(k, vals[i]) for (k, vals), i in zip(MENU, idx) if vals[i] is not None]
    if rev:
        items = items[::-1]
    for k, v in items:
        if k == '':
            cfg[v[0]] = 1
        else:
            cfg[k] = copy.deepcopy(v[0])
    return cfg


def expected(cfg):
    """None if it must be rejected"""
    exp = copy.deepcopy(BASE)
    for k, v in (cfg or {}).items():
        if k not in BASE:
            return None
        if k in SUB:
            for kk, vv in v.items():
                exp[k][kk] = copy.deepcopy(vv)
        else:
            exp[k] = copy.deepcopy(v)
    if set(exp['detect']) != {'thresh'} or set(exp['pgauss']) != {'fwhm'}:
        return None
    return exp


def pristine(out, tag):
    for n in NAMES:
        out.expect(getattr(D, n) == PRISTINE[n], tag + 'defaults-modified',
                   lambda: '%s became %s' % (n, getattr(D, n)))


def restore():
    for n in NAMES:
        v = getattr(D, n)
        if isinstance(v, dict):
            v.clear()
            v.update(copy.deepcopy(PRISTINE[n]))


def one(out, cfg, tag=''):
    keep = copy.deepcopy(cfg)
    exp = expected(cfg)
    res = None
    try:
        res = get_config(cfg)
        out.expect(exp is not None, tag + 'accepted', lambda: 'accepted %s' % (keep,))
    except ValueError as err:
        out.expect(exp is None, tag + 'rejected', lambda: 'rejected %s: %s' % (keep, err))
    out.expect(cfg == keep, tag + 'input-modified', lambda: 'input became %s' % (cfg,))
    pristine(out, tag)
    if res is not None and exp is not None:
        out.expect(res == exp, tag + 'merge', lambda: 'got %s expected %s' % (res, exp))
        for k in SUB:
            out.expect(cfg is None or res[k] is not cfg.get(k), tag + 'aliased',
                       'section %s of the result is the caller\'s own dict' % k)
    return res


def run_one(case):
    restore()
    cfg = None if case is None else build(case['idx'], case['rev'])
    out = Out(trivial=not cfg)
    res = one(out, cfg)
    out.outcome = repr(res)
    out.states = [repr(res)]
    restore()
    return out


HCFG = [None, {}, {'detect': {'thresh': 7}}, {'pgauss': {'fwhm': 9.0}, 'stamp_size': 11},
        {'metacal': {'types': ['noshear']}}, {'detect': {'nope': 1}},
        {'shear_bands': ['g'], 'bogus': 2}]
# what a caller may do to what it got back / passed in
MUTS = ['top', 'nested', 'clear', 'input']


def run_hist(case):
    restore()
    out = Out(steps=len(case['ops']), trivial=len(case['ops']) < 2)
    last = None
    lastcfg = None
    for i, op in enumerate(case['ops']):
        if op[0] == 'get':
            lastcfg = copy.deepcopy(HCFG[op[1]])
            last = one(out, lastcfg, 'after-%s-' % (case['ops'][i-1][0] if i else 'start'))
        elif op[0] == 'mut':
            if op[1] == 'input' and lastcfg:
                for v in lastcfg.values():
                    if isinstance(v, dict):
                        v['fwhm'] = v['thresh'] = -4
                lastcfg['stamp_size'] = -1
            elif last is not None:
                if op[1] == 'top':
                    last['stamp_size'] = -1
                    last['extra'] = 1
                elif op[1] == 'nested':
                    for k in SUB:
                        if k not in last:
                            continue
                        last[k]['fwhm'] = last[k]['thresh'] = -2
                elif op[1] == 'clear':
                    for k in SUB:
                        last.get(k, {}).clear()
                    last.clear()
            pristine(out, 'mut-%s-' % op[1])
        out.states.append(repr((last, lastcfg)))
    out.outcome = tuple(out.states)
    restore()
    return out


def spaces(tier):
    cases = [None]
    n = [len(v) for _, v in MENU]
    for idx in itertools.product(*[range(k) for k in n]):
        cases.append({'idx': list(idx), 'rev': False})
        if tier == 'thorough' or idx[2] > 2 or idx[4] > 2 or idx[7]:
            cases.append({'idx': list(idx), 'rev': True})
    ops = [['get', i] for i in range(len(HCFG))] + [['mut', m] for m in MUTS]
    depth = 5 if tier == 'thorough' else 4
    hist = []
    for d in range(1, depth+1):
        for seq in itertools.product(ops, repeat=d):
            # a modification before anything was returned, or twice the same, adds nothing
            if seq[0][0] == 'mut' or seq[-1][0] == 'mut':
                continue
            hist.append({'ops': list(seq)})
    return [Space('combinations', cases, run_one), Space('histories', hist, run_hist)]
