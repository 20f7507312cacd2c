"""C22: flags decode to exactly the failures they hold; column names."""
import itertools
import numpy as np
from mc.core import Space, Out
import ngmix.flags
from metadetect import procflags as pf
from metadetect.util import Namer

PROPERTY = 'C22'
LEVEL = 'exploration'
RULE = ('every combination of all processing flags, with and without the flags of the fitting '
        'library, and every front/back pair of the menu; non-trivial: at least one bit')
ASSUMPTIONS = ['the fitting library\'s flags come from the stand-in (bits 0..18)']

OWN = ['SHEAR_RANGE_ERROR', 'EDGE_HIT', 'PSF_FAILURE', 'OBJ_FAILURE', 'NOMOMENTS_FAILURE',
       'BAD_BBOX', 'ZERO_WEIGHTS', 'NO_DATA', 'MISSING_BAND', 'INCONSISTENT_BANDS',
       'CENTROID_FAILURE', 'DEBLEND_FAILURE']
LIB = {k: v for k, v in vars(ngmix.flags).items() if isinstance(v, int) and k.isupper()
       and not isinstance(v, bool)}


def run(case):
    out = Out(outcome=case['m'] & 63, trivial=case['m'] == 0 and not case['lib'])
    vals = [getattr(pf, n) for i, n in enumerate(OWN) if (case['m'] >> i) & 1]
    vals += [LIB[n] for n in case['lib']]
    v = 0
    for x in vals:
        v |= int(x)
    for dt in (int, np.int32, np.int64):
        s = pf.get_procflags_str(dt(v))
        parts = [p for p in s.split('|') if p]
        names = sorted(pf.NAME_MAP[x] for x in {int(x) for x in vals if x})
        # names may themselves hold the separator: compare as a multiset of characters
        out.expect(s == '|'.join(names) or sorted(s) == sorted('|'.join(names)), 'text',
                   '%d decodes to %r, expected the names %s' % (v, s, names))
        out.expect(all(n in s for n in names), 'name', 'name missing in %r' % s)
        out.expect(len(parts) >= len(names) or not names, 'parts', 'parts')
    for i, n in enumerate(OWN):
        name = pf.NAME_MAP[getattr(pf, n)]
        out.expect((name in pf.get_procflags_str(v)) == bool((case['m'] >> i) & 1), 'decode',
                   '%s in the text of %d' % (name, v))
    return out


def run_static(case):
    out = Out(outcome=case['a'])
    a = getattr(pf, case['a'])
    out.expect(a > 0 and a & (a-1) == 0, 'bit', '%s is not a single bit' % case['a'])
    out.expect(2**19 <= a < 2**31, 'range', '%s is outside of the range of own flags' % case['a'])
    out.expect(np.int32(a) == a, 'int32', 'does not fit the columns')
    out.expect(isinstance(pf.NAME_MAP[a], str) and pf.NAME_MAP[pf.NAME_MAP[a]] == a, 'map',
               'name and value of %s do not map to each other' % case['a'])
    for n in OWN:
        if n != case['a']:
            out.expect(getattr(pf, n) != a and pf.NAME_MAP[getattr(pf, n)] != pf.NAME_MAP[a],
                       'distinct', '%s and %s share bit or name' % (n, case['a']))
    for n, v in LIB.items():
        out.expect(not v & a, 'clash', '%s clashes with %s of the library' % (case['a'], n))
        if v:
            out.expect(pf.NAME_MAP[v] == ngmix.flags.NAME_MAP[v], 'libmap', 'name of %s' % n)
    out.expect(pf.NO_ATTEMPT == ngmix.flags.NO_ATTEMPT, 'no-attempt', 'NO_ATTEMPT')
    out.expect(a not in ngmix.flags.NAME_MAP, 'lib-modified', 'library map modified')
    return out


def run_names(case):
    f, b, n = case['front'], case['back'], case['name']
    exp = n
    if f:
        exp = f + '_' + exp
    if b and b != 'noshear':
        exp = exp + '_' + b
    out = Out(outcome=exp)
    nm = Namer(front=f, back=b)
    for k in range(2):
        out.expect(nm(n) == exp, 'name', '%r %r %r gives %r' % (f, b, n, nm(n)))
    return out


def spaces(tier):
    cases = [dict(m=m, lib=[]) for m in range(2**len(OWN))]
    libs = sorted(n for n, v in LIB.items() if v)
    for n in libs:
        for m in [0, 1, 2**11, 2**12-1] + [1 << i for i in range(12)]:
            cases.append(dict(m=m, lib=[n]))
    for a, b in itertools.combinations(libs, 2):
        cases.append(dict(m=5, lib=[a, b]))
    st = [dict(a=a) for a in OWN]
    nm = [dict(front=f, back=b, name=n) for f in (None, '', 'wmom', 'a_b', 'noshear')
          for b in (None, '', 'noshear', '1p', 'wmom', 'x_y') for n in ('flags', '', 'a_b')]
    return [Space('combinations', cases, run), Space('bits', st, run_static),
            Space('names', nm, run_names)]
