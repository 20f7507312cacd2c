"""C10: postage stamps are faithful windows of the full images."""
import itertools
import numpy as np
import ngmix
from mc.core import Space, Out
from mc import obsmodel as om
from metadetect.detect import CatalogMEDSifier, MEDSifier
from metadetect.defaults import BMASK_EDGE

PROPERTY = 'C10'
LEVEL = 'exploration'
RULE = ('every position of a grid in and around the image x every box size (smaller to larger '
        'than the image) x image shape x numbering; each stamp type of each band is compared '
        'pixel by pixel; non-trivial: at least one object')
ASSUMPTIONS = ['square stamps, single epoch per band',
               'the object is at the nominal stamp centre for even box sizes']

TYPES = ('image', 'weight', 'seg', 'bmask', 'noise')
JAC = ngmix.Jacobian(row=1.5, col=2.5, dudrow=0.03, dudcol=-0.21, dvdrow=0.19, dvdcol=0.05)
PAD = {'image': 0, 'weight': 0, 'seg': 0, 'bmask': BMASK_EDGE, 'noise': 0}


def bundle(dims, nband, zero=False):
    obs = []
    for b in range(nband):
        r, c = np.mgrid[:dims[0], :dims[1]]
        k = (r*dims[1] + c + 1).astype('f8')
        obs.append(om.make_obs(dims, b, image=1000.0*(b+1) + k, noise=-1000.0*(b+1) - k,
                               weight=k/7.0 + b, bmask=(r*dims[1] + c + 64*b).astype('i4'),
                               scale=0.2 + 0.0*b, mfrac=False))
        with obs[-1].writeable():
            obs[-1].jacobian = JAC
    return om.make_mbobs(obs)


def start_of(pos, box, box_parity_ok=True):
    return max(0, int(np.float32(pos)) - box//2 + 1)


def expect_stamp(full, y, x, box, pad):
    r0, c0 = start_of(y, box), start_of(x, box)
    st = np.full((box, box), pad, dtype=full.dtype)
    for i in range(box):
        for j in range(box):
            r, c = r0+i, c0+j
            if r < full.shape[0] and c < full.shape[1]:
                st[i, j] = full[r, c]
    return st


def check_obj(out, tag, mbm_list, mb, seg, i, y, x, box, num):
    for b, m in enumerate(mbm_list):
        full = mb[b][0]
        for t in TYPES:
            src = seg if t == 'seg' else np.array(getattr(full, t))
            st = m.get_cutout(i, 0, type=t)
            exp = expect_stamp(src, y, x, box, PAD[t])
            ok = st.shape == exp.shape and np.array_equal(st, exp)
            out.expect(ok, tag + 'stamp-' + t, lambda: 'band %d %s stamp of (%s,%s) box %d is\n%s\n'
                       'expected\n%s' % (b, t, y, x, box, st, exp))
            # a stamp is the caller's: writing to it must not reach the image
            before = src.copy()
            st[:, :] = -77
            now = seg if t == 'seg' else np.array(getattr(full, t))
            out.expect(np.array_equal(now, before), tag + 'aliased', '%s stamp aliases the '
                       'full image' % t)
        psf = m.get_cutout(i, 0, type='psf')
        out.expect(np.array_equal(psf, full.psf.image), tag + 'psf', 'psf stamp differs')
        psf[:, :] = -77
        out.expect(not np.any(full.psf.image == -77), tag + 'psf-aliased', 'psf aliased')
        r0, c0 = start_of(y, box), start_of(x, box)
        jd = m.get_jacobian(i, 0)
        out.expect(abs(jd['row0'] - (y - r0)) < 1e-4 and abs(jd['col0'] - (x - c0)) < 1e-4,
                   tag + 'centre', lambda: 'object at %s %s in the stamp, expected %s %s'
                   % (jd['row0'], jd['col0'], y - r0, x - c0))
        for f in ('dudrow', 'dudcol', 'dvdrow', 'dvdcol'):
            out.expect(jd[f] == getattr(mb[0][0].jacobian, f), tag + 'jacobian',
                       'stamp jacobian %s differs' % f)
        # the assembled observation agrees as well
        exp_w = expect_stamp(np.array(full.weight), y, x, box, 0)
        try:
            ob = m.get_obs(i, 0)
        except ngmix.GMixFatalError:
            out.expect(not np.any(exp_w > 0), tag + 'obs-zero-weight', 'no observation')
            continue
        for t in ('image', 'weight', 'bmask', 'noise'):
            exp = expect_stamp(np.array(getattr(full, t)), y, x, box, PAD[t])
            out.expect(np.array_equal(getattr(ob, t), exp), tag + 'obs-' + t,
                       'observation %s differs' % t)
        pc = (np.array(full.psf.image.shape) - 1)/2
        out.expect(np.allclose(ob.psf.jacobian.cen, pc), tag + 'psf-centre', 'psf centre')
        out.expect(ob.meta['id'] == num - 1, tag + 'id', 'object id %s' % ob.meta['id'])


def run(case):
    dims = tuple(case['dims'])
    mb = bundle(dims, case['nband'])
    objs = case['objs']
    x = np.array([o[0] for o in objs], dtype='f8')
    y = np.array([o[1] for o in objs], dtype='f8')
    box = np.array([o[2] for o in objs], dtype='i4')
    r, c = np.mgrid[:dims[0], :dims[1]]
    seg = ((r//2 + c//3) % 4).astype('i4') if case['seg'] else None
    num = None
    if case['number']:
        num = np.arange(len(objs), 0, -1) + 3
    keep = (x.copy(), y.copy(), box.copy(), None if seg is None else seg.copy())
    cm = CatalogMEDSifier(mb, x, y, box, number=num, seg=seg)
    mlist = cm.get_multiband_meds().mlist
    out = Out(trivial=len(objs) == 0, steps=max(1, len(objs)))
    out.expect(len(mlist) == case['nband'], 'nband', 'bands')
    if seg is None:
        seg = np.zeros(dims, dtype='i4')
    for i, (xx, yy, bb) in enumerate(objs):
        n = i + 1 if num is None else num[i]
        if bb % 2 == 0:
            for q, v in (('row', yy), ('col', xx)):
                e = int(np.float32(v)) + bb//2 + 1
                d = dims[q == 'col']
                out.expect(cm.cat['orig_end_' + q][i, 0] == min(e, d), 'end', lambda: 'end %s of '
                           'object at %s is %s' % (q, v, cm.cat['orig_end_' + q][i, 0]))
        out.expect(cm.cat['number'][i] == n and cm.cat['id'][i] == n-1, 'number', 'numbering')
        check_obj(out, '', mlist, mb, seg, i, yy, xx, bb, n)
    out.expect(np.array_equal(x, keep[0]) and np.array_equal(y, keep[1]) and
               np.array_equal(box, keep[2]), 'input-modified', 'inputs modified')
    for bad in ('', 'Image', 'ormask2', 'stamp'):
        if len(objs):
            try:
                mlist[0].get_cutout(0, 0, type=bad)
                out.bad('bad-type', 'accepted type %r' % bad)
            except ValueError:
                pass
    sub = cm.get_meds(case['nband']-1)
    if len(objs):
        out.expect(np.array_equal(sub.get_cutout(0, 0), mlist[-1].get_cutout(0, 0)),
                   'get_meds', 'the two ways to get a band disagree')
    out.outcome = [(start_of(o[1], o[2]), start_of(o[0], o[2]), o[2]) for o in objs]
    return out


def run_uberseg(case):
    """stamps of different objects keep their own numbers with uberseg weights"""
    dims = (12, 12)
    mb = bundle(dims, 2)
    seg = np.zeros(dims, dtype='i4')
    (r1, c1), (r2, c2) = case['pos']
    seg[r1, c1] = 1
    seg[r2, c2] = 2
    cm = CatalogMEDSifier(mb, np.array([c1, c2], dtype='f8'), np.array([r1, r2], dtype='f8'),
                          np.array([case['box']]*2), number=np.array([1, 2]), seg=seg)
    out = Out(outcome=str(case))
    mbm = cm.get_multiband_meds()
    for i, (r, c) in enumerate(case['pos']):
        for b, ol in enumerate(mbm.get_mbobs(i, weight_type='uberseg')):
            out.expect(len(ol) == 1, 'missing', 'no observation')
            for ob in ol:
                rr = r - start_of(r, case['box'])
                cc = c - start_of(c, case['box'])
                out.expect(ob.weight[rr, cc] == mb[b][0].weight[r, c], 'own-pixel',
                           'object %d lost its own central pixel' % i)
                o = case['pos'][1-i]
                orr = o[0] - start_of(r, case['box'])
                occ = o[1] - start_of(c, case['box'])
                if 0 <= orr < case['box'] and 0 <= occ < case['box']:
                    out.expect(ob.weight[orr, occ] == 0, 'other-pixel',
                               'object %d kept the other object\'s pixel' % i)
    return out


def spaces(tier):
    th = tier == 'thorough'
    cases = []
    step = 0.5
    for dims in [(9, 7), (6, 11)] + ([(1, 5), (16, 16)] if th else []):
        ys = np.arange(-3, dims[0]+3.01, step)
        xs = np.arange(-3, dims[1]+3.01, step)
        for box in (2, 4, 6, 8, 16) + ((3, 5, 12, 24) if th else (3,)):
            for y in ys:
                for x in (xs if th or box in (4, 8) else xs[::2]):
                    cases.append(dict(dims=list(dims), nband=1, seg=1, number=0,
                                      objs=[[float(x), float(y), box]]))
    multi = []
    P = [[0.0, 0.0, 4], [3.25, 5.75, 6], [6.4, 8.4, 2], [2.0, 20.0, 4], [5.5, 1.5, 8]]
    for n in range(0, 4):
        for sel in itertools.permutations(range(len(P)), n):
            for nb, sg, nu in itertools.product((1, 2, 3), (0, 1), (0, 1)):
                multi.append(dict(dims=[9, 7], nband=nb, seg=sg, number=nu,
                                  objs=[P[k] for k in sel]))
    ub = [dict(pos=[[r1, c1], [r2, c2]], box=bx) for r1 in (1, 5, 10) for c1 in (2, 6)
          for r2 in (0, 4, 8, 11) for c2 in (3, 7, 11) for bx in (4, 8, 12)]
    many = []
    for nb in (4, 5, 6):
        for sg, nu in itertools.product((0, 1), (0, 1)):
            for sel in ([2], [0, 4], [4, 3, 2, 1, 0]):
                many.append(dict(dims=[9, 7], nband=nb, seg=sg, number=nu,
                                 objs=[P[k] for k in sel]))
    # more objects and stamps than a small table holds, larger images
    for dims, n in (([70, 90], 40), ([131, 67], 300)) + ((([300, 280], 700),) if th else ()):
        objs = [[(7.3*k) % dims[1], (11.7*k) % dims[0], (4, 8, 24, 32, 48)[k % 5]]
                for k in range(n)]
        for nu in (0, 1):
            many.append(dict(dims=dims, nband=2, seg=1, number=nu, objs=objs))
    return [Space('grid', cases, run), Space('several-objects', multi, run),
            Space('many', many, run),
            Space('uberseg', ub, run_uberseg)]
