"""Mutation testing of the checks (not one of the checks).

    python3 tools/mutate.py FILE CHECK[,CHECK...] [--shard i/n] [--out F] [--func NAME]

Every mutant of FILE (a path below /repo) is put into a scratch copy of /repo
which is bound over /repo in a private mount namespace; the given checks are run
there from a copy of /verif until one of them reports a violation.  Survivors
are written to the output file; they are equivalent or not covered."""
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='],
       ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'],
       ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.BitAnd: ['|'],
       ast.BitOr: ['&'], ast.FloorDiv: ['/'], ast.Pow: ['*'], ast.Mod: ['//'], ast.LShift: ['>>']}
SYM = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.BitAnd: '&', ast.BitOr: '|',
       ast.FloorDiv: '//', ast.Pow: '**', ast.Mod: '%', ast.LShift: '<<', ast.Lt: '<',
       ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is',
       ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
SWAP = {}
for a, b in (('x', 'y'), ('row', 'col'), ('nx', 'ny'), ('nrows', 'ncols'), ('xm', 'ym'),
             ('any', 'all'), ('min', 'max'), ('floor', 'ceil'), ('ra', 'dec'), ('g1', 'g2'),
             ('e1', 'e2'), ('dudx', 'dvdy'), ('dudy', 'dvdx'), ('logical_and', 'logical_or'),
             ('mean', 'median'), ('zeros', 'ones'), ('zeros_like', 'ones_like'),
             ('bmask', 'ormask'), ('image', 'noise'), ('getX', 'getY'), ('getIx', 'getIy'),
             ('orig_row', 'orig_col'), ('ix', 'iy'), ('isfinite', 'isnan')):
    SWAP[a] = b
    SWAP[b] = a


def mutants(src, func=None):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    data = src.encode()

    def pos(line, col):
        return starts[line - 1] + col

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    res = []

    def add(n, a, b, new, kind):
        res.append((n.lineno, kind, data[:a] + new.encode() + data[b:]))

    def text(n):
        a, b = span(n)
        return data[a:b].decode()
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    roots = [tree]
    if func:
        roots = [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))
                 and n.name in func]
    seen = set()
    for root in roots:
        for n in ast.walk(root):
            if id(n) in seen:
                continue
            seen.add(id(n))
            # decorators and annotations are left alone
            p = n
            skip = False
            while p in parents:
                q = parents[p]
                if isinstance(q, (ast.FunctionDef, ast.ClassDef)) and p in q.decorator_list:
                    skip = True
                if isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and (
                        q.func.attr in ('debug', 'info', 'warn', 'warning', 'error') and
                        isinstance(q.func.value, ast.Name) and 'log' in q.func.value.id.lower()):
                    skip = True
                if isinstance(q, ast.Raise):
                    skip = True
                p = q
            if skip:
                continue
            if isinstance(n, ast.Compare):
                left = n.left
                for op, right in zip(n.ops, n.comparators):
                    a, b = span(left)[1], span(right)[0]
                    mid = data[a:b].decode()
                    s = SYM[type(op)]
                    for new in CMP[type(op)]:
                        if mid.count(s) == 1:
                            add(n, a, b, mid.replace(s, new), 'cmp %s->%s' % (s, new))
                    left = right
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                a, b = span(n.left)[1], span(n.right)[0]
                mid, s = data[a:b].decode(), SYM[type(n.op)]
                if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    continue
                for new in BIN[type(n.op)]:
                    if mid.count(s) == 1:
                        add(n, a, b, mid.replace(s, new), 'bin %s->%s' % (s, new))
            elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
                a, b = span(n.target)[1], span(n.value)[0]
                mid, s = data[a:b].decode(), SYM[type(n.op)] + '='
                add(n, a, b, mid.replace(s, BIN[type(n.op)][0] + '='), 'aug')
                add(n, a, b, mid.replace(s, '='), 'aug->=')
            elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)):
                a, b = span(n)
                v = n.value
                if v is True or v is False:
                    add(n, a, b, str(not v), 'bool')
                elif isinstance(v, int):
                    for new in (v + 1, v - 1):
                        add(n, a, b, '(%d)' % new, 'const %d->%d' % (v, new))
                elif isinstance(v, float):
                    add(n, a, b, '(%r)' % (v*1.5 + 0.1), 'const %r' % v)
            elif isinstance(n, ast.BoolOp):
                for x, y in zip(n.values, n.values[1:]):
                    a, b = span(x)[1], span(y)[0]
                    mid = data[a:b].decode()
                    s, new = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
                    if mid.count(s) == 1:
                        add(n, a, b, mid.replace(s, new), s + '->' + new)
                for x in n.values:
                    a, b = span(x)
                    add(n, a, b, 'True' if isinstance(n.op, ast.And) else 'False', 'drop operand')
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
                a, b = span(n)
                add(n, a, b, '(' + text(n.operand) + ')', 'unary')
            if isinstance(n, (ast.If, ast.IfExp, ast.While)):
                a, b = span(n.test)
                if not isinstance(n, ast.While):
                    add(n, a, b, 'True', 'if True')
                add(n, a, b, 'False', 'if False')
            if isinstance(n, (ast.Assign, ast.AugAssign)) or (
                    isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant)):
                if 'LOG.' in text(n) or 'logger.' in text(n):
                    continue
                a, b = span(n)
                if not isinstance(n, ast.Assign) or not all(
                        isinstance(t, ast.Name) for t in n.targets):
                    add(n, a, b, 'pass', 'delete')
                elif isinstance(n, ast.Assign):
                    # delete only re-assignments
                    add(n, a, b, 'pass', 'delete assignment')
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr in (
                        'copy', 'deepcopy', 'strip', 'astype', 'clone', 'ravel', 'sum'):
                    a, b = span(n)
                    if not (n.args and f.attr == 'deepcopy'):
                        add(n, a, b, text(f.value), 'drop .%s()' % f.attr)
                if isinstance(f, ast.Name) and f.id in ('deepcopy', 'copy', 'int', 'float', 'abs',
                                                        'sorted', 'list', 'max', 'min', 'round'):
                    if n.args:
                        a, b = span(n)
                        add(n, a, b, '(' + text(n.args[0]) + ')', 'drop %s()' % f.id)
                if isinstance(f, ast.Attribute) and f.attr in (
                        'abs', 'sqrt', 'floor', 'ceil', 'deepcopy', 'clip', 'isfinite', 'rot90',
                        'round') and n.args:
                    a, b = span(n)
                    add(n, a, b, '(' + text(n.args[0]) + ')', 'drop %s()' % f.attr)
                for k in n.keywords:
                    if k.arg is None:
                        continue
                    a, b = span(k)
                    # remove a following comma
                    e = b
                    rest = data[b:].decode()
                    j = 0
                    while j < len(rest) and rest[j] in ' \n':
                        j += 1
                    if j < len(rest) and rest[j] == ',':
                        e = b + j + 1
                    add(n, a, e, '', 'drop %s=' % k.arg)
                if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                    for x, y in zip(n.args, n.args[1:]):
                        a, b = span(x)[0], span(y)[1]
                        mid = data[span(x)[1]:span(y)[0]].decode()
                        add(n, a, b, text(y) + mid + text(x), 'swap args')
            if isinstance(n, ast.Tuple) and len(n.elts) == 2 and isinstance(n.ctx, ast.Load):
                x, y = n.elts
                a, b = span(x)[0], span(y)[1]
                mid = data[span(x)[1]:span(y)[0]].decode()
                add(n, a, b, text(y) + mid + text(x), 'swap tuple')
            if isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and (
                    len(n.elts) > 1):
                for x, y in zip(n.elts, n.elts[1:]):
                    a, b = span(x)[0], span(y)[0]
                    add(n, a, b, '', 'drop element')
                add(n, span(n.elts[-2])[1], span(n.elts[-1])[1], '', 'drop element')
            if isinstance(n, ast.Continue):
                add(n, *span(n), 'break', 'break')
                add(n, *span(n), 'pass', 'no continue')
            if isinstance(n, ast.Break):
                add(n, *span(n), 'pass', 'no break')
            if isinstance(n, ast.Return) and n.value is not None:
                add(n, *span(n.value), 'None', 'return None')
            if isinstance(n, (ast.For, ast.comprehension)):
                a, b = span(n.iter)
                t = text(n.iter)
                line = n.iter
                add(line, a, b, 'list(%s)[1:]' % t, 'skip first')
                add(line, a, b, 'list(%s)[:-1]' % t, 'skip last')
                add(line, a, b, 'list(%s)[::-1]' % t, 'reverse')
            if isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load):
                add(n, *span(n), SWAP[n.id], 'name %s->%s' % (n.id, SWAP[n.id]))
            if isinstance(n, ast.Attribute) and n.attr in SWAP and isinstance(n.ctx, ast.Load):
                a, b = span(n)
                add(n, b - len(n.attr), b, SWAP[n.attr], 'attr %s->%s' % (n.attr, SWAP[n.attr]))
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in SWAP:
                a, b = span(n)
                add(n, a, b, repr(SWAP[n.value]), 'str %s->%s' % (n.value, SWAP[n.value]))
            if isinstance(n, ast.Slice):
                for e in (n.lower, n.upper):
                    if e is not None:
                        a, b = span(e)
                        add(e, a, b, '(' + text(e) + ') + 1', 'slice+1')
            if isinstance(n, ast.Raise):
                add(n, *span(n), 'pass', 'no raise')
    out, have = [], {data}
    for line, kind, new in res:
        if new in have:
            continue
        have.add(new)
        try:
            compile(new, 'x', 'exec')
        except (SyntaxError, ValueError):
            continue
        out.append((line, kind, new))
    return out


def run(job):
    i, fn, line, kind, new, checks, frozen = job
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        repo = os.path.join(d, 'repo')
        shutil.copytree(frozen + '.repo', repo, symlinks=True, ignore=shutil.ignore_patterns(
            '.git', '__pycache__'))
        with open(os.path.join(repo, fn), 'wb') as f:
            f.write(new)
        ev = os.path.join(d, 'ev')
        os.mkdir(ev)
        script = ('mount --bind %s /repo && mount --bind %s /verif && mkdir -p /verif/evidence && '
                  'mount --bind %s /verif/evidence || exit 99\n' % (repo, frozen, ev))
        for c in checks:
            script += ('timeout 300 /verif/run.sh %s quick > %s/log 2>&1; r=$?; '
                       'echo "%s $r $(grep -m1 -A1 "^VIOLATION" %s/log | tail -1 | cut -c1-150)";'
                       ' [ $r = 0 ] || exit 1\n' % (c, d, c, d))
        env = dict(os.environ, VERIF_NPROC='1', VERIF_FAILFAST='1', VERIF_SEED='1', VERIF_TIER='quick')
        p = subprocess.run(['unshare', '-m', 'bash', '-c', script], env=env, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return i, line, kind, p.returncode, p.stdout.strip().splitlines()[-1:]
    finally:
        shutil.rmtree(d)


def main():
    fn, checks = sys.argv[1], sys.argv[2].split(',')
    args = sys.argv[3:]
    opt = dict(zip(args[::2], args[1::2]))
    src = open(os.path.join('/repo', fn)).read()
    ms = mutants(src, opt.get('--func', '').split(',') if '--func' in opt else None)
    random.Random(3).shuffle(ms)
    if '--max' in opt:
        ms = ms[:int(opt['--max'])]
    if '--list' in opt:
        print(len(ms))
        return
    frozen = tempfile.mkdtemp(prefix='frozen', dir='/tmp')
    subprocess.check_call('git -C %s ls-files | grep -v ^seeded | (cd %s; cpio -pdm --quiet %s) '
                          % (VERIF, VERIF, frozen), shell=True) if shutil.which('cpio') else (
        shutil.copytree(VERIF, frozen, dirs_exist_ok=True, ignore=shutil.ignore_patterns(
            '.git', 'seeded', 'evidence', '__pycache__', 'replays')))
    os.makedirs(os.path.join(frozen, 'evidence'), exist_ok=True)
    shutil.copytree('/repo', frozen + '.repo', symlinks=True, ignore=shutil.ignore_patterns(
        '.git', '__pycache__'))
    lines = src.splitlines()
    killed = survived = odd = 0
    out = open(opt.get('--out', '/tmp/mut_%s.txt' % os.path.basename(fn)), 'w')
    try:
        with concurrent.futures.ThreadPoolExecutor(int(opt.get('-j', '8'))) as ex:
            jobs = [(i, fn, m[0], m[1], m[2], checks, frozen) for i, m in enumerate(ms)]
            for i, line, kind, rc, last in ex.map(run, jobs):
                if rc == 1 and last and ' 1' in last[0][3:6]:
                    killed += 1
                    continue
                if rc == 0:
                    survived += 1
                else:
                    odd += 1
                new = ms[i][2].decode().splitlines()
                print(json.dumps({'line': line, 'kind': kind, 'rc': rc, 'last': last}), file=out)
                print('   -', lines[line - 1].strip(), file=out)
                k = next((j for j in range(min(len(new), len(lines))) if new[j] != lines[j]), 0)
                print('   + (%d) %s' % (k + 1, new[k].strip()), file=out, flush=True)
        print('TOTAL', len(ms), 'killed', killed, 'survived', survived, 'odd', odd, file=out)
        print(fn, 'TOTAL', len(ms), 'killed', killed, 'survived', survived, 'odd', odd)
    finally:
        shutil.rmtree(frozen)
        shutil.rmtree(frozen + '.repo')


if __name__ == '__main__':
    main()
