"""Behaviour preserving rewrites of /repo, to see that the checks stay quiet (not a check).

    python3 tools/refactor.py VARIANT[,VARIANT...] [CHECK,...]

The package is rewritten in a scratch copy, bound over /repo in a private mount
namespace, and all checks run there.  Variants:
  unparse  source printed from its syntax tree (comments and layout gone)
  locals   local variables renamed
  ifs      if/else exchanged with the condition negated, comparisons turned round
  helper   the body of every module level function moved to a helper
  private  module level private functions renamed
  kwargs   order of keyword arguments reversed
  temps    values of returns and call arguments put into temporaries first
"""
import ast
import builtins
import glob
import os
import shutil
import subprocess
import sys
import symtable
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}


class Ifs(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in FLIP:
            return ast.Compare(n.comparators[0], [FLIP[type(n.ops[0])]()], [n.left])
        return n


class Kwargs(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if all(k.arg for k in n.keywords):
            n.keywords = n.keywords[::-1]
        return n


class Temps(ast.NodeTransformer):
    k = 0

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        self.k += 1
        v = '_ret%d' % self.k
        return [ast.Assign([ast.Name(v, ast.Store())], n.value), ast.Return(ast.Name(v, ast.Load()))]

    def visit_Assign(self, n):
        c = n.value
        if isinstance(c, ast.Call) and not any(isinstance(a, ast.Starred) for a in c.args) and (
                not isinstance(c.func, ast.Name) or c.func.id not in ('super', 'locals')):
            out = []
            simple = all(isinstance(a, (ast.Name, ast.Constant, ast.Attribute, ast.BinOp))
                         for a in c.args)
            if simple:
                for i, a in enumerate(c.args):
                    if isinstance(a, ast.BinOp):
                        self.k += 1
                        v = '_arg%d' % self.k
                        out.append(ast.Assign([ast.Name(v, ast.Store())], a))
                        c.args[i] = ast.Name(v, ast.Load())
            return out + [n]
        return n


def rename_locals(tree, src, fn):
    """names which are plain locals (not parameters, not free, not cells)"""
    top = symtable.symtable(src, fn, 'exec')
    tables = {}

    def walk(t):
        if t.get_type() == 'function':
            tables.setdefault((t.get_name(), t.get_lineno()), t)
        for c in t.get_children():
            walk(c)
    walk(top)

    class R(ast.NodeTransformer):
        def __init__(self, names):
            self.names = names

        def visit_Name(self, n):
            if n.id in self.names:
                n.id += '_r'
            return n

        def visit_ExceptHandler(self, n):
            self.generic_visit(n)
            if n.name in self.names:
                n.name += '_r'
            return n

    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef):
            continue
        line = f.lineno
        t = tables.get((f.name, line)) or tables.get(
            (f.name, f.decorator_list[0].lineno if f.decorator_list else line))
        if t is None or any(c.get_type() in ('function', 'class') for c in t.get_children()):
            continue
        if any(isinstance(x, (ast.Import, ast.ImportFrom, ast.ListComp, ast.GeneratorExp, ast.Lambda,
                              ast.SetComp, ast.DictComp)) for x in ast.walk(f)):
            continue
        names = {s.get_name() for s in t.get_symbols() if s.is_local() and not s.is_parameter() and
                 not s.is_imported() and not hasattr(builtins, s.get_name())}
        f.body = [R(names).visit(b) for b in f.body]
    return tree


def helpers(tree):
    out = []
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and not n.decorator_list and not any(
                isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            a = n.args
            h = ast.FunctionDef('_do_it_' + n.name, ast.arguments(
                a.posonlyargs, a.args, a.vararg, a.kwonlyargs, [None]*len(a.kwonlyargs), a.kwarg, []),
                n.body, [], None, None, type_params=[])
            call = ast.Call(ast.Name(h.name, ast.Load()),
                            [ast.Name(x.arg, ast.Load()) for x in a.posonlyargs + a.args] +
                            ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())]
                             if a.vararg else []),
                            [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] +
                            ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))]
                             if a.kwarg else []))
            n.body = [ast.Return(call)]
            out += [h, n]
        else:
            out.append(n)
    tree.body = out
    return tree


def apply(repo, variant):
    files = [f for f in glob.glob(repo + '/metadetect/**/*.py', recursive=True)
             if '/tests/' not in f and not f.endswith('/vis.py')]
    private = set()
    if variant == 'private':
        for f in files:
            for n in ast.parse(open(f).read()).body:
                if isinstance(n, ast.FunctionDef) and n.name.startswith('_'):
                    private.add(n.name)
    for f in files:
        src = open(f).read()
        tree = ast.parse(src)
        if variant == 'ifs':
            tree = Ifs().visit(tree)
        elif variant == 'kwargs':
            tree = Kwargs().visit(tree)
        elif variant == 'temps':
            tree = Temps().visit(tree)
        elif variant == 'locals':
            tree = rename_locals(tree, src, f)
        elif variant == 'helper':
            tree = helpers(tree)
        elif variant == 'private':
            for n in ast.walk(tree):
                if isinstance(n, ast.Name) and n.id in private:
                    n.id = '_other' + n.id
                elif isinstance(n, (ast.FunctionDef, ast.alias)) and n.name in private:
                    n.name = '_other' + n.name
        text = ast.unparse(ast.fix_missing_locations(tree)) + '\n'
        open(f, 'w').write(text)


def main():
    checks = sys.argv[2].split(',') if len(sys.argv) > 2 else ['C%02d' % i for i in range(1, 33)]
    for variant in sys.argv[1].split(','):
        d = tempfile.mkdtemp(prefix='refac', dir='/tmp')
        try:
            repo, ver = d + '/repo', d + '/verif'
            shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns(
                '.git', '__pycache__'))
            shutil.copytree(VERIF, ver, ignore=shutil.ignore_patterns(
                '.git', 'seeded', 'evidence', '__pycache__', 'replays'))
            os.makedirs(ver + '/evidence')
            apply(repo, variant)
            script = 'mount --bind %s /repo && mount --bind %s /verif || exit 99\ncd /repo\n' % (
                repo, ver)
            script += ('bash /opt/vp/test.sh %s/t.json > %s/t.log 2>&1; echo "tests $?"; cd /verif\n'
                       % (d, d))
            for c in checks:
                script += ('timeout 800 /verif/run.sh %s quick > %s/log 2>&1; r=$?; [ $r = 0 ] || '
                           '{ echo "%s $r"; tail -5 %s/log; }\n' % (c, d, c, d))
            p = subprocess.run(['unshare', '-m', 'bash', '-c', script], text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            print(variant, p.returncode, p.stdout.strip(), flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == '__main__':
    main()
