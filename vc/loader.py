"""Load the package under test from source, on every run.

The only changes made to the text: `while` loops get a loop head call (see
`Loop`), as do `for` loops over a range when its bounds are symbolic or a contract is given, and calls of int() and float() go through a wrapper; nothing is
dropped.  After a module is executed (so class bodies and
tables are evaluated by the real numpy), names of library functions in its
namespace (np, sqrt, max, isinstance, ...) are rebound to versions that accept
symbolic reals and behave like the originals on everything else."""
import ast
import builtins
import hashlib
import os
import sys
import types
import numpy as np
from . import shims

REPO = os.environ.get('VC_REPO', '/repo')
MODULES = ['common', 'bogacki', 'calvo', 'cash', 'fine', 'hosea', 'kennedy',
           'kvaerno', 'merson', 'mikkawy', 'murua', 'prince', 'sensitivity',
           'shampine', 'sommeijer', 'tsitouras']


class Names(ast.NodeVisitor):
    def __init__(self):
        self.names = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


class LoopTx(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.func = []
        self.count = {}
        self.loops = []

    def visit_ClassDef(self, n):
        self.func.append(n.name)
        self.generic_visit(n)
        self.func.pop()
        return n

    def visit_FunctionDef(self, n):
        self.func.append(n.name)
        self.generic_visit(n)
        self.func.pop()
        return n

    def gen(self, n, text):
        body = ast.parse(text).body
        for st in body:
            for x in ast.walk(st):
                if hasattr(x, 'lineno'):
                    x.lineno = x.end_lineno = n.lineno
                    x.col_offset = x.end_col_offset = 0
        return body

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('int', 'float'):
            n.func = ast.copy_location(
                ast.Name(id=f'__vc_{n.func.id}__', ctx=ast.Load()), n.func)
        return n

    def visit_For(self, n):
        """a range with a symbolic bound is counted by a while loop over the
        same body; a concrete one runs as it is"""
        import copy
        it = n.iter
        if n.orelse or not isinstance(n.target, ast.Name) or not (
                isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and
                it.func.id == 'range' and 1 <= len(it.args) <= 2 and not it.keywords) or all(
                isinstance(a, ast.Constant) for a in it.args) or any(
                isinstance(x, (ast.While, ast.For, ast.FunctionDef, ast.Lambda))
                for st in n.body for x in ast.walk(st)):
            self.generic_visit(n)
            return n
        q = '.'.join(self.func)
        k = self.count['for ' + q] = self.count.get('for ' + q, 0) + 1
        R, J = f'__vcR{k}_{len(self.func)}__', f'__vcJ{k}_{len(self.func)}__'
        pre = self.gen(n, f'{R} = __vc_range__()')
        pre[0].value.args = list(it.args)
        sym = self.gen(n, f'{J} = {R}[0]')
        w = self.gen(n, f'while {J} < {R}[1]:\n    {n.target.id} = {J}\n    {J} = {J} + 1')[0]
        w.body += copy.deepcopy(n.body)
        ast.copy_location(w, n)
        lid = f'{self.module}.{q}:for{k}'
        sym += self.visit_While(w, lid)
        n.iter = ast.copy_location(ast.Starred(value=ast.Name(id=R, ctx=ast.Load()), ctx=ast.Load()), it)
        n.iter = ast.copy_location(ast.Call(func=ast.Name(id='range', ctx=ast.Load()),
                                            args=[n.iter], keywords=[]), it)
        self.generic_visit(n)
        test = ast.If(test=self.gen(n, f'__vc_symbolic__({R}, {lid!r})')[0].value, body=sym, orelse=[n])
        out = pre + [test]
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return out

    def visit_While(self, n, lid=None):
        q = '.'.join(self.func)
        i = self.count[q] = self.count.get(q, 0) + 1
        self.generic_visit(n)
        if lid:
            i = lid.rpartition(':')[2]
            self.count[q] -= 1
        lid = lid or f'{self.module}.{q}:while{i}'
        self.loops.append(lid)
        v = Names()
        for st in n.body:
            v.visit(st)
        names = sorted(v.names)
        L, H = f'__vcL{i}_{len(self.func)}__', f'__vcH{i}_{len(self.func)}__'
        pre = self.gen(n, f'{L} = __vc_enter__({lid!r}, {names!r})')
        head = self.gen(n, f'{H} = {L}.head(locals())')
        sets = []
        for name in names:
            sets += self.gen(n, f'if {name!r} in {H}: {name} = {H}[{name!r}]')
        exit_ = self.gen(n, f'{L}.exit()')
        test = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test),
                      body=exit_ + n.orelse + [ast.Break()], orelse=[])
        import copy
        again = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=copy.deepcopy(n.test)),
                       body=self.gen(n, f'{L}.infeasible()'), orelse=[])
        loop = ast.While(test=ast.Constant(True),
                         body=[test] + head + sets + [
                             ast.If(test=ast.Name(id=H, ctx=ast.Load()),
                                    body=[again], orelse=[])] + n.body,
                         orelse=[])
        # leaving with break
        after = self.gen(n, f'{L}.exit()')
        out = pre + [loop] + after
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return out


class Package:
    def __init__(self, repo=None, transform=True, shim=True):
        self.repo = repo or REPO
        self.mods = {}
        self.loops = []
        self.digest = {}
        self.transform, self.shim = transform, shim
        self.cells = {}
        self.load('extensisq')
        for m in MODULES + sorted(
                f[:-3] for f in os.listdir(os.path.join(self.repo, 'extensisq'))
                if f.endswith('.py') and f[:-3] not in MODULES and f != '__init__.py'):
            if os.path.exists(os.path.join(self.repo, 'extensisq', m + '.py')):
                self.load('extensisq.' + m)
        if shim:
            self.install()

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals.get('__package__') or globals['__name__'].rpartition('.')[0]
            for _ in range(level - 1):
                base = base.rpartition('.')[0]
            name = base + ('.' + name if name else '')
        if name == 'extensisq' or name.startswith('extensisq.'):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and name == 'extensisq':
                        try:
                            setattr(m, f, self.load(name + '.' + f))
                        except FileNotFoundError:
                            pass
                return m
            return self.load(name.split('.')[0])
        if self.shim and name in shims.MODULE_STUBS:
            return shims.MODULE_STUBS[name]
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        rel = name.split('.')[1:]
        path = os.path.join(self.repo, 'extensisq', *rel)
        pkg = not rel
        path = os.path.join(path, '__init__.py') if pkg else path + '.py'
        src = open(path).read()
        self.digest[name] = hashlib.sha256(src.encode()).hexdigest()[:16]
        tree = ast.parse(src, path)
        if self.transform:
            tx = LoopTx(name.split('.')[-1])
            tree = tx.visit(tree)
            ast.fix_missing_locations(tree)
            self.loops += tx.loops
        mod = types.ModuleType(name)
        mod.__file__ = path
        mod.__package__ = name if pkg else name.rpartition('.')[0]
        b = dict(vars(builtins))
        b['__import__'] = self._import
        b['__vc_enter__'] = shims.enter_loop
        b['__vc_range__'], b['__vc_symbolic__'] = shims.vc_range, shims.vc_symbolic
        b['__vc_int__'], b['__vc_float__'] = shims.vc_int, shims.vc_float
        mod.__dict__['__builtins__'] = b
        self.mods[name] = mod
        exec(compile(tree, path, 'exec'), mod.__dict__)
        return mod

    def install(self):
        cells = {}
        for name, mod in self.mods.items():
            d = mod.__dict__
            for k, v in list(d.items()):
                if k.startswith('__'):
                    continue
                if isinstance(v, np.ndarray) and v.ndim == 0:
                    if id(v) not in cells:
                        a = np.empty((), object)
                        a[()] = v[()].item()
                        cells[id(v)] = (k, a, v)
                    d[k] = cells[id(v)][1]
                elif v is np:
                    d[k] = shims.NP
                else:
                    r = shims.replacement(v)
                    if r is not None:
                        d[k] = r
            d.setdefault('__vc', True)
            for k, v in shims.BUILTINS.items():
                if k not in d:
                    d[k] = v
        for _, (k, a, _v) in cells.items():
            self.cells[k] = a
        for cls in self.classes().values():
            for c in cls.__mro__:
                for k, v in vars(c).items():
                    if isinstance(v, np.ndarray):
                        v.flags.writeable = False

    def classes(self):
        """all public classes of the package"""
        top = self.mods['extensisq']
        out = {}
        for m in self.mods.values():
            for k, v in vars(m).items():
                if isinstance(v, type) and v.__module__.startswith('extensisq'):
                    out[k] = v
        return out

    def public(self):
        return {k: v for k, v in vars(self.mods['extensisq']).items()
                if isinstance(v, type)}

    def __getattr__(self, k):
        if k.startswith('_') or 'mods' not in self.__dict__:
            raise AttributeError(k)
        if 'extensisq.' + k in self.mods:
            return self.mods['extensisq.' + k]
        raise AttributeError(k)
