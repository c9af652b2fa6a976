"""Loads the repository's Python 2 scripts into Python 3, keeping Python 2's
meaning: integer division, lists from range/map/items, print statements."""
import ast, os, re, sys, types, builtins

def div(a, b):
    import numbers
    if isinstance(a, numbers.Integral) and isinstance(b, numbers.Integral): return a // b
    return a / b

class Fix(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div): return ast.copy_location(ast.Call(ast.Name('__py2div__', ast.Load()), [n.left, n.right], []), n)
        return n
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            import copy
            load = copy.deepcopy(n.target)
            for x in ast.walk(load):
                if isinstance(getattr(x, 'ctx', None), ast.Store): x.ctx = ast.Load()
            return ast.copy_location(ast.Assign([n.target], ast.Call(ast.Name('__py2div__', ast.Load()), [load, n.value], [])), n)
        return n
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and not n.args and not n.keywords and f.attr in ('items', 'keys', 'values'):
            return ast.copy_location(ast.Call(ast.Name('list', ast.Load()), [n], []), n)
        if isinstance(f, ast.Attribute) and f.attr in ('iteritems', 'iterkeys', 'itervalues'):
            f.attr = f.attr[4:]; return ast.copy_location(ast.Call(ast.Name('iter', ast.Load()), [n], []), n)
        if isinstance(f, ast.Attribute) and f.attr == 'has_key':
            return ast.copy_location(ast.Compare(n.args[0], [ast.In()], [f.value]), n)
        return n

def translate(src):
    out = []
    for l in src.split('\n'):
        m = re.match(r'^(\s*(?:[^#\'"]*:\s*)?)print(?:\s+(?!\()(.*)|\s*)$', l)
        if m and not re.match(r'\s*#', l):
            a = m.group(2) or ''; r = re.match(r'>>\s*([\w.]+)\s*,?\s*(.*)$', a)
            l = '%sprint(%s)' % (m.group(1), a if not r else (r.group(2) + ', ' if r.group(2) else '') + 'file=' + r.group(1))
        l = re.sub(r'^(\s*except\s+[^:]*?),\s*(\w+)\s*:', r'\1 as \2:', l)
        l = re.sub(r'^(\s*raise\s+\w+)\s*,\s*(.+)$', r'\1(\2)', l)
        out.append(l)
    return '\n'.join(out)

PRE = dict(xrange=range, range=lambda *a: list(range(*a)), map=lambda *a: list(map(*a)), filter=lambda *a: list(filter(*a)), zip=lambda *a: list(zip(*a)),
           unicode=str, basestring=str, long=int, raw_input=lambda *a: '', __py2div__=div)

def load(path, name):
    src = open(path).read()
    tree = ast.fix_missing_locations(Fix().visit(ast.parse(translate(src), path)))
    m = types.ModuleType(name); m.__file__ = path; m.__dict__.update(PRE); m.__dict__['reduce'] = __import__('functools').reduce
    sys.modules[name] = m
    exec(compile(tree, path, 'exec'), m.__dict__)
    return m
