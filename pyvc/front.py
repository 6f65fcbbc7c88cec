"""Mechanical extraction of the functions under contract from the working tree.

Every run parses the modules of the package afresh.  What is kept: the complete
body of every function and method, the class hierarchy, module level constant
assignments and imports.  What is dropped: docstrings, comments, type
annotations, decorators (a decorated function is refused), and the module level
try/except that picks ``collections.abc``.
"""
import ast
import hashlib
import os


class Unsupported(Exception):
    """the construct is outside the verified subset -> bounded stand-in"""


class Func(object):
    def __init__(self, mod, cls, node):
        self.mod, self.cls, self.node = mod, cls, node
        self.name = node.name
        self.qual = (cls + '.' if cls else '') + node.name

    @property
    def full(self):
        return self.mod.name + ':' + self.qual

    @property
    def digest(self):
        return hashlib.sha1(ast.dump(self.node).encode()).hexdigest()[:12]


class Module(object):
    def __init__(self, name, tree):
        self.name = name
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        for n in tree.body:
            if isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = Func(self, None, n)
            elif isinstance(n, ast.ClassDef):
                bases = []
                for b in n.bases:
                    bases.append(ast.unparse(b))
                ms, attrs = {}, {}
                for m in n.body:
                    if isinstance(m, ast.FunctionDef):
                        ms[m.name] = Func(self, n.name, m)
                    elif isinstance(m, ast.Assign) and len(m.targets) == 1 \
                            and isinstance(m.targets[0], ast.Name):
                        attrs[m.targets[0].id] = m.value
                self.classes[n.name] = (bases, ms, attrs)
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.imports[a.asname or a.name] = (n.module, a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split('.')[0]] = (
                        a.name if a.asname else a.name.split('.')[0], None)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Name):
                self.consts[n.targets[0].id] = n.value


class Program(object):
    def __init__(self, repo):
        self.mods = {}
        d = os.path.join(repo, 'concept_formation')
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                src = open(os.path.join(d, f)).read()
                name = 'concept_formation.' + f[:-3]
                self.mods[name] = Module(name, ast.parse(src))

    def module(self, short):
        m = self.mods.get('concept_formation.' + short)
        if m is None:
            raise Unsupported('module %s is gone' % short)
        return m

    def find_class(self, mod, name):
        """-> (module, class name) following imports, or None"""
        if name in mod.classes:
            return mod, name
        if name in mod.imports:
            m, n = mod.imports[name]
            if m in self.mods and n:
                return self.find_class(self.mods[m], n)
        return None

    def mro(self, mod, name):
        out = [(mod, name)]
        for b in mod.classes[name][0]:
            r = self.find_class(mod, b)
            if r:
                for x in self.mro(*r):
                    if x not in out:
                        out.append(x)
        return out

    def method(self, mod, cls, name, after=None):
        """resolve a method along the MRO; after=(mod, cls) for super()"""
        chain = self.mro(mod, cls)
        if after is not None:
            i = [k for k, (m, c) in enumerate(chain)
                 if (m.name, c) == after]
            chain = chain[i[0] + 1:] if i else []
        for m, c in chain:
            ms = m.classes[c][1]
            if name in ms:
                return ms[name]
        return None

    def func(self, short, qual):
        m = self.module(short)
        if '.' in qual:
            c, f = qual.split('.')
            if c not in m.classes:
                raise Unsupported('class %s is gone' % c)
            return self.method(m, c, f)
        return m.funcs.get(qual)
