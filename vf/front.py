"""Loads /repo's current source as syntax trees.  Nothing is cached between runs."""
import ast, os
from . import cyfront


class Module(object):
    def __init__(self, name, tree, lang, src):
        self.name, self.tree, self.lang, self.src = name, tree, lang, src
        self.is_pkg = False


class Repo(object):
    def __init__(self, root='/repo'):
        self.root = root
        self.mods = {}
        self.dropped = []

    def path(self, name):
        p = os.path.join(self.root, *name.split('.'))
        for q in (p + '.py', p + '.pyx', os.path.join(p, '__init__.py')):
            if os.path.exists(q):
                return q
        return None

    def is_pkg(self, name):
        return os.path.exists(os.path.join(self.root, *(name.split('.') + ['__init__.py'])))

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self.path(name)
        if p is None:
            return None
        src = open(p, encoding='utf-8').read()
        if p.endswith('.pyx'):
            m = Module(name, cyfront.load(p), 'cy', src)
        else:
            m = Module(name, ast.parse(src, p), 'py', src)
        m.is_pkg = p.endswith('__init__.py')
        m.path = p
        self.mods[name] = m
        return m
