"""Source access: parses the analysed project's modules on every run."""

import ast
import hashlib
import os
import warnings

STD = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'models', 'std')
REPO = os.environ.get('VERIF_REPO', '/repo')


class Project(object):
    def __init__(self, root=None, extra=None):
        self.root = root or REPO
        self.trees = {}
        self.used = {}
        self.extra = dict(extra or {})      # module name -> file, for models of libraries

    def path(self, name):
        if name in self.extra:
            return self.extra[name]
        if name.startswith('%std:'):
            p = os.path.join(STD, name[5:] + '.py')
            return p if os.path.isfile(p) else None
        base = os.path.join(self.root, *name.split('.'))
        for p in (base + '.py', os.path.join(base, '__init__.py')):
            if os.path.isfile(p):
                return p
        return None

    def is_package(self, name):
        return name not in self.extra and os.path.isfile(os.path.join(self.root, *(name.split('.') + ['__init__.py'])))

    def is_internal(self, name):
        return name.split('.')[0] == 'gerber' or name in self.extra

    def tree(self, name):
        if name not in self.trees:
            p = self.path(name)
            with open(p, 'rb') as f:
                data = f.read()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.trees[name] = ast.parse(data, p)
            if name not in self.extra and not name.startswith('%std:'):
                self.used[os.path.relpath(p, self.root)] = hashlib.sha256(data).hexdigest()[:16]
        return self.trees[name]

    def modules(self):
        out = []
        for d, _, fs in os.walk(os.path.join(self.root, 'gerber')):
            if 'tests' in d.split(os.sep):
                continue
            for f in fs:
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(d, f), self.root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    out.append(rel)
        return sorted(out)
