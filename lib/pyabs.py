"""Abstract interpreter for the Python and Cython sources of the repository (syntax trees only; nothing is imported or
run). Values are terms: constants are folded, everything else stays symbolic. Both branches of a condition that is not
a constant are followed, calls of functions defined in the repository are inlined, all other calls are recorded as
effects of the path. Rules inspect the returned values and effects of all paths.

Terms (tuples):
    ('c', type, value)            constant             ('sym', name)           symbol
    ('ext', dotted)               name of an external module / class / function
    ('attr', t, name)  ('idx', t, key)  ('slice', t, a, b)
    ('call', f, args, kwargs)     result of an unknown call
    ('bin', op, a, b)  ('cmp', op, a, b)  ('not', t)  ('and'|'or', ts)  ('cond', c, a, b)  ('fstr', ts)
    ('elem', iterable, k)         element of a symbolic iterable (loop k)
    ('tuple', ts)  ('ref', id)    heap object: instance, list, dict or set
    ('cls', module, name)  ('fn', module, qualname)  ('bm', self, fn)  ('mod', name)  ('enum', cls, member, value)
"""
import ast
import copy
import itertools
import os
import re

import facts


class Unsupported(Exception):
    pass


def const(v):
    return ('c', type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_auto(t):
    """value of a member of an enum that is assigned automatically"""
    return t[0] == 'call' and t[1] == ('ext', 'enum.auto')


def is_const(t):
    return t[0] == 'c'


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def show(t):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if k == 'c':
        return repr(t[2])
    if k == 'sym':
        return t[1]
    if k == 'ext':
        return t[1].split('.')[-1]
    if k == 'attr':
        return show(t[1]) + '.' + t[2]
    if k == 'idx':
        return '%s[%s]' % (show(t[1]), show(t[2]))
    if k == 'call':
        return '%s(%s)' % (show(t[1]), ', '.join([show(a) for a in t[2]] + ['%s=%s' % (n, show(v)) for n, v in t[3]]))
    if k in ('bin', 'cmp'):
        return '(%s %s %s)' % (show(t[2]), t[1], show(t[3]))
    if k == 'not':
        return 'not ' + show(t[1])
    if k in ('and', 'or'):
        return '(' + (' %s ' % k).join(show(x) for x in t[1]) + ')'
    if k == 'cond':
        return '(%s if %s else %s)' % (show(t[2]), show(t[1]), show(t[3]))
    if k == 'tuple':
        return '(' + ', '.join(show(x) for x in t[1]) + ')'
    if k in ('cls', 'fn'):
        return t[2]
    if k == 'bm':
        return show(t[2])
    if k == 'enum':
        return '%s.%s' % (t[1][2], t[2])
    if k == 'elem':
        return 'each(%s)' % show(t[1])
    if k == 'ref':
        return '<%s>' % (t[1],)
    if k == 'builtin':
        return t[1]
    if k == 'strcat':
        return '+'.join(repr(p) if isinstance(p, str) else show(p) for p in t[1])
    return str(t)


class Effect:
    __slots__ = ('kind', 'target', 'args', 'kwargs', 'loops', 'pc', 'where', 'result')

    def __init__(self, kind, target, args, kwargs, loops, pc, where, result=None):
        self.kind, self.target, self.args, self.kwargs = kind, target, args, kwargs
        self.loops, self.pc, self.where, self.result = loops, pc, where, result

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return '%s %s(%s)' % (self.kind, show(self.target), ', '.join(show(a) for a in self.args))


class State:
    def __init__(self):
        self.heap = {}
        self.pc = {}            # condition term -> bool
        self.effects = []
        self.symattrs = {}      # (term, attr) -> value, for symbolic objects
        self.loops = ()
        self.counter = itertools.count(1)
        self.next = 1

    def fork(self):
        s = State.__new__(State)
        s.heap = {k: {kk: (list(vv) if isinstance(vv, list) else dict(vv) if isinstance(vv, dict) else vv)
                      for kk, vv in v.items()} for k, v in self.heap.items()}
        s.pc = dict(self.pc)
        s.effects = list(self.effects)
        s.symattrs = dict(self.symattrs)
        s.loops = self.loops
        s.next = self.next
        return s

    def new(self, kind, **kw):
        i = self.next
        self.next += 1
        self.heap[i] = dict(kind=kind, **kw)
        return ('ref', i)


class Env:
    """Local variables of one call (copied when a path forks)."""

    def __init__(self, module, cls, vars_, fn):
        self.module, self.cls, self.vars, self.fn = module, cls, vars_, fn

    def copy(self):
        return Env(self.module, self.cls, dict(self.vars), self.fn)


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.vars = {}
        self.done = False


class Interp:
    def __init__(self, max_paths=4000, max_depth=14):
        self.modules = {}
        self.classes = {}     # (module, name) -> dict(node, bases, attrs)
        self.fns = {}         # (module, qualname) -> (node, clsterm or None)
        self.files = _source_files()
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.opaque = lambda fn: False
        self.overrides = {}   # fn term -> python callable(interp, st, args, kwargs) -> [(st, val)]
        self.depth = 0
        self.analysed = set()
        self.base_state = State()
        self.fork_exceptions = True
        self.ignore_order = False     # whether elements are considered to be sorted already
        self.facts = []       # hooks(interp, st, term) -> True / False / None for otherwise unknown conditions

    # ------------------------------------------------------------ modules

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.files.get(name)
        if path is None:
            return None
        tree = _TREES.get(path)
        if tree is None:
            if path.endswith('.pyx'):
                import cyast
                tree = cyast.convert(path)
            else:
                with open(path, encoding='utf-8') as f:
                    tree = ast.parse(f.read(), path)
            _TREES[path] = tree
        m = Module(name, path, tree)
        self.modules[name] = m
        if path.endswith('.pyx') and os.path.exists(path[:-3] + 'pxd'):
            # names that are imported by the declarations of the module
            with open(path[:-3] + 'pxd', encoding='utf-8') as f:
                text = f.read().replace('\\\n', ' ')
            for mod, names in re.findall(r'^from\s+([\w.]+)\s+cimport\s+(\([^)]*\)|[^\n]*)', text, re.M):
                if mod not in self.files:
                    continue
                for part in names.strip('()').split(','):
                    w = part.split()
                    if w:
                        v = self.lookup_module_attr(mod, w[0])
                        if v[0] in ('cls', 'fn'):
                            m.vars.setdefault(w[-1], v)
        env = Env(m, None, m.vars, None)
        self._in_module = True
        st = self.base_state
        for s in tree.body:
            try:
                res = self.stmt(s, st, env)
            except Unsupported:
                continue
            if res:
                st2, env2, sig = res[0]
                if st2 is not st:      # forked at module level: keep the first path
                    self.base_state.__dict__.update(st2.__dict__)
                if env2.vars is not m.vars:
                    m.vars.update(env2.vars)
                    env = Env(m, None, m.vars, None)
                st = self.base_state
        m.done = True
        return m

    def lookup_module_attr(self, modname, attr):
        m = self.module(modname)
        if m is None:
            return ('ext', modname + '.' + attr)
        if attr in m.vars:
            return m.vars[attr]
        sub = modname + '.' + attr
        if sub in self.files:
            return ('mod', sub)
        return ('ext', modname + '.' + attr)

    def cls(self, module, name):
        self.module(module)
        t = ('cls', module, name)
        return t if (module, name) in self.classes else None

    def mro(self, c):
        if c[0] != 'cls':
            return [c]
        info = self.classes[(c[1], c[2])]
        if 'mro' not in info:
            seqs = [self.mro(b)[:] for b in info['bases']] + [list(info['bases'])]
            res = [c]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in o[1:] for o in seqs):
                        break
                else:
                    h = seqs[0][0]
                res.append(h)
                seqs = [[x for x in s if x != h] for s in seqs]
            info['mro'] = res
        return info['mro']

    def class_attr(self, c, name, after=None):
        """(definer, value) of an attribute looked up along the MRO (after `after` for super())."""
        m = self.mro(c)
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        for k in m:
            if k[0] == 'cls':
                a = self.classes[(k[1], k[2])]['attrs']
                if name in a:
                    return k, a[name]
        return None, None

    def is_enum(self, c):
        return any(k[0] == 'ext' and k[1].split('.')[-1] in ('Enum', 'IntEnum', 'Flag') for k in self.mro(c))

    # ------------------------------------------------------------ entry points

    def start(self):
        """A fresh state (module-level heap objects included)."""
        return self.base_state.fork()

    def call_method(self, st, obj, name, args=(), kwargs=None):
        res = []
        for st2, f in self.getattr(st, obj, name, None):
            res += self.call(st2, f, list(args), dict(kwargs or {}), None)
        return res

    # ------------------------------------------------------------ helpers

    def mangle(self, env, name):
        if env is not None and env.cls is not None and name.startswith('__') and not name.endswith('__'):
            return '_' + env.cls[2].split('.')[-1].lstrip('_') + name
        return name

    def where(self, node, env):
        if env is None or node is None:
            return ''
        path = os.path.relpath(env.module.path, facts.REPO)
        return '%s:%d' % (path, getattr(node, 'lineno', 0))

    def effect(self, st, kind, target, args, kwargs, node, env, result=None):
        st.effects.append(Effect(kind, target, tuple(args), tuple(sorted((kwargs or {}).items())), st.loops,
                                 tuple(st.pc.items()), self.where(node, env), result))

    def truth(self, st, t):
        """True / False / None."""
        k = t[0]
        if k == 'c':
            return bool(t[2])
        if k == 'not':
            r = self.truth(st, t[1])
            return None if r is None else not r
        if k in ('tuple',):
            return len(t[1]) > 0
        if k in ('cls', 'fn', 'bm', 'mod', 'enum'):
            return True
        if k == 'ref':
            h = st.heap[t[1]]
            if h['kind'] in ('list', 'set'):
                if h.get('sym'):
                    return None
                return len(h['items']) > 0
            if h['kind'] == 'dict':
                return None if h.get('sym') else len(h['items']) > 0
            return True
        if k == 'cond':
            c = self.truth(st, t[1])
            if c is not None:
                return self.truth(st, t[2] if c else t[3])
        if k == 'strcat' or k == 'sym' and t[1].startswith('str:'):
            return True
        if k == 'cmp' and t[1] == '==' and is_const(t[3]) and isinstance(t[3][2], int) and t[3][2] == 0 and \
                _is_len_of_str(t[2]):
            return False
        if k == 'cmp' and t[1] == '<' and is_const(t[2]) and t[2][2] == 0 and _is_len_of_str(t[3]):
            return True
        if k == 'cmp' and t[1] == '<=' and is_const(t[2]) and t[2][2] == 1 and _is_len_of_str(t[3]):
            return True
        if k == 'cmp' and t[1] == '==' and is_const(t[3]) and t[2][0] == 'strcat' and isinstance(t[3][2], str):
            p, x = t[2][1], t[3][2]
            if isinstance(p[0], str) and not x.startswith(p[0]) or isinstance(p[-1], str) and not x.endswith(p[-1]):
                return False
        if k == 'cmp' and t[1] == 'is' and t[3] == NONE and (t[2][0] == 'strcat' or
                                                             t[2][0] == 'sym' and t[2][1].startswith('str:')):
            return False
        if t in st.pc:
            return st.pc[t]
        for hook in self.facts:
            r = hook(self, st, t)
            if r is not None:
                return r
        if k == 'cmp' and t[1] == '==':
            # x == c1 is known, and c2 != c1
            for p, v in st.pc.items():
                if v and p[0] == 'cmp' and p[1] == '==' and p[2] == t[2] and is_const(p[3]) and is_const(t[3]) \
                        and p[3] != t[3]:
                    return False
        return None

    def branch(self, st, t):
        """[(state, bool)] for a condition term."""
        r = self.truth(st, t)
        if r is not None:
            return [(st, r)]
        if t[0] == 'not':
            return [(s, not b) for s, b in self.branch(st, t[1])]
        if t[0] in ('and', 'or'):
            cur = [(st, None)]
            out = []
            for x in t[1]:
                nxt = []
                for s, _ in cur:
                    for s2, b in self.branch(s, x):
                        if b == (t[0] == 'or'):
                            out.append((s2, b))
                        else:
                            nxt.append((s2, b))
                cur = nxt
            return out + cur
        a = st
        b = st.fork()
        a.pc[t] = True
        b.pc[t] = False
        return [(a, True), (b, False)]

    def by_identity(self, c):
        """whether instances of a class are only equal if they are identical"""
        if c is None:
            return False
        for k in self.mro(c):
            if k[0] == 'ext':
                if k[1] not in ('abc.ABC', 'object'):
                    return False
            elif k[0] != 'cls' or '__eq__' in self.classes[k[1:]]['attrs'] or self.classes[k[1:]]['node'].decorator_list:
                return False
        return True

    def norm_cmp(self, st, op, a, b):
        if op in ('!=', 'is not', 'not in'):
            t = self.norm_cmp(st, {'!=': '==', 'is not': 'is', 'not in': 'in'}[op], a, b)
            return const(not t[2]) if is_const(t) else ('not', t)
        if op == 'in':
            items = self.items(st, b)
            if items is not None:
                rs = [self.norm_cmp(st, '==', a, x) for x in items]
                if any(is_const(r) and r[2] for r in rs):
                    return TRUE
                rs = [r for r in rs if not (is_const(r) and not r[2])]
                if not rs:
                    return FALSE
                return rs[0] if len(rs) == 1 else ('or', tuple(rs))
            if is_const(a) and is_const(b):
                try:
                    return const(a[2] in b[2])
                except TypeError:
                    pass
            return ('cmp', 'in', a, b)
        if op in ('==', 'is'):
            if a == b and a[0] != 'call':
                return TRUE
            if a[0] == 'ref' and b[0] == 'ref' and all(st.heap[x[1]]['kind'] == 'obj' and (op == 'is' or self.by_identity(
                    st.heap[x[1]].get('cls'))) for x in (a, b)):
                return FALSE
            if a[0] == 'tuple' and b[0] == 'tuple':
                if len(a[1]) != len(b[1]):
                    return FALSE
                rs = [self.norm_cmp(st, '==', x, y) for x, y in zip(a[1], b[1])]
                if all(is_const(r) for r in rs):
                    return const(all(r[2] for r in rs))
            vals = ('c', 'enum', 'cls', 'fn', 'ref', 'bm', 'mod', 'tuple', 'array', 'ptr')
            if is_const(a) and is_const(b):
                return const(a[2] == b[2])
            if a[0] in vals and b[0] in vals:
                if a[0] == 'ref' and b[0] == 'ref' and op == '==':
                    ca, cb = st.heap[a[1]].get('cls'), st.heap[b[1]].get('cls')
                    if ca and ca[0] == 'cls' and self.class_attr(ca, '__eq__')[0]:
                        res = self.call_method(st, a, '__eq__', [b])
                        if len(res) == 1 and is_const(res[0][1]):
                            return res[0][1]
                    return ('cmp', '==', a, b)
                if a[0] == 'ref' or b[0] == 'ref':
                    return FALSE if op == 'is' or NONE in (a, b) else ('cmp', op, a, b)
                return FALSE
            if a[0] == 'c':
                a, b = b, a
            if b == NONE:
                op = 'is'
            if a[0] == 'cond' and (a[2][0] in vals) and (a[3][0] in vals):
                x, y = self.norm_cmp(st, op, a[2], b), self.norm_cmp(st, op, a[3], b)
                if is_const(x) and is_const(y):
                    if x[2] == y[2]:
                        return x
                    return a[1] if x[2] else ('not', a[1])
            return ('cmp', op, a, b)
        if is_const(a) and is_const(b):
            try:
                return const({'<': a[2] < b[2], '<=': a[2] <= b[2], '>': a[2] > b[2], '>=': a[2] >= b[2]}[op])
            except TypeError:
                pass
        if op in ('>', '>='):
            return ('cmp', {'>': '<', '>=': '<='}[op], b, a)
        return ('cmp', op, a, b)

    def items(self, st, t):
        """Elements of a container whose content is known, else None."""
        if t[0] == 'tuple':
            return list(t[1])
        if t[0] == 'ref':
            h = st.heap[t[1]]
            if h['kind'] in ('list', 'set') and not h.get('sym'):
                return list(h['items'])
            if h['kind'] == 'dict' and not h.get('sym'):
                return [k for k, _ in h['items']]
        if t[0] == 'c' and isinstance(t[2], (str, list, tuple, range)):
            return [const(x) for x in t[2]]
        if t[0] == 'cls' and self.is_enum(t):
            return [self.enum_member(t, n) for n in self.classes[t[1:]]['order']
                    if not n.startswith('_') and (self.classes[t[1:]]['attrs'][n][0] == 'c' or
                                                   is_auto(self.classes[t[1:]]['attrs'][n]))]
        return None

    def enum_member(self, c, name):
        v = self.classes[c[1:]]['attrs'][name]
        if is_auto(v):
            names = [n for n in self.classes[c[1:]]['order'] if not n.startswith('_')]
            v = const(names.index(name) + 1)
        return ('enum', c, name, v)

    # ------------------------------------------------------------ attributes

    def getattr(self, st, o, name, env, node=None):
        k = o[0]
        if k == 'mod':
            return [(st, self.lookup_module_attr(o[1], name))]
        if k == 'ext':
            return [(st, ('ext', o[1] + '.' + name))]
        if k == 'enum':
            if name == 'value':
                return [(st, o[3])]
            if name == 'name':
                return [(st, const(o[2]))]
            d, v = self.class_attr(o[1], name)
            if d is not None and v[0] == 'fn':
                return [(st, ('bm', o, v))]
        if k == 'cls':
            if name == '__name__':
                return [(st, const(o[2]))]
            d, v = self.class_attr(o, name)
            if d is not None:
                if self.is_enum(o) and (v[0] == 'c' or is_auto(v)) and not name.startswith('_'):
                    return [(st, self.enum_member(o, name))]
                if v[0] == 'fn' and 'classmethod' in self.decorators(v):
                    return [(st, ('bm', o, v))]
                return [(st, v)]
            return [(st, ('attr', o, name))]
        if k == 'super':
            _, selfv, after = o
            c = self.type_of(st, selfv) or after
            d, v = self.class_attr(c, name, after)
            if d is None:
                return [(st, ('attr', o, name))]
            if v[0] == 'fn':
                decs = self.decorators(v)
                if 'property' in decs:
                    return self.call(st, v, [selfv], {}, node)
                if 'staticmethod' in decs:
                    return [(st, v)]
                return [(st, ('bm', selfv, v))]
            return [(st, v)]
        if k == 'ref':
            h = st.heap[o[1]]
            if h['kind'] == 'obj':
                if name in h['attrs']:
                    return [(st, h['attrs'][name])]
                if name == '__class__':
                    return [(st, h['cls'])]
                if name == '__dict__':
                    return [(st, st.new('dict', items=[(const(a), b) for a, b in h['attrs'].items()]))]
                c = h['cls']
                d, v = self.class_attr(c, name)
                if d is not None:
                    if v[0] == 'fn':
                        decs = self.decorators(v)
                        if 'property' in decs or 'cached_property' in decs:
                            return self.call(st, v, [o], {}, node)
                        if 'staticmethod' in decs:
                            return [(st, v)]
                        return [(st, ('bm', o, v))]
                    return [(st, v)]
                return [(st, ('attr', o, name))]
            return [(st, ('attr', o, name))]
        if (o, name) in st.symattrs:
            return [(st, st.symattrs[(o, name)])]
        if k == 'cond':
            res = []
            for s, b in self.branch(st, o[1]):
                res += self.getattr(s, o[2] if b else o[3], name, env, node)
            return res
        return [(st, ('attr', o, name))]

    def decorators(self, fn):
        node, _ = self.fns[fn[1:]]
        res = set()
        for d in node.decorator_list:
            if isinstance(d, ast.Call):
                d = d.func
            res.add(d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else '?')
        return res

    def type_of(self, st, v):
        if v[0] == 'ref' and st.heap[v[1]]['kind'] == 'obj':
            return st.heap[v[1]]['cls']
        if v[0] == 'enum':
            return v[1]
        if v[0] == 'cls':
            return v
        if v[0] == 'sym' and ('type', v) in st.symattrs:
            return st.symattrs[('type', v)]
        return None

    def setattr(self, st, o, name, value, node, env):
        if o[0] == 'ref' and st.heap[o[1]]['kind'] == 'obj':
            st.heap[o[1]]['attrs'][name] = value
            if st.heap[o[1]].get('watch'):
                self.effect(st, 'setattr', o, [const(name), value], {}, node, env)
            return
        if o[0] == 'mod':
            return
        st.symattrs[(o, name)] = value
        self.effect(st, 'setattr', o, [const(name), value], {}, node, env)

    # ------------------------------------------------------------ calls

    def call(self, st, f, args, kwargs, node, env=None):
        k = f[0]
        if f in self.overrides:
            r = self.overrides[f](self, st, args, kwargs, node, env)
            if r is not None:
                return r
        if k == 'bm':
            if f[2] in self.overrides:
                r = self.overrides[f[2]](self, st, [f[1]] + args, kwargs, node, env)
                if r is not None:
                    return r
            return self.call(st, f[2], [f[1]] + args, kwargs, node, env)
        if k == 'fn':
            if not self.opaque(f) and self.depth < self.max_depth:
                return self.inline(st, f, args, kwargs, node, env)
            return self.unknown_call(st, f, args, kwargs, node, env)
        if k == 'lambda':
            return self.inline_lambda(st, f, args, kwargs)
        if k == 'cls':
            return self.instantiate(st, f, args, kwargs, node, env)
        if k == 'cond':
            res = []
            for s, b in self.branch(st, f[1]):
                res += self.call(s, f[2] if b else f[3], args, kwargs, node, env)
            return res
        if k == 'attr':
            r = self.builtin_method(st, f[1], f[2], args, kwargs, node, env)
            if r is not None:
                return r
        if k == 'builtin':
            r = self.builtin(st, f[1], args, kwargs, node, env)
            if r is not None:
                return r
        if f == ('ext', 'functools.reduce') and len(args) in (2, 3) and not kwargs:
            its = self.items(st, args[1])
            if its is not None and len(its) + len(args) > 2:
                cur = [(st, args[2] if len(args) == 3 else its[0])]
                for x in its if len(args) == 3 else its[1:]:
                    cur = [q for s, v in cur for q in
                           ([(s, v)] if v[0] == 'raise' else self.call(s, args[0], [v, x], {}, node, env))]
                    if len(cur) > self.max_paths:
                        raise Unsupported('too many paths')
                return cur
        return self.unknown_call(st, f, args, kwargs, node, env)

    def unknown_call(self, st, f, args, kwargs, node, env):
        t = ('call', f, tuple(args), tuple(sorted(kwargs.items())))
        self.effect(st, 'call', f, args, kwargs, node, env, t)
        return [(st, t)]

    def instantiate(self, st, c, args, kwargs, node, env):
        if self.is_enum(c) and len(args) == 1:
            for m in self.items(st, c) or ():
                if m[3] == args[0]:
                    return [(st, m)]
            return self.unknown_call(st, c, args, kwargs, node, env)
        if self.opaque(c):
            return self.unknown_call(st, c, args, kwargs, node, env)
        o = st.new('obj', cls=c, attrs={})
        self.effect(st, 'new', c, args, kwargs, node, env, o)
        for ctor in ('__cinit__', '__init__'):
            d, v = self.class_attr(c, ctor)
            if d is not None:
                res = []
                for s, r in self.call(st, ('bm', o, v), args, kwargs, node, env):
                    if r is not None and r[0] == 'raise':
                        res.append((s, r))
                    else:
                        res.append((s, o))
                return res
        # dataclass
        info = self.classes[c[1:]]
        if any('dataclass' in ast.dump(d) for d in info['node'].decorator_list):
            fields = [n.target.id for n in info['node'].body if isinstance(n, ast.AnnAssign)]
            for n, v in list(zip(fields, args)) + list(kwargs.items()):
                st.heap[o[1]]['attrs'][n] = v
        elif args or kwargs:
            st.heap[o[1]]['args'] = tuple(args)
            st.heap[o[1]]['kwargs'] = dict(kwargs)
        return [(st, o)]

    def bind(self, st, node, args, kwargs, defenv):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vars_ = {}
        pos = list(args)
        star = []
        for i, v in enumerate(pos):
            if isinstance(v, tuple) and v and v[0] == 'star':
                star.append(v)
                continue
            if i < len(names):
                vars_[names[i]] = v
            elif a.vararg is None:
                vars_['<extra>'] = v
        if a.vararg is not None:
            vars_[a.vararg.arg] = ('tuple', tuple(x for x in pos[len(names):]))
        kw = dict(kwargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                vars_[n] = kw.pop(n)
        starkw = kw.pop('**', None)
        if a.kwarg is not None:
            if starkw is not None and not kw:
                vars_[a.kwarg.arg] = starkw
            else:
                vars_[a.kwarg.arg] = st.new('dict', items=[(const(k), v) for k, v in kw.items()],
                                            **({'sym': starkw} if starkw is not None else {}))
        defaults = dict(zip(reversed(names), reversed(a.defaults)))
        for n, d in zip([x.arg for x in a.kwonlyargs], a.kw_defaults):
            if d is not None:
                defaults[n] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in vars_:
                if n in defaults:
                    r = self.expr(defaults[n], st, defenv)
                    vars_[n] = r[0][1] if r else ('sym', n)
                elif star or starkw is not None:
                    vars_[n] = ('sym', 'star:' + n)
                else:
                    vars_[n] = ('sym', 'missing:' + n)
        return vars_

    def inline(self, st, f, args, kwargs, node, env):
        fnode, cls = self.fns[f[1:]]
        self.analysed.add(f[1:])
        mod = self.module(f[1])
        denv = Env(mod, cls, mod.vars, None)
        closure = self.classes.get(('closure',) + f[1:])
        vars_ = dict(closure) if closure else {}
        vars_.update(self.bind(st, fnode, args, kwargs, denv))
        e = Env(mod, cls, vars_, f)
        if _is_generator(fnode):
            vars_['<yield>'] = st.new('list', items=[])
        self.depth += 1
        try:
            outs = self.block(fnode.body, st, e)
        finally:
            self.depth -= 1
        res = []
        for s, e2, sig in outs:
            if sig is None:
                res.append((s, e2.vars.get('<yield>', NONE)))
            elif sig[0] == 'return':
                res.append((s, e2.vars.get('<yield>', sig[1])))
            elif sig[0] == 'raise':
                res.append((s, ('raise', sig[1])))
        return res

    def inline_lambda(self, st, f, args, kwargs):
        node, env = _LAMBDAS[f[1]]
        e = env.copy()
        e.vars.update(self.bind(st, node, args, kwargs, env))
        return self.expr(node.body, st, e)

    # ------------------------------------------------------------ builtins

    def builtin(self, st, name, args, kwargs, node, env):
        a = args
        if any(x[0] == 'star' for x in a):
            return None
        try:
            if name in ('str', 'int', 'float', 'bool', 'len', 'repr', 'abs') and len(a) == 1 and is_const(a[0]):
                return [(st, const({'str': str, 'int': int, 'float': float, 'bool': bool, 'len': len, 'repr': repr,
                                    'abs': abs}[name](a[0][2])))]
            if name in ('min', 'max', 'round') and a and all(is_const(x) for x in a) and (len(a) > 1 or name == 'round'):
                return [(st, const({'min': min, 'max': max, 'round': round}[name](*[x[2] for x in a])))]
            if name in ('min', 'max', 'sum') and len(a) == 1 and not kwargs:
                its = self.items(st, a[0])
                if its and all(is_const(x) and isinstance(x[2], (int, float)) for x in its):
                    return [(st, const({'min': min, 'max': max, 'sum': sum}[name]([x[2] for x in its])))]
        except (ValueError, TypeError, KeyError):
            return [(st, ('raise', ('ext', 'ValueError')))]
        if name == 'bool' and len(a) == 1:
            r = self.truth(st, a[0])
            if r is not None:
                return [(st, const(r))]
        if name == 'str' and len(a) == 1 and (a[0][0] == 'strcat' or a[0][0] == 'sym' and a[0][1].startswith('str:')):
            return [(st, a[0])]
        if name == 'len' and len(a) == 1:
            it = self.items(st, a[0])
            if it is not None:
                return [(st, const(len(it)))]
            return [(st, ('call', ('builtin', 'len'), tuple(a), ()))]
        if name in ('str', 'int', 'float', 'repr', 'abs', 'round', 'min', 'max', 'sum', 'hash', 'id', 'iter', 'next',
                    'reversed', 'any', 'all', 'range', 'map', 'filter', 'print', 'bool'):
            if name == 'str' and len(a) == 1 and a[0][0] == 'enum':
                return [(st, const('%s.%s' % (a[0][1][2], a[0][2])))]
            t = ('call', ('builtin', name), tuple(a), tuple(sorted(kwargs.items())))
            if name in ('range',) and all(is_const(x) for x in a):
                return [(st, ('tuple', tuple(const(i) for i in list(range(*[x[2] for x in a]))[:64])))]
            if name in ('reversed',) and self.items(st, a[0]) is not None:
                return [(st, ('tuple', tuple(reversed(self.items(st, a[0])))))]
            if name == 'next':
                self.effect(st, 'call', ('builtin', name), a, kwargs, node, env, t)
            return [(st, t)]
        if name in ('list', 'set', 'tuple', 'sorted', 'frozenset'):
            if not a:
                return [(st, ('tuple', ()) if name == 'tuple' else
                         st.new('set' if 'set' in name else 'list', items=[]))]
            it = self.items(st, a[0])
            if it is not None and name != 'sorted':
                if name == 'tuple':
                    return [(st, ('tuple', tuple(it)))]
                return [(st, st.new('set' if 'set' in name else 'list', items=it))]
            if it is not None and name == 'sorted' and all(is_const(x) for x in it) and not kwargs:
                return [(st, st.new('list', items=sorted(it, key=lambda x: x[2])))]
            if it is not None and name == 'sorted' and self.ignore_order:
                return [(st, st.new('list', items=list(it)))]
            return [(st, ('call', ('builtin', name), tuple(a), tuple(sorted(kwargs.items()))))]
        if name == 'dict':
            if not a and '**' not in kwargs:
                return [(st, st.new('dict', items=[(const(k), v) for k, v in kwargs.items()]))]
            if len(a) == 1 and a[0][0] == 'ref' and st.heap[a[0][1]]['kind'] == 'dict':
                return [(st, st.new('dict', items=list(st.heap[a[0][1]]['items']),
                                    **({'sym': st.heap[a[0][1]]['sym']} if st.heap[a[0][1]].get('sym') else {})))]
            return None
        if name == 'enumerate' and a:
            it = self.items(st, a[0])
            if it is not None:
                return [(st, ('tuple', tuple(('tuple', (const(i), x)) for i, x in enumerate(it))))]
            return [(st, ('call', ('builtin', 'enumerate'), tuple(a), tuple(sorted(kwargs.items()))))]
        if name == 'zip':
            its = [self.items(st, x) for x in a]
            if all(i is not None for i in its):
                return [(st, ('tuple', tuple(('tuple', tuple(x)) for x in zip(*its))))]
            return [(st, ('call', ('builtin', 'zip'), tuple(a), ()))]
        if name == 'type' and len(a) == 1:
            c = self.type_of(st, a[0])
            return [(st, c if c is not None else ('call', ('builtin', 'type'), tuple(a), ()))]
        if name in ('issubclass', 'isinstance') and len(a) == 2:
            c = a[0] if name == 'issubclass' else self.type_of(st, a[0])
            opts = list(a[1][1]) if a[1][0] == 'tuple' else [a[1]]
            if c is not None and c[0] == 'cls':
                m = self.mro(c)
                return [(st, const(any(x in m for x in opts)))]
            if name == 'isinstance' and is_const(a[0]):
                names = {x[1].split('.')[-1] for x in opts if x[0] in ('builtin', 'ext')}
                return [(st, const(a[0][1] in names))]
            if name == 'isinstance' and a[0][0] == 'ref' and st.heap[a[0][1]]['kind'] != 'obj':
                names = {x[1] for x in opts if x[0] == 'builtin'}
                return [(st, const(st.heap[a[0][1]]['kind'] in names))]
            return [(st, ('call', ('builtin', name), tuple(a), ()))]
        if name == 'hasattr' and len(a) == 2 and is_const(a[1]):
            o = a[0]
            if o[0] == 'ref' and st.heap[o[1]]['kind'] == 'obj':
                h = st.heap[o[1]]
                if a[1][2] in h['attrs'] or self.class_attr(h['cls'], a[1][2])[0] is not None:
                    return [(st, TRUE)]
                if all(k[0] == 'cls' or k[1].split('.')[-1] in ('ABC', 'object', 'Enum') for k in self.mro(h['cls'])):
                    return [(st, FALSE)]
                if not h.get('open'):
                    return [(st, FALSE)]
            return [(st, ('call', ('builtin', 'hasattr'), tuple(a), ()))]
        if name == 'getattr' and len(a) >= 2 and is_const(a[1]):
            o = a[0]
            if len(a) == 3 and o[0] == 'ref' and st.heap[o[1]]['kind'] == 'obj':
                h = st.heap[o[1]]
                if a[1][2] not in h['attrs'] and self.class_attr(h['cls'], a[1][2])[0] is None:
                    return [(st, a[2])]
            return self.getattr(st, o, a[1][2], env, node)
        if name == 'setattr' and len(a) == 3 and is_const(a[1]):
            self.setattr(st, a[0], a[1][2], a[2], node, env)
            return [(st, NONE)]
        if name == 'vars' and len(a) == 1:
            return [(st, ('attr', a[0], '__dict__'))]
        if name == '__cast__':
            if a[0] == const('array'):
                return [(st, ('array', a[1], tuple(a[2:])))]
            return [(st, a[1])]
        if name == '__addr__':
            return [(st, a[0])]
        return None

    STR_METHODS = ('startswith', 'endswith', 'split', 'strip', 'lower', 'upper', 'replace', 'join', 'find', 'rstrip',
                   'lstrip', 'format', 'rfind', 'partition', 'title', 'capitalize', 'isdigit', 'index', 'rindex', 'count',
                   'removeprefix', 'removesuffix', 'rpartition', 'rsplit', 'splitlines', 'zfill', 'isspace')

    def str_method(self, st, o, name, args):
        """Methods of a string with a symbolic part. The symbolic parts are opaque atoms: not empty and free of white
        space and separators (assumption stated by the rules that use them)."""
        parts = list(o[1])
        if name in ('startswith', 'endswith') and len(args) == 1 and is_const(args[0]):
            x = args[0][2]
            p = parts[0] if name == 'startswith' else parts[-1]
            if isinstance(p, str):
                k = min(len(p), len(x))
                a, b = (p[:k], x[:k]) if name == 'startswith' else (p[-k:] if k else '', x[-k:] if k else '')
                if a != b:
                    return FALSE
                if len(p) >= len(x):
                    return TRUE
            elif len(x) == 0:
                return TRUE
            elif x in '{}[]':
                return FALSE
            return None
        if name in ('strip', 'lstrip', 'rstrip') and not args:
            if name != 'rstrip' and isinstance(parts[0], str):
                parts[0] = parts[0].lstrip()
            if name != 'lstrip' and isinstance(parts[-1], str):
                parts[-1] = parts[-1].rstrip()
            return self.strcat(parts)
        if name == 'split' and len(args) == 1 and is_const(args[0]) and isinstance(args[0][2], str):
            sep = args[0][2]
            groups = [[]]
            for p in parts:
                if isinstance(p, str):
                    bits = p.split(sep)
                    groups[-1].append(bits[0])
                    for b in bits[1:]:
                        groups.append([b])
                else:
                    groups[-1].append(p)
            return st.new('list', items=[self.strcat(g) for g in groups])
        return None

    def strcat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if p == '':
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        if not out:
            return const('')
        if len(out) == 1:
            return const(out[0]) if isinstance(out[0], str) else out[0]
        return ('strcat', tuple(out))

    def builtin_method(self, st, o, name, args, kwargs, node, env):
        if o[0] == 'strcat' or (o[0] == 'sym' and o[1].startswith('str:')):
            r = self.str_method(st, o if o[0] == 'strcat' else ('strcat', (o,)), name, args)
            if r is not None:
                return [(st, r)]
        if name == '__new__' and o[0] == 'cls' and args and args[0] == o:
            return self.instantiate(st, o, args[1:], kwargs, node, env)
        if is_const(o) and isinstance(o[2], str) and name in self.STR_METHODS:
            vals = []
            for x in args:
                if is_const(x):
                    vals.append(x[2])
                else:
                    it = self.items(st, x)
                    if it is None or not all(is_const(y) for y in it):
                        return [(st, ('call', ('attr', o, name), tuple(args), ()))]
                    vals.append([y[2] for y in it])
            try:
                r = getattr(o[2], name)(*vals)
            except (TypeError, ValueError):
                return None
            if isinstance(r, list):
                return [(st, st.new('list', items=[const(x) for x in r]))]
            if isinstance(r, tuple):
                return [(st, ('tuple', tuple(const(x) for x in r)))]
            return [(st, const(r))]
        if o[0] == 'ref':
            h = st.heap[o[1]]
            kind = h['kind']
            if kind == 'list':
                if name == 'append' and len(args) == 1:
                    v = args[0]
                    if st.loops:
                        v = ('each', st.loops, v, tuple(st.pc.items()))
                    h['items'].append(v)
                    return [(st, NONE)]
                if name == 'extend' and len(args) == 1:
                    it = self.items(st, args[0])
                    if it is not None:
                        h['items'].extend(it)
                    else:
                        h['items'].append(('all', args[0]))
                    return [(st, NONE)]
                if name == 'copy' and not args:
                    return [(st, st.new('list', items=list(h['items'])))]
                if name == 'pop' and not args and h['items'] and not h.get('sym'):
                    return [(st, h['items'].pop())]
                if name == 'clear' and not args:
                    h['items'].clear()
                    return [(st, NONE)]
                if name == 'reverse' and not args and not st.loops and not h.get('sym'):
                    h['items'].reverse()
                    return [(st, NONE)]
                if name == 'sort' and not args and not kwargs and not st.loops and not h.get('sym') and \
                        all(is_const(x) for x in h['items']):
                    try:
                        h['items'].sort(key=lambda x: x[2])
                        return [(st, NONE)]
                    except TypeError:
                        pass
                if name == 'insert' and len(args) == 2 and is_const(args[0]):
                    h['items'].insert(args[0][2], args[1])
                    return [(st, NONE)]
            if kind == 'set':
                if name == 'add' and len(args) == 1:
                    self.set_add(st, h, args[0])
                    return [(st, NONE)]
                if name in ('union', 'update') and len(args) == 1 and self.items(st, args[0]) is not None:
                    t = h if name == 'update' else st.heap[st.new('set', items=list(h['items']))[1]]
                    for x in self.items(st, args[0]):
                        self.set_add(st, t, x)
                    if name == 'update':
                        return [(st, NONE)]
                    return [(st, ('ref', [i for i, v in st.heap.items() if v is t][0]))]
            if kind == 'dict':
                if name in ('items', 'keys', 'values') and not args and not h.get('sym'):
                    if name == 'items':
                        return [(st, ('tuple', tuple(('tuple', (k, v)) for k, v in h['items'])))]
                    return [(st, ('tuple', tuple((k if name == 'keys' else v) for k, v in h['items'])))]
                if name == 'get' and args and not h.get('sym'):
                    default = args[1] if len(args) > 1 else NONE
                    if is_const(args[0]) and all(is_const(k) for k, _ in h['items']):
                        for k, v in h['items']:
                            if k == args[0]:
                                return [(st, v)]
                        return [(st, default)]
                if name == 'setdefault' and len(args) == 2:
                    for k, v in h['items']:
                        if k == args[0]:
                            return [(st, v)]
                    h['items'].append((args[0], args[1]))
                    return [(st, args[1])]
                if name == 'update' and len(args) == 1:
                    if args[0][0] == 'ref' and st.heap[args[0][1]]['kind'] == 'dict':
                        for k, v in st.heap[args[0][1]]['items']:
                            self.dict_set(h, k, v)
                        if st.heap[args[0][1]].get('sym'):
                            h['sym'] = st.heap[args[0][1]]['sym']
                    else:
                        h['sym'] = ('update', h.get('sym', NONE), args[0])
                    return [(st, NONE)]
                if name == 'pop' and args and is_const(args[0]):
                    for i, (k, v) in enumerate(h['items']):
                        if k == args[0]:
                            del h['items'][i]
                            return [(st, v)]
                    if len(args) > 1:
                        return [(st, args[1])]
                if name == 'copy':
                    return [(st, st.new('dict', items=list(h['items']),
                                        **({'sym': h['sym']} if h.get('sym') else {})))]
        return None

    def set_add(self, st, h, v):
        for x in h['items']:
            r = self.norm_cmp(st, '==', x, v)
            if is_const(r) and r[2]:
                return
        h['items'].append(v)

    def dict_set(self, h, k, v):
        for i, (k2, _) in enumerate(h['items']):
            if k2 == k:
                h['items'][i] = (k, v)
                return
        h['items'].append((k, v))

    # ------------------------------------------------------------ expressions

    def exprs(self, nodes, st, env):
        """Evaluates several expressions: [(state, [values])]; a raised exception ends the list early."""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                if vs and vs[-1][0] == 'raise':
                    nxt.append((s, vs))
                    continue
                for s2, v in self.expr(n, s, env):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def expr(self, n, st, env):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            return [(st, ('sym', 'unsupported:' + type(n).__name__))]
        return m(n, st, env)

    def x_Constant(self, n, st, env):
        return [(st, const(n.value))]

    def x_Name(self, n, st, env):
        if n.id in env.vars:
            return [(st, env.vars[n.id])]
        if n.id in env.module.vars:
            return [(st, env.module.vars[n.id])]
        if n.id in _BUILTINS:
            return [(st, ('builtin', n.id))]
        return [(st, ('ext', n.id))]

    def x_Attribute(self, n, st, env):
        res = []
        for s, o in self.expr(n.value, st, env):
            if o[0] == 'raise':
                res.append((s, o))
                continue
            res += self.getattr(s, o, self.mangle(env, n.attr), env, n)
        return res

    def x_Tuple(self, n, st, env):
        res = []
        for s, vs in self.exprs(n.elts, st, env):
            if vs and vs[-1][0] == 'raise':
                res.append((s, vs[-1]))
            else:
                out = []
                for v in vs:
                    if v[0] == 'star' and self.items(s, v[1]) is not None:
                        out += self.items(s, v[1])
                    else:
                        out.append(v)
                res.append((s, ('tuple', tuple(out))))
        return res

    def x_List(self, n, st, env):
        res = []
        for s, t in self.x_Tuple(n, st, env):
            res.append((s, s.new('list', items=list(t[1])) if t[0] == 'tuple' else t))
        return res

    def x_Set(self, n, st, env):
        res = []
        for s, t in self.x_Tuple(n, st, env):
            if t[0] != 'tuple':
                res.append((s, t))
                continue
            r = s.new('set', items=[])
            for x in t[1]:
                self.set_add(s, s.heap[r[1]], x)
            res.append((s, r))
        return res

    def x_Dict(self, n, st, env):
        res = []
        keys = [k for k in n.keys if k is not None]
        for s, ks in self.exprs(keys, st, env):
            for s2, vs in self.exprs(n.values, s, env):
                r = s2.new('dict', items=[])
                ki = iter(ks)
                for k, v in zip(n.keys, vs):
                    if k is None:
                        if v[0] == 'ref' and s2.heap[v[1]]['kind'] == 'dict':
                            for a, b in s2.heap[v[1]]['items']:
                                self.dict_set(s2.heap[r[1]], a, b)
                        else:
                            s2.heap[r[1]]['sym'] = v
                    else:
                        self.dict_set(s2.heap[r[1]], next(ki), v)
                res.append((s2, r))
        return res

    def x_Starred(self, n, st, env):
        return [(s, ('star', v)) for s, v in self.expr(n.value, st, env)]

    def x_Subscript(self, n, st, env):
        res = []
        for s, o in self.expr(n.value, st, env):
            if isinstance(n.slice, ast.Slice):
                parts = [n.slice.lower, n.slice.upper, n.slice.step]
                for s2, vs in self.exprs([p or ast.Constant(None) for p in parts], s, env):
                    res.append((s2, self.slice(s2, o, vs)))
                continue
            for s2, k in self.expr(n.slice, s, env):
                res += self.getitem(s2, o, k, n, env)
        return res

    def slice(self, st, o, vs):
        if o[0] == 'strcat' and all(is_const(v) for v in vs) and vs[2] == NONE:
            parts = list(o[1])
            lo, hi = vs[0][2] or 0, vs[1][2]
            if lo >= 0 and isinstance(parts[0], str) and len(parts[0]) >= lo and (hi is None or hi < 0):
                parts[0] = parts[0][lo:]
                if hi is None:
                    return self.strcat(parts)
                if isinstance(parts[-1], str) and len(parts[-1]) >= -hi:
                    parts[-1] = parts[-1][:hi]
                    return self.strcat(parts)
        if all(is_const(v) for v in vs):
            sl = slice(*[v[2] for v in vs])
            if is_const(o) and isinstance(o[2], str):
                return const(o[2][sl])
            it = self.items(st, o)
            if it is not None:
                return ('tuple', tuple(it[sl])) if o[0] == 'tuple' else st.new('list', items=it[sl])
        return ('slice', o, tuple(vs))

    def getitem(self, st, o, k, node, env):
        if o[0] == 'raise':
            return [(st, o)]
        if o[0] == 'ref':
            h = st.heap[o[1]]
            if h['kind'] == 'dict':
                for a, b in reversed(h['items']):
                    if a == k:
                        return [(st, b)]
                if (o, k) in st.symattrs:
                    return [(st, st.symattrs[(o, k)])]
            if h['kind'] == 'obj':
                d, v = self.class_attr(h['cls'], '__getitem__')
                if d is not None:
                    return self.call(st, ('bm', o, v), [k], {}, node, env)
        it = self.items(st, o) if o[0] in ('tuple', 'ref', 'c') else None
        if it is not None and is_const(k) and isinstance(k[2], int) and not (o[0] == 'ref' and
                                                                            st.heap[o[1]]['kind'] == 'dict'):
            if -len(it) <= k[2] < len(it):
                return [(st, it[k[2]])]
            return [(st, ('raise', ('ext', 'IndexError')))]
        if o[0] == 'cls' and self.is_enum(o) and is_const(k):
            return [(st, self.enum_member(o, k[2]))] if k[2] in self.classes[o[1:]]['attrs'] else \
                [(st, ('raise', ('ext', 'KeyError')))]
        if (o, k) in st.symattrs:
            return [(st, st.symattrs[(o, k)])]
        return [(st, ('idx', o, k))]

    def x_Slice(self, n, st, env):
        return [(s, ('slice', NONE, tuple(vs))) for s, vs in
                self.exprs([p or ast.Constant(None) for p in (n.lower, n.upper, n.step)], st, env)]

    def x_Call(self, n, st, env):
        res = []
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and env.cls is not None:
            selfname = self.fns[env.fn[1:]][0].args.args[0].arg if env.fn else 'self'
            return [(st, ('super', env.vars.get(selfname, ('sym', 'self')), env.cls))]
        for s, f in self.expr(n.func, st, env):
            if f[0] == 'raise':
                res.append((s, f))
                continue
            for s2, args in self.exprs(n.args, s, env):
                if args and args[-1][0] == 'raise':
                    res.append((s2, args[-1]))
                    continue
                flat = []
                for a in args:
                    if a[0] == 'star' and self.items(s2, a[1]) is not None:
                        flat += self.items(s2, a[1])
                    else:
                        flat.append(a)
                for s3, kvs in self.exprs([k.value for k in n.keywords], s2, env):
                    if kvs and kvs[-1][0] == 'raise':
                        res.append((s3, kvs[-1]))
                        continue
                    kw = {}
                    for k, v in zip(n.keywords, kvs):
                        if k.arg is None:
                            if v[0] == 'ref' and s3.heap[v[1]]['kind'] == 'dict':
                                for a, b in s3.heap[v[1]]['items']:
                                    if is_const(a):
                                        kw[a[2]] = b
                                if s3.heap[v[1]].get('sym'):
                                    kw['**'] = s3.heap[v[1]]['sym']
                            else:
                                kw['**'] = v
                        else:
                            kw[k.arg] = v
                    res += self.call(s3, f, flat, kw, n, env)
                    if len(res) > self.max_paths:
                        raise Unsupported('too many paths')
        return res

    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
           ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}

    def binop(self, st, op, a, b):
        if is_const(a) and is_const(b):
            try:
                v = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y,
                     '/': lambda x, y: x / y, '//': lambda x, y: x // y, '%': lambda x, y: x % y,
                     '|': lambda x, y: x | y, '&': lambda x, y: x & y}[op](a[2], b[2])
                if isinstance(v, (int, float, str, bool)):
                    return const(v)
            except Exception:
                pass
        if op == '+' and 'strcat' in (a[0], b[0]) or op == '+' and any(x[0] == 'sym' and x[1].startswith('str:')
                                                                       for x in (a, b)):
            def parts(x):
                return list(x[1]) if x[0] == 'strcat' else [x[2]] if is_const(x) else [x]
            if all(x[0] != 'c' or isinstance(x[2], str) for x in (a, b)):
                return self.strcat(parts(a) + parts(b))
        ia, ib = (self.items(st, x) if x[0] in ('ref', 'tuple') else None for x in (a, b))
        if ia is not None and ib is not None and a[0] == 'ref' and b[0] == 'ref':
            ka = st.heap[a[1]]['kind']
            if ka == 'set' and op in '|&-':
                r = st.new('set', items=[])
                h = st.heap[r[1]]
                if op == '|':
                    for x in ia + ib:
                        self.set_add(st, h, x)
                else:
                    for x in ia:
                        inb = any(is_const(q) and q[2] for q in (self.norm_cmp(st, '==', x, y) for y in ib))
                        if inb == (op == '&'):
                            h['items'].append(x)
                return r
            if ka == 'list' and op == '+':
                return st.new('list', items=ia + ib)
        if a[0] == 'tuple' and b[0] == 'tuple' and op == '+':
            return ('tuple', a[1] + b[1])
        return ('bin', op, a, b)

    def x_BinOp(self, n, st, env):
        res = []
        for s, vs in self.exprs([n.left, n.right], st, env):
            if vs[-1][0] == 'raise':
                res.append((s, vs[-1]))
            else:
                res.append((s, self.binop(s, self.OPS.get(type(n.op), '?'), *vs)))
        return res

    def x_UnaryOp(self, n, st, env):
        res = []
        for s, v in self.expr(n.operand, st, env):
            if isinstance(n.op, ast.Not):
                r = self.truth(s, v)
                res.append((s, const(not r) if r is not None else (v[1] if v[0] == 'not' else ('not', v))))
            elif is_const(v) and isinstance(v[2], (int, float)):
                res.append((s, const(-v[2] if isinstance(n.op, ast.USub) else v[2])))
            else:
                res.append((s, ('un', type(n.op).__name__, v)))
        return res

    def x_BoolOp(self, n, st, env):
        """Short-circuit: follows both outcomes of a non-constant operand."""
        is_or = isinstance(n.op, ast.Or)
        cur = [st]
        out = []
        for i, x in enumerate(n.values):
            nxt = []
            for s in cur:
                for s2, v in self.expr(x, s, env):
                    if v[0] == 'raise' or i == len(n.values) - 1:
                        out.append((s2, v))
                        continue
                    for s3, b in self.branch(s2, v):
                        if b == is_or:
                            out.append((s3, v if not v[0] in ('cmp', 'not', 'call') else const(b) if v[0] != 'call' else v))
                        else:
                            nxt.append(s3)
            cur = nxt
        return out

    def x_Compare(self, n, st, env):
        names = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
                 ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
        res = []
        for s, vs in self.exprs([n.left] + n.comparators, st, env):
            if vs[-1][0] == 'raise':
                res.append((s, vs[-1]))
                continue
            ts = [self.norm_cmp(s, names[type(o)], a, b) for o, a, b in zip(n.ops, vs, vs[1:])]
            if len(ts) == 1:
                t = ts[0]
            elif all(is_const(t) for t in ts):
                t = const(all(t[2] for t in ts))
            else:
                t = ('and', tuple(ts))
            r = self.truth(s, t)
            res.append((s, const(r) if r is not None else t))
        return res

    def x_IfExp(self, n, st, env):
        res = []
        for s, c in self.expr(n.test, st, env):
            if c[0] == 'raise':
                res.append((s, c))
                continue
            for s2, b in self.branch(s, c):
                res += self.expr(n.body if b else n.orelse, s2, env)
        return res

    def x_JoinedStr(self, n, st, env):
        res = []
        for s, vs in self.exprs([v.value if isinstance(v, ast.FormattedValue) else v for v in n.values], st, env):
            if all(is_const(v) for v in vs):
                res.append((s, const(''.join(str(v[2]) for v in vs))))
            else:
                res.append((s, ('fstr', tuple(vs))))
        return res

    def x_Lambda(self, n, st, env):
        i = len(_LAMBDAS)
        _LAMBDAS.append((n, env.copy()))
        return [(st, ('lambda', i))]

    def x_NamedExpr(self, n, st, env):
        res = []
        for s, v in self.expr(n.value, st, env):
            env.vars[n.target.id] = v
            res.append((s, v))
        return res

    def expand(self, n, i, items, s, env, kind):
        """the elements of a comprehension over known elements -> [(state, elements)] or None, if inner elements are unknown"""
        gen = n.generators[i]
        cur = [(s, [])]
        for x in items:
            nxt = []
            for s2, acc in cur:
                e = env.copy()
                self.assign(gen.target, x, s2, e)
                conds = [(s2, True)]
                for c in gen.ifs:
                    cc = []
                    for s3, ok in conds:
                        if not ok:
                            cc.append((s3, ok))
                            continue
                        for s4, v in self.expr(c, s3, e):
                            cc += self.branch(s4, v)
                    conds = cc
                for s3, ok in conds:
                    if not ok:
                        nxt.append((s3, acc))
                        continue
                    if i + 1 < len(n.generators):
                        for s4, it in self.expr(n.generators[i + 1].iter, s3, e):
                            inner = self.items(s4, it)
                            inner = None if inner is None else self.expand(n, i + 1, inner, s4, e, kind)
                            if inner is None:
                                return None
                            nxt += [(s5, acc + vs) for s5, vs in inner]
                    elif kind == 'dict':
                        for s4, kv in self.exprs([n.key, n.value], s3, e):
                            nxt.append((s4, acc + [tuple(kv)]))
                    else:
                        for s4, v in self.expr(n.elt, s3, e):
                            nxt.append((s4, acc + [v]))
            cur = nxt
            if len(cur) > self.max_paths:
                raise Unsupported('paths')
        return cur

    def comp(self, n, st, env, kind):
        gen = n.generators[0]
        res = []
        for s, it in self.expr(gen.iter, st, env):
            items = self.items(s, it)
            cur = None
            if items is not None:
                if len(n.generators) == 1:
                    cur = self.expand(n, 0, items, s, env, kind)
                else:
                    cur = self.expand(n, 0, items, s.fork(), env, kind)
            if cur is not None:
                for s2, acc in cur:
                    res.append((s2, s2.new(kind, items=acc)))
            else:
                e = env.copy()
                k = ('elem', it, n.lineno)
                self.assign(gen.target, k, s, e)
                for g in n.generators[1:]:
                    for s2, it2 in self.expr(g.iter, s, e)[:1]:
                        self.assign(g.target, ('elem', it2, n.lineno), s2, e)
                cs = []
                for c in gen.ifs:
                    r = self.expr(c, s, e)
                    cs.append(r[0][1])
                if kind == 'dict':
                    kv = self.exprs([n.key, n.value], s, e)[0][1]
                    res.append((s, ('dictcomp', it, tuple(kv), tuple(cs))))
                else:
                    r = self.expr(n.elt, s.fork(), e)
                    v = r[0][1]
                    res.append((s, ('comp', it, v, tuple(cs))))
        return res

    def x_ListComp(self, n, st, env):
        return self.comp(n, st, env, 'list')

    def x_SetComp(self, n, st, env):
        return self.comp(n, st, env, 'set')

    def x_GeneratorExp(self, n, st, env):
        return self.comp(n, st, env, 'list')

    def x_DictComp(self, n, st, env):
        return self.comp(n, st, env, 'dict')

    def x_Yield(self, n, st, env):
        res = []
        for s, v in (self.expr(n.value, st, env) if n.value is not None else [(st, NONE)]):
            y = env.vars.get('<yield>')
            if y is not None:
                s.heap[y[1]]['items'].append(('each', s.loops, v, tuple(s.pc.items())) if s.loops else v)
            self.effect(s, 'yield', ('sym', 'yield'), [v], {}, n, env)
            res.append((s, ('sym', 'sent')))
        return res

    def x_YieldFrom(self, n, st, env):
        return self.x_Yield(n, st, env)

    # ------------------------------------------------------------ statements

    def block(self, stmts, st, env):
        """[(state, env, signal)]"""
        cur = [(st, env, None)]
        for s in stmts:
            nxt = []
            for a, e, sig in cur:
                if sig is not None:
                    nxt.append((a, e, sig))
                else:
                    nxt += self.stmt(s, a, e)
            cur = nxt
            if len(cur) > self.max_paths:
                raise Unsupported('too many paths in ' + str(env.fn))
        return cur

    def stmt(self, n, st, env):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            return [(st, env, None)]
        return m(n, st, env)

    def forked(self, rs, env):
        """Pairs each result state with its own copy of the local variables."""
        if len(rs) == 1:
            return [(rs[0][0], env, rs[0][1])]
        return [(s, env.copy() if i else env, v) for i, (s, v) in enumerate(rs)]

    def s_Expr(self, n, st, env):
        snap = dict(env.vars)
        out = []
        for s, e, v in self.forked(self.expr(n.value, st, env), env):
            out.append((s, e, ('raise', v[1]) if v[0] == 'raise' else None))
        return out

    def s_Pass(self, n, st, env):
        return [(st, env, None)]

    def s_Return(self, n, st, env):
        if n.value is None:
            return [(st, env, ('return', NONE))]
        return [(s, e, ('raise', v[1]) if v[0] == 'raise' else ('return', v))
                for s, e, v in self.forked(self.expr(n.value, st, env), env)]

    def s_Raise(self, n, st, env):
        if n.exc is None:
            return [(st, env, ('raise', env.vars.get('<exc>', ('sym', 'exc'))))]
        return [(s, e, ('raise', v)) for s, e, v in self.forked(self.expr(n.exc, st, env), env)]

    def s_Break(self, n, st, env):
        return [(st, env, ('break',))]

    def s_Continue(self, n, st, env):
        return [(st, env, ('continue',))]

    def s_Assert(self, n, st, env):
        return [(s, e, None) for s, e, v in self.forked(self.expr(n.test, st, env), env)]

    def s_Global(self, n, st, env):
        return [(st, env, None)]

    def s_Delete(self, n, st, env):
        for t in n.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                for s, o in self.expr(t.value, st, env)[:1]:
                    if o[0] == 'ref' and s.heap[o[1]]['kind'] == 'obj':
                        s.heap[o[1]]['attrs'].pop(self.mangle(env, t.attr), None)
                    self.effect(s, 'delattr', o, [const(t.attr)], {}, n, env)
        return [(st, env, None)]

    def assign(self, target, v, st, env):
        if isinstance(target, ast.Name):
            env.vars[target.id] = v
        elif isinstance(target, ast.Attribute):
            rs = self.expr(target.value, st, env)
            s, o = rs[0]
            if o[0] == 'cond':
                o = o
            self.setattr(s, o, self.mangle(env, target.attr), v, target, env)
        elif isinstance(target, ast.Subscript):
            rs = self.exprs([target.value] + ([target.slice] if not isinstance(target.slice, ast.Slice) else []),
                            st, env)
            s, vs = rs[0]
            o = vs[0]
            k = vs[1] if len(vs) > 1 else ('sym', 'slice')
            if o[0] == 'ref':
                h = s.heap[o[1]]
                if h['kind'] == 'dict':
                    if s.loops:
                        h['items'].append((k, v))
                        h['sym'] = h.get('sym') or ('loopfilled', s.loops)
                    else:
                        self.dict_set(h, k, v)
                    return
                if h['kind'] == 'list' and is_const(k) and not h.get('sym') and -len(h['items']) <= k[2] < len(h['items']):
                    h['items'][k[2]] = v
                    return
                if h['kind'] == 'obj':
                    d, f = self.class_attr(h['cls'], '__setitem__')
                    if d is not None:
                        self.call(s, ('bm', o, f), [k, v], {}, target, env)
                        return
            s.symattrs[(o, k)] = v
            self.effect(s, 'setitem', o, [k, v], {}, target, env)
        elif isinstance(target, (ast.Tuple, ast.List)):
            it = self.items(st, v) if v[0] in ('tuple', 'ref', 'c') else None
            star = [i for i, t in enumerate(target.elts) if isinstance(t, ast.Starred)]
            if it is not None and len(it) == len(target.elts) and not star:
                for t, x in zip(target.elts, it):
                    self.assign(t, x, st, env)
            else:
                for i, t in enumerate(target.elts):
                    if isinstance(t, ast.Starred):
                        self.assign(t.value, ('slice', v, (const(i), NONE, NONE)), st, env)
                    elif v[0] == 'cond':
                        self.assign(t, ('cond', v[1], self.proj(st, v[2], i), self.proj(st, v[3], i)), st, env)
                    else:
                        self.assign(t, self.proj(st, v, i), st, env)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v, st, env)

    def proj(self, st, v, i):
        it = self.items(st, v) if v[0] in ('tuple', 'ref') else None
        if it is not None and i < len(it):
            return it[i]
        # components of an element of zip / enumerate / items
        if v[0] == 'elem' and v[1][0] == 'call':
            f, a = v[1][1], v[1][2]
            if f == ('builtin', 'enumerate'):
                return ('index', a[0], v[2]) if i == 0 else ('elem', a[0], v[2])
            if f == ('builtin', 'zip') and i < len(a):
                return ('elem', a[i], v[2])
        return ('idx', v, const(i))

    def s_Assign(self, n, st, env):
        out = []
        for s, e, v in self.forked(self.expr(n.value, st, env), env):
            if v[0] == 'raise':
                out.append((s, e, ('raise', v[1])))
                continue
            for t in n.targets:
                self.assign(t, v, s, e)
            out.append((s, e, None))
        return out

    def s_AnnAssign(self, n, st, env):
        if n.value is None:
            return [(st, env, None)]
        out = []
        for s, e, v in self.forked(self.expr(n.value, st, env), env):
            if v[0] == 'raise':
                out.append((s, e, ('raise', v[1])))
                continue
            self.assign(n.target, v, s, e)
            out.append((s, e, None))
        return out

    def s_AugAssign(self, n, st, env):
        load = copy.copy(n.target)
        load.ctx = ast.Load()
        out = []
        for s, e, v in self.forked(self.exprs([load, n.value], st, env), env):
            if v[0][0] in ('sym', 'call', 'attr', 'idx', 'bin'):
                self.effect(s, 'aug', v[0], [v[1]], {}, n, e)
            self.assign(n.target, self.binop(s, self.OPS.get(type(n.op), '?'), v[0], v[1]), s, e)
            out.append((s, e, None))
        return out

    def s_If(self, n, st, env):
        out = []
        conds = self.forked(self.expr(n.test, st, env), env)
        for s, e, c in conds:
            if c[0] == 'raise':
                out.append((s, e, ('raise', c[1])))
                continue
            bs = self.branch(s, c)
            for i, (s2, b) in enumerate(bs):
                e2 = e if i == 0 else None
                if e2 is None:
                    e2 = saved
                saved = e.copy() if i == 0 and len(bs) > 1 else None
                out += self.block(n.body if b else n.orelse, s2, e2)
        return out

    def assigned(self, stmts):
        res = set()
        for s in stmts:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    res.add(x.id)
        return res

    def s_For(self, n, st, env):
        out = []
        for s, e, it in self.forked(self.expr(n.iter, st, env), env):
            if it[0] == 'raise':
                out.append((s, e, ('raise', it[1])))
                continue
            items = self.items(s, it)
            if items is not None and (len(items) <= 200):
                cur = [(s, e)]
                done = []
                for x in items:
                    nxt = []
                    for a, b in cur:
                        self.assign(n.target, x, a, b)
                        for a2, b2, sig in self.block(n.body, a, b):
                            if sig is None or sig[0] == 'continue':
                                nxt.append((a2, b2))
                            elif sig[0] == 'break':
                                done.append((a2, b2, None))
                            else:
                                done.append((a2, b2, sig))
                    cur = nxt
                    if len(cur) + len(done) > self.max_paths:
                        raise Unsupported('too many paths')
                for a, b in cur:
                    if n.orelse:
                        done += self.block(n.orelse, a, b)
                    else:
                        done.append((a, b, None))
                out += done
            else:
                out += self.generic_loop(n, s, e, it)
        return out

    def generic_loop(self, n, s, e, it):
        """One generic iteration: variables the body assigns are unknown at its start and after it."""
        out = []
        skip, skip_env = s.fork(), e.copy()
        loops = s.loops
        for v in self.assigned(n.body):
            if v in e.vars:
                e.vars[v] = ('loopvar', v, n.lineno, e.vars[v] if e.vars[v][0] == 'c' else NONE)
        if isinstance(n, ast.For):
            k = ('elem', it, n.lineno)
            self.assign(n.target, k, s, e)
            s.loops = loops + (it,)
            starts = [(s, e)]
        else:
            s.loops = loops + (('sym', 'while'),)
            starts = []
            for s2, e2, c in self.forked(self.expr(n.test, s, e), e):
                for s3, b in self.branch(s2, c):
                    if b:
                        starts.append((s3, e2.copy()))
        for s1, e1 in starts:
            for s2, e2, sig in self.block(n.body, s1, e1):
                s2.loops = loops
                if sig is None or sig[0] in ('break', 'continue'):
                    out.append((s2, e2, None))
                else:
                    out.append((s2, e2, sig))
        # no iteration at all
        skip.effects.append(Effect('noiter', it, (), (), loops, tuple(skip.pc.items()), ''))
        if n.orelse:
            out += self.block(n.orelse, skip, skip_env)
        else:
            out.append((skip, skip_env, None))
        if len(out) > self.max_paths:
            raise Unsupported('too many paths')
        return out

    def s_While(self, n, st, env):
        done, cur = [], [(st, env)]
        for i in range(65):
            nxt = []
            for s, e in cur:
                probe = self.expr(n.test, s.fork(), e.copy())
                t = self.truth(probe[0][0], probe[0][1]) if len(probe) == 1 and probe[0][1][0] != 'raise' else None
                if t is None or i == 64:
                    done += self.generic_loop(n, s, e, ('sym', 'while'))
                    continue
                for s2, e2, c in self.forked(self.expr(n.test, s, e), e):
                    if not t:
                        done += self.block(n.orelse, s2, e2) if n.orelse else [(s2, e2, None)]
                        continue
                    for s3, e3, sig in self.block(n.body, s2, e2):
                        if sig is None or sig[0] == 'continue':
                            nxt.append((s3, e3))
                        elif sig[0] == 'break':
                            done.append((s3, e3, None))
                        else:
                            done.append((s3, e3, sig))
            cur = nxt
            if not cur:
                break
            if len(cur) + len(done) > self.max_paths:
                raise Unsupported('too many paths')
        return done

    def s_With(self, n, st, env):
        cur = [(st, env, None)]
        for item in n.items:
            nxt = []
            for s, e, sig in cur:
                for s2, e2, v in self.forked(self.expr(item.context_expr, s, e), e):
                    if v[0] == 'raise':
                        nxt.append((s2, e2, ('raise', v[1])))
                        continue
                    if item.optional_vars is not None:
                        it = self.items(s2, v) if v[0] == 'ref' and s2.heap[v[1]]['kind'] == 'list' else None
                        self.assign(item.optional_vars, it[0] if it else v, s2, e2)
                    nxt.append((s2, e2, None))
            cur = nxt
        out = []
        for s, e, sig in cur:
            out += self.block(n.body, s, e) if sig is None else [(s, e, sig)]
        return out

    def s_Try(self, n, st, env):
        out = []
        before = (st.fork(), env.copy()) if n.handlers and self.fork_exceptions else None
        res = self.block(n.body, st, env)
        handled = []
        for s, e, sig in res:
            if sig is not None and sig[0] == 'raise' and n.handlers:
                handled.append((s, e, sig[1]))
            elif sig is None and n.orelse:
                out += self.block(n.orelse, s, e)
            else:
                out.append((s, e, sig))
        for s, e, exc in handled:
            for h in n.handlers[:1]:
                if h.name:
                    e.vars[h.name] = exc
                e.vars['<exc>'] = exc
                out += self.block(h.body, s, e)
        if before is not None:
            for i, h in enumerate(n.handlers):
                s, e = before[0].fork(), before[1].copy()
                s.pc[('exc', n.lineno, i)] = True
                exc = ('sym', 'exception')
                if h.name:
                    e.vars[h.name] = exc
                e.vars['<exc>'] = exc
                out += self.block(h.body, s, e)
        if n.finalbody:
            fin = []
            for s, e, sig in out:
                for s2, e2, sig2 in self.block(n.finalbody, s, e):
                    fin.append((s2, e2, sig2 if sig2 is not None else sig))
            out = fin
        return out

    def s_FunctionDef(self, n, st, env):
        qual = (env.cls[2] + '.' if env.cls is not None and env.fn is None else '') + n.name
        if env.fn is not None:
            qual = env.fn[2] + '.<locals>.' + n.name
            self.classes[('closure', env.module.name, qual)] = env.vars
        cls = env.cls
        self.fns[(env.module.name, qual)] = (n, cls)
        env.vars[self.mangle(env, n.name) if env.cls is not None and env.fn is None else n.name] = \
            ('fn', env.module.name, qual)
        return [(st, env, None)]

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st, env):
        qual = (env.cls[2] + '.' if env.cls is not None else '') + n.name
        bases = []
        for b in n.bases:
            r = self.expr(b, st, env)
            bases.append(r[0][1])
        c = ('cls', env.module.name, qual)
        attrs = {}
        self.classes[(env.module.name, qual)] = {'node': n, 'bases': bases, 'attrs': attrs, 'order': []}
        e = Env(env.module, c, attrs, None)
        for s in n.body:
            if isinstance(s, ast.FunctionDef):
                # property setters share the name of the getter
                if any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in s.decorator_list):
                    continue
            for st2, e2, _ in self.stmt(s, st, e)[:1]:
                pass
        self.classes[(env.module.name, qual)]['order'] = list(attrs)
        env.vars[n.name] = c
        return [(st, env, None)]

    def s_Import(self, n, st, env):
        for a in n.names:
            name = a.name if a.asname else a.name.split('.')[0]
            known = name in self.files or any(f.startswith(name + '.') for f in self.files)
            env.vars[a.asname or name] = ('mod', name) if known else ('ext', name)
        return [(st, env, None)]

    def s_ImportFrom(self, n, st, env):
        base = n.module or ''
        if n.level:
            parts = env.module.name.split('.')[:-n.level]
            base = '.'.join(parts + ([n.module] if n.module else []))
        for a in n.names:
            if base in self.files:
                v = self.lookup_module_attr(base, a.name)
            else:
                v = ('ext', base + '.' + a.name)
            env.vars[a.asname or a.name] = v
        return [(st, env, None)]


_LAMBDAS = []
_TREES = {}

_BUILTINS = {'str', 'int', 'float', 'bool', 'len', 'repr', 'abs', 'min', 'max', 'round', 'sum', 'list', 'set', 'tuple',
             'sorted', 'frozenset', 'dict', 'enumerate', 'zip', 'type', 'issubclass', 'isinstance', 'hasattr', 'getattr',
             'setattr', 'vars', 'range', 'hash', 'id', 'iter', 'next', 'reversed', 'any', 'all', 'map', 'filter',
             'print', 'object', 'super', 'callable', 'open', '__cast__', '__addr__'}


def _is_len_of_str(t):
    return t[0] == 'call' and t[1] == ('builtin', 'len') and (t[2][0][0] == 'strcat' or t[2][0][0] == 'sym' and
                                                             t[2][0][1].startswith('str:'))


def _is_generator(node):
    stack = list(node.body)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(x))
    return False


def _source_files():
    res = {}
    base = os.path.join(facts.REPO, 'python', 'subprojects')
    for sub in sorted(os.listdir(base)):
        root = os.path.join(base, sub)
        if not os.path.isdir(os.path.join(root, 'mlrl')):
            continue
        for d, dirs, names in os.walk(os.path.join(root, 'mlrl')):
            for n in names:
                if n.endswith(('.py', '.pyx')):
                    rel = os.path.relpath(os.path.join(d, n), root)
                    name = os.path.splitext(rel)[0].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    if n.endswith('.pyx') or name not in res:
                        res[name] = os.path.join(d, n)
    return res
