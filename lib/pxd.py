"""Declarations of C++ functions in .pxd (and .pyx) files: `cdef extern from` blocks, as seen by Cython's parser, and the C++
functions they stand for."""
import glob
import os

import cy
import cyast
import facts

NUMERIC = {'int32': 'int', 'int64': 'long', 'uint8': 'unsigned char', 'uint32': 'unsigned int', 'float32': 'float',
           'float64': 'double', 'bool': 'bool', 'bint': 'bool', 'int': 'int', 'long': 'long', 'float': 'float',
           'double': 'double', 'uint64': 'unsigned long', 'unsigned int': 'unsigned int', 'short': 'short', 'char': 'char',
           'unsigned char': 'unsigned char', 'long int': 'long', 'size_t': 'unsigned long', 'unsigned long': 'unsigned long',
           'uint16': 'unsigned short', 'int8': 'signed char', 'int16': 'short', 'signed char': 'signed char',
           'unsigned short': 'unsigned short'}


class Decl:
    def __init__(self, path, line, cls, fn, params, ret, plus):
        self.path, self.line, self.cls, self.fn = path, line, cls, fn
        self.params, self.ret, self.plus = params, ret, plus

    @property
    def name(self):
        return (self.cls + '::' if self.cls else '') + self.fn

    @property
    def where(self):
        return '%s:%d' % (os.path.relpath(self.path, facts.REPO), self.line)


def strip_targs(t):
    r, d = '', 0
    for c in t:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            r += c
    return r


def numeric(t):
    """The canonical name of a numeric type, or None."""
    t = (t or '').replace('const ', '').replace('&', '').strip()
    return NUMERIC.get(t)


def declarations():
    res = []
    conv = cyast.Conv()
    base = os.path.join(facts.REPO, 'python', 'subprojects')
    for p in sorted(set(glob.glob(os.path.join(base, '*', 'mlrl', '*', 'cython', '*.pxd')) + cy.pyx_files())):
        try:
            tree = cy.parse(p)
        except Exception:
            continue
        for ext in cy.walk(tree):
            if cy.cls(ext) == 'CDefExternNode':
                _extern(p, ext, conv, res)
    return res


def _extern(p, ext, conv, res):
    ns = ext.namespace or ''
    inside = set()

    def funcs(node, cls):
        for d in getattr(node, 'declarators', None) or ():
            func = None
            try:
                ret = conv.decl(d, conv.type_name(node.base_type))[1]
            except Exception:
                ret = '?'
            while d is not None and cy.cls(d) != 'CNameDeclaratorNode':
                if cy.cls(d) == 'CFuncDeclaratorNode' and func is None:
                    func = d
                d = getattr(d, 'base', None)
            if d is None or func is None:
                continue
            c = getattr(d, 'cname', None)
            fn = c.split('::')[-1].split('(')[0] if isinstance(c, str) else d.name
            params = []
            for a in func.args:
                try:
                    n, t, _ = conv.decl(a.declarator, conv.type_name(a.base_type))
                except Exception:
                    n, t = '?', '?'
                params.append((n, t))
            res.append(Decl(p, node.pos[1], cls, (ns + '::' if ns and not cls else '') + fn, params, ret,
                            getattr(func, 'exception_check', None) == '+'))

    for n in cy.walk(ext):
        if cy.cls(n) == 'CppClassNode':
            cname = (n.cname or n.name).split('::')[-1]
            cls = (ns + '::' if ns else '') + cname
            for a in n.attributes or ():
                for b in cy.walk(a):
                    if cy.cls(b) == 'CVarDefNode' and id(b) not in inside:
                        inside.add(id(b))
                        funcs(b, cls)
    for n in cy.walk(ext):
        if cy.cls(n) == 'CVarDefNode' and id(n) not in inside:
            funcs(n, '')


class Resolver:
    """Finds the C++ functions that may be invoked by a call of a declared function."""

    def __init__(self, P):
        self.by_name, self.subs = {}, {}
        for f in P.fns.values():
            if not f.get('tmpl'):
                self.by_name.setdefault(f['pn'].split('::')[-1], []).append(f)
        for q in P.recs:
            for b in P.bases_of(q):
                self.subs.setdefault(strip_targs(b), set()).add(strip_targs(q.replace('#dep', '')))

    def __call__(self, d):
        if not d.cls:
            return [f for f in self.by_name.get(d.fn.split('::')[-1], ()) if f['pn'] == d.fn]
        if d.fn == d.cls.split('::')[-1]:  # constructor
            return [f for f in self.by_name.get(d.fn, ()) if f.get('ctor') and f.get('pcls') == d.cls
                    and len(f.get('params') or ()) == len(d.params)]
        classes = {d.cls} | self.subs.get(d.cls, set())
        return [f for f in self.by_name.get(d.fn, ()) if f.get('pcls') in classes
                and len(f.get('params') or ()) == len(d.params)]
