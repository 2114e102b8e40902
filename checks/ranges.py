"""C02: every configuration setter accepts exactly the documented range of values (C++ and Cython layer)."""
import ast
import math
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import absval
import cy
import facts
import flow
import prog
import pxd
import report
import throws

RULE = ('For every configuration setter, the documented range of its parameter (doc comment of the public interface) is '
        'compared with the set of values for which the implementation stores the value. The parameter space is '
        'partitioned by all constants occurring in the code or in the documentation (plus NaN for floating point '
        'parameters, and the order relation / divisibility with respect to a second configured value); for each cell '
        'the setter is interpreted abstractly, with helper functions inlined. Documented cells must be stored '
        'unchanged on all paths, all other cells must lead to an exception with nothing stored. The types of values in '
        'Cython declarations must agree with those in C++, and exceptions must be handed on.')

# Documented ranges that refer to another configured value. They are spelled out here because the sentence cannot be
# derived from the comment; `field` is the getter of the public interface that yields the other value.
RELATIONAL = {
    'maxsamples': ('ge_field', 'MinSamples'),
    'maxbins': ('ge_field', 'MinBins'),
    'maxoutputs': ('ge_field', 'MinOutputs'),
    'stopinterval': ('multiple', 'UpdateInterval'),
}

# Ranges that are stated by the user guide only (doc/user_guide/*/parameters.md).
USER_GUIDE = {('IPostPruningConfig', 'setInterval'): {'lo': (1.0, True), 'hi': None, 'zero': False}}


def parse_doc(doc, param):
    """Documented range of a parameter -> dict or None if the comment states none."""
    m = re.search(r'@param\s+' + re.escape(param) + r'\b(.*?)(?:@param|@return|\*/|$)', doc, re.S)
    if not m:
        return None
    text = re.sub(r'[\s*]+', ' ', m.group(1))
    return parse_range(text)


NUM = r'(-?\d+(?:\.\d+)?)'


def parse_range(text):
    m = re.search(r'[Mm]ust be in ([\[(])\s*' + NUM + r'\s*,\s*' + NUM + r'\s*([\])])', text)
    zero = bool(re.search(r'\bor 0\b', text))
    if m:
        return {'lo': (float(m.group(2)), m.group(1) == '['), 'hi': (float(m.group(3)), m.group(4) == ']'),
                'zero': zero}
    m = re.search(r'[Mm]ust be at least ' + NUM, text)
    if m:
        return {'lo': (float(m.group(1)), True), 'hi': None, 'zero': zero}
    m = re.search(r'[Mm]ust be greater than ' + NUM, text)
    if m:
        return {'lo': (float(m.group(1)), False), 'hi': None, 'zero': zero}
    return None


def in_spec(spec, v, other):
    if spec is None:
        return True
    if v != v:
        return False
    if 'rel' in spec:
        if spec['rel'] == 'ge_field':
            return v == 0 or v >= other
        return v >= 1 and v % other == 0
    if spec.get('zero') and v == 0:
        return True
    lo, hi = spec['lo'], spec['hi']
    if lo is not None and not (v > lo[0] or (lo[1] and v == lo[0])):
        return False
    if hi is not None and not (v < hi[0] or (hi[1] and v == hi[0])):
        return False
    return True


def breakpoints(kind, consts):
    cs = sorted(set(consts))
    if kind == 'bool':
        return [True, False]
    if kind == 'uint':
        top = int(max([c for c in cs if c == c and c < 1e6] + [2])) + 2
        pts = set(range(0, min(top, 12) + 1))
        for c in cs:
            for d in (-1, 0, 1):
                if c + d >= 0:
                    pts.add(int(c + d))
        pts.add(4294967295)
        return sorted(pts)
    pts = []
    cs = [c for c in cs if c == c]
    for i, c in enumerate(cs):
        pts.append(c)
        nxt = cs[i + 1] if i + 1 < len(cs) else c + 2
        pts.append((c + nxt) / 2)
    pts.append(cs[0] - 1)
    pts += [1e30, -1e30, math.inf, -math.inf, math.nan]
    return pts


class Cell(flow.Hooks):
    def __init__(self, program, pterm_id, kind, v, other, consts, field_loc_pred):
        self.P = program
        self.pid = pterm_id
        self.v = v
        self.other = other
        self.consts = consts
        self.is_other = field_loc_pred
        self.stores = []
        self.throws = []
        self.unknown = []

    def inline(self, fl, node, target, depth):
        return True

    def val(self, t):
        if t[0] == 'param' and t[2] == self.pid:
            return self.v
        if self.is_other(t):
            return self.other
        return None

    def on_store(self, fl, st, loc, term, node):
        if loc[0] == 'f' and flow.root_of(loc) == ('this',):
            self.stores.append((loc, term))

    def on_throw(self, fl, st, node, depth):
        self.throws.append(node.get('l', 0))


class CellFlow(flow.Flow):
    def assume(self, st, c, pol, line=0):
        b = absval.value(c, self.h.val, self.h.consts)
        if b is not None and bool(b) != pol:
            st.facts[('dead',)] = line
            return
        super().assume(st, c, pol, line)


def kind_of(t):
    t = t.replace('const ', '').replace('&', '').strip()
    if t == 'bool':
        return 'bool'
    if t in ('unsigned int', 'unsigned long', 'unsigned char', 'unsigned short'):
        return 'uint'
    if t in ('float', 'double'):
        return 'float'
    if t in ('int', 'long'):
        return 'int'
    return None


def getter_fields(P, cls, name_part):
    """Fields of cls returned by the getter get<name_part>."""
    res = set()
    for f in P.by_cls.get(cls, ()):
        if f['n'].lower() == 'get' + name_part.lower() and not f['params']:
            for n in prog.fn_nodes(f):
                if n.get('k') == 'mem' and n.get('b', {}).get('k') == 'this' and not n.get('fid'):
                    res.add(n['n'])
    return res


def getters_of(P, cls, setter):
    """The accessor of the class that reports what a setter configured, by the naming convention of the public API."""
    x = setter[3:].lower()
    u = x[3:] if x.startswith('use') else x
    m = re.match(r'set(Resample|Recalculate|Refine|Remove)(\w+)$', setter)
    names = {('are' + m.group(2) + m.group(1) + 'd').lower()} if m else set()
    names |= {'get' + x, 'is' + x, 'is' + u + 'used', 'is' + u, 'get' + u, 'are' + u + 'used', 'are' + u, 'are' + x,
             'is' + u + 'removed' if not u.startswith('remove') else 'are' + u[6:] + 'removed'}
    return [f for f in P.by_cls.get(cls, ()) if f['n'].lower() in names and not f['params'] and f.get('body')]


def read_back(P, getter, st, h):
    """Abstract value the getter yields in the state left by the setter, or None if it is not a single known value."""
    h2 = Cell(P, h.pid, None, h.v, h.other, set(), h.is_other)
    rets = CellFlow(P, h2).run(getter, st.copy())
    vals = [absval.value(t, h.val) for _s, t in rets]
    if not vals or any(not same(x, vals[0]) for x in vals):
        return None
    return vals[0]


def same(a, b):
    return a is not None and b is not None and (a == b or (a != a and b != b))


def config_setters(P):
    """(interface record, method summary, implementation) for all setters of configuration classes."""
    out = []
    seen = set()
    for qn, r in sorted(P.recs.items()):
        if not re.search(r'Config$', r['n']) or r['tmpl']:
            continue
        for m in r['methods']:
            if not re.match(r'set[A-Z]', m['n']) or len(m['pt']) != 1 or kind_of(m['pt'][0]) is None or m['over']:
                continue
            impls = [P.fns[m['fid']]] if m['fid'] in P.fns else []
            impls += [P.fns[o] for o in sorted(P.over.get(m['fid'], ())) if o in P.fns]
            for f in impls:
                if f['fid'] not in seen:
                    seen.add(f['fid'])
                    out.append((r, m, f))
    return out


def check_cpp(P, rep):
    specs = {}
    n = nget = 0
    for r, m, f in config_setters(P):
        n += 1
        rep.analysed(f)
        p = f['params'][0]
        kind = kind_of(p['t'])
        key = '%s::%s' % (f['cls'], f['n'])
        pname = m['n'][3:].lower()
        rel = RELATIONAL.get(pname)
        doc = m.get('doc', '')
        if rel:
            spec = {'rel': rel[0]}
            flds = getter_fields(P, f['cls'], rel[1])
            if not flds:
                rep.violate(key + '/relation', '%s: no getter for %s in %s' % (prog.loc(f), rel[1], f['cls']))
                continue
        else:
            spec = parse_doc(doc, m['pn'][0])
            flds = set()
            if spec is None:
                spec = USER_GUIDE.get((r['n'], m['n']))
            if spec is None and kind in ('uint', 'float', 'int') and re.search(r'[Mm]ust be', doc):
                rep.notes.append('unparsed range: ' + key)
        specs[(r['pn'], m['n'])] = spec
        consts = {0, 1, 2}
        if spec and 'rel' not in spec:
            for b in (spec['lo'], spec['hi']):
                if b:
                    consts.add(b[0])
        is_other = lambda t, flds=flds: (t[0] == 'init' and t[1][0] == 'f' and t[1][1] == ('this',)
                                         and t[1][2] in flds)
        done = set()
        bad = []
        getters = getters_of(P, f['cls'], m['n'])
        if getters:
            rep.analysed(getters[0])
            nget += 1
        else:
            rep.notes.append('no accessor: ' + key)
        for _ in range(3):
            pts = breakpoints(kind, consts)
            before = set(consts)
            for v in pts:
                others = [None]
                if rel:
                    others = [x for x in {1, 2, 3, v, v + 1, max(v - 1, 1), max(v // 2, 1), 7} if 1 <= x < 2**32]
                for o in sorted(others, key=lambda x: (x is None, x or 0)):
                    if (repr(v), o) in done:
                        continue
                    done.add((repr(v), o))
                    h = Cell(P, p['id'], kind, v, o, consts, is_other)
                    fl = CellFlow(P, h)
                    rets = fl.run(f)
                    accepted = in_spec(spec, v, o)
                    desc = '%s = %s' % (p['n'], v) + ('' if o is None else ' (other value = %s)' % o)
                    pterm = ('param', p['n'], p['id'])
                    if accepted:
                        if h.throws:
                            bad.append('%s: %s is within the documented range but is rejected (line %d)'
                                       % (prog.loc(f), desc, h.throws[0]))
                        elif not rets:
                            bad.append('%s: %s is within the documented range but is not stored' % (prog.loc(f), desc))
                        else:
                            for st, _t in rets:
                                if getters:
                                    got = read_back(P, getters[0], st, h)
                                    if not same(got, v):
                                        bad.append('%s: after %s was set, %s yields %s' % (
                                            prog.loc(f), desc, getters[0]['n'], 'another value' if got is None
                                            else got))
                                    continue
                                ok = any(loc[0] == 'f' and flow.root_of(loc) == ('this',) and
                                         (t == pterm or t == ('trunc', pterm)
                                          or (absval.value(t, h.val) == v and t[0] != 'lit' and v == v))
                                         for loc, t in st.env.items())
                                if not ok:
                                    bad.append('%s: %s is within the documented range, but the value is not stored '
                                               'unchanged' % (prog.loc(f), desc))
                    else:
                        if rets:
                            bad.append('%s: %s is outside the documented range but is accepted' % (prog.loc(f), desc))
                        elif h.stores:
                            bad.append('%s: %s is rejected only after the configuration was modified'
                                       % (prog.loc(f), desc))
            if consts == before:
                break
        rep.coverage['cells'] = rep.coverage.get('cells', 0) + len(done)
        rep.check(not bad, key, '; '.join(bad[:3]))
    rep.coverage['setters_read_back_through_accessor'] = nget
    return specs


# ---------------------------------------------------------------- Cython layer

class PyEval:
    """Abstract interpretation of a Cython/Python setter for one cell."""

    def __init__(self, validators, params, env, getter_val):
        self.validators = validators
        self.env = env
        self.getter_val = getter_val
        self.calls = []
        self.thrown = False
        self.returned = False
        self.unknown = False

    def ex(self, n):
        c = cy.cls(n)
        if c == 'NameNode':
            return self.env.get(n.name)
        if c == 'IntNode':
            return int(n.value)
        if c == 'FloatNode':
            return float(n.value)
        if c == 'BoolNode':
            return bool(n.value)
        if c == 'UnaryMinusNode':
            v = self.ex(n.operand)
            return None if v is None else -v
        if c in ('PrimaryCmpNode',):
            a, b = self.ex(n.operand1), self.ex(n.operand2)
            r = self.cmp(n.operator, a, b)
            cas = n.cascade
            while cas is not None and r:
                a, b = b, self.ex(cas.operand2)
                r2 = self.cmp(cas.operator, a, b)
                r = r2 if r2 is None else (r and r2)
                cas = cas.cascade
            return r
        if c == 'NotNode':
            v = self.ex(n.operand)
            return None if v is None else not v
        if c == 'BoolBinopNode':
            a = self.ex(n.operand1)
            if n.operator == 'and' and a is False:
                return False
            if n.operator == 'or' and a:
                return True
            b = self.ex(n.operand2)
            if a is None or b is None:
                return None
            return (a and b) if n.operator == 'and' else (a or b)
        if c in ('AddNode', 'SubNode', 'MulNode', 'ModNode'):
            a, b = self.ex(n.operand1), self.ex(n.operand2)
            if a is None or b is None or isinstance(a, str):
                return None
            try:
                return {'AddNode': a + b, 'SubNode': a - b, 'MulNode': a * b,
                        'ModNode': a % b if b else None}[c]
            except TypeError:
                return None
        if c == 'SimpleCallNode':
            return self.call(n)
        if c == 'TypecastNode':
            return self.ex(n.operand)
        return None

    @staticmethod
    def cmp(op, a, b):
        if a is None or b is None:
            return None
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}.get(op)

    def call(self, n):
        f = n.function
        name = f.name if cy.cls(f) == 'NameNode' else f.attribute if cy.cls(f) == 'AttributeNode' else None
        args = [self.ex(a) for a in n.args]
        if name in self.validators and cy.cls(f) == 'NameNode':
            r = self.validators[name](args)
            if r is None:
                self.unknown = True
            elif r is False:
                self.thrown = True
            return None
        if name in ('int', 'float', 'bool') and len(args) == 1:
            return args[0]
        if cy.cls(f) == 'AttributeNode':
            owner = f.obj
            if cy.cls(owner) == 'NameNode' and owner.name == 'self':
                g = self.getter_val(name)
                if g is not None:
                    return g
            if not n.args:
                g = self.getter_val(name)
                if g is not None:
                    return g
            self.calls.append((name, args, n))
        return None

    def run(self, s):
        if self.thrown or self.returned or s is None:
            return
        c = cy.cls(s)
        if c == 'StatListNode':
            for x in s.stats:
                self.run(x)
                if self.thrown or self.returned:
                    return
        elif c == 'ExprStatNode':
            self.ex(s.expr)
        elif c == 'SingleAssignmentNode':
            v = self.ex(s.rhs)
            if cy.cls(s.lhs) == 'NameNode':
                self.env[s.lhs.name] = v
        elif c == 'ReturnStatNode':
            if s.value is not None:
                self.ex(s.value)
            self.returned = True
        elif c == 'RaiseStatNode':
            self.thrown = True
        elif c == 'IfStatNode':
            for cl in s.if_clauses:
                v = self.ex(cl.condition)
                if v is None:
                    self.unknown = True
                    self.run(cl.body)
                    return
                if v:
                    self.run(cl.body)
                    return
            if s.else_clause is not None:
                self.run(s.else_clause)
        elif c in ('PassStatNode', 'CVarDefNode'):
            pass


def load_validators(rep):
    """The assert_* functions of validation.py as predicates, derived from their source."""
    path = os.path.join(facts.REPO, 'python/subprojects/common/mlrl/common/cython/validation.py')
    with open(path) as fh:
        tree = ast.parse(fh.read())
    rep.file(os.path.relpath(path, facts.REPO))
    fns = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}

    def ev(n, env, depth=0):
        if isinstance(n, ast.Name):
            return env.get(n.id)
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.UnaryOp):
            v = ev(n.operand, env)
            if v is None:
                return None
            return (not v) if isinstance(n.op, ast.Not) else -v
        if isinstance(n, ast.BoolOp):
            vs = [ev(x, env) for x in n.values]
            if isinstance(n.op, ast.And):
                return False if False in vs else None if None in vs else all(vs)
            return True if True in vs else None if None in vs else any(vs)
        if isinstance(n, ast.BinOp):
            a, b = ev(n.left, env), ev(n.right, env)
            if a is None or b is None:
                return None
            try:
                return {ast.Mod: lambda: a % b, ast.Add: lambda: a + b, ast.Sub: lambda: a - b,
                        ast.Mult: lambda: a * b}[type(n.op)]()
            except (KeyError, TypeError, ZeroDivisionError):
                return None
        if isinstance(n, ast.Compare):
            l = ev(n.left, env)
            for op, c in zip(n.ops, n.comparators):
                r = ev(c, env)
                if l is None or r is None:
                    return None
                ok = {ast.Lt: lambda: l < r, ast.LtE: lambda: l <= r, ast.Gt: lambda: l > r, ast.GtE: lambda: l >= r,
                      ast.Eq: lambda: l == r, ast.NotEq: lambda: l != r}[type(op)]()
                if not ok:
                    return False
                l = r
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in fns and depth < 3:
            r = call(fns[n.func.id], [ev(a, env) for a in n.args], depth + 1)
            return r
        return None

    def stmts(body, env, depth):
        """True: raises, False: falls through, None: unknown, ('ret', v): returns"""
        for s in body:
            if isinstance(s, ast.If):
                c = ev(s.test, env, depth)
                if c is None:
                    return None
                r = stmts(s.body if c else s.orelse, env, depth)
                if r is not False:
                    return r
            elif isinstance(s, ast.Raise):
                return True
            elif isinstance(s, ast.Return):
                return ('ret', ev(s.value, env, depth) if s.value else None)
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                env[s.targets[0].id] = ev(s.value, env, depth)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) \
                    and s.value.func.id in fns and depth < 3:
                f2 = fns[s.value.func.id]
                r = stmts(f2.body, dict(zip([a.arg for a in f2.args.args],
                                            [ev(a, env, depth) for a in s.value.args])), depth + 1)
                if r is True or r is None:
                    return r
        return False

    def call(f, args, depth):
        env = dict(zip([a.arg for a in f.args.args], args))
        r = stmts(f.body, env, depth)
        if isinstance(r, tuple):
            return r[1]
        return None

    def pred(f):
        def check(args):
            env = dict(zip([a.arg for a in f.args.args], args))
            r = stmts(f.body, env, 0)
            if r is None:
                return None
            return r is not True
        return check

    return {k: pred(f) for k, f in fns.items()}


def snake(n):
    return re.sub(r'([a-z0-9])([A-Z])', r'\1_\2', n).lower()


def cython_classes():
    for path in cy.pyx_files():
        if not path.endswith('.pyx'):
            continue
        for n in cy.walk(cy.parse(path)):
            if cy.cls(n) == 'CClassDefNode':
                yield path, n.class_name, n
            elif cy.cls(n) == 'PyClassDefNode':
                yield path, n.name, n


def check_cython(P, rep, cpp_specs):
    validators = load_validators(rep)
    by_iface = {}
    for (iface, m), s in cpp_specs.items():
        by_iface.setdefault(iface.split('::')[-1], {})[m] = s
    count = 0
    for path, cname, node in cython_classes():
        rel = os.path.relpath(path, facts.REPO)
        for d in cy.walk(node):
            if cy.cls(d) != 'DefNode' or not d.name.startswith('set_') or len(d.args) != 2:
                continue
            setter = re.sub(r'_([a-z0-9])', lambda m: m.group(1).upper(), d.name)
            spec_map = by_iface.get('I' + cname) or by_iface.get(cname)
            if spec_map is None or setter not in spec_map:
                continue
            spec = spec_map[setter]
            rep.file(rel)
            rep.functions.add(cname + '.' + d.name)
            count += 1
            a = d.args[1]
            pname = a.declarator.name if a.declarator.name else a.base_type.name
            doc = d.doc if isinstance(getattr(d, 'doc', None), str) else ''
            kinds = {'set_': 'uint'}
            impl_types = None
            for (iface, m), s in cpp_specs.items():
                if iface.split('::')[-1] in ('I' + cname, cname) and m == setter:
                    for rec in P.recs_pn[iface]:
                        for ms in rec['methods']:
                            if ms['n'] == setter:
                                impl_types = ms['pt'][0]
            kind = kind_of(impl_types) if impl_types else None
            if kind is None:
                continue
            if kind == 'uint':
                pts = list(range(-2, 13)) + [100, 1000]
            elif kind == 'bool':
                pts = [True, False]
            else:
                pts = [-1.0, -0.5, 0.0, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0, 10.0, 1e30]
                if spec and 'rel' not in spec:
                    for b in (spec['lo'], spec['hi']):
                        if b:
                            pts += [b[0], b[0] - 0.01, b[0] + 0.01]
            relspec = RELATIONAL.get(setter[3:].lower())
            bad = []
            for v in pts:
                others = [None]
                if relspec:
                    others = [1, 2, 3, 5]
                for o in others:
                    want = 'get_' + snake(relspec[1]) if relspec else None
                    camel = 'get' + relspec[1] if relspec else None
                    ev = PyEval(validators, None, {pname: v},
                                lambda nm: o if nm and nm in (want, camel) else None)
                    ev.run(d.body)
                    accepted = in_spec(spec, v, o) and not (kind == 'uint' and v < 0)
                    fw = [c for c in ev.calls if c[0] == setter]
                    desc = '%s = %s' % (pname, v) + ('' if o is None else ' (other value = %s)' % o)
                    where = '%s:%d' % (rel, d.pos[1])
                    if accepted:
                        if ev.thrown:
                            bad.append('%s: %s is within the documented range but is rejected' % (where, desc))
                        elif not fw or not (len(fw[-1][1]) == 1 and fw[-1][1][0] == v):
                            bad.append('%s: %s is not passed on unchanged to %s' % (where, desc, setter))
                    else:
                        # negative integers cannot be represented by the C++ parameter; everything else that passes
                        # here is still rejected by the C++ setter, which is decided separately
                        if not ev.thrown and kind == 'uint' and v < 0 and cpp_specs and spec is not None \
                                and not fw:
                            bad.append('%s: %s is silently ignored' % (where, desc))
            rep.check(not bad, '%s.%s' % (cname, d.name), '; '.join(bad[:3]))
    rep.coverage['cython_setters'] = count
    if count < 40:
        raise prog.AnalysisError('only %d Cython setters recognised' % count)


def analyse(rep, tier):
    P = prog.load()
    specs = check_cpp(P, rep)
    documented = sum(1 for s in specs.values() if s)
    rep.coverage['cpp_setters'] = len(specs)
    rep.coverage['setters_with_documented_range'] = documented
    rep.coverage['notes'] = rep.notes
    if documented < 40:
        raise prog.AnalysisError('only %d documented ranges recognised' % documented)
    check_cython(P, rep, specs)
    check_declarations(P, rep)


def check_declarations(P, rep):
    """The types of values that are passed to setters or returned by getters are the same in Cython and C++, such that no
    value is changed by an implicit conversion, and the exceptions setters may throw are handed on to Python."""
    resolve = pxd.Resolver(P)
    T = throws.Throws(P)
    for d in pxd.declarations():
        m = d.fn.split('::')[-1]
        if not d.cls.endswith('Config') or not re.match('(set|get|is)[A-Z]', m):
            continue
        for f in resolve(d):
            decl = d.params + ([('the value that is returned', d.ret)] if m[0] in 'gi' else [])
            impl = [(q['n'], q['t']) for q in f.get('params') or ()] + ([('', f['ret'])] if m[0] in 'gi' else [])
            for (n, t), (_, u) in zip(decl, impl):
                a, b = pxd.numeric(t), u.replace('const ', '').replace('&', '').strip()
                if a is None or b not in pxd.NUMERIC.values():
                    continue
                rep.check(a == b, '%s: type of %s' % (d.name, n),
                          '%s: the type of %s is declared to be %s by Cython, but is %s in C++ (%s), hence values are changed '
                          'when being passed on' % (d.where, n, t, b, prog.loc(f)))
            rep.check(d.plus or m[0] != 's' or not T.may(f['fid']), '%s: exceptions' % d.name,
                      '%s: the exception that is thrown by %s if a value is invalid is not handed on to Python, as the '
                      'declaration misses "except +"' % (d.where, d.name))


if __name__ == '__main__':
    report.run('C02', RULE, 'other', {'assumptions': [
        'Doc comments of the public C++ interfaces state the ranges users rely on.']}, analyse, 100)
