"""Nullness of pointers: which pointers may be null (because a function may return null, or null is passed to a parameter or
stored in a field), and where they are dereferenced without having been compared to null on all paths before.

A forward dataflow over the syntax trees with the lattice S (not null) < M (may be null), N (null) < M; the parameters,
fields and return values are connected interprocedurally, virtual calls are resolved by class hierarchy analysis."""
import re

import prog
from prog import unwrap
from throws import call_targets

PTR = re.compile(r'^(const )?std::(unique|shared)_ptr<|\*( const)?$')


def is_ptr(t):
    t = (t or '').replace(' &&', '').replace(' &', '').strip()
    return bool(PTR.search(t)) and not t.startswith(('const char', 'char'))


def join(a, b):
    return a if a == b else 'M'


def path(e):
    e = unwrap(e)
    while isinstance(e, dict) and e.get('k') == 'cast' and e.get('ck') in ('impl', 'static', 'cstyle', 'func') \
            and is_ptr(e.get('t')):
        e = unwrap(e['e'])
    if not isinstance(e, dict):
        return None
    if e.get('k') == 'ref' and e.get('dk') in ('param', 'var'):
        return ('v', e['id'])
    if e.get('k') == 'mem' and isinstance(e.get('b'), dict) and e['b'].get('k') == 'this':
        return ('f', e.get('qn'))
    return None


class Nulls:
    def __init__(self, P, scope=None, fields=False):
        self.P = P
        self.fields = fields
        self.scope = scope or (lambda f: True)
        self.ret = {}       # fid -> 'S' | 'M' | 'N'
        self.par = {}       # (fid, index) -> 'M' | 'N'
        self.fld = {}       # qn of a field -> 'M' | 'N', with the place null comes from
        self.why = {}
        self.sites = 0
        self.alarms = {}
        self.changed = True
        fns = [f for f in P.fns.values() if self.scope(f)]
        n = 0
        while self.changed and n < 12:
            self.changed = False
            n += 1
            for f in fns:
                self.function(f)
        self.final = True
        self.alarms, self.sites = {}, 0
        for f in fns:
            self.function(f)

    final = False

    # ---- interprocedural facts
    def note(self, table, key, v, why):
        if v == 'S':
            return
        old = table.get(key)
        new = v if old is None else join(old, v)
        if table is not self.ret:
            new = 'M'
        if new != old:
            table[key] = new
            self.why.setdefault((id(table), key), why)
            self.changed = True

    # ---- functions
    def function(self, f):
        self.f = f
        st = {}
        for i, p in enumerate(f.get('params') or ()):
            if is_ptr(p.get('t')):
                st[('v', p['id'])] = self.par.get((f['fid'], i), 'S')
        self.rets = []
        for i in f.get('inits') or ():
            e = i.get('e')
            if not isinstance(e, dict):
                continue
            self.walk(e, st)
            if i.get('field') and is_ptr(self.field_type(f, i['field'])) and not (f.get('copy') or f.get('move')):
                self.note(self.fld, self.field_qn(f, i['field']), self.val(e, st), prog.loc(f, e))
        if isinstance(f.get('body'), dict):
            self.stmt(f['body'], st)
        if self.rets:
            v = self.rets[0]
            for x in self.rets[1:]:
                v = join(v, x)
            self.note(self.ret, f['fid'], v, f['pn'])

    def field_qn(self, f, n):
        return (f.get('pcls') or '') + '::' + n

    def field_type(self, f, n):
        for key in (f.get('cls'), (f.get('cls') or '') + '#dep', f.get('pcls')):
            r = self.P.recs.get(key)
            for x in (r or {}).get('fields', ()):
                if x['n'] == n:
                    return x['t']
        return ''

    # ---- values
    def default(self, p):
        if p[0] == 'f' and self.fields:
            return self.fld.get(self.short(p[1]), 'S')
        return 'S'

    def short(self, qn):
        return re.sub(r'<[^<>]*(<[^<>]*(<[^<>]*(<[^<>]*>)?[^<>]*>)?[^<>]*>)?[^<>]*>', '', qn or '')

    def val(self, e, st):
        e = unwrap(e)
        if not isinstance(e, dict):
            return 'S'
        k = e.get('k')
        p = path(e)
        if p is not None:
            return st.get(p, self.default(p))
        if k in ('null', 'nullptr') or (k == 'lit' and e.get('v') in (None, 'nullptr', 0) and (
                'nullptr' in str(e.get('t')) or is_ptr(e.get('t')))):
            return 'N'
        if k == 'cast':
            if e.get('cast') == 'NullToPointer':
                return 'N'
            if e.get('ck') == 'dynamic' and (e.get('t') or '').endswith('*'):
                return 'M'
            return self.val(e.get('e'), st)
        if k == 'cond':
            a, b = dict(st), dict(st)
            self.refine(e['c'], a, True)
            self.refine(e['c'], b, False)
            return join(self.val(e['a'], a), self.val(e['b'], b))
        if k == 'ctor':
            if re.match(r'std::(unique|shared)_ptr', e.get('pcls') or e.get('cls') or ''):
                return self.val(e['args'][0], st) if e.get('args') else 'N'
            return 'S'
        if k == 'init' and is_ptr(e.get('t')):
            a = e.get('args') or e.get('e') or []
            return 'N' if not a else 'S'
        if k == 'call':
            fn = e.get('fn') or ''
            if fn in ('std::move', 'std::forward'):
                return self.val(e['args'][0], st)
            if re.match(r'std::(unique|shared)_ptr::(get|release)$', fn) and e.get('obj'):
                return self.val(e['obj'], st)
            if is_ptr(e.get('t')):
                r = None
                for g in self.P.targets(e):
                    v = self.ret.get(g['fid'], 'S')
                    r = v if r is None else join(r, v)
                return r or 'S'
        if k == 'assign':
            return self.val(e.get('b'), st)
        return 'S'

    # ---- conditions
    def refine(self, c, st, pol):
        c = unwrap(c)
        if not isinstance(c, dict):
            return
        k = c.get('k')
        if k == 'un' and c.get('op') == '!':
            return self.refine(c['e'], st, not pol)
        if k == 'bin' and c.get('op') in ('&&', '||'):
            if (c['op'] == '&&') == pol:
                self.refine(c['a'], st, pol)
                self.refine(c['b'], st, pol)
            else:
                a, b = dict(st), dict(st)
                self.refine(c['a'], a, pol)
                self.refine(c['a'], b, not pol)
                self.refine(c['b'], b, pol)
                self.join_into(st, a, b)
            return
        if k == 'cast' and c.get('cast') in ('PointerToBoolean', 'UserDefinedConversion', 'IntegralToBoolean', 'NoOp'):
            return self.refine_ptr(c['e'], st, pol) if is_ptr((unwrap(c['e']) or {}).get('t')) else \
                self.refine(c['e'], st, pol)
        if k == 'call' and (c.get('fn') or '').endswith('operator bool') and c.get('obj'):
            return self.refine_ptr(c['obj'], st, pol)
        if (k == 'bin' and c.get('op') in ('==', '!=')) or (k == 'call' and c.get('op') in ('==', '!=')):
            a, b = (c['a'], c['b']) if k == 'bin' else ((c.get('args') or []) + [None, None])[:2]
            for x, y in ((a, b), (b, a)):
                if x is not None and y is not None and self.is_null(y):
                    self.refine_ptr(x, st, pol == (c['op'] == '!='))
            return
        if k == 'ref' and c.get('dk') == 'var':
            d = st.get(('c', c['id']))
            if d is not None:
                self.refine(d, st, pol)
        elif is_ptr(c.get('t')):
            self.refine_ptr(c, st, pol)

    def is_null(self, e):
        e = unwrap(e)
        return isinstance(e, dict) and (self.val(e, {}) == 'N') and path(e) is None

    def refine_ptr(self, e, st, nonnull):
        e = unwrap(e)
        if isinstance(e, dict) and e.get('k') == 'call' and re.search(r'_ptr::(get)$', e.get('fn') or ''):
            e = e['obj']
        if isinstance(e, dict) and e.get('k') == 'assign':
            e = e['a']
        p = path(e)
        if p is not None:
            st[p] = 'S' if nonnull else 'N'
            src = st.get(('a',) + p)
            if src is not None:
                st[src] = st[p]
            for q, x in list(st.items()):
                if q[0] == 'a' and x == p:
                    st[q[1:]] = st[p]

    def join_into(self, st, a, b):
        if a is None and b is None:
            return None
        if a is None or b is None:
            r = dict(b if a is None else a)
        else:
            r = {}
            for p in set(a) | set(b):
                if p[0] in 'ca':
                    if a.get(p) is b.get(p) or a.get(p) == b.get(p):
                        r[p] = a.get(p)
                else:
                    r[p] = join(a.get(p, self.default(p)), b.get(p, self.default(p)))
        st.clear()
        st.update(r)
        return st

    # ---- expressions: dereferences, stores, arguments
    def deref(self, e, st, node):
        if not is_ptr((unwrap(e) or {}).get('t')) and not is_ptr(e.get('t')):
            return
        self.sites += 1
        v = self.val(e, st)
        if v != 'S' and self.final:
            key = (self.f['pn'], prog.show(e))
            self.alarms.setdefault(key, (self.f, node, v, self.origin(e)))
        p = path(e)
        if p is not None and v != 'S':
            st[p] = 'S'   # one alarm per pointer

    def origin(self, e):
        p = path(e)
        if p is None:
            e = unwrap(e)
            return 'the result of ' + (e.get('fn') or '') if isinstance(e, dict) and e.get('k') == 'call' else ''
        if p[0] == 'f':
            return self.why.get((id(self.fld), self.short(p[1])), '')
        for i, q in enumerate(self.f.get('params') or ()):
            if q['id'] == p[1]:
                return 'null is passed at ' + str(self.why.get((id(self.par), (self.f['fid'], i)), ''))
        return ''

    def walk(self, e, st):
        if not isinstance(e, dict):
            return
        k = e.get('k')
        if k == 'bin' and e.get('op') in ('&&', '||'):
            self.walk(e['a'], st)
            s2 = dict(st)
            self.refine(e['a'], s2, e['op'] == '&&')
            self.walk(e['b'], s2)
            return
        if k == 'cond':
            self.walk(e['c'], st)
            a, b = dict(st), dict(st)
            self.refine(e['c'], a, True)
            self.refine(e['c'], b, False)
            self.walk(e['a'], a)
            self.walk(e['b'], b)
            self.join_into(st, a, b)
            return
        if k == 'lambda':
            s2 = dict(st)
            self_rets, self.rets = self.rets, []
            if isinstance(e.get('body'), dict):
                self.stmt(e['body'], s2)
            self.rets = self_rets
            for q, v in s2.items():   # the lambda may be invoked later
                if q[0] in 'vf' and v != st.get(q, self.default(q)):
                    st[q] = 'S'
            return
        if k == 'assign':
            self.walk(e.get('a') if path(e.get('a')) is None else None, st)
            self.walk(e.get('b'), st)
            self.store(e.get('a'), e.get('b'), st, e)
            return
        for x in prog.children(e):
            self.walk(x, st)
        if k == 'un' and e.get('op') == '*':
            self.deref(e['e'], st, e)
        elif k == 'mem' and e.get('ar') and isinstance(e.get('b'), dict) and e['b'].get('k') != 'this':
            self.deref(e['b'], st, e)
        elif k in ('call', 'ctor'):
            self.call(e, st)

    def store(self, a, b, st, node):
        p = path(a)
        if p is not None and is_ptr((unwrap(a) or {}).get('t')):
            v = self.val(b, st)
            st[p] = v
            st.pop(('a',) + p, None)
            if p[0] == 'f' and not (self.f.get('copy') or self.f.get('move')):
                self.note(self.fld, self.short(p[1]), v, prog.loc(self.f, node))

    def call(self, e, st):
        fn = e.get('fn') or ''
        obj = e.get('obj')
        m = re.match(r'std::(?:unique|shared)_ptr::(operator\*|operator->|operator=|reset|swap)$', fn)
        if m and isinstance(obj, dict):
            if m.group(1) in ('operator*', 'operator->'):
                self.deref(obj, st, e)
            elif m.group(1) == 'operator=':
                self.store(obj, e['args'][0], st, e)
            elif m.group(1) == 'reset':
                p = path(obj)
                if p:
                    st[p] = self.val(e['args'][0], st) if e.get('args') else 'N'
            else:
                p = path(obj)
                if p:
                    st[p] = 'S'
            return
        if e.get('k') == 'call' and isinstance(obj, dict) and is_ptr((unwrap(obj) or {}).get('t')) \
                and not re.match(r'std::(unique|shared)_ptr::', fn):
            self.deref(obj, st, e)
        for g in call_targets(self.P, e):
            args = e.get('args') or []
            for i, (a, p) in enumerate(zip(args, g.get('params') or ())):
                if is_ptr(p.get('t')):
                    self.note(self.par, (g['fid'], i), self.val(a, st), prog.loc(self.f, e))
                elif isinstance(a, dict):
                    self.capture(a, st, e)
        for a, t in zip(e.get('args') or (), e.get('pt') or ()):
            # a pointer that is passed by reference may be set by the function
            p = path(a)
            if p is not None and t.rstrip().endswith('&') and not t.rstrip().endswith('&&') and (
                    not t.startswith('const ') or '*' in t):
                st[p] = 'S'
        for a in e.get('args') or ():
            # a pointer whose value is moved away is null afterwards
            x = unwrap(a)
            if isinstance(x, dict) and x.get('k') == 'ctor' and x.get('move') and x.get('args'):
                x = unwrap(x['args'][0])
            if isinstance(x, dict) and x.get('k') == 'call' and x.get('fn') == 'std::move':
                p = path(x['args'][0])
                if p is not None and is_ptr((unwrap(x['args'][0]) or {}).get('t')) and (
                        fn.startswith('std::make_') or e.get('k') == 'ctor' or self.by_value(e, a)):
                    st[p] = 'N'

    def by_value(self, e, a):
        i = [j for j, x in enumerate(e.get('args') or ()) if x is a]
        t = (e.get('pt') or [])[i[0]] if i and i[0] < len(e.get('pt') or []) else ''
        return t.startswith('std::unique_ptr') and not t.rstrip().endswith('&')

    def capture(self, a, st, e):
        pass

    # ---- statements; returns True if the end is reached
    def stmt(self, s, st):
        if not isinstance(s, dict):
            return True
        k = s.get('k')
        if k == 'block':
            for x in s.get('s') or ():
                if not self.stmt(x, st):
                    return False
            return True
        if k == 'decl':
            for v in s.get('vars') or ():
                i = v.get('init')
                if isinstance(i, dict):
                    self.walk(i, st)
                if is_ptr(v.get('t')):
                    st[('v', v['id'])] = self.val(i, st) if isinstance(i, dict) else (
                        'N' if '_ptr<' in (v.get('t') or '') else 'S')
                    src = unwrap(i) if isinstance(i, dict) else None
                    if isinstance(src, dict) and src.get('k') == 'call' and re.search(r'_ptr::get$', src.get('fn') or ''):
                        src = src['obj']
                    p = path(src) if isinstance(src, dict) else None
                    if p is not None:
                        st[('a', 'v', v['id'])] = p
                elif v.get('t') in ('bool', 'const bool') and isinstance(i, dict):
                    st[('c', v['id'])] = i
            return True
        if k == 'expr':
            self.walk(s.get('e'), st)
            e = unwrap(s.get('e'))
            return not (isinstance(e, dict) and e.get('k') == 'throw')
        if k == 'throw':
            return False
        if k == 'ret':
            self.walk(s.get('e'), st)
            if isinstance(s.get('e'), dict) and is_ptr((unwrap(s['e']) or {}).get('t') or s['e'].get('t')):
                self.rets.append(self.val(s['e'], st))
            elif isinstance(s.get('e'), dict) and self.val(s['e'], st) == 'N':
                self.rets.append('N')
            return False
        if k in ('break', 'continue'):
            return False
        if k == 'if':
            if isinstance(s.get('init'), dict):
                self.stmt(s['init'], st)
            if isinstance(s.get('var'), dict):
                self.stmt({'k': 'decl', 'vars': [s['var']]}, st)
            self.walk(s.get('c'), st)
            a, b = dict(st), dict(st)
            self.refine(s['c'], a, True)
            self.refine(s['c'], b, False)
            ra = self.stmt(s.get('a'), a)
            rb = self.stmt(s.get('b'), b) if s.get('b') else True
            self.join_into(st, a if ra else None, b if rb else None)
            return ra or rb
        if k in ('for', 'while', 'do', 'forr'):
            for key in ('i', 'init'):
                x = s.get(key)
                if isinstance(x, dict):
                    self.stmt(x, st)
            if k == 'forr':
                for key in ('r', 'range', 'e'):
                    if isinstance(s.get(key), dict):
                        self.walk(s[key], st)
            for _ in range(2):
                b = dict(st)
                c = s.get('c')
                if isinstance(c, dict) and k != 'do':
                    self.walk(c, b)
                    self.refine(c, b, True)
                self.stmt(s.get('body') or s.get('b'), b)
                for key in ('inc', 'n'):
                    if isinstance(s.get(key), dict):
                        self.walk(s[key], b)
                # paths through `break` and `continue` are covered by joining the state at the start of the iteration
                a = dict(st)
                self.join_into(st, a, b)
            if isinstance(s.get('c'), dict) and not any(
                    n.get('k') == 'break' for n in prog.walk(s.get('body') or s.get('b') or {'k': 'null'})):
                self.refine(s['c'], st, False)
            return True
        if k == 'switch':
            self.walk(s.get('c'), st)
            outs = []
            body = s.get('body') or s.get('b')
            for x in (body or {}).get('s') or ():
                b = dict(st)
                self.stmt(x, b)
                outs.append(b)
            for b in outs:
                a = dict(st)
                self.join_into(st, a, b)
            return True
        if k in ('case', 'default'):
            return self.stmt(s.get('s'), st)
        if k == 'try':
            a = dict(st)
            r = self.stmt(s.get('body'), a)
            outs = [a if r else None]
            for h in s.get('handlers') or ():
                b = dict(st)
                outs.append(b if self.stmt(h.get('body'), b) else None)
            live = [o for o in outs if o is not None]
            if not live:
                return False
            x = live[0]
            for o in live[1:]:
                y = dict(x)
                self.join_into(x, y, o)
            st.clear()
            st.update(x)
            return True
        if k == 'omp':
            return self.stmt(s.get('body'), st)
        for x in prog.children(s):
            if x.get('k') in ('block', 'decl', 'expr', 'ret', 'if', 'for', 'while'):
                self.stmt(x, st)
            else:
                self.walk(x, st)
        return True
