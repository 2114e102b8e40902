"""Interprocedural sharing and effect analysis for the bodies of parallel loops.

Every expression is abstracted to a set of atoms:
  ('i',) / ('t',)      the index of the iteration / of the thread; ('is',) / ('ts',): such an index, multiplied by a stride
  ('any',)             any other number
  ('sh', key)          memory that is shared by all iterations; `key` is an access path
  ('own', key, kind)   the part of shared memory that belongs to a single iteration ('i') or thread ('t')
  ('ob', oid)          an object that has been created in the current iteration
  ('fn', fid), ('lam', id)   functions
Pointers, references and smart pointers are abstracted to the atoms of the objects they refer to. Functions are analysed once
per combination of the atoms they are given, calls are resolved by class hierarchy analysis."""
import re

import prog

NUM = {('i',), ('t',), ('is',), ('ts',), ('any',)}
ANY = frozenset([('any',)])
EMPTY = frozenset()
MAXKEY = 8

SCALAR = re.compile(r'^(const )?(volatile )?(unsigned |signed )?(bool|char|short|int|long|long long|float|double|size_t|'
                    r'u?int\d+(_t)?|float\d+|unsigned( \w+)?|std::size_t|std::ptrdiff_t|ptrdiff_t|unsigned long long|'
                    r'long long|std::ceil_t|auto)$')
SMART = ('std::unique_ptr', 'std::shared_ptr', 'std::reference_wrapper', 'std::function', 'std::optional', 'std::weak_ptr')
PASS = {'move', 'forward', 'as_const', 'addressof', 'get', 'operator*', 'operator->', 'ref', 'cref', 'launder', 'value',
        'operator++', 'operator--', 'operator+', 'operator-', 'base', 'next', 'prev', 'advance', 'distance', 'begin', 'cbegin',
        'end', 'cend', 'rbegin', 'rend', 'crbegin', 'crend', 'before_begin', 'cbefore_begin', 'lower_bound', 'upper_bound',
        'equal_range', 'make_pair', 'make_tuple', 'tie', 'static_pointer_cast', 'dynamic_pointer_cast', 'release', 'min',
        'max', 'lock'}
ELEMENT = {'operator[]', 'at', 'front', 'back', 'data', 'find', 'top'}
MUTATE = {'push_back', 'emplace_back', 'emplace', 'emplace_front', 'push_front', 'insert', 'insert_after', 'emplace_after',
          'erase', 'erase_after', 'clear', 'resize', 'reserve', 'assign', 'pop_back', 'pop_front', 'swap', 'sort', 'push',
          'pop', 'splice_after', 'splice', 'merge', 'remove', 'remove_if', 'unique', 'reverse', 'try_emplace',
          'insert_or_assign', 'reset', 'operator=', 'shrink_to_fit', 'rehash', 'operator+=', 'operator-='}
# external functions -> positions of the arguments they write through
WRITES = {'fill': (0,), 'fill_n': (0,), 'copy': (2,), 'copy_n': (2,), 'move_backward': (2,), 'copy_if': (2,),
          'transform': (-2,), 'sort': (0,), 'stable_sort': (0,), 'partial_sort': (0,), 'nth_element': (0,), 'iota': (0,),
          'swap': (0, 1), 'iter_swap': (0, 1), 'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'reverse': (0,),
          'rotate': (0,), 'shuffle': (0,), 'make_heap': (0,), 'push_heap': (0,), 'pop_heap': (0,), 'sort_heap': (0,),
          'remove': (0,), 'remove_if': (0,), 'unique': (0,), 'replace': (0,), 'generate': (0,), 'partial_sum': (2,),
          'exchange': (0,), 'free': (), 'uninitialized_fill': (0,), 'uninitialized_copy': (2,)}
LOCKS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')


def scalar(t):
    t = (t or '').strip()
    return SCALAR.match(t) is not None or t.startswith('enum ')


def bare(t):
    t = (t or '').strip()
    t = re.sub(r'^const ', '', t)
    return t


def is_ref(t):
    return (t or '').rstrip().endswith('&')


def is_ptr(t):
    t = (t or '').rstrip()
    t = re.sub(r'\*\s*const$', '*', t)
    return t.endswith('*') or bare(t).startswith(SMART) or '(*' in t


def strip_ref(t):
    return re.sub(r'\s*&+$', '', (t or '').strip())


class Ctx:
    __slots__ = ('ret', 'parent', 'f', 'deps')

    def __init__(self, f, parent):
        self.ret = EMPTY
        self.f = f
        self.parent = parent


class Analysis:
    def __init__(self, P, max_contexts=60000):
        self.P = P
        self.heap = {}
        self.memo = {}
        self.done = set()
        self.changed = False
        self.writes = {}         # (function, line, key) -> (description, chain)
        self.own_writes = {}     # key -> {kind}
        self.reads = {}          # key -> {kind or 'sh': place}
        self.unknown = set()
        self.lams = {}
        self.max_contexts = max_contexts
        self.overflow = False
        self.functions = set()
        self.ncalls = 0
        self.owned_cache = {}
        self.fnptrs = None

    # ------------------------------------------------------------ driver
    def region(self, f, omp, env0):
        """Analyses the body of a parallel loop until the result does not change any more."""
        for _ in range(12):
            self.changed = False
            self.done = set()
            c = Ctx(f, None)
            fr = Frame(self, f, c, self.this_of(f), ('region', id(omp)))
            fr.env.update(env0)
            fr.stmt(omp['body'])
            fr.stmt(omp['body'])
            if not self.changed:
                return True
        return False

    def this_of(self, f):
        return frozenset([('sh', ('this',))]) if f.get('cls') else EMPTY

    # ------------------------------------------------------------ heap
    def put(self, oid, field, val):
        k = (oid, field)
        old = self.heap.get(k, EMPTY)
        new = old | val
        if new != old:
            self.heap[k] = new
            self.changed = True

    def get(self, oid, field):
        return self.heap.get((oid, field), EMPTY)

    # ------------------------------------------------------------ events
    def chain(self, fr):
        res, c, n = [], fr.ctx, 0
        while c is not None and n < 12:
            res.append('%s (%s:%d)' % (c.f['qn'].split('<')[0], c.f['f'], c.f['l']))
            c = c.parent
            n += 1
        return res

    def write(self, fr, atom, node, what):
        if fr.locked or fr.critical:
            return
        if atom[0] == 'sh':
            k = (fr.f['pn'], node.get('l', fr.f['l']), atom[1][-1])
            self.writes.setdefault(k, (fr.f, node, atom[1], what, self.chain(fr)))
        elif atom[0] == 'own':
            self.own_writes.setdefault(atom[1], {}).setdefault(atom[2], (fr.f, node))

    def read(self, fr, atom, node):
        if atom[0] == 'sh':
            self.reads.setdefault(atom[1], {}).setdefault('sh', (fr.f, node))
        elif atom[0] == 'own':
            self.reads.setdefault(atom[1], {}).setdefault(atom[2], (fr.f, node))

    # ------------------------------------------------------------ calls
    def call(self, f, this, args, parent):
        if f.get('body') is None and not f.get('inits'):
            return None
        this = self.limit(this)
        args = tuple(self.limit(a) for a in args)
        key = (f['fid'], this, args)
        c = self.memo.get(key)
        if c is None:
            if len(self.memo) > self.max_contexts:
                self.overflow = True
                return EMPTY
            c = self.memo[key] = Ctx(f, parent)
            self.changed = True
        if key in self.done:
            return c.ret
        self.done.add(key)
        self.functions.add(f['qn'])
        fr = Frame(self, f, c, this, key)
        for p, a in zip(f.get('params') or (), args):
            fr.bind(p, a)
        for n in range(2):
            for i in f.get('inits') or ():
                fr.init(i)
            if f.get('body'):
                fr.stmt(f['body'])
        return c.ret

    def limit(self, v):
        if len(v) > 24:
            return frozenset(sorted(v, key=str)[:24])
        return v

    def own_field(self, atom, cls, field, t):
        """Whether a member of an object that belongs to a single iteration belongs to this iteration as well."""
        if is_ref(t):
            return False
        if bare(t).startswith(('std::shared_ptr', 'std::reference_wrapper')):
            return False
        if re.sub(r'\*\s*const$', '*', t.rstrip()).endswith('*'):
            return self.owning(cls, field)
        return True

    def own_binding(self, atom, cls, field):
        """Whether a reference that is a member of a member of an object always refers to the same object."""
        member = atom[1][-1]
        k = ('binding', cls, member, field)
        if k not in self.owned_cache:
            res = []
            for f in self.P.fns.values():
                if f['tmpl'] or not f.get('inits'):
                    continue
                for i in f['inits']:
                    e = i.get('e')
                    if i.get('field') != member or bare(i.get('t', '')) != cls or e is None:
                        continue
                    g = self.P.fns.get(e.get('fid'))
                    ok = False
                    if e.get('k') == 'ctor' and g is not None:
                        for j in g.get('inits') or ():
                            if j.get('field') == field and j.get('e') is not None:
                                r = prog.unwrap(j['e'])
                                ps = [p['n'] for p in g['params']]
                                if r and r.get('k') == 'ref' and r.get('n') in ps:
                                    a = prog.unwrap(e['args'][ps.index(r['n'])])
                                    while a and a.get('k') == 'mem' and not is_ref(a.get('t')) and not a.get('t', '').rstrip().endswith('*'):
                                        a = a['b']
                                    ok = bool(a) and a.get('k') == 'this'
                    res.append(ok)
            self.owned_cache[k] = bool(res) and all(res)
        return self.owned_cache[k]

    def owning(self, cls, field):
        """Whether a class or one of its subclasses releases the memory, a member points to."""
        k = (cls, field)
        if k not in self.owned_cache:
            self.owned_cache[k] = False
            todo, seen = [cls], set()
            while todo and not self.owned_cache[k]:
                c = todo.pop()
                if c in seen:
                    continue
                seen.add(c)
                todo += self.P.subclasses.get(c, ())
                for f in self.P.by_cls.get(c, ()):
                    if '~' in f['n'] and any(
                            n.get('k') == 'mem' and n.get('n') == field for x in prog.fn_nodes(f)
                            if x.get('k') == 'delete' or x.get('k') == 'call' and 'free' in x.get('fn', '').lower()
                            for n in prog.walk(x)):
                        self.owned_cache[k] = True
        return self.owned_cache[k]


class Frame:
    def __init__(self, A, f, ctx, this, key):
        self.A, self.f, self.ctx, self.this, self.key = A, f, ctx, this, key
        self.env = {}
        self.types = {}
        self.locked = False
        self.critical = 0

    # ------------------------------------------------------------ variables
    def bind(self, p, val):
        vid = p['id'] if 'id' in p else p['n']
        t = p.get('t', '')
        self.types[vid] = t
        if not is_ref(t) and not is_ptr(t) and not scalar(t):
            val = self.copied(val, ('prm', self.f['fid'], vid), t)
        if scalar(t):
            val = frozenset(a for a in val if a in NUM) or ANY
        self.env[vid] = self.env.get(vid, EMPTY) | val

    def copied(self, val, oid, t):
        """A copy of an object that is passed or assigned by value."""
        if any(a[0] in ('lam', 'fn') for a in val):
            return val
        if bare(t).startswith('std::') and not bare(t).startswith(('std::vector', 'std::array', 'std::unordered', 'std::list',
                                                                  'std::forward_list', 'std::pair', 'std::tuple')):
            return val
        src = frozenset(a for a in val if a[0] in ('sh', 'own', 'ob'))
        if not src:
            return val
        if src == frozenset([('ob', oid)]):
            return src
        self.A.put(oid, '#copy', frozenset(a for a in src if a != ('ob', oid)))
        return frozenset([('ob', oid)])

    def declare(self, v):
        vid, t = v['id'], v.get('t', '')
        self.types[vid] = t
        if 'binding' in v:
            base = self.env.get(v['binding'], EMPTY)
            self.env[vid] = self.env.get(vid, EMPTY) | self.fields(base, v['n'], t, None, v)
            return
        if v.get('static') and not t.startswith('const '):
            self.env[vid] = frozenset([('sh', ('static ' + v['n'],))])
            self.types[vid] = t + ' &'
            return
        if bare(t).startswith(LOCKS):
            self.locked = True
        i = v.get('init')
        if i is None:
            val = ANY if scalar(t) else EMPTY
        elif is_ref(t):
            val = self.addr(i)
        else:
            val = self.ev(i)
        if not scalar(t) and not is_ref(t) and not is_ptr(t) and t not in ('auto',):
            oid = ('var', self.f['fid'], vid)
            if i is not None and any(a[0] in ('sh', 'own') for a in val):
                val = self.copied(val, oid, t)
            elif not val:
                val = frozenset([('ob', oid)])
        if scalar(t):
            val = frozenset(a for a in val if a in NUM) or ANY
        self.env[vid] = self.env.get(vid, EMPTY) | val

    def init(self, i):
        """An initialiser of a constructor."""
        e = i.get('e')
        if i.get('base') or i.get('kind') == 'base' or 'n' not in i and 'field' not in i:
            if e is not None:
                if e.get('k') == 'ctor':
                    self.construct(e, self.this)
                else:
                    self.ev(e)
            return
        name = i.get('n') or i.get('field')
        t = i.get('t', '')
        if e is None:
            return
        if e.get('k') == 'ctor' and not is_ptr(t) and not is_ref(t) and not bare(e.get('pcls', '')).startswith('std::') and \
                not e.get('copy') and not e.get('move'):
            for a in self.this:
                if a[0] == 'ob':
                    sub = ('ob', self.sub(a[1], name))
                    self.A.put(a[1], name, frozenset([sub]))
                    self.construct(e, frozenset([sub]))
            return
        val = self.addr(e) if is_ref(t) else self.ev(e)
        for a in self.this:
            if a[0] == 'ob':
                if not scalar(t) and not is_ref(t) and not is_ptr(t):
                    v = self.copied(val, self.sub(a[1], name), t)
                else:
                    v = val
                self.A.put(a[1], name, v)

    @staticmethod
    def sub(oid, name):
        d, o = 0, oid
        while isinstance(o, tuple) and o and o[0] == 'sub':
            d += 1
            o = o[1]
        return oid if d > 5 else ('sub', oid, name)

    # ------------------------------------------------------------ memory
    def extend(self, atom, name):
        key = atom[1]
        if len(key) >= MAXKEY or key.count(name) > 1:
            return atom
        return (atom[0], key + (name,)) + tuple(atom[2:])

    def fields(self, base, name, t, cls, node, depth=0):
        """The content of a member of objects."""
        res = set()
        for a in base:
            if a[0] == 'sh':
                b = self.extend(a, name)
                if scalar(t):
                    self.A.read(self, b, node)
                    res.add(('any',))
                else:
                    res.add(b)
            elif a[0] == 'own':
                b = self.extend(a, name)
                if scalar(t):
                    self.A.read(self, b, node)
                    res.add((a[2],) if t.startswith('const ') else ('any',))
                elif self.A.own_field(a, cls, name, t) or is_ref(t) and self.A.own_binding(a, cls, name):
                    res.add(b)
                else:
                    res.add(('sh', b[1]))
            elif a[0] == 'ob':
                v = set(self.A.get(a[1], name))
                src = self.A.get(a[1], '#copy')
                if src and depth < 6:
                    w = self.fields(frozenset(s for s in src if s != a), name, t, cls, node, depth + 1)
                    if scalar(t) or is_ptr(t) or is_ref(t):
                        v |= w
                    else:
                        s = self.sub(a[1], name)
                        x = frozenset(y for y in w if y[0] in ('sh', 'own', 'ob') and y != ('ob', s))
                        if x:
                            self.A.put(s, '#copy', x)
                        v.add(('ob', s))
                elif not v and not scalar(t) and not is_ptr(t) and not is_ref(t):
                    v.add(('ob', self.sub(a[1], name)))
                res |= v
        if scalar(t) and not res:
            res.add(('any',))
        return frozenset(res)

    def element(self, base, index, t=None, node=None):
        """Atoms of the memory location of an element."""
        own = self.own_index(index)
        res = set()
        for a in base:
            if a[0] == 'sh':
                b = self.extend(a, '[]')
                res.add(('own', b[1], own) if own else b)
            elif a[0] == 'own':
                res.add(self.extend(a, '[]'))
            else:
                res.add(a)
        return frozenset(res)

    @staticmethod
    def own_index(v):
        nums = {a for a in v if a in NUM}
        if nums and nums <= {('i',), ('is',)}:
            return 'i'
        if nums and nums <= {('t',), ('ts',)}:
            return 't'
        return None

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None:
            return
        k = s['k']
        if k == 'block':
            was = self.locked
            for x in s['s']:
                self.stmt(x)
            self.locked = was
        elif k == 'expr':
            self.ev(s['e'])
        elif k == 'decl':
            for v in s['vars']:
                self.declare(v)
        elif k == 'if':
            self.stmt(s.get('init'))
            if s.get('var'):
                self.declare(s['var'])
            self.ev(s['c'])
            self.stmt(s.get('a'))
            self.stmt(s.get('b'))
        elif k in ('for', 'while', 'do'):
            self.stmt(s.get('init'))
            if s.get('var'):
                self.declare(s['var'])
            if s.get('c'):
                self.ev(s['c'])
            self.stmt(s.get('body'))
            if s.get('inc'):
                self.ev(s['inc'])
        elif k == 'forr':
            base = self.ev(s['range'])
            v = s['var']
            vid, t = v['id'], v.get('t', '')
            self.types[vid] = t
            el = self.contents(self.element(base, ANY), strip_ref(t) if not is_ref(t) else t, s)
            if not is_ref(t) and not is_ptr(t) and not scalar(t):
                el = self.copied(el, ('var', self.f['fid'], vid), t)
            if scalar(t):
                el = ANY
            self.env[vid] = self.env.get(vid, EMPTY) | el
            self.stmt(s['body'])
        elif k == 'ret':
            if s.get('e') is not None:
                rt = self.f.get('ret', '')
                v = self.addr(s['e']) if is_ref(rt) else self.ev(s['e'])
                if not self.inlam:
                    new = self.ctx.ret | v
                    if new != self.ctx.ret:
                        self.ctx.ret = new
                        self.A.changed = True
                else:
                    self.lamret[-1] |= v | self.addr(s['e'])
        elif k == 'switch':
            self.ev(s['c'])
            self.stmt(s['body'])
        elif k in ('case', 'default'):
            self.stmt(s['s'])
        elif k == 'try':
            self.stmt(s['body'])
            for h in s['handlers']:
                self.stmt(h['body'])
        elif k == 'omp':
            if s.get('dir') in ('critical', 'atomic'):
                self.critical += 1
                self.stmt(s.get('body'))
                self.critical -= 1
            else:
                self.stmt(s.get('body'))
        elif k == 'xs':
            for x in s['s']:
                self.stmt(x)

    inlam = 0

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        """The value of an expression."""
        if e is None:
            return EMPTY
        k = e['k']
        m = getattr(self, 'ev_' + k, None)
        if m is not None:
            return m(e)
        r = set()
        for c in prog.children(e):
            r |= self.ev(c)
        return frozenset(r)

    def addr(self, e):
        """The atoms of the memory an expression refers to, if it is bound to a reference."""
        k = e['k']
        if k == 'ref':
            t = self.types.get(e.get('id'), e.get('t', ''))
            v = self.env.get(e.get('id'))
            if v is not None and not is_ref(t) and (scalar(t) or is_ptr(t)):
                cell = ('var', self.f['fid'], e['id'])
                if is_ptr(t):
                    self.A.put(cell, '[]', frozenset(a for a in v if a not in NUM and a != ('ob', cell)))
                    return frozenset([('ob', cell)])
                return v | frozenset([('ob', cell)])
            if v is not None and is_ref(t):
                return v
        elif k == 'cast' and e.get('cast') in ('LValueToRValue',):
            return self.ev(e)
        elif k == 'cast':
            return self.addr(e['e'])
        elif k in ('mem', 'idx') or k == 'un' and e['op'] == '*' or k == 'call':
            if k != 'call':
                return frozenset(x for l in self.loc(e) for x in self.loc_atoms(l)) | \
                    (self.ev(e) if k == 'mem' else EMPTY)
        elif k == 'cond':
            self.ev(e['c'])
            return self.addr(e['a']) | self.addr(e['b'])
        return self.ev(e)

    @staticmethod
    def loc_atoms(l):
        if l[0] == 'm':
            return (l[1],)
        if l[0] == 'f':
            return (('ob', l[1]),)
        if l[0] == 'v':
            return (('ob', ('var', l[2], l[1])),)
        return ()

    def loc(self, e):
        """The memory locations of an lvalue."""
        k = e['k']
        if k == 'ref':
            vid = e.get('id')
            if e.get('dk') in ('var', 'param', 'local', 'binding') or vid in self.env:
                if vid in self.env:
                    t = self.types.get(vid, e.get('t', ''))
                    if is_ref(t):
                        return [x for a in self.env[vid] for x in self.atom_loc(a)]
                    return [('v', vid, self.f['fid'])]
            if vid is None or vid not in self.env:
                if str(e.get('t', '')).startswith('const '):
                    return []
                return [('m', ('sh', ('global ' + e.get('n', '?'),)))]
            return []
        if k == 'mem':
            b = self.ev(e['b'])
            res = []
            t = e.get('t', '')
            for a in b:
                if a[0] == 'ob':
                    if is_ref(t):
                        res += [x for y in self.fields(frozenset([a]), e['n'], t, e.get('cls'), e) for x in self.atom_loc(y)]
                    else:
                        res.append(('f', a[1], e['n']))
                elif a[0] == 'sh':
                    res.append(('m', self.extend(a, e['n'])))
                elif a[0] == 'own':
                    if is_ref(t):
                        res += [('m', y) for y in self.fields(frozenset([a]), e['n'], t, e.get('cls'), e) if y[0] in ('sh', 'own')]
                    else:
                        res.append(('m', self.extend(a, e['n'])))
            return res
        if k == 'idx':
            base, i = self.ev(e['a']), self.ev(e['b'])
            return [x for a in self.element(base, i, e.get('t'), e) for x in self.atom_loc(a)]
        if k == 'un' and e['op'] == '*':
            return [x for a in self.ev(e['e']) for x in self.atom_loc(a)]
        if k == 'un' and e['op'] in ('++', '--'):
            self.ev(e)
            return self.loc(e['e'])
        if k == 'assign':
            self.ev(e)
            return self.loc(e['a'])
        if k == 'cast':
            return self.loc(e['e'])
        if k == 'cond':
            return self.loc(e['a']) + self.loc(e['b'])
        if k == 'call':
            return [x for a in self.ev(e) for x in self.atom_loc(a)]
        return [x for a in self.ev(e) for x in self.atom_loc(a)]

    @staticmethod
    def atom_loc(a):
        if a[0] in ('sh', 'own'):
            return [('m', a)]
        if a[0] == 'ob':
            return [('f', a[1], '[]')]
        return []

    def store(self, l, val, node, what):
        if l[0] == 'v':
            self.env[l[1]] = self.env.get(l[1], EMPTY) | val
        elif l[0] == 'f':
            self.A.put(l[1], l[2], val)
        elif l[0] == 'm':
            self.A.write(self, l[1], node, what)

    def contents(self, atoms, t, node):
        """The value that is stored at memory locations."""
        if scalar(t):
            for a in atoms:
                if a[0] in ('sh', 'own'):
                    self.A.read(self, a, node)
            return ANY
        res = set()
        for a in atoms:
            if a[0] == 'ob':
                v = self.A.get(a[1], '[]')
                res |= {x for x in v if x not in NUM}
                if not is_ptr(t):
                    res.add(a)
                for s in self.A.get(a[1], '#copy'):
                    if s[0] in ('sh', 'own') and is_ptr(t):
                        res.add(s)
            else:
                res.add(a)
        return frozenset(res)

    def load(self, l, t, node):
        if l[0] == 'v':
            v = self.env.get(l[1], EMPTY)
            return v
        if l[0] == 'f':
            if l[2] == '[]':
                return self.contents(frozenset([('ob', l[1])]), t, node)
            return self.fields(frozenset([('ob', l[1])]), l[2], t, None, node)
        return self.contents(frozenset([l[1]]), t, node)

    # literals and references
    def ev_lit(self, e):
        return EMPTY if e.get('v') == 'nullptr' else ANY

    def ev_str(self, e):
        return EMPTY

    def ev_sizeof(self, e):
        return ANY

    def ev_this(self, e):
        return self.this

    def ev_ref(self, e):
        vid = e.get('id')
        if vid in self.env:
            t = self.types.get(vid, e.get('t', ''))
            v = self.env[vid]
            if scalar(strip_ref(t)):
                for a in v:
                    if a[0] in ('sh', 'own') and is_ref(t):
                        self.A.read(self, a, e)
                return frozenset(a for a in v if a in NUM) or ANY
            if is_ref(t) and is_ptr(strip_ref(t)):
                return self.contents(v, strip_ref(t), e)
            if is_ptr(t):
                return v | self.A.get(('var', self.f['fid'], vid), '[]')
            return v
        if 'fid' in e:
            return frozenset([('fn', e['fid'])])
        dk = e.get('dk')
        t = e.get('t', '')
        if dk in ('enum', 'enumconst'):
            return ANY
        if t.startswith('const ') or scalar(t) and not e.get('g', True):
            return ANY if scalar(t) else frozenset([('sh', ('global ' + e.get('n', '?'),))])
        if scalar(t):
            return ANY
        return frozenset([('sh', ('global ' + e.get('n', '?'),))])

    def ev_mem(self, e):
        if 'fid' in e and 'cls' not in e:
            return frozenset([('fn', e['fid'])])
        return self.fields(self.ev(e['b']), e['n'], e.get('t', ''), e.get('cls'), e)

    def ev_idx(self, e):
        t = e.get('t', '')
        return self.contents(self.element(self.ev(e['a']), self.ev(e['b'])), t, e)

    def ev_un(self, e):
        op = e['op']
        if op == '&':
            return frozenset(a for a in self.addr(e['e']) if a not in NUM)
        if op == '*':
            v = self.ev(e['e'])
            if any(a[0] in ('lam', 'fn') for a in v):
                return v
            return self.contents(v, strip_ref(e.get('t', '')), e)
        if op in ('++', '--'):
            t = e.get('t', '')
            for l in self.loc(e['e']):
                if scalar(strip_ref(t)) or l[0] == 'm':
                    self.store(l, ANY if scalar(strip_ref(t)) else EMPTY, e, 'is modified')
            return self.ev(e['e'])
        v = self.ev(e['e'])
        return ANY if op in ('-', '!', '~') else v

    def ev_cast(self, e):
        return self.ev(e['e'])

    def ev_bin(self, e):
        a, b = self.ev(e['a']), self.ev(e['b'])
        op = e['op']
        pa, pb = {x for x in a if x not in NUM}, {x for x in b if x not in NUM}
        if op in ('+', '-') and (pa or pb):
            p, i = (pa, b) if pa else (pb, a)
            if op == '-' and pa and pb:
                return ANY
            own = self.own_index(i) if op == '+' else None
            return frozenset(('own', x[1], own) if x[0] == 'sh' and own else x for x in p)
        if op == ',':
            return b
        return self.arith(op, a, b)

    def arith(self, op, a, b):
        if op == '*':
            for x, y in ((a, b), (b, a)):
                o = self.own_index(x)
                if o and not self.own_index(y):
                    return frozenset([(o + 's',)])
            return ANY
        if op == '+':
            for x, y in ((a, b), (b, a)):
                n = {z for z in x if z in NUM}
                if n in ({('is',)}, {('ts',)}) and not self.own_index(y):
                    return frozenset(n)
        return ANY

    def ev_assign(self, e):
        op = e['op']
        t = strip_ref(e.get('t', ''))
        val = self.ev(e['b'])
        if op != '=':
            old = self.ev(e['a'])
            val = self.arith(op[:-1], old, val) if scalar(t) else EMPTY
        for l in self.loc(e['a']):
            if l[0] == 'v' and not scalar(t) and not is_ptr(t):
                v = self.copied(val, ('var', self.f['fid'], l[1]), t)
            else:
                v = val
            self.store(l, v, e, 'is modified')
        return self.ev(e['a'])

    def ev_cond(self, e):
        self.ev(e['c'])
        return self.ev(e['a']) | self.ev(e['b'])

    def ev_init(self, e):
        t = e.get('t', '')
        r = set()
        for a in e['args']:
            r |= self.ev(a)
        if scalar(t) or is_ptr(t):
            return frozenset(r)
        oid = ('init', self.f['fid'], id(e))
        rec = self.A.P.recs.get(bare(t))
        if rec is not None and rec.get('fields'):
            for fd, a in zip(rec['fields'], e['args']):
                self.A.put(oid, fd['n'], self.addr(a) if is_ref(fd.get('t', '')) else self.ev(a))
        else:
            self.A.put(oid, '[]', frozenset(x for x in r if x not in NUM))
        return frozenset([('ob', oid)])

    def ev_new(self, e):
        oid = ('new', self.f['fid'], id(e))
        ob = frozenset([('ob', oid)])
        if e.get('size'):
            self.ev(e['size'])
        i = e.get('init')
        if i is not None:
            if i['k'] == 'ctor':
                self.construct(i, ob)
            else:
                self.ev(i)
        return ob

    def ev_delete(self, e):
        self.ev(e['e'])
        return EMPTY

    def ev_throw(self, e):
        if e.get('e'):
            self.ev(e['e'])
        return EMPTY

    def ev_lambda(self, e):
        key = ('lam', id(e), self.key)
        self.A.lams[key] = (e, self)
        return frozenset([('lam', key)])

    def ev_stmtexpr(self, e):
        self.stmt(e['body'])
        return EMPTY

    def ev_ctor(self, e):
        args = e['args']
        pc = bare(e.get('pcls', '') or e.get('t', ''))
        if (e.get('copy') or e.get('move')) and len(args) == 1:
            fs = self.A.P.fns.get(e.get('fid'))
            if fs is None or fs.get('body') is None or fs.get('implicit') or fs.get('defaulted'):
                v = self.ev(args[0])
                if pc.startswith(SMART):
                    return v
                return self.copied(v, ('copy', self.f['fid'], id(e)), e.get('t', ''))
        if pc.startswith('std::'):
            r = set()
            for a in args:
                r |= self.ev(a)
            if pc.startswith(SMART) or any(x[0] in ('lam', 'fn') for x in r):
                return frozenset(x for x in r if x not in NUM)
            oid = ('std', self.f['fid'], id(e))
            self.A.put(oid, '[]', frozenset(x for x in r if x not in NUM and x != ('ob', oid)))
            if pc.startswith(('std::pair', 'std::tuple')):
                for n, a in zip(('first', 'second'), args):
                    self.A.put(oid, n, self.ev(a))
            return frozenset([('ob', oid)])
        ob = frozenset([('ob', ('ctor', self.f['fid'], id(e)))])
        self.construct(e, ob)
        return ob

    def construct(self, e, ob, args=None):
        if args is None:
            args = self.args(e)
        f = self.A.P.fns.get(e.get('fid'))
        if f is not None and (f.get('body') is not None or f.get('inits')):
            self.A.call(f, ob, args, self.ctx)
        elif (e.get('copy') or e.get('move')) and args:
            for a in ob:
                if a[0] == 'ob':
                    self.A.put(a[1], '#copy', frozenset(x for x in args[0] if x[0] in ('sh', 'own', 'ob') and x != a))

    def args(self, e):
        pts = e.get('pt') or ()
        res = []
        for n, a in enumerate(e['args']):
            t = pts[n] if n < len(pts) else ''
            res.append(self.addr(a) if is_ref(t) else self.ev(a))
        return res

    def ev_call(self, e):
        A = self.A
        A.ncalls += 1
        fn = e.get('fn', '') or ''
        name = fn.split('::')[-1]
        if e.get('op') and not fn:
            name = 'operator' + e['op']
        if 'fid' not in e:
            if e.get('callee') is not None:
                return self.indirect(e, self.ev(e['callee']))
            r = set()
            for a in e['args']:
                r |= self.ev(a)
            return frozenset(r)
        if name == 'omp_get_thread_num':
            return frozenset([('t',)])
        if name in ('make_unique', 'make_shared'):
            ob = frozenset([('ob', ('mk', self.f['fid'], id(e)))])
            if e.get('mk'):
                mk = dict(e['mk'], args=e['args'])
                self.construct(mk, ob)
            else:
                for a in e['args']:
                    self.ev(a)
            return ob
        obj = self.addr(e['obj']) if e.get('obj') is not None else None
        if obj is not None and e['obj'].get('k') in ('ref', 'mem'):
            obj = self.ev(e['obj']) or obj
        if obj is not None and any(a[0] in ('lam', 'fn') for a in obj) and (name == 'operator()' or e.get('op') == '()'):
            return self.indirect(e, obj)
        f = A.P.fns.get(e['fid'])
        if fn.startswith('std::') or fn.startswith('__gnu') or (f is None and not e.get('virt')):
            return self.external(e, fn, name, obj)
        targets = [x for x in A.P.targets(e) if not x['tmpl'] and (x.get('body') is not None or x.get('inits'))]
        args = self.args(e)
        if not targets:
            return self.external(e, fn, name, obj, args)
        res = set()
        for t in targets:
            if name == 'getIndex' and len(args) == 1 and self.own_index(args[0]):
                res |= args[0]       # the indices of features, outputs and examples are distinct
            this = obj if obj is not None else EMPTY
            if len(targets) > 1 and e.get('virt'):
                this = frozenset(self.typed(a, t) for a in this)
            res |= A.call(t, this, args, self.ctx) or EMPTY
        if name == 'getIndex' and len(args) == 1 and self.own_index(args[0]):
            return args[0]
        if scalar(strip_ref(e.get('t', ''))) and not is_ref(e.get('t', '')):
            res = {a for a in res if a in NUM} or set(ANY)
        return frozenset(res)

    @staticmethod
    def typed(a, f):
        """An object, restricted to the class that overrides a method."""
        if a[0] in ('sh', 'own') and '@' not in a[1][-1] and len(a[1]) > 0:
            return (a[0], a[1][:-1] + (a[1][-1] + '@' + (['?'] + f['pn'].split('::'))[-2],)) + tuple(a[2:])
        return a

    def indirect(self, e, fns):
        args = [self.ev(a) | (self.addr(a) if a.get('k') in ('ref', 'mem', 'idx', 'call', 'un') else EMPTY) for a in e['args']]
        res = set()
        known = False
        for a in fns:
            if a[0] == 'fn':
                f = self.A.P.fns.get(a[1])
                if f is not None:
                    known = True
                    res |= self.A.call(f, EMPTY, args, self.ctx) or EMPTY
            elif a[0] == 'lam':
                known = True
                res |= self.lam(a[1], args)
        if not known:
            ct = (e.get('callee') or {}).get('t', '')
            m = re.search(r'\(\*?[^()]*\)\s*\((.*)\)', ct) or re.search(r'\((.*)\)', ct)
            pts = split(m.group(1)) if m else []
            for n, v in enumerate(args):
                t = pts[n] if n < len(pts) else ''
                if (is_ref(t) or t.rstrip().endswith('*')) and not t.strip().startswith('const '):
                    for x in v:
                        if x[0] in ('sh', 'own'):
                            self.A.write(self, x, e, 'is modified')
        return frozenset(res)

    def lam(self, key, args):
        node, fr = self.A.lams[key]
        if key in fr.active:
            return EMPTY
        fr.active.add(key)
        for p, a in zip(node['params'], args):
            fr.bind(p, a)
        saved = fr.inlam
        fr.inlam = 1
        fr.lamret.append(set())
        fr.stmt(node['body'])
        fr.inlam = saved
        fr.active.discard(key)
        return frozenset(fr.lamret.pop())

    @property
    def active(self):
        return self.__dict__.setdefault('_active', set())

    @property
    def lamret(self):
        return self.__dict__.setdefault('_lamret', [])

    def external(self, e, fn, name, obj, args=None):
        A = self.A
        if args is None:
            args = self.args(e)
        allargs = frozenset(x for a in args for x in a if x not in NUM)
        t = e.get('t', '')
        lams = [x for x in allargs if x[0] in ('lam', 'fn')]
        for x in lams:
            if x[0] == 'lam':
                node = A.lams[x[1]][0]
                src = frozenset(y for y in allargs if y[0] not in ('lam', 'fn'))
                self.lam(x[1], [self.contents(src, p.get('t', ''), e) if not is_ref(p.get('t', '')) else src
                                for p in node['params']])
        if obj is not None:
            objs = obj
            cls = e.get('cls', '') or ''
            if cls.startswith(('std::atomic', 'std::mutex', 'std::__atomic')):
                return ANY
            container = cls.startswith('std::') and not cls.startswith(SMART)
            if name in MUTATE or (name == 'operator[]' and 'map' in cls):
                for a in objs:
                    if a[0] in ('sh', 'own'):
                        if name == 'operator=' and e['obj'].get('k') == 'ref' and not is_ref(
                                self.types.get(e['obj'].get('id'), '')):
                            self.env[e['obj']['id']] = self.env.get(e['obj']['id'], EMPTY) | allargs
                        elif name == 'operator[]' and self.f and a[0] == 'sh':
                            A.write(self, a, e, 'may be modified by operator[]')
                        elif name != 'operator[]':
                            A.write(self, a, e, 'is modified by %s()' % name)
                    elif a[0] == 'ob':
                        A.put(a[1], '[]', frozenset(x for x in allargs if x != a))
                if name == 'operator=' and e['obj'].get('k') in ('ref', 'mem', 'idx'):
                    for l in self.loc(e['obj']):
                        if l[0] in ('v', 'f'):
                            self.store(l, allargs, e, '')
                        elif l not in [('m', a) for a in objs]:
                            A.write(self, l[1], e, 'is modified')
            if name in ELEMENT:
                idx = args[0] if args else ANY
                own = self.own_index(idx)
                res = set()
                for a in objs:
                    if a[0] == 'sh' and container:
                        b = self.extend(a, '[]')
                        res.add(('own', b[1], own) if own else b)
                    elif a[0] == 'own' and container:
                        res.add(self.extend(a, '[]'))
                    elif a[0] == 'ob' and container:
                        res |= self.contents(frozenset([a]), strip_ref(t), e)
                        res.add(a)
                    else:
                        res.add(a)
                if scalar(strip_ref(t)):
                    for a in res:
                        A.read(self, a, e)
                return frozenset(res)
            if name in PASS or name in MUTATE:
                if name in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend') and container:
                    return self.element(objs, ANY)
                if name.startswith('operator+') and len(args) == 1:
                    own = self.own_index(args[0])
                    return frozenset(('own', x[1], own) if x[0] == 'sh' and own else x for x in objs)
                if name == 'operator*' and scalar(strip_ref(t)):
                    return objs | ANY
                return objs | frozenset(a for a in allargs if name not in ('swap', 'operator='))
            if scalar(strip_ref(t)) and not is_ref(t):
                if e.get('cm') is False and cls.startswith('std::') and name not in ('size', 'empty', 'count', 'end'):
                    for a in objs:
                        if a[0] == 'sh':
                            A.write(self, a, e, 'is modified by %s()' % name)
                return ANY
            if e.get('cm') is False and not cls.startswith('std::'):
                A.unknown.add(fn)
            return objs | allargs
        w = WRITES.get(name)
        if w is not None and (fn.startswith('std::') or '::' not in fn):
            if name == 'copy' or name == 'transform':
                pass
            for i in w:
                if -len(args) <= i < len(args):
                    for a in args[i]:
                        if a[0] in ('sh', 'own'):
                            A.write(self, a, e, 'is modified by %s()' % name)
                        elif a[0] == 'ob':
                            A.put(a[1], '[]', frozenset(x for x in allargs if x != a and x[0] != 'lam'))
            return allargs
        if name in ('malloc', 'calloc', 'realloc') or 'alloc' in name.lower() and '::' not in fn:
            return frozenset([('ob', ('alloc', self.f['fid'], id(e)))])
        if name in ('exp', 'log', 'pow', 'sqrt', 'abs', 'isnan', 'fabs'):
            return ANY
        if scalar(t):
            return ANY
        return allargs | (ANY if scalar(strip_ref(t)) else EMPTY)


def split(s):
    res, d, cur = [], 0, ''
    for c in s:
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            res.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        res.append(cur.strip())
    return res
