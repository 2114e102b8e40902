"""C24: data sets are read from, and written to, files as they are."""
import ast
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pyabs
import report
import splits
from pyabs import const, show

RULE = ('The functions that load and save data sets are interpreted abstractly for several declarations of attributes and '
        'outputs (by XML files, or by the relation, with outputs located at the start or at the end), with the values in '
        'the file as symbols. The dimensions of matrices must be determined by the number of rows and attributes in the file, '
        'rather than by the values that happen to be non-zero. The columns of the matrix must be divided into features and outputs as declared, '
        'and the meta data must specify the names and types of features, and the names of outputs, in the order of the columns. '
        'Saved files must declare the attributes in the order in which the values are stored. Nominal features are encoded by the '
        'given encoder, if any, and by one that is fit to the given data, otherwise.')

D = 'mlrl.testbed.data'
SPARSE = {'coo_array', 'csc_array', 'csr_array', 'coo_matrix', 'csc_matrix', 'csr_matrix', 'lil_array', 'dok_array',
          'lil_matrix', 'dok_matrix'}


class Undecided(Exception):
    pass


class Model(pyabs.Interp):
    """Interpretation with a model of the parsers for ARFF and XML files"""
    attributes, relation, xml = (), '', None
    sparse = True
    entries = ((0, 0), (0, 2), (1, 1))
    rows = 3                # the last row and the last column have no elements

    def data(self, st, kind):
        value = lambda i, j: ('sym', 'v%d,%d' % (i, j))
        cols = range(len(self.attributes))
        entries = [e for e in self.entries if e[1] < len(self.attributes) - 1]
        if kind == 'LOD' and self.sparse:
            return st.new('list', items=[st.new('dict', items=[(const(j), value(i, j)) for r, j in entries if r == i])
                                         for i in range(self.rows)])
        if kind == 'COO' and self.sparse:
            return ('tuple', (st.new('list', items=[value(*e) for e in entries]),
                              st.new('list', items=[const(e[0]) for e in entries]),
                              st.new('list', items=[const(e[1]) for e in entries])))
        if kind in (None, 'DENSE'):
            return st.new('list', items=[st.new('list', items=[
                value(i, j) if not self.sparse or (i, j) in entries else const(0) for j in cols]) for i in range(self.rows)])
        if not self.sparse and kind in ('LOD', 'COO'):
            return None
        raise Undecided('type of data %s' % kind)

    def unknown_call(self, st, f, args, kwargs, node, env):
        n = show(f).split('.')[-1]
        if f[0] == 'ext' and f[1] in ('arff.load', 'arff.loads'):
            self.effect(st, 'call', f, args, kwargs, node, env)
            kw = dict(kwargs)
            kind = kw.get('return_type', args[2] if len(args) > 2 else None)
            if kind is not None and kind[0] != 'ext':
                raise Undecided('type of data %s' % show(kind)[:40])
            nominal = kw.get('encode_nominal', args[1] if len(args) > 1 else pyabs.FALSE)
            data = self.data(st, kind and kind[1].split('.')[-1])
            if data is None:
                return [(st, ('raise', ('ext', 'arff.BadLayout')))]
            if nominal[0] == 'c' and not nominal[2]:
                self.not_encoded = True
            return [(st, st.new('dict', items=[(const('data'), data),
                                               (const('attributes'), self.make_attributes(st)),
                                               (const('relation'), const(self.relation))]))]
        if f[0] == 'attr' and n == 'getElementsByTagName':
            if args != [const('label')] and list(args) != [const('label')]:
                return super().unknown_call(st, f, args, kwargs, node, env)
            return [(st, st.new('list', items=[('sym', 'tag:' + x) for x in self.xml or ()]))]
        if f[0] == 'attr' and n == 'getAttribute' and f[1][0] == 'sym' and f[1][1].startswith('tag:'):
            return [(st, const(f[1][1][4:]))]
        return super().unknown_call(st, f, args, kwargs, node, env)

    def make_attributes(self, st):
        items = []
        for name, t in self.attributes:
            v = st.new('list', items=[const(x) for x in t]) if isinstance(t, list) else const(t)
            items.append(('tuple', (const(name), v)))
        return st.new('list', items=items)


def make(attributes, relation='', xml=None, sparse=True):
    I = Model()
    I.sparse, I.not_encoded, I.fork_exceptions = sparse, False, False
    I.attributes, I.relation, I.xml = attributes, relation, xml
    I.ignore_order = True
    I.facts.append(lambda self, st, t: xml is not None if 'isfile' in show(t) or 'exists' in show(t) else None)
    # isinstance of a known value
    def inst(self, st, t):
        if t[0] == 'call' and t[1] == ('builtin', 'isinstance'):
            v, c = t[2]
            if c in (('builtin', 'list'), ('ext', 'list')):
                return v[0] == 'ref' and st.heap[v[1]]['kind'] == 'list'
        return None
    I.facts.append(inst)
    return I


NUM, INT, NOM = 'NUMERIC', 'INTEGER', ['u', 'v', 'w']
BIN = ['0', '1']
CASES = [
    # name, attributes, relation, xml, outputs at start, names of the outputs
    ('XML file, outputs at the end', [('a', NUM), ('b', NOM), ('c', INT), ('y1', BIN), ('y2', BIN)], 'x', ['y1', 'y2'], False),
    ('XML file, outputs at the start', [('y1', BIN), ('y2', BIN), ('a', 'real'), ('b', NOM), ('c', INT)], 'x', ['y1', 'y2'], True),
    ('XML file, quoted names', [("'a 1'", NUM), ('b', INT), ("'y 1'", BIN)], 'x', ['y 1'], False),
    ('relation, outputs at the start', [('y1', BIN), ('y2', BIN), ('a', NUM), ('b', NOM), ('c', INT)], 'data: -C 2', None, True),
    ('relation with further options', [('y1', BIN), ('a', NUM), ('b', NOM)], "data: -C 1 -T 3", None, True),
    ('relation, outputs at the end', [('a', NUM), ('b', NOM), ('c', INT), ('y1', BIN), ('y2', BIN)], 'data: -C -2', None, False),
    ('relation, numerical outputs at the end', [('a', NUM), ('y1', NUM), ('y2', NUM)], 'data: -C -2', None, False),
]
TYPE = {'numeric': 'NUMERICAL', 'real': 'NUMERICAL', 'integer': 'ORDINAL'}


def clean(name):
    return name.strip("'")


def attr_of(st, o, n):
    if o[0] != 'ref':
        raise Undecided('object %s' % show(o)[:60])
    return st.heap[o[1]]['attrs'][n]


def strip(t, keep=()):
    """conversions of the format"""
    types = []
    while True:
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('tocsr', 'tocsc', 'tolil', 'todok', 'tocoo', 'copy'):
            t = t[1][1]
        elif t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'astype':
            types.append(t[2][0] if t[2] else dict(t[3]).get('dtype'))
            t = t[1][1]
        elif t[0] == 'call' and t[1][0] == 'ext' and t[1][1].split('.')[-1] in SPARSE and len(t[2]) == 1 and \
                t[2][0][0] in ('idx', 'call'):
            t = t[2][0]
        else:
            return t, types


def number(I, st, t):
    """the value of a calculation that involves the dimensions of a matrix"""
    if t[0] == 'c' and isinstance(t[2], int):
        return t[2]
    if t[0] == 'bin' and t[1] in ('+', '-'):
        a, b = number(I, st, t[2]), number(I, st, t[3])
        return a + b if t[1] == '+' else a - b
    if t[0] == 'un' and t[1] == '-':
        return -number(I, st, t[2])
    if t[0] == 'idx' and t[1][0] == 'attr' and t[1][2] == 'shape' and t[2][0] == 'c':
        m, _ = strip(t[1][1])
        return matrix(I, st, m)[:2][t[2][2]]
    raise Undecided('number %s' % show(t)[:60])


def columns(I, st, t, n):
    """-> (matrix, list of columns)"""
    t, types = strip(t)
    if t[0] == 'idx':
        t, k = t[1], t[2]
        if k[0] == 'tuple' and len(k[1]) == 2:
            rows, cols = k[1]
            if rows[0] != 'slice' or any(x != pyabs.NONE for x in rows[2]):
                raise Undecided('rows %s' % show(rows)[:40])
            if cols[0] != 'slice':
                raise Undecided('columns %s' % str(cols)[-150:])
            bounds = [const(number(I, st, x)) if x[0] in ('bin', 'un', 'idx') else x for x in cols[2]]
            if any(x[0] != 'c' for x in bounds):
                raise Undecided('columns %s' % str(cols)[-150:])
            t2, types2 = strip(t)
            return t2, list(range(n))[slice(*[x[2] for x in bounds])], types + types2
    raise Undecided('matrix %s' % show(t)[:60])


def check_case(rep, fname, case, with_meta, sparse):
    name, attributes, relation, xml, at_start = case
    outs = xml or [a for a, _ in (attributes[:relnum(relation)] if relnum(relation) > 0 else attributes[relnum(relation):])]
    what = '%s, %s, %s data' % (fname, name, 'sparse' if sparse else 'dense')
    I = make(attributes, relation, xml, sparse)
    I.module(D)
    st = I.start()
    try:
        args = {'data_dir': const('dir'), 'arff_file_name': const('data.arff')}
        if with_meta:
            args['xml_file_name'] = const('data.xml')
        else:
            # the meta data is the one of another file with the same attributes
            res = [x for x in I.call(st, ('fn', D, 'load_data_set_and_meta_data'), [], dict(args, xml_file_name=const('data.xml')),
                                     None) if x[1][0] != 'raise']
            if not res:
                raise Undecided('no path')
            st = res[0][0]
            st.effects = []
            args['meta_data'] = I.items(st, res[0][1])[2]
        n_ok = 0
        msgs = []
        for s, r in I.call(st, ('fn', D, fname), [], args, None):
            if r[0] == 'raise':
                continue
            n_ok += 1
            its = I.items(s, r)
            if its is None:
                raise Undecided('returns %s' % show(r)[:60])
            msgs.append(check_matrices(I, s, its, attributes, outs, at_start))
            if with_meta:
                msgs.append(check_meta(I, s, its[2], attributes, outs, at_start))
        for a in I.analysed:
            rep.functions.add('.'.join(str(x) for x in a))
        if not n_ok:
            rep.violate(what, '%s: the file cannot be loaded' % what)
            return
        msgs = [m for m in msgs if m]
        rep.check(not msgs, what, '%s: %s' % (what, msgs[0] if msgs else ''))
    except (Undecided, pyabs.Unsupported, KeyError, IndexError) as e:
        rep.notes.append('%s: undecided (%r)' % (what, e))


def relnum(r):
    return int(r.split('-C ')[1].split()[0]) if '-C ' in r else 0


def check_matrices(I, st, its, attributes, outs, at_start):
    n, k = len(attributes), len(outs)
    mx, cx, tx = columns(I, st, its[0], n)
    my, cy, ty = columns(I, st, its[1], n)
    want_y = list(range(k)) if at_start else list(range(n - k, n))
    want_x = [i for i in range(n) if i not in want_y]
    if cx != want_x:
        return 'the columns %s instead of %s are used as features' % (cx, want_x)
    if cy != want_y:
        return 'the columns %s instead of %s are used as outputs' % (cy, want_y)
    if mx != my:
        return 'features and outputs are taken from different matrices'
    if I.not_encoded:
        return 'nominal values are not replaced by numbers'
    m, _ = strip(mx)
    rows, cols, got = matrix(I, st, m)
    if cols != n:
        return 'the matrix has %s instead of %d columns' % (cols, n)
    if rows != I.rows:
        return 'the matrix has %s instead of %d rows' % (rows, I.rows)
    entries = [e for e in I.entries if e[1] < n - 1] if I.sparse else [(i, j) for i in range(rows) for j in range(n)]
    want = {e: ('sym', 'v%d,%d' % e) for e in entries}
    for e in sorted(set(want) | set(got)):
        if got.get(e, const(0)) != want.get(e, const(0)):
            return 'the element at row %d and column %d is %s' % (e + (show(got.get(e, const(0)))[:40],))
    return None


def matrix(I, st, m):
    """-> (number of rows, number of columns, elements)"""
    if m[0] != 'call' or m[1][0] != 'ext' or m[1][1].split('.')[-1] not in SPARSE | {'array', 'asarray'}:
        raise Undecided('matrix %s' % show(m)[:60])
    kw = dict(m[3])
    arg = m[2][0]
    its = I.items(st, arg)
    if its is None:
        if arg[0] == 'call':
            return matrix(I, st, arg)
        raise Undecided('data %s' % show(arg)[:60])
    index = I.items(st, its[1]) if len(its) == 2 else None
    if arg[0] == 'tuple' and index is not None and len(index) == 2:
        lists = [I.items(st, x[2][0] if x[0] == 'call' and x[2] else x) for x in (its[0], index[0], index[1])]
        if any(x is None for x in lists):
            raise Undecided('elements')
        vs, rs, cs = lists
        if any(x[0] != 'c' for x in list(rs) + list(cs)):
            raise Undecided('indices')
        got = {}
        if not len(vs) == len(rs) == len(cs):
            return None, None, {}
        for v, r, c in zip(vs, rs, cs):
            if (r[2], c[2]) in got:
                return None, None, {}
            got[(r[2], c[2])] = v
        shape = kw.get('shape') or (m[2][1] if len(m[2]) > 1 and m[2][1][0] == 'tuple' else None)
        if shape is None:
            dims = [const(max([x[2] for x in rs]) + 1), const(max([x[2] for x in cs]) + 1)]
        else:
            dims = I.items(st, shape)
        if dims is None or len(dims) != 2 or any(d[0] != 'c' for d in dims):
            raise Undecided('shape %s' % show(shape)[:60])
        return dims[0][2], dims[1][2], got
    got = {}
    width = None
    for i, row in enumerate(its):
        vals = I.items(st, row)
        if vals is None or width not in (None, len(vals)):
            raise Undecided('row %s' % show(row)[:60])
        width = len(vals)
        got.update({(i, j): v for j, v in enumerate(vals)})
    return len(its), width, got


def deep(I, st, t, depth=0):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'ref' and isinstance(t[1], int):
            h = st.heap[t[1]]
            if depth > 8:
                return t
            return (h['kind'],) + tuple(deep(I, st, x, depth + 1) for x in h.get('items', ())) + (
                (deep(I, st, h['sym'], depth + 1),) if isinstance(h.get('sym'), tuple) else ())
        return tuple(deep(I, st, x, depth) for x in t)
    return t


def check_meta(I, st, meta, attributes, outs, at_start):
    got = [attr_of(st, o, 'name') for o in I.items(st, attr_of(st, meta, 'outputs')) or ()]
    if any(x[0] != 'c' for x in got):
        raise Undecided('names of outputs')
    if [x[2] for x in got] != [clean(o) for o in outs]:
        return 'the outputs are %s' % [x[2] for x in got]
    fs = I.items(st, attr_of(st, meta, 'features'))
    if fs is None:
        raise Undecided('features')
    want = [(clean(a), t) for a, t in attributes if clean(a) not in [clean(o) for o in outs]]
    if len(fs) != len(want):
        return 'there are %d instead of %d features' % (len(fs), len(want))
    for f, (a, t) in zip(fs, want):
        n, ft = attr_of(st, f, 'name'), attr_of(st, f, 'feature_type')
        if n[0] != 'c' or ft[0] != 'enum':
            raise Undecided('feature %s' % a)
        if n[2] != a:
            return 'feature %s is called %s' % (a, n[2])
        exp = 'NOMINAL' if isinstance(t, list) else TYPE[t.lower()]
        if ft[2] != exp:
            return 'features of type %s are considered to be %s' % (t, ft[2].lower())
        if exp == 'NOMINAL':
            vs = I.items(st, attr_of(st, f, 'nominal_values'))
            if vs is not None and [x[2] for x in vs if x[0] == 'c'] != t:
                return 'the values of feature %s are lost' % a
    flag = attr_of(st, meta, 'outputs_at_start')
    if flag[0] != 'c':
        raise Undecided('outputs_at_start')
    if bool(flag[2]) != at_start:
        return 'the outputs are considered to be located at the %s' % ('start' if flag[2] else 'end')
    return None


def check_unsupported(rep):
    I = make([('a', 'STRING'), ('y', BIN)], 'x', ['y'])
    I.module(D)
    ok = [1 for s, r in I.call(I.start(), ('fn', D, 'load_data_set_and_meta_data'), [const('d'), const('f.arff'), const('f.xml')], {},
                               None) if r[0] != 'raise']
    rep.check(not ok, 'unsupported types of attributes are rejected', 'attributes of an unsupported type are not rejected')


def check_indices(rep):
    """indices of the features with certain types"""
    for want, types in (([1], ['NOMINAL']), ([2], ['ORDINAL']), ([0, 3], ['NUMERICAL']), ([1, 2], ['NOMINAL', 'ORDINAL']),
                        ([0, 1, 2, 3], None)):
        what = 'indices of %s features' % (' and '.join(types).lower() if types else 'all')
        I = make([], '', None)
        c = I.cls(D, 'FeatureType')
        st = I.start()
        try:
            feats = []
            for n in ('NUMERICAL', 'NOMINAL', 'ORDINAL', 'NUMERICAL'):
                (st, o), = I.call(st, I.cls(D, 'Feature'), [const(n), I.enum_member(c, n)], {}, None)
                feats.append(o)
            (st, m), = I.call(st, I.cls(D, 'MetaData'), [st.new('list', items=feats), st.new('list', items=[]), pyabs.FALSE], {}, None)
            arg = [st.new('set', items=[I.enum_member(c, t) for t in types])] if types else []
            for meth, exp in (('get_feature_indices', want), ('get_num_features', len(want))):
                for s, r in I.call_method(st.fork(), m, meth, arg):
                    if meth == 'get_feature_indices':
                        its = I.items(s, r)
                        if its is None or any(x[0] != 'c' for x in its):
                            raise Undecided(show(r)[:60])
                        got = [x[2] for x in its]
                    else:
                        if r[0] != 'c':
                            raise Undecided(show(r)[:60])
                        got = r[2]
                    rep.check(got == exp, '%s (%s)' % (what, meth), '%s returns %s instead of %s for %s features' % (
                        meth, got, exp, ' and '.join(types or ['all']).lower()))
        except (Undecided, pyabs.Unsupported, ValueError) as e:
            rep.notes.append('%s: undecided (%s)' % (what, e))


def check_one_hot(rep):
    for nominal in (True, False):
        for given in (True, False):
            what = 'one_hot_encode, %s nominal features, %s encoder' % ('with' if nominal else 'without', 'given' if given else 'no')
            I = make([], '', None)
            c = I.cls(D, 'FeatureType')
            I.overrides[('fn', 'mlrl.common.arrays', 'is_sparse')] = lambda self, st, a, k, n, e: [
                (st, ('call', ('sym', 'is_sparse'), (a[0],), ()))]
            I.facts.append(lambda self, st, t: False if t[0] == 'cmp' and t[1] in ('is', '==') and ('sym', 'encoder') in t[2:] and
                           pyabs.NONE in t[2:] else None)
            st = I.start()
            X, Y = ('sym', 'x'), ('sym', 'y')
            try:
                feats = []
                for n in ('NUMERICAL', 'NOMINAL' if nominal else 'NUMERICAL', 'ORDINAL', 'NOMINAL' if nominal else 'ORDINAL'):
                    (st, o), = I.call(st, I.cls(D, 'Feature'), [const(n), I.enum_member(c, n)], {}, None)
                    feats.append(o)
                outs = st.new('list', items=[('sym', 'output')])
                (st, m), = I.call(st, I.cls(D, 'MetaData'), [st.new('list', items=feats), outs, pyabs.FALSE], {}, None)
                kw = {'encoder': ('sym', 'encoder')} if given else {}
                msgs = []
                for s, r in I.call(st, ('fn', D, 'one_hot_encode'), [X, Y, m], kw, None):
                    if r[0] == 'raise':
                        continue
                    its = I.items(s, r)
                    if its is None or len(its) != 3:
                        raise Undecided(show(r)[:60])
                    x, enc, meta = its
                    base, _ = strip(x)
                    if base[0] == 'call' and base[1][0] == 'attr' and base[1][2] == 'toarray':
                        base = base[1][1]
                    if not nominal:
                        if base != X:
                            msgs.append('data without nominal features are modified')
                        if meta != m:
                            msgs.append('the meta data of data without nominal features is modified')
                        continue
                    if base == X:
                        msgs.append('nominal features are not encoded')
                        continue
                    if base[0] != 'call' or base[1][0] != 'attr' or base[1][2] not in ('transform', 'fit_transform'):
                        raise Undecided('encoded data %s' % show(base)[:60])
                    if base[1][1] != enc:
                        msgs.append('the encoder that is returned is not the one that has been used')
                    src = base[2][0]
                    if src[0] == 'call' and src[1][0] == 'attr' and src[1][2] in ('toarray', 'todense'):
                        src = src[1][1]
                    if src != X:
                        msgs.append('%s is encoded' % show(src)[:60])
                    fits = [e for e in s.effects if e.kind == 'call' and e.target[0] == 'attr' and
                            e.target[2] in ('fit', 'fit_transform') and e.target[1] == enc]
                    if base[1][2] == 'fit_transform':
                        fits.append(1)
                    if given:
                        if enc != ('sym', 'encoder'):
                            msgs.append('the given encoder is not used')
                        if fits:
                            msgs.append('the given encoder is fit to other data')
                    else:
                        if not fits:
                            msgs.append('the encoder is not fit to the data')
                        nom = [t for t in pyabs.subterms(deep(I, s, enc)) if t[:1] == ('list',) and len(t) > 1 and
                               all(isinstance(q, tuple) and q[:2] == ('c', 'int') for q in t[1:])]
                        if nom and nom[0][1:] != (const(1), const(3)):
                            msgs.append('the features %s are encoded instead of the nominal ones' % [q[2] for q in nom[0][1:]])
                        if not nom:
                            raise Undecided('indices of the encoded features')
                    if meta == m:
                        msgs.append('the meta data is not adapted to the encoded features')
                    elif I.items(s, attr_of(s, meta, 'features')) not in (None, (), []):
                        msgs.append('the meta data describes the features before encoding')
                    elif attr_of(s, meta, 'outputs') != outs:
                        msgs.append('the outputs are lost')
                for a in I.analysed:
                    rep.functions.add('.'.join(str(x) for x in a))
                rep.check(not msgs, what, '%s: %s' % (what, msgs[0] if msgs else ''))
            except (Undecided, pyabs.Unsupported, ValueError, KeyError) as e:
                rep.notes.append('%s: undecided (%r)' % (what, e))


def check_save(rep):
    """attributes are declared in the order of the values"""
    for at_start in (True, False):
        what = 'save_arff_file, outputs at the %s' % ('start' if at_start else 'end')
        I = make([], '', None)
        c = I.cls(D, 'FeatureType')
        I.overrides[('fn', 'mlrl.common.arrays', 'is_sparse')] = lambda self, st, a, k, n, e: [(st, pyabs.TRUE)]

        def shape(self, st, t):
            return None
        st = I.start()
        X, Y = ('sym', 'x'), ('sym', 'y')
        try:
            feats, outs = [], []
            for i, n in enumerate(('NUMERICAL', 'NOMINAL')):
                vals = {} if n != 'NOMINAL' else {'nominal_values': st.new('list', items=[const('u'), const('v')])}
                (st, o), = I.call(st, I.cls(D, 'Feature'), [const('f%d' % i), I.enum_member(c, n)], vals, None)
                feats.append(o)
            for i in range(3):
                (st, o), = I.call(st, I.cls(D, 'Output'), [const('o%d' % i)], {}, None)
                outs.append(o)
            (st, m), = I.call(st, I.cls(D, 'MetaData'), [st.new('list', items=feats), st.new('list', items=outs), const(at_start)],
                              {}, None)
            for v, n in ((X, 2), (Y, 3)):
                for t in (v, ('call', ('ext', 'scipy.sparse.dok_array'), (v,), ())):
                    st.symattrs[(t, 'shape')] = ('tuple', (const(4), const(n)))
            msgs, seen = [], 0
            for s, r in I.call(st, ('fn', D, 'save_arff_file'), [const('dir'), const('f.arff'), X, Y, m], {}, None):
                if r[0] == 'raise' or any(e.kind == 'noiter' for e in s.effects):
                    continue
                for e in s.effects:
                    if e.kind == 'call' and show(e.target).split('.')[-1] in ('dumps', 'dump'):
                        seen += 1
                        d = e.args[0]
                        if d[0] != 'ref' or s.heap[d[1]]['kind'] != 'dict':
                            raise Undecided('content %s' % show(d)[:60])
                        content = {k[2]: v for k, v in s.heap[d[1]]['items'] if k[0] == 'c'}
                        at = I.items(s, content['attributes'])
                        if at is None:
                            raise Undecided('attributes')
                        names = [I.items(s, a)[0] for a in at]
                        want = ['o0', 'o1', 'o2', 'f0', 'f1'] if at_start else ['f0', 'f1', 'o0', 'o1', 'o2']
                        if any(n[0] != 'c' for n in names):
                            raise Undecided('names of attributes')
                        if [n[2] for n in names] != want:
                            msgs.append('the attributes are %s instead of %s' % ([n[2] for n in names], want))
                        rel = content['relation']
                        if rel[0] == 'c' and not rel[2].endswith('-C %d' % (3 if at_start else -3)):
                            msgs.append('the relation is %s' % rel[2])
                # the offsets of the columns
                offs = {}
                for e in s.effects:
                    if e.kind == 'setitem' and 'elem' in repr(e.args[0]):
                        k = e.args[0]
                        src = 'x' if "('sym', 'x')" in repr(k) else 'y' if "('sym', 'y')" in repr(k) else None
                        offs[src] = k
                for v, off in (('x', 3 if at_start else 0), ('y', 0 if at_start else 2)):
                    k = offs.get(v)
                    if k is None:
                        raise Undecided('values of %s' % v)
                    got = 0
                    if k[0] == 'bin' and k[1] == '+':
                        cs = [q[2] for q in k[2:] if q[0] == 'c']
                        got = cs[0] if cs else None
                    if got is None:
                        raise Undecided('column %s' % show(k)[:60])
                    if got != off:
                        msgs.append('the values of %s are stored in the columns starting at %s instead of %d' % (
                            'features' if v == 'x' else 'outputs', got, off))
            for a in I.analysed:
                rep.functions.add('.'.join(str(x) for x in a))
            if not seen:
                raise Undecided('content of the file')
            rep.check(not msgs, what, '%s: %s' % (what, msgs[0] if msgs else ''))
        except (Undecided, pyabs.Unsupported, ValueError, KeyError) as e:
            rep.notes.append('%s: undecided (%r)' % (what, e))


def check_save_meta(rep):
    """the names of the outputs are written to XML files"""
    what = 'save_meta_data'
    I = make([], '', None)
    I.module(D)
    st = I.start()
    try:
        outs = []
        for n in ('Y b', 'y_1'):
            (st, o), = I.call(st, I.cls(D, 'Output'), [const(n)], {}, None)
            outs.append(o)
        (st, m), = I.call(st, I.cls(D, 'MetaData'), [st.new('list', items=[]), st.new('list', items=outs), pyabs.FALSE], {}, None)
        msgs = []
        for s, r in I.call(st, ('fn', D, 'save_meta_data'), [const('dir'), const('f.xml'), m], {}, None):
            if r[0] == 'raise':
                continue
            labels, names, written = [], [], False
            for e in s.effects:
                if e.kind != 'call':
                    continue
                n = show(e.target).split('.')[-1].split('(')[0]
                if n == 'SubElement' and len(e.args) > 1:
                    attrs = dict(e.kwargs)
                    labels.append(e.args[1])
                    if len(e.args) > 2:
                        raise Undecided('attributes')
                    if 'name' in attrs:
                        names.append(attrs['name'])
                elif e.target[0] == 'attr' and e.target[2] == 'set' and e.args and e.args[0] == const('name'):
                    names.append(e.args[1])
                elif 'write' in n:
                    written = True
            if labels != [const('label')] * 2:
                raise Undecided('elements %s' % ', '.join(show(x) for x in labels))
            if names != [const('Y b'), const('y_1')]:
                msgs.append('the names of outputs are %s instead of Y b, y_1' % ', '.join(show(x)[:40] for x in names))
            elif not written:
                raise Undecided('written file')
        rep.check(not msgs, what, '%s: %s' % (what, msgs[0] if msgs else ''))
    except (Undecided, pyabs.Unsupported, ValueError, KeyError) as e:
        rep.notes.append('%s: undecided (%r)' % (what, e))


def check_predictions(rep):
    """real-valued predictions are not declared to be nominal"""
    W = 'mlrl.testbed.predictions'
    for real in (True, False):
        what = '%s predictions that are written to an ARFF file' % ('real-valued' if real else 'binary')
        I = make([], '', None)
        I.module(D)
        I.fork_exceptions = False

        def kind(self, st, t, real=real):
            if not any(x[0] == 'attr' and x[2] in ('dtype', 'kind') for x in pyabs.subterms(t)):
                return None
            of_predictions = any(x == ('sym', 'predictions') for x in pyabs.subterms(t))
            names = [x[1].split('.')[-1] for x in pyabs.subterms(t) if len(x) == 2 and x[0] == 'ext'] + [
                x[2] for x in pyabs.subterms(t) if len(x) == 3 and x[:2] == ('c', 'str')]
            floating = real and of_predictions
            if any('int' in n or n in 'iu' for n in names):
                return not floating
            if any('float' in n or n == 'f' for n in names):
                return floating
            return None
        I.facts.append(kind)
        captured = []

        def save(self, st, args, kwargs, node, env):
            a = dict(zip(('output_dir', 'arff_file_name', 'x', 'y', 'meta_data'), args))
            a.update(kwargs)
            captured.append((st, a))
            return [(st, pyabs.NONE)]
        I.overrides[('fn', D, 'save_arff_file')] = save
        I.overrides[('fn', 'mlrl.testbed.io', 'get_file_name_per_fold')] = lambda self, st, a, k, n, e: [(st, ('sym', 'file'))]
        st = I.start()
        try:
            outs = []
            for i in range(2):
                (st, o), = I.call(st, I.cls(D, 'Output'), [const('o%d' % i)], {}, None)
                outs.append(o)
            (st, m), = I.call(st, I.cls(D, 'MetaData'), [st.new('list', items=[]), st.new('list', items=outs), pyabs.FALSE], {}, None)
            (st, sink), = I.call(st, I.cls(W, 'PredictionWriter.ArffSink'), [const('dir')], {}, None)
            (st, data), = I.call(st, I.cls(W, 'PredictionWriter.Predictions'), [('sym', 'predictions'), ('sym', 'truth')], {}, None)
            rs = I.call_method(st, sink, 'write_output', [('sym', 'problem'), m, ('sym', 'split'), ('sym', 'type'), ('sym', 'scope'),
                                                          data])
            if not captured:
                raise Undecided('nothing is saved')
            msgs = []
            for s, a in captured:
                if a['x'] != ('sym', 'truth') or not any(x == ('sym', 'predictions') for x in pyabs.subterms(a['y'])):
                    msgs.append('%s and %s are saved instead of the ground truth and the predictions' % (
                        show(a['x'])[:40], show(a['y'])[:40]))
                os_ = I.items(s, attr_of(s, a['meta_data'], 'outputs'))
                if os_ is None or len(os_) != 2:
                    raise Undecided('outputs')
                for o in os_:
                    t = attr_of(s, o, 'feature_type')
                    vals = attr_of(s, o, 'nominal_values')
                    if t[0] != 'enum':
                        raise Undecided('type of outputs')
                    if real and t[2] != 'NUMERICAL' and vals != pyabs.NONE:
                        msgs.append('predicted scores or probabilities are declared to be nominal')
            for a in I.analysed:
                rep.functions.add('.'.join(str(x) for x in a))
            rep.check(not msgs, what, '%s: %s' % (what, msgs[0] if msgs else ''))
        except (Undecided, pyabs.Unsupported, KeyError, ValueError) as e:
            rep.notes.append('%s: undecided (%r)' % (what, e))


def check_experiments(rep):
    """the ground truth of regression problems is loaded as floating point numbers"""
    cases = [('NoSplitter', {}, None)]
    for pre in (True, False):
        cases.append(('TrainTestSplitter', {'test_size': ('sym', 'size'), 'random_state': ('sym', 'seed')}, pre))
        cases.append(('CrossValidationSplitter', {'num_folds': const(2), 'current_fold': const(-1),
                                                  'random_state': ('sym', 'seed')}, pre))
    for cls, kw, pre in cases:
        what = 'ground truth of regression problems (%s%s)' % (cls, '' if pre is None else ', predefined' if pre else ', random')
        I = splits.interpreter()
        if pre is not None:
            I.overrides[('fn', splits.S, 'check_if_files_exist')] = lambda self, st, a, k, n, e: [(st, const(pre))]
        ds = {'data_dir': const('dir'), 'data_set_name': const('data'), 'use_one_hot_encoding': pyabs.FALSE}
        try:
            splits.run_splitter(rep, I, cls, ds, kw)
            if not I.loaded:
                raise Undecided('no data set is loaded')
            mod = I.module(D)
            bad = set()
            for fn, t in I.loaded:
                if t is None:
                    d = next(n for n in mod.tree.body if isinstance(n, ast.FunctionDef) and n.name == fn)
                    names = [a.arg for a in d.args.args]
                    i = names.index('output_dtype') - len(names) + len(d.args.defaults)
                    if i < 0:
                        raise Undecided('output_dtype')
                    v = d.args.defaults[i]
                    t = mod.vars.get(v.id) if isinstance(v, ast.Name) else None
                if t is None or t[0] != 'ext':
                    raise Undecided('output_dtype %s' % (t and show(t)[:40]))
                if 'int' in t[1].split('.')[-1] or 'bool' in t[1].split('.')[-1]:
                    bad.add('%s via %s' % (t[1], fn))
            rep.check(not bad, what, '%s: the values are converted into %s, also if they are scores to be predicted by regression '
                                     'models' % (cls, ' and '.join(sorted(bad))))
        except (Undecided, splits.Undecided, pyabs.Unsupported, KeyError, ValueError, StopIteration) as e:
            rep.notes.append('%s: undecided (%r)' % (what, e))


def analyse(rep, tier):
    rep.file('python/subprojects/testbed/mlrl/testbed/data.py')
    for case in CASES:
        for sparse in (True, False):
            rep.guard(check_case, 'load_data_set_and_meta_data', case, True, sparse)
            rep.guard(check_case, 'load_data_set', case, False, sparse)
    rep.guard(check_save_meta)
    rep.guard(check_unsupported)
    rep.guard(check_indices)
    rep.guard(check_one_hot)
    rep.guard(check_save)
    rep.guard(check_experiments)
    rep.guard(check_predictions)
    rep.coverage['notes'] = rep.notes


if __name__ == '__main__':
    report.run('C24', RULE, 'other', {}, analyse, 8)
