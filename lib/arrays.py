"""Abstract domain of arrays and sparse matrices for the abstract interpreter of Python and Cython sources (pyabs).

Every array that is derived from an input of the analysed function is described by the values of its elements, relative to
the input: elements that are absent from a sparse input ("absent"), elements explicitly stored as zero ("zero") and all
other elements ("other"), as well as by its format, memory layout, the types it has been converted into, and whether it may
share its memory with the input."""
import pyabs

SPARSE = ('csr', 'csc', 'coo', 'lil', 'dok')
X = ('x',)
ZERO = pyabs.const(0)
UNINIT = ('sym', 'uninitialised values')
MISPLACED = ('sym', 'values at other positions')
# functions that change values, but (mostly) keep zeros
ELEMENTWISE = {'abs', 'absolute', 'fabs', 'round', 'around', 'rint', 'floor', 'ceil', 'trunc', 'negative', 'sign', 'sqrt',
               'square', 'log1p', 'expm1', 'tanh', 'nan_to_num'}
SHIFTING = {'exp', 'log', 'log2', 'log10', 'reciprocal', 'logical_not', 'invert', 'cos'}


class Arr:
    __slots__ = ('root', 'fmt', 'ndim', 'dtypes', 'order', 'absent', 'zero', 'other', 'sorted', 'dups', 'shared',
                 'flipped')

    def __init__(self, root, **kw):
        self.root = root
        self.fmt = None          # None: dense
        self.ndim = 2
        self.dtypes = ()
        self.order = None
        self.absent = self.zero = ZERO
        self.other = X
        self.sorted = True
        self.dups = False
        self.shared = True
        self.flipped = False
        for k, v in kw.items():
            setattr(self, k, v)

    def but(self, **kw):
        r = Arr(self.root)
        for k in self.__slots__:
            setattr(r, k, getattr(self, k))
        for k, v in kw.items():
            setattr(r, k, v)
        return r

    def __repr__(self):
        return 'Arr(%s)' % ', '.join('%s=%r' % (k, getattr(self, k)) for k in self.__slots__)

    def value(self, kind):
        return getattr(self, kind)

    @property
    def dense_stored_zeros(self):
        return self.zero is not None


def ext(t):
    """Last component of the name of an external function, or None."""
    if t[0] == 'ext':
        return t[1].split('.')[-1]
    return None


def same_zero(t):
    return isinstance(t, tuple) and t[0] == 'c' and t[2] == 0


class Arrays:
    def __init__(self, inputs):
        """:param inputs: symbol term -> Arr"""
        self.inputs = inputs
        self.violations = []     # not used by the domain itself

    def hook(self, interp, st, t):
        """Decides conditions on arrays."""
        if t[0] == 'call':
            f, a = t[1], t[2]
            n = ext(f)
            if n in ('issparse', 'isspmatrix') and len(a) == 1:
                v = self.get(interp, st, a[0])
                return None if v is None else v.fmt is not None
            if n and n.startswith('isspmatrix_') and len(a) == 1:
                v = self.get(interp, st, a[0])
                return None if v is None else v.fmt == n.split('_')[1]
            if f == ('builtin', 'isinstance') and len(a) == 2:
                v = self.get(interp, st, a[0])
                if v is None:
                    return None
                c = ext(a[1])
                if c in ('sparray', 'spmatrix'):
                    return v.fmt is not None
                if c == 'ndarray':
                    return v.fmt is None
                for s in SPARSE:
                    if c in (s + '_array', s + '_matrix'):
                        return v.fmt == s
            return None
        if t[0] == 'cmp' and t[1] in ('==', '<', '<=') and t[2][0] == 'attr':
            v = self.get(interp, st, t[2][1])
            if v is None or not pyabs.is_const(t[3]):
                return None
            if t[2][2] == 'format' and t[1] == '==':
                return v.fmt == t[3][2]
            if t[2][2] == 'ndim' and v.ndim is not None:
                return {'==': v.ndim == t[3][2], '<': v.ndim < t[3][2], '<=': v.ndim <= t[3][2]}[t[1]]
        if t[0] == 'cmp' and t[1] in ('<', '<=') and t[3][0] == 'attr' and t[3][2] == 'ndim' and pyabs.is_const(t[2]):
            v = self.get(interp, st, t[3][1])
            if v is not None:
                return {'<': t[2][2] < v.ndim, '<=': t[2][2] <= v.ndim}[t[1]]
        if t[0] == 'cmp' and t[1] == 'is' and t[3] == pyabs.NONE:
            if self.get(interp, st, t[2]) is not None:
                return False
        return None

    # ------------------------------------------------------------------ values

    def const(self, interp, st, t):
        if t is None:
            return None
        if t[0] == 'c':
            return t[2]
        if t[0] == 'enum' and t[3][0] == 'c':
            return t[3][2]
        if t[0] in ('ref', 'tuple'):
            it = interp.items(st, t)
            if it is not None:
                return [self.const(interp, st, x) for x in it]
        return None

    def dtype(self, t):
        if t is None or t == pyabs.NONE:
            return None
        return ext(t) or (t[1] if t[0] == 'builtin' else pyabs.show(t))

    def cast(self, v, dt):
        if dt is None or v.dtypes and v.dtypes[-1] == dt:
            return v
        return v.but(dtypes=v.dtypes + (dt,))

    def get(self, interp, st, t, effects=None):
        """-> Arr describing the term, or None if unknown (in-place modifications included)."""
        effects = st.effects if effects is None else effects
        v = self.base(interp, st, t, self.before(t, effects))
        if v is None:
            return None
        for i, e in enumerate(effects):
            if e.kind == 'call' and e.target and e.target[0] == 'attr' and e.target[1] == t:
                n = e.target[2]
                if n == 'eliminate_zeros':
                    v = v.but(zero=v.absent if v.fmt is None else ZERO) if False else v.but(zero='gone')
                elif n == 'sum_duplicates':
                    v = v.but(dups=False, sorted=True)
                elif n == 'sort_indices':
                    v = v.but(sorted=True)
                elif n == 'fill' and v.fmt is None and e.args:
                    v = v.but(absent=e.args[0], zero=e.args[0], other=e.args[0])
                elif n in ('sort', 'fill', 'resize', 'partition', 'put', 'itemset', 'setdiag'):
                    return None
            elif e.kind == 'setitem' and e.target == t:
                v = self.setitem(interp, st, v, e.args[0], e.args[1], effects)
                if v is None:
                    return None
            elif e.kind == 'setitem' and e.target[0] == 'attr' and e.target[1] == t:
                return None
        return v

    @staticmethod
    def before(t, effects):
        """The effects that precede the (last) call the term is the result of."""
        if t[0] == 'call':
            for i in range(len(effects) - 1, -1, -1):
                if effects[i].result == t:
                    return effects[:i]
        return effects

    def setitem(self, interp, st, v, key, val, effects):
        if v.fmt is not None:
            return None
        # dense[(coo.row, coo.col)] = c  or  dense[x.nonzero()] = c
        if key[0] == 'call' and key[1][0] == 'attr' and key[1][2] == 'nonzero':
            src = self.get(interp, st, key[1][1], effects)
            if src is not None and src.root == v.root and src.fmt is not None:
                return v.but(other=val)
            return None
        if key[0] == 'tuple' and len(key[1]) == 2 and all(k[0] == 'attr' for k in key[1]):
            a, b = key[1]
            if a[1] == b[1] and (a[2], b[2]) == ('row', 'col'):
                src = self.get(interp, st, a[1], effects)
                if src is not None and src.root == v.root and src.fmt == 'coo':
                    return v.but(other=val, zero=val if src.zero != 'gone' else v.zero)
            if a[1] == b[1] and a[2] in ('row', 'col') and b[2] in ('row', 'col'):
                src = self.get(interp, st, a[1], effects)
                if src is not None and src.root == v.root and src.fmt == 'coo':
                    return v.but(other=MISPLACED, zero=MISPLACED)
        return None

    @staticmethod
    def add(a, b):
        if a == ZERO or a == pyabs.const(0.0):
            return b
        if b == ZERO or b == pyabs.const(0.0):
            return a
        return ('bin', '+', a, b)

    def base(self, interp, st, t, effects):
        if t in self.inputs:
            return self.inputs[t]
        if t[0] == 'call':
            f, a, kw = t[1], t[2], dict(t[3])
            if f[0] == 'attr' and f[2] in ('_validate_data',) or ext(f) in ('check_array', 'validate_data'):
                a = a[1:] if ext(f) == 'validate_data' and a else a
                v = self.get(interp, st, a[0] if a else kw.get('X'), effects) if a or 'X' in kw else None
                if v is None:
                    return None
                acc = self.const(interp, st, kw.get('accept_sparse', pyabs.FALSE))
                if v.fmt is not None:
                    if acc in (False, None):
                        return None
                    fmts = [acc] if isinstance(acc, str) else acc
                    if isinstance(fmts, list) and v.fmt not in fmts:
                        v = self.convert(v, fmts[0])
                elif 'order' in kw and isinstance(self.const(interp, st, kw['order']), str):
                    v = v.but(order=self.const(interp, st, kw['order']))
                return self.cast(v, self.dtype(kw.get('dtype')) if self.const(interp, st, kw.get('dtype')) != 'numeric'
                                 else None)
            n = ext(f)
            if n in ('require', 'asarray', 'array', 'ascontiguousarray', 'asfortranarray', 'asanyarray', 'copy'):
                v = self.get(interp, st, a[0], effects) if a else None
                if v is None:
                    return None
                if v.fmt is not None:
                    return None
                dt = kw.get('dtype', a[1] if len(a) > 1 and n != 'copy' else None)
                v = self.cast(v, self.dtype(dt))
                if n == 'require':
                    req = self.const(interp, st, kw.get('requirements', a[2] if len(a) > 2 else None)) or []
                    req = [req] if isinstance(req, str) else req
                    for r in req:
                        if r in ('C', 'C_CONTIGUOUS', 'CONTIGUOUS'):
                            v = v.but(order='C')
                        elif r in ('F', 'F_CONTIGUOUS', 'FORTRAN'):
                            v = v.but(order='F')
                elif n == 'ascontiguousarray':
                    v = v.but(order='C')
                elif n == 'asfortranarray':
                    v = v.but(order='F')
                else:
                    o = self.const(interp, st, kw.get('order'))
                    if o in ('C', 'F'):
                        v = v.but(order=o)
                    if n in ('array', 'copy') and self.const(interp, st, kw.get('copy', pyabs.TRUE)):
                        v = v.but(shared=False)
                return v
            if n == 'expand_dims' and a:
                v = self.get(interp, st, a[0], effects)
                ax = self.const(interp, st, kw.get('axis', a[1] if len(a) > 1 else None))
                if v is None or v.ndim != 1 or ax not in (1, -1):
                    return None
                return v.but(ndim=2)
            if f == ('builtin', 'abs'):
                n = 'abs'
            if n in ELEMENTWISE | SHIFTING and a:
                v = self.get(interp, st, a[0], effects)
                if v is None or v.fmt is not None and n in SHIFTING:
                    return None
                return self.mapped(v, lambda x: x if same_zero(x) and n in ELEMENTWISE else ('call', f, (x,), ()))
            if n in ('full', 'zeros', 'full_like', 'zeros_like', 'ones', 'ones_like', 'empty', 'empty_like'):
                shape = kw.get('shape', a[0] if a else None)
                if shape is None:
                    return None
                if n.endswith('_like'):
                    src = self.get(interp, st, shape, effects)
                elif shape[0] == 'attr' and shape[2] == 'shape':
                    src = self.get(interp, st, shape[1], effects)
                else:
                    return None
                if src is None:
                    return None
                fill = UNINIT if n.startswith('empty') else pyabs.const(1) if n.startswith('ones') else \
                    ZERO if n.startswith('zeros') else kw.get('fill_value', a[1] if len(a) > 1 else None)
                if fill is None:
                    return None
                o = self.const(interp, st, kw.get('order', pyabs.const('C')))
                return src.but(fmt=None, dtypes=(self.dtype(kw.get('dtype')),), order=o, absent=fill, zero=fill,
                               other=fill, shared=False)
            if n and (n.replace('_array', '').replace('_matrix', '') in SPARSE) and len(a) == 1:
                v = self.get(interp, st, a[0], effects)
                if v is None:
                    return None
                v = self.convert(v, n.split('_')[0])
                return self.cast(v, self.dtype(kw.get('dtype')))
            if f[0] == 'attr':
                m = f[2]
                v = self.get(interp, st, f[1], effects)
                if v is None:
                    return None
                if m == 'copy':
                    return v.but(shared=False)
                if m in ('toarray', 'todense') and v.fmt is not None:
                    o = self.const(interp, st, kw.get('order', a[0] if a else pyabs.const('C')))
                    return v.but(fmt=None, order=o or 'C', shared=False, dups=False, sorted=True,
                                 zero=ZERO)
                if m in ('to' + s for s in SPARSE) and v.fmt is not None:
                    return self.convert(v, m[2:])
                if m == 'asformat' and a:
                    return self.convert(v, self.const(interp, st, a[0]))
                if m == 'astype' and a:
                    v = self.cast(v, self.dtype(a[0]))
                    return v.but(shared=v.shared and self.const(interp, st, kw.get('copy', pyabs.TRUE)) is False)
                if m == 'reshape' and v.ndim == 1 and len(a) in (1, 2) and v.fmt is None:
                    s = self.const(interp, st, a[0]) if len(a) == 1 else [self.const(interp, st, x) for x in a]
                    if s == [-1, 1]:
                        return v.but(ndim=2)
                return None
        if t[0] == 'bin' and t[1] in ('+', '-', '*', '/', '//', '%', '**') and t[3][0] == 'c':
            v = self.get(interp, st, t[2], effects)
            if v is None:
                return None
            if t[1] in ('+', '-') and same_zero(t[3]) or t[1] in ('*', '/', '**') and t[3][2] == 1:
                return v.but(shared=False)
            if v.fmt is not None and t[1] != '*':
                return None
            return self.mapped(v, lambda x: x if same_zero(x) and t[1] not in ('+', '-') else ('bin', t[1], x, t[3]))
        if t[0] == 'bin' and t[1] == '+':
            a, b = self.get(interp, st, t[2], effects), self.get(interp, st, t[3], effects)
            if a is None or b is None or a.root != b.root or a.fmt is not None:
                return None
            b0 = ZERO if b.fmt is not None else b.absent
            bz = ZERO if b.fmt is not None and b.zero == 'gone' else b.zero
            return a.but(absent=self.add(a.absent, b0), zero=self.add(a.zero, bz), other=self.add(a.other, b.other))
        if t[0] == 'idx' and t[2][0] == 'tuple':
            # x[:, np.newaxis]
            v = self.get(interp, st, t[1], effects)
            if v is not None and v.ndim == 1 and len(t[2][1]) == 2 and t[2][1][1] == pyabs.NONE:
                return v.but(ndim=2)
            return None
        if t[0] == 'attr' and t[2] == 'T':
            v = self.get(interp, st, t[1], effects)
            return None if v is None else v.but(flipped=not v.flipped)
        return None

    @staticmethod
    def mapped(v, f):
        return v.but(**{k: getattr(v, k) if getattr(v, k) == 'gone' or getattr(v, k) is None else f(getattr(v, k))
                        for k in ('absent', 'zero', 'other')}, shared=False)

    @staticmethod
    def convert(v, fmt):
        if v.fmt == fmt:
            return v
        if fmt not in SPARSE:
            return None
        # the conversion between formats sorts indices and keeps explicit zeros
        return v.but(fmt=fmt, shared=False, sorted=fmt in ('csr', 'csc') and v.fmt in ('csr', 'csc'),
                     dups=v.dups if v.fmt in ('csr', 'csc', 'coo') and fmt != 'coo' else v.dups)

    def component(self, interp, st, t, effects=None):
        """-> (Arr, component name, dtypes) if the term is an array of a sparse matrix, e.g. `x.indices`, possibly
        converted into a contiguous array of another type."""
        effects = st.effects if effects is None else effects
        dts = ()
        while True:
            if t[0] == 'call' and ext(t[1]) in ('require', 'asarray', 'array', 'ascontiguousarray') and t[2]:
                kw = dict(t[3])
                d = self.dtype(kw.get('dtype', t[2][1] if len(t[2]) > 1 else None))
                if d:
                    dts = (d,) + dts
                effects = self.before(t, effects)
                t = t[2][0]
            elif t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'astype' and t[2]:
                dts = (self.dtype(t[2][0]),) + dts
                t = t[1][1]
            elif t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'copy':
                t = t[1][1]
            elif t[0] == 'attr' and t[2] in ('data', 'indices', 'indptr'):
                v = self.get(interp, st, t[1], effects)
                return None if v is None else (v, t[2], dts)
            else:
                return None
