"""Decides the truth of condition terms for one cell of a finite partition of the parameter space.

A cell is given by a representative valuation of the symbols; because every breakpoint that occurs in the program or in
the specification is a breakpoint of the partition, every comparison has the same truth value on the whole cell.
"""
import math

NULL, NONNULL = 'null', 'nonnull'


def value(t, val, seen_consts=None):
    """Numeric / boolean value of a term under a valuation (callable: term -> value or None), or None if unknown."""
    v = val(t)
    if v is not None:
        return v
    k = t[0]
    if k == 'lit':
        x = t[1]
        if x == 'true':
            return True
        if x == 'false':
            return False
        if isinstance(x, (int, float)):
            if seen_consts is not None:
                seen_consts.add(x)
            return x
        if x == 'nullptr':
            return NULL
        return None
    if k == 'obj' and len(t) > 1 and t[1] and 'unique_ptr' in str(t[1]):
        if len(t) <= 3 or t[3] == ('lit', 'nullptr'):
            return NULL
        return value(t[3], val, seen_consts)
    if k in ('obj', 'new', 'addr'):
        return NONNULL
    f = lambda x: value(x, val, seen_consts)
    if k == 'add':
        a = f(t[1])
        return None if a is None else a + t[2]
    if k == 'bool':
        a = f(t[1])
        return None if a is None else bool(a)
    if k == 'not':
        a = f(t[1])
        return None if a is None else not a
    if k == 'trunc':
        a = f(t[1])
        return None if a is None or a != a or abs(a) == math.inf else int(a)
    if k == 'un' and t[1] == '-':
        a = f(t[2])
        return None if a is None else -a
    if k == 'phi':
        vs = {f(x) for x in t[1]}
        return vs.pop() if len(vs) == 1 else None
    if k == 'cond':
        c = f(t[1])
        if c is None:
            a, b = f(t[2]), f(t[3])
            return a if a == b else None
        return f(t[2]) if c else f(t[3])
    if k == 'call':
        fn = t[1] if isinstance(t[1], str) else ''
        if fn in ('std::isnan', 'isnan') and len(t[3]) == 1:
            a = f(t[3][0])
            return None if a is None else a != a
        if fn in ('std::isfinite',) and len(t[3]) == 1:
            a = f(t[3][0])
            return None if a is None else math.isfinite(a)
        if fn == 'std::make_unique':
            return NONNULL
        if fn.startswith('std::numeric_limits'):
            ty = str(t[2]) + fn
            if fn.endswith('::epsilon'):
                return 2.0 ** -23 if 'float' in fn or val(('epsilon32',)) else 2.0 ** -52
            if fn.endswith('::infinity'):
                return math.inf
            return None
        if fn.split('::')[-1] in ('fmax', 'max', 'fmin', 'min') and len(t[3]) == 2:
            a, b = f(t[3][0]), f(t[3][1])
            if a is None or b is None:
                return None
            if a != a:
                return b
            if b != b:
                return a
            return max(a, b) if 'max' in fn else min(a, b)
        if fn in ('std::abs', 'std::fabs', 'fabs', 'abs') and len(t[3]) == 1:
            a = f(t[3][0])
            return None if a is None else abs(a)
        return None
    if k == 'bin':
        op = t[1]
        a = f(t[2])
        if op == '&&':
            if a is False:
                return False
            b = f(t[3])
            if b is False:
                return False
            return True if a and b else None
        if op == '||':
            if a:
                return True
            b = f(t[3])
            if b:
                return True
            return False if a is not None and b is not None else None
        b = f(t[3])
        if a is None or b is None:
            return None
        if NULL in (a, b) or NONNULL in (a, b):
            if op not in ('==', '!=') or a == b == NONNULL:
                return None
            return (a == b) == (op == '==')
        try:
            return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
                    '==': lambda: a == b, '!=': lambda: a != b, '+': lambda: a + b, '-': lambda: a - b,
                    '*': lambda: a * b, '/': lambda: a / b, '%': lambda: a % b}[op]()
        except (KeyError, ZeroDivisionError):
            return None
    return None
