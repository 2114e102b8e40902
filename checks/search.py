"""C07: candidate conditions are assessed on exactly the examples they cover."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import effects
import flow
import prog
import report
import scan
from scan import M, MIN, N, TOP, W, Scanner, State, Unsupported, add, is_aff, num, show, sub, sym

RULE = ('The functions that search for the conditions of rules are interpreted abstractly, with loops replaced by inferred '
        'invariants. Whenever a candidate is passed on, its scores must have been calculated from the examples with '
        'non-zero weights in exactly the interval of entries (or its complement) that is stored in the refinement, the '
        'number of covered examples must be the number of these examples and at least the minimum coverage, the scores '
        'must have been found to be an improvement, and the comparator and threshold must be satisfied by exactly the '
        'entries in the interval (or its complement).')

M2 = sym('m2')
DONE = {}


class Hook:
    def __init__(self, rep, kind, what):
        self.rep, self.kind, self.what = rep, kind, what
        self.pushes = 0
        self.bin_helpers = {}

    # ------------------------------------------------------------ values
    def member(self, I, st, b, n):
        name = n['n']
        if b == ('this',):
            return ('view',) if name == 'view' else ('attr', name)
        if b == ('view',):
            return {'firstView': ('fv',), 'secondView': ('missing',)}.get(name, TOP)
        if b == ('fv',):
            if name in ('numElements', 'numBins'):
                return N
            if name in ('sparseValue', 'majorityValue'):
                return ('pivot',)
            if name == 'sparse':
                return ('flag', 'sparse')
            if name == 'sparseBinIndex':
                return M
            return TOP
        if isinstance(b, tuple) and b[:1] == ('entry',):
            return {'value': ('val', b[1]), 'index': ('ex', b[1])}.get(name, TOP)
        return None

    def element(self, I, it, i):
        src = it[1]
        if src == 'entries':
            return ('entry', i)
        if src == 'values':
            return ('val', i)
        if src == 'thresholds':
            return ('thr', i)
        if src == 'bin':
            return ('ex', i)
        return None

    def compare(self, I, st, op, a, b):
        if a == ('pivot',) and isinstance(b, tuple) and b[:1] == ('val',):
            return self.compare(I, st, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op), b, a)
        if isinstance(a, tuple) and a[:1] == ('val',) and b == ('pivot',):
            i = a[1]
            lt, ge = add(sub(M, i), num(-1)), sub(i, M)
            le, gt = add(sub(M2, i), num(-1)), sub(i, M2)
            if op in ('<', '>='):
                return [(s, op == '<') for s in I.assume(st, lt)] + [(s, op == '>=') for s in I.assume(st, ge)]
            if op in ('<=', '>'):
                return [(s, op == '<=') for s in I.assume(st, le)] + [(s, op == '>') for s in I.assume(st, gt)]
            return [(s, op == '==') for s in I.assume(st, ge, le)] + [(s, op != '==') for s in I.assume(st, lt)] + [
                (s, op != '==') for s in I.assume(st, gt)]
        if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ('val',):
            s1, s2 = st.fork(), st.fork()
            s2.distinct.add((a[1], b[1]))
            strict = op in ('<', '>', '!=')
            if op == '==':
                return [(s1, True)] + ([(s2, False)] if s2.feasible() else [])
            if strict:
                return ([(s2, True)] if s2.feasible() else []) + [(s1, False)]
            return [(s1, True), (s1.fork(), False)]
        return None

    # ------------------------------------------------------------ calls
    def call(self, I, st, n, fn, o, vs):
        name = fn.split('::')[-1]
        if o == ('fv',):
            if n.get('op') == '[]':
                return [(st, ('entry', vs[0]) if is_aff(vs[0]) else TOP)]
            its = {'cbegin': 'entries', 'begin': 'entries', 'values_cbegin': 'values', 'values_begin': 'values',
                   'thresholds_cbegin': 'thresholds', 'thresholds_begin': 'thresholds'}
            if name in its:
                return [(st, ('it', its[name], num(0)))]
            ends = {'cend': 'entries', 'end': 'entries', 'values_cend': 'values', 'thresholds_cend': 'thresholds'}
            if name in ends:
                return [(st, ('it', ends[name], N))]
            if name in ('indices_cbegin', 'indices_begin') and self.kind == 'bin':
                return [(st, ('it', 'bin', num(0)) if vs == [('bin index',)] else TOP)]
            if name in ('indices_cend', 'indices_end') and self.kind == 'bin':
                return [(st, ('it', 'bin', N) if vs == [('bin index',)] else TOP)]
            raise Unsupported('method %s of feature vectors' % name)
        if o == ('subset',):
            if n.get('op') in ('*', '->') or name == 'get':
                return [(st, o)]
            if name == 'hasNonZeroWeight':
                return [(st, ('nonzero', vs[0][1]) if vs[0][:1] == ('ex',) else TOP)]
            if name == 'addToSubset':
                return self.add_example(st, vs[0])
            if name == 'resetSubset':
                s = st.fork()
                s.acc = s.union(s.acc, s.subset)
                s.subset = (num(0), num(0))
                return [(s, TOP)]
            if name.startswith('calculateScores'):
                src = st.acc if 'Accumulated' in name else st.subset
                return [(st, ('score', 'Uncovered' in name) + (src if src != TOP else (TOP, TOP)))]
            raise Unsupported('method %s of subsets' % name)
        if o == ('comparator',):
            if name == 'isImprovement':
                a, b = st.fork(), st.fork()
                a.improved = a.improved | {repr(vs[0])}
                return [(a, ('bool', True)), (b, ('bool', False))]
            if name == 'pushRefinement':
                if not I.silent:
                    self.pushed(I, st, n, vs)
                return [(st, TOP)]
            raise Unsupported('method %s of comparators' % name)
        if o == ('outputs',) and name == 'visit':
            out = []
            for v in vs:
                if v[:1] != ('lambda',):
                    raise Unsupported('visitor')
                out += I.invoke_lambda(v, st.fork(), [('outputs',)])
            return [(s, TOP) for s in scan.merge([s for s, _ in out])]
        if o == ('statistics',) and name == 'createSubset':
            if not I.silent:
                self.rep.check(vs == [('missing',), ('outputs',)], '%s: subset' % self.what,
                               '%s: the subset of the statistics that is used to assess conditions is created for %s instead '
                               'of the outputs to be predicted and without examples with missing values (%s)' % (
                                   self.what, ', '.join(show(v) for v in vs), prog.loc(self.fn, n)))
            return [(st, ('subset',))]
        if name == 'isEqual' and len(vs) == 2:
            return [(s, ('bool', b)) for s, b in (self.compare(I, st, '==', vs[0], vs[1]) or [
                (st.fork(), True), (st.fork(), False)])]
        if name == 'arithmeticMean' and len(vs) == 2:
            return [(st, ('mean',) + tuple(vs))]
        if ('subset',) in vs and ('fv',) in vs and self.kind != 'bin':
            ts = [t for t in I.P.targets(n) if t.get('body')]
            if len(ts) == 1 and ('comparator',) in vs and ('refinement',) in vs:
                # instantiations of the same template are analysed once
                key = (self.kind, ts[0]['f'], ts[0]['l'], repr(vs), repr(sorted(st.facts, key=repr)))
                if key in DONE:
                    self.pushes += DONE[key]
                    return [(st, TOP)]
                before = self.pushes
                r = I.inline(ts[0], st, o, vs, n)
                DONE[key] = self.pushes - before
                if DONE[key] and not I.silent:
                    self.complete(I, ts[0], [s for s, _ in r])
                return r
            if len(ts) == 1 and any(c.get('fn', '').split('::')[-1].startswith('indices_c') for c in prog.calls(ts[0])):
                # adds all examples of a bin, which is verified separately
                ints = [i for i, v in enumerate(vs) if v not in (('subset',), ('fv',))]
                if len(ints) != 1 or not is_aff(vs[ints[0]]):
                    return None
                self.bin_helpers[ts[0]['fid']] = (ts[0], tuple(
                    ('bin index',) if i == ints[0] else v for i, v in enumerate(vs)))
                i = vs[ints[0]]
                j = add(i, num(1))
                s = st.fork()
                s.subset = s.union(s.subset, (i, j))
                return [(s, sym(('cnt', i, j)))]
        return None

    def truth(self, I, st, v):
        if isinstance(v, tuple) and v[:1] == ('nonzero',):
            known = st.weight(v[1])
            if known is not None:
                return [(st, known)]
            out = []
            for b in (True, False):
                s = st.fork()
                s.wz.add((v[1], b))
                if s.feasible():
                    out.append((s, b))
            return out
        return None

    def add_example(self, st, ex):
        if ex[:1] != ('ex',):
            s = st.fork()
            s.subset = TOP
            return [(s, TOP)]
        out = []
        for s, b in self.truth(None, st, ('nonzero', ex[1])):
            s = s.fork()
            if b:
                s.subset = s.union(s.subset, (ex[1], add(ex[1], num(1))))
            out.append((s, TOP))
        return out

    # ------------------------------------------------------------ candidates
    def complete(self, I, f, states):
        """at the end of a search, all entries must have been added to the subset"""
        for s in states:
            if TOP in (s.subset, s.acc) or I.lossy:
                self.rep.notes.append('%s: undecided (have all entries been considered?)' % self.what)
                continue
            sets = [s.acc, s.subset]
            if self.kind == 'binned':
                sets.append((M, add(M, num(1))))
            self.rep.check(self.covers(s, sets), '%s: entries' % self.what,
                           '%s: the search ends after the entries %s have been considered, although there may be others '
                           '(%s)' % (self.what, ' and '.join('[%s, %s)' % (show(a), show(b)) for a, b in sets
                                                             if not s.is_empty(a, b)) or 'none', prog.loc(f)))

    def covers(self, st, sets):
        at = num(0)
        for _ in range(2 * len(sets) + 1):
            if st.is_empty(at, N):
                return True
            for a, b in sets:
                if (st.le(a, at) or st.le(at, a) and st.is_empty(at, a)) and st.lt(at, b):
                    at = b
                    break
            else:
                rest = [(a, b) for a, b in sets if (st.le(a, at) or st.le(at, a) and st.is_empty(at, a)) and st.le(at, b)]
                if not rest:
                    break
                sets = [x for x in sets if x != rest[0]]
                at = rest[0][1]
        return st.is_empty(at, N)

    def pushed(self, I, st, n, vs):
        self.pushes += 1
        rep = self.rep
        mem = {k: v for k, v in st.mem.items()}
        comp = mem.get('comparator', TOP)
        inv = mem.get('inverse', TOP)
        start, end, thr, cov = (mem.get(k, TOP) for k in ('start', 'end', 'threshold', 'numCovered'))
        score = vs[1] if len(vs) > 1 else TOP
        where = I.where(n)
        name = comp[1] if comp[:1] == ('enum',) else '?'
        what = '%s, %s %s' % (self.what, name, canonical(thr))

        def bad(aspect, text):
            if I.lossy:
                rep.notes.append('%s: %s: undecided (%s)' % (what, aspect, text))
                return
            rep.violate('%s: %s' % (what, aspect), '%s: %s (%s)' % (what, text, where))
        ok = True
        for k, v in (('start', start), ('end', end), ('inverse', inv), ('comparator', comp), ('threshold', thr),
                     ('numCovered', cov)):
            if v == TOP:
                bad(k, '%s is not determined by the entries that have been processed' % k)
                ok = False
        if score[:1] != ('score',) or TOP in score:
            bad('scores', 'the scores are not those of an interval of entries')
            ok = False
        if not ok:
            return
        if inv[:1] != ('bool',):
            rep.notes.append('%s: undecided (inverse)' % what)
            return
        inv = inv[1]
        sinv, sset = score[1], score[2:]
        dense = st.bools.get('sparse') is False
        interval = (start, end)
        # 1. the scores are those of the examples in the interval
        same = sinv == inv and st.same_set(sset, interval) or dense and sinv != inv and self.complement(st, sset, interval)
        if not same:
            bad('scores', 'the scores are those of the examples %s [%s, %s), but the examples %s [%s, %s) are covered' % (
                'not in' if sinv else 'in', show(sset[0]), show(sset[1]), 'not in' if inv else 'in', show(start), show(end)))
        # 2. the number of covered examples
        c = sub(W, cov) if sinv and is_aff(cov) else cov
        if not st.count_is(c, sset):
            bad('numCovered', 'the number of covered examples is set to %s, although the scores are those of the examples %s '
                '[%s, %s)' % (show(cov), 'not in' if sinv else 'in', show(sset[0]), show(sset[1])))
        # 3. minimum coverage
        if not (is_aff(cov) and st.entails(sub(cov, MIN))):
            bad('coverage', 'the number of covered examples is not guaranteed to be at least the minimum coverage')
        # 4. improvement
        if repr(score) not in st.improved:
            bad('improvement', 'the candidate is passed on, although its scores have not been found to be an improvement')
        # 5. the condition
        want, msg = self.satisfied(st, name, thr, dense)
        if want is None:
            bad('condition', msg)
        else:
            winv, lo, hi = want
            if not (winv == inv and st.eq(lo, start) and st.eq(hi, end) or dense and winv != inv and self.complement(
                    st, (lo, hi), interval)):
                bad('condition', 'the condition is satisfied by the examples %s [%s, %s), but the examples %s [%s, %s) are '
                    'covered' % ('not in' if winv else 'in', show(lo), show(hi), 'not in' if inv else 'in', show(start),
                                 show(end)))
        if not any(k.startswith(what + ':') for k, _ in rep.violations):
            rep.ok('%s (%s)' % (what, where))

    def complement(self, st, x, y):
        return st.eq(x[0], num(0)) and st.eq(x[1], y[0]) and st.eq(y[1], N) or \
            st.eq(y[0], num(0)) and st.eq(y[1], x[0]) and st.eq(x[1], N)

    def satisfied(self, st, comp, thr, dense):
        """(inverse, start, end) of the entries that satisfy the condition"""
        zero, one = num(0), num(1)
        suffix = comp.split('_')[-1]
        prefix = {'numerical': 'NUMERICAL', 'binned': 'NUMERICAL', 'ordinal': 'ORDINAL'}.get(self.kind, 'NOMINAL')
        if not comp.startswith(prefix):
            return None, 'the comparator %s is used for a %s feature' % (comp, self.kind)
        t = thr[0]
        if prefix == 'NOMINAL':
            if t == 'val':
                lo, hi, inv = thr[1], add(thr[1], one), False
            elif t == 'pivot':
                lo, hi, inv = zero, N, True
            else:
                return None, 'the threshold is %s' % show(thr)
            if not (st.le(zero, lo) and st.le(hi, N)):
                return None, 'the threshold %s may not exist' % show(thr)
            return (inv == (suffix == 'EQ'), lo, hi), None
        # lower: the examples with values <= threshold
        if self.kind == 'binned':
            if t != 'thr':
                return None, 'the threshold is %s' % show(thr)
            a = thr[1]
            if not (st.le(zero, a) and st.lt(a, sub(N, one))):
                return None, 'the threshold %s may not exist' % show(thr)
            if st.lt(a, M):
                lower = (False, zero, add(a, one))
            elif st.le(M, a):
                lower = (True, add(a, one), N)
            else:
                return None, 'it is unknown whether the threshold %s is less than the sparse value' % show(thr)
        elif self.kind == 'ordinal':
            if t == 'pivot':
                lower = (True, M, N)
            elif t == 'val':
                a = thr[1]
                if not (st.le(zero, a) and st.lt(a, N)):
                    return None, 'the threshold %s may not exist' % show(thr)
                if st.lt(a, M):
                    lower = (False, zero, add(a, one))
                elif st.le(M, a):
                    lower = (True, add(a, one), N)
                else:
                    return None, 'it is unknown whether the threshold %s is less than the majority value' % show(thr)
            else:
                return None, 'the threshold is %s' % show(thr)
        else:
            if t != 'mean':
                return None, 'the threshold is %s' % show(thr)
            x, y = thr[1], thr[2]
            if x == y == ('pivot',) and not dense:
                lower = (True, M, N)
            elif x == y and x[:1] == ('val',) and dense:
                # the threshold is the value of an entry itself
                a, b = x[1], add(x[1], one)
                if not (st.le(zero, a) and st.lt(a, N)):
                    return None, 'the threshold %s may not exist' % show(thr)
                if not (st.le(N, b) or st.lt(a, M) and st.le(M, b) or any(
                        st.eq(p, a) and st.eq(q, b) or st.eq(p, b) and st.eq(q, a) for p, q in st.distinct)):
                    return None, 'the values of the entries %s and %s may be equal' % (show(a), show(b))
                lower = (False, zero, b)
            elif x == ('pivot',) and y[:1] == ('val',) or y == ('pivot',) and x[:1] == ('val',):
                v = (y if x == ('pivot',) else x)[1]
                if dense:
                    return None, 'the threshold depends on the value of sparse elements'
                if st.eq(v, M):
                    if not st.lt(v, N):
                        return None, 'the threshold %s may not exist' % show(thr)
                    lower = (True, M, N)
                elif st.eq(add(v, one), M):
                    lower = (False, zero, M)
                else:
                    return None, 'the threshold is the average of the value of sparse elements and that of entry %s, but ' \
                                 'there may be other values in between' % show(v)
            elif x[:1] == y[:1] == ('val',):
                a, b = x[1], y[1]
                if st.eq(b, add(a, one)):
                    pass
                elif st.eq(a, add(b, one)):
                    a, b = b, a
                else:
                    return None, 'the threshold is the average of the values of the entries %s and %s, but there may be ' \
                                 'other values in between' % (show(a), show(b))
                if not (st.le(zero, a) and st.lt(b, N)):
                    return None, 'the threshold %s may not exist' % show(thr)
                split = st.lt(a, M) and st.le(M, b)
                if not split and not any(st.eq(p, a) and st.eq(q, b) or st.eq(p, b) and st.eq(q, a)
                                         for p, q in st.distinct):
                    return None, 'the values of the entries %s and %s may be equal' % (show(a), show(b))
                if dense:
                    lower = (False, zero, b)
                elif st.lt(b, M):
                    lower = (False, zero, b)
                elif st.le(M, a):
                    lower = (True, b, N)
                else:
                    return None, 'it is unknown whether the threshold %s is less than the value of sparse elements' % show(thr)
            else:
                return None, 'the threshold is %s' % show(thr)
        if suffix == 'LEQ':
            return lower, None
        return (not lower[0], lower[1], lower[2]), None


def canonical(t):
    """a description of a threshold that does not depend on the names of loop counters"""
    import re
    return re.sub(r'i\d+', 'i', re.sub(r'h\d+', 'h', show(t)))


def roles(P, f):
    """what the parameters of IFeatureVector::searchForRefinement are"""
    out = []
    base = [b for o in f.get('over', ()) for b in [P.msum.get(o)] if b]
    ints = 0
    for p in f['params']:
        t = p['t']
        if 'Comparator' in t:
            out.append(('comparator',))
        elif 'Statistics' in t:
            out.append(('statistics',))
        elif 'IIndexVector' in t:
            out.append(('outputs',))
        elif 'Refinement' in t:
            out.append(('refinement',))
        elif t.startswith('unsigned'):
            out.append((W, MIN)[ints])
            ints += 1
        else:
            raise Unsupported('parameter ' + t)
    return out


def initial(kind):
    st = State()
    one = num(1)
    st.facts = {M, sub(M2, M), sub(N, M2), add(N, num(-1)), add(MIN, num(-1)), W}
    if kind in ('ordinal', 'nominal', 'binned', 'binary'):
        st.facts.add(sub(M, M2))
    if kind == 'binned':
        st.facts.add(sub(sub(N, M), one))
    if kind == 'binary':
        st.facts |= {sub(N, one), sub(one, N)}
    return st


def check_search(rep, P, f, kind):
    what = kind
    hook = Hook(rep, kind, what)
    hook.fn = f
    I = Scanner(P)
    I.hooks.append(hook)
    st = initial(kind)
    try:
        outs = I.run(f, roles(P, f), st)
        if any(True for c in prog.calls(f) if c.get('fn', '').split('::')[-1] == 'pushRefinement'):
            hook.complete(I, f, [s for _, s, _ in outs])
    except Unsupported as e:
        rep.notes.append('%s (%s): undecided (%s)' % (f['qn'], what, e))
        return {}
    rep.analysed(f)
    rep.functions |= I.analysed
    if not hook.pushes:
        rep.violate('%s: candidates' % what, '%s: no candidates are considered at all (%s)' % (what, prog.loc(f)))
    return hook.bin_helpers


def check_bins(rep, P, f, args):
    """the function adds all examples of a bin to the subset, and returns their number"""
    what = '%s' % f['n']
    hook = Hook(rep, 'bin', what)
    hook.fn = f
    I = Scanner(P)
    I.hooks.append(hook)
    st = State()
    st.facts = {N, M, sub(N, M)}
    try:
        outs = I.run(f, list(args), st)
    except Unsupported as e:
        rep.notes.append('%s: undecided (%s)' % (what, e))
        return
    rep.analysed(f)
    if I.lossy:
        rep.notes.append('%s: undecided (loop)' % what)
        return
    for kind, s, v in outs:
        whole = (num(0), N)
        rep.check(s.subset != TOP and s.same_set(s.subset, whole), '%s: subset' % what,
                  '%s does not add exactly the examples of the given bin with non-zero weights (%s)' % (what, prog.loc(f)))
        if kind == scan.RETURN and v is not TOP or f.get('ret') not in (None, 'void'):
            rep.check(s.count_is(v, whole), '%s: number' % what,
                      '%s does not return the number of examples of the given bin with non-zero weights (%s)' % (
                          what, prog.loc(f)))


def kind_of(f):
    for k in ('Numerical', 'Ordinal', 'Nominal', 'Binary', 'Binned'):
        if k in f['pcls']:
            return k.lower()
    return None


# ------------------------------------------------------------ the examples covered by a rule after adding a condition
def mentions(t, pos):
    return any(isinstance(x, tuple) and len(x) == 3 and x[0] in ('p', 'param') and x[2] == pos + 1
               for x in flow.subterms(t))


def interval_field(t, pos):
    """the name of the field of the interval a term is the value of"""
    t = effects.strip_epochs(t)
    while isinstance(t, tuple) and t and t[0] in ('init', 'val', 'trunc'):
        t = t[1]
    if isinstance(t, tuple) and t and t[0] == 'f' and isinstance(t[1], tuple) and t[1][0] in ('p', 'param') and \
            t[1][2] == pos + 1:
        return t[2]
    return None


def check_update(rep, P, f):
    """updating the coverage mask and the statistics: both must be updated for the same examples, namely those in the
    interval, and for those with missing values if the complement of the interval is covered"""
    pos = {}
    for i, p in enumerate(f['params']):
        for k in ('Interval', 'CoverageMask', 'Statistics'):
            if k in p['t']:
                pos[k] = i
        if p['t'].startswith('unsigned'):
            pos['value'] = i
    if len(pos) != 4:
        rep.notes.append('%s: undecided (parameters)' % f['qn'])
        return
    h = effects.effects(P, f)
    rep.analysed(f)
    name = '%s::%s' % (f['cls'], f['n'])
    w = prog.loc(f)

    def polarity(facts):
        for c, pol in facts:
            while isinstance(c, tuple) and c and c[0] == 'un' and c[1] == '!':
                c, pol = c[2], not pol
            if interval_field(c, pos['Interval']) == 'inverse':
                return pol
        return None

    def is_value(t):
        t = effects.strip_epochs(t)
        while isinstance(t, tuple) and t and t[0] == 'init':
            t = t[1]
        return isinstance(t, tuple) and t and t[0] in ('p', 'param') and t[2] == pos['value'] + 1

    def group(x, facts):
        """(which examples are addressed, what is wrong)"""
        tops = [t for t in flow.subterms(x) if isinstance(t, tuple) and t and t[0] == 'top' and t in h.ind]
        for t in tops:
            lo, step = h.ind[t]['lo'], h.ind[t]['step']
            which = interval_field(lo, pos['Interval'])
            g = h.guard(t, facts)
            upper = interval_field(g[1], pos['Interval']) if g else None
            if which is None and upper is None:
                continue
            if step is None or g is None:
                return 'undecided', None
            if which == 'start' and upper == 'end' and g[0] in ('<', '!=') and step == 1:
                for t2 in tops:
                    lo2 = h.ind[t2]['lo']
                    if t2 != t and (lo2 and lo2[0] == 'lit' and lo2[1] != 0 or h.ind[t2]['step'] not in (1, None)):
                        return 'interval', 'the examples in a bin are traversed from %s in steps of %s' % (
                            effects.shown(lo2), h.ind[t2]['step'])
                return 'interval', None
            if which is None or upper is None or g[0] not in ('<', '!=') and step == 1:
                return 'interval', 'the entries in the interval are traversed from %s while the index is %s %s' % (
                    effects.shown(lo), g[0], effects.shown(g[1]))
            return 'undecided', None
        fields = {y[2] for y in flow.subterms(x) if isinstance(y, tuple) and len(y) == 3 and y[0] == 'f'}
        for t in tops:
            fields |= {y[2] for y in flow.subterms(h.ind[t]['lo'] or ()) if isinstance(y, tuple) and len(y) == 3 and
                       y[0] == 'f'}
        return ('missing' if 'secondView' in fields else 'undecided'), None

    def rename(t, depth=0):
        """the variables of different loops over the same range are the same"""
        if not isinstance(t, tuple):
            return t
        if t in h.ind:
            return ('index', effects.strip_epochs(rename(h.ind[t]['lo'], depth + 1)) if depth < 4 else None,
                    h.ind[t]['step'])
        return tuple(rename(x, depth) for x in t)

    def conditional(facts):
        """a condition an effect depends on, other than those of the enclosing loops"""
        guarded = set()
        for c, pol in facts:
            while isinstance(c, tuple) and c and c[0] == 'un' and c[1] == '!':
                c, pol = c[2], not pol
            names = {interval_field(x, pos['Interval']) for x in flow.subterms(c)}
            if interval_field(c, pos['Interval']) == 'inverse' or {'start', 'end'} <= names or not pol:
                continue
            tops = [x for x in flow.subterms(c) if isinstance(x, tuple) and x and x[0] == 'top']
            if not tops:
                return effects.shown(c)
            if c[0] == 'bin' and c[2] in h.ind and c[2] not in guarded:
                guarded.add(c[2])
            elif c[0] == 'bin' and c[3] in h.ind and c[3] not in guarded:
                guarded.add(c[3])
            elif len(c) == 3 or not any(x in h.ind and x not in guarded for x in tops):
                return effects.shown(c)
            else:
                guarded |= set(tops)
        return None
    events = {True: [], False: []}
    for loc, term, facts, loops, node, fn in h.stores:
        if loc[0] == 'idx' and mentions(loc[1], pos['CoverageMask']):
            kind, arg = 'mask', loc[2]
        elif loc[0] == 'f' and loc[2] == 'indicatorValue' and mentions(loc, pos['CoverageMask']):
            kind, arg = 'indicator', None
        else:
            continue
        if not is_value(term):
            rep.violate('%s: %s' % (name, kind), '%s: the coverage mask is set to %s rather than to the given indicator value '
                        '(%s)' % (w, effects.shown(term), prog.loc(fn, node)))
        for pol in (True, False):
            if polarity(facts) in (pol, None):
                events[pol].append((kind, arg, facts, prog.loc(fn, node)))
    for fn, obj, args, facts, loops, node in h.calls:
        k = {'removeCoveredStatistic': 'remove', 'addCoveredStatistic': 'add', 'resetCoveredStatistics': 'reset'}.get(
            str(fn).split('::')[-1])
        if k:
            for pol in (True, False):
                if polarity(facts) in (pol, None):
                    events[pol].append((k, args[0] if args else None, facts, w))
    if not events[True] and not events[False]:
        rep.notes.append('%s: undecided (no effects)' % name)
        return
    for pol in (True, False):
        what = '%s, %s' % (name, 'complement of the interval' if pol else 'interval')
        ev = events[pol]
        kinds = [k for k, *_ in ev]
        seen = {}
        undecided = False
        for k, arg, facts, at in ev:
            c = conditional(facts)
            if c is not None:
                rep.violate('%s: condition' % what, '%s: %s: %s only if %s' % (at, what, {
                    'mask': 'the coverage mask is updated', 'indicator': 'the indicator value is set',
                    'reset': 'the statistics are reset'}.get(k, 'the statistics are updated'), c))
            if arg is None:
                continue
            g, msg = group(arg, facts)
            undecided |= g == 'undecided'
            if msg:
                rep.violate('%s: entries' % what, '%s: %s' % (at, msg))
            seen.setdefault(k, {}).setdefault(g, set()).add(repr(effects.strip_epochs(rename(arg))))
        if undecided:
            rep.notes.append('%s: undecided (which examples are addressed)' % what)
            continue
        op = 'remove' if pol else 'add'
        rep.check(('add' if pol else 'remove') not in kinds, '%s: statistics' % what,
                  '%s: %s statistics are %s although %s' % (w, what, 'added' if pol else 'removed',
                                                            'they do not satisfy the condition' if pol else 'they do'))
        rep.check(('reset' in kinds) == (not pol) and ('indicator' in kinds) == (not pol), '%s: reset' % what,
                  '%s: %s: the statistics and the indicator value of the mask must %sbe reset' % (
                      w, what, 'not ' if pol else ''))
        if not pol and 'reset' in kinds and 'add' in kinds:
            rep.check(kinds.index('reset') < kinds.index('add'), '%s: order' % what,
                      '%s: %s: the statistics are reset after they have been added' % (w, what))
        want = {'interval', 'missing'} if pol else {'interval'}
        for k, t in (('mask', 'the coverage mask is updated'), (op, 'the statistics are updated')):
            got = set(seen.get(k, {}))
            rep.check(got == want, '%s: %s' % (what, k), '%s: %s: %s for %s instead of %s' % (
                w, what, t, ' and '.join(sorted(got)) or 'no examples', ' and '.join(sorted(want))))
        if set(seen.get('mask', {})) == set(seen.get(op, {})) == want:
            rep.check(seen['mask'] == seen[op], '%s: examples' % what,
                      '%s: %s: the coverage mask and the statistics are updated for different examples' % (w, what))


def analyse(rep, tier):
    P = prog.load()
    for f in sorted(P.fns.values(), key=lambda f: f['fid']):
        if f['n'] == 'updateCoverageMaskAndStatistics' and f.get('body') and f.get('over') and not (
                f.get('tmpl') and not f.get('inst')) and any(True for _ in prog.calls(f)):
            rep.guard(check_update, P, f)
    helpers = {}
    for f in sorted(P.fns.values(), key=lambda f: f['fid']):
        if f['n'] != 'searchForRefinement' or not f.get('body') or f.get('tmpl') and not f.get('inst') or not f.get('over'):
            continue
        kind = kind_of(f)
        if kind is None:
            if f['cls'] != 'EqualFeatureVector':
                rep.notes.append('%s: undecided (kind of feature vector)' % f['qn'])
            continue
        helpers.update(rep.guard(check_search, P, f, kind) or {})
    for f, args in helpers.values():
        rep.guard(check_bins, P, f, args)
    rep.coverage['notes'] = rep.notes


if __name__ == '__main__':
    report.run('C07', RULE, 'other', {}, analyse, 20)
