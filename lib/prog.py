"""The type-checked C++ program, as extracted by tool/extract.cpp, plus generic traversal helpers."""
import glob
import json
import os
import re
from collections import defaultdict

import facts
from facts import AnalysisError


class Program:
    def __init__(self, fns, recs, enums, gvars):
        self.fns = fns            # fid -> function
        self.recs = recs          # qualified name (with template arguments) -> record
        self.enums = enums
        self.gvars = gvars
        self.by_pn = defaultdict(list)
        for f in fns.values():
            self.by_pn[f['pn']].append(f)
        self.by_cls = defaultdict(list)
        for f in fns.values():
            if 'cls' in f:
                self.by_cls[f['cls']].append(f)
        self.recs_pn = defaultdict(list)
        for r in recs.values():
            self.recs_pn[r['pn']].append(r)
        # overriders (transitive) of each method
        self.over = defaultdict(set)
        direct = defaultdict(set)
        self.msum = {}
        for r in recs.values():
            for m in r['methods']:
                self.msum.setdefault(m['fid'], m)
                for o in m['over']:
                    direct[o].add(m['fid'])
        for f in fns.values():
            for o in f.get('over', ()):
                direct[o].add(f['fid'])
        def trans(fid, seen):
            for x in direct.get(fid, ()):
                if x not in seen:
                    seen.add(x)
                    trans(x, seen)
            return seen
        for fid in list(direct):
            self.over[fid] = trans(fid, set())
        self.subclasses = defaultdict(set)
        for r in recs.values():
            for b in r['bases']:
                self.subclasses[b['t']].add(r['qn'])

    def bases_of(self, qn, seen=None):
        seen = set() if seen is None else seen
        r = self.recs.get(qn)
        if r:
            for b in r['bases']:
                if b['t'] not in seen:
                    seen.add(b['t'])
                    self.bases_of(b['t'], seen)
        return seen

    def targets(self, call):
        """The functions a call may invoke (bodies), with virtual dispatch resolved by class hierarchy analysis."""
        res = []
        fid = call.get('fid')
        if fid is None:
            return res
        if fid in self.fns:
            res.append(self.fns[fid])
        if call.get('virt'):
            for o in self.over.get(fid, ()):
                if o in self.fns:
                    res.append(self.fns[o])
        return res


_cache = None


def load():
    global _cache
    if _cache is not None:
        return _cache
    d = facts.extract()
    fns, recs, enums, gvars = {}, {}, {}, {}
    for path in sorted(glob.glob(os.path.join(d, '*.jsonl'))):
        with open(path, errors='replace') as f:
            for line in f:
                o = json.loads(line)
                r = o['r']
                if r == 'fn':
                    fns.setdefault(o['fid'], o)
                elif r == 'rec':
                    recs.setdefault(o['qn'] + ('#dep' if o['tmpl'] else ''), o)
                elif r == 'enum':
                    enums.setdefault(o['pn'], o)
                else:
                    gvars.setdefault((o['pn'], o['f']), o)
    if len(fns) < 1000:
        raise AnalysisError('only %d functions extracted' % len(fns))
    _cache = Program(fns, recs, enums, gvars)
    return _cache


# ---------------------------------------------------------------- traversal

def children(n):
    """Direct sub-nodes (dicts with 'k') of a node, in source order of the keys used by the extractor."""
    for key in _ORDER.get(n.get('k'), _ALL):
        v = n.get(key)
        if v is None:
            continue
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


_ALL = ('init', 'var', 'vars', 'range', 'obj', 'callee', 'c', 'a', 'b', 'e', 'v', 'args', 'size', 'body', 's', 'inc',
        'handlers', 'inits')
_ORDER = {'for': ('init', 'c', 'body', 'inc'), 'mem': ('b',), 'dmem': ('b',), 'do': ('body', 'c'), 'lambda': ('body',),
          'omp': ('body',)}


def walk(n, into_lambdas=True):
    stack = [n]
    while stack:
        x = stack.pop()
        if x is None:
            continue
        yield x
        if x.get('k') == 'lambda' and not into_lambdas:
            continue
        stack.extend(reversed(list(children(x))))


def fn_nodes(f, into_lambdas=True):
    for i in f.get('inits', ()):
        if i.get('e'):
            yield from walk(i['e'], into_lambdas)
    if f.get('body'):
        yield from walk(f['body'], into_lambdas)


def calls(f, into_lambdas=True):
    for n in fn_nodes(f, into_lambdas):
        if n.get('k') in ('call', 'ctor'):
            yield n


def unwrap(e):
    """Strips value-preserving wrappers: std::move / std::forward / casts / copy construction."""
    while e:
        k = e.get('k')
        if k == 'cast':
            e = e['e']
        elif k == 'call' and e.get('fn') in ('std::move', 'std::forward', 'std::as_const') and len(e['args']) == 1:
            e = e['args'][0]
        elif k == 'ctor' and (e.get('copy') or e.get('move')) and len(e['args']) == 1:
            e = e['args'][0]
        elif k == 'ctor' and e.get('pcls', '').startswith('std::') and len(e['args']) == 1:
            e = e['args'][0]
        elif k == 'init' and len(e['args']) == 1:
            e = e['args'][0]
        else:
            return e
    return e


def show(e, depth=0):
    """Compact rendering of an expression for reports."""
    if e is None:
        return ''
    k = e.get('k')
    if depth > 6:
        return '…'
    s = lambda x: show(x, depth + 1)
    if k == 'ref':
        return e['n']
    if k == 'mem':
        b = e.get('b')
        if b and b.get('k') == 'this':
            return e['n']
        return s(b) + '.' + e['n']
    if k == 'lit':
        return str(e['v'])
    if k == 'str':
        return repr(e['v'])
    if k == 'this':
        return 'this'
    if k == 'call':
        args = ', '.join(s(a) for a in e['args'])
        if e.get('op') in ('[]',):
            return '%s[%s]' % (s(e.get('obj')), args)
        if e.get('op'):
            if e.get('obj') is not None:
                if e['args']:
                    return '%s %s %s' % (s(e['obj']), e['op'], args)
                return e['op'] + s(e['obj'])
            return (' %s ' % e['op']).join(s(a) for a in e['args'])
        n = e.get('fn', '').split('::')[-1] if 'fn' in e else s(e.get('callee'))
        if e.get('obj') is not None:
            return '%s.%s(%s)' % (s(e['obj']), n, args)
        return '%s(%s)' % (n, args)
    if k == 'ctor':
        return '%s(%s)' % (e.get('pcls', e.get('t', '?')).split('::')[-1], ', '.join(s(a) for a in e['args']))
    if k in ('bin', 'assign'):
        return '%s %s %s' % (s(e['a']), e['op'], s(e['b']))
    if k == 'un':
        return (s(e['e']) + e['op']) if e.get('post') else (e['op'] + s(e['e']))
    if k == 'cond':
        return '%s ? %s : %s' % (s(e['c']), s(e['a']), s(e['b']))
    if k == 'idx':
        return '%s[%s]' % (s(e['a']), s(e['b']))
    if k == 'cast':
        return s(e['e'])
    if k == 'init':
        return '{%s}' % ', '.join(s(a) for a in e['args'])
    if k in ('dmem', 'ovl', 'dref'):
        return e.get('n', '?')
    return '<%s>' % k


def loc(f, node=None):
    return 'cpp/subprojects/%s:%d' % (f['f'], (node or f).get('l', f['l']))
