"""Summaries of single C++ functions on top of the dataflow engine: returned terms, stored fields, recorded calls."""
import flow
from prog import walk


class Summary(flow.Hooks):
    """Inlines everything that has a body (and is not virtual); records the calls that are not inlined."""

    def __init__(self, consts=None, stop=(), inline_all=True):
        self.rets = []        # (term, facts) of the function itself
        self.calls = []       # (fn, obj, args, node, loops, facts)
        self.stores = []      # (loc, term, node, loops)
        self.loops = []
        self.consts = consts or {}
        self.stop = set(stop)
        self.inline_all = inline_all

    def inline(self, fl, node, target, depth):
        return self.inline_all and target['pn'] not in self.stop

    def on_call(self, fl, st, node, fn, obj, args, argnodes):
        self.calls.append((fn, obj, tuple(args), node, tuple(self.loops), tuple(st.facts)))
        r = self.consts.get(fn)
        if callable(r):
            return r(fl, st, obj, args)
        return r

    def on_store(self, fl, st, loc, term, node):
        self.stores.append((loc, term, node, tuple(self.loops)))

    def on_return(self, fl, st, term, node, depth):
        if depth == 0:
            self.rets.append((term, tuple(st.facts)))

    def enter_loop(self, fl, st, node):
        self.loops.append(node)

    def exit_loop(self, fl, st, node):
        self.loops.pop()


def summarise(P, f, st=None, consts=None, stop=(), max_depth=8, args=None):
    h = Summary(consts, stop)
    fl = flow.Flow(P, h, max_depth)
    h.outs = fl.run(f, st, args=args)
    return h


def fields_of(term, this=('this',)):
    """Names of the (top level) fields of *this a term refers to."""
    return {t[2] for t in flow.subterms(term) if isinstance(t, tuple) and len(t) == 3 and t[0] == 'f' and t[1] == this}


def params_of(term):
    return {t[1] for t in flow.subterms(term) if isinstance(t, tuple) and len(t) >= 2 and t[0] in ('param', 'p') and
            isinstance(t[1], str)}


def ctor_fields(P, f, st=None, consts=None, args=None):
    """Field -> term after a constructor has run."""
    h = summarise(P, f, st, consts, args=args)
    res = {}
    for s, _ in h.outs:
        for k, v in s.env.items():
            if k[0] == 'f' and k[1] == ('this',):
                res[k[2]] = v if k[2] not in res else flow.phi(res[k[2]], v)
    return res


def methods(P, pcls, name):
    return [f for f in P.by_pn.get(pcls + '::' + name, ()) if not f['tmpl']]
