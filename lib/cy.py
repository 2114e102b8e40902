"""Parses .pyx / .pxd files with Cython's own parser (no compilation, no import of the code) and converts the parts the
rules need into plain tuples."""
import os
import sys

import facts

try:
    from Cython.Compiler import Errors, Parsing, Nodes, ExprNodes  # noqa
except ImportError:  # the interpreter has no Cython: use one of the installed ones
    for p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages', '/opt/vp/venv/lib/python3.12/site-packages'):
        if os.path.isdir(os.path.join(p, 'Cython')):
            sys.path.append(p)
            break
    from Cython.Compiler import Errors, Parsing, Nodes, ExprNodes  # noqa
from Cython.Compiler.Scanning import FileSourceDescriptor, PyrexScanner
from Cython.Compiler.Main import Context, CompilationOptions, default_options
from Cython.Compiler import ModuleNode, Symtab


_cache = {}


def parse(path):
    """Returns Cython's (unanalysed) tree of a .pyx or .pxd file."""
    if path in _cache:
        return _cache[path]
    opts = CompilationOptions(default_options, language_level=3, cplus=True)
    ctx = Context.from_options(opts)
    desc = FileSourceDescriptor(path)
    Errors.init_thread()
    Errors.open_listing_file(None)
    pxd = path.endswith('.pxd')
    name = os.path.splitext(os.path.basename(path))[0]
    scope = ctx.find_module(name, need_pxd=False) if False else Symtab.ModuleScope(name, None, ctx)
    with open(path, encoding='utf-8') as f:
        text = f.read()
    from io import StringIO
    s = PyrexScanner(StringIO(text), desc, source_encoding='utf-8', scope=scope, context=ctx)
    tree = Parsing.p_module(s, pxd, name, ctx=Parsing.Ctx(level='module_pxd') if False else Parsing.Ctx())
    _cache[path] = tree
    return tree


def kids(n):
    for a in getattr(n, 'child_attrs', None) or ():
        v = getattr(n, a, None)
        if v is None:
            continue
        if isinstance(v, (list, tuple)):
            for x in v:
                if isinstance(x, Nodes.Node):
                    yield x
        elif isinstance(v, Nodes.Node):
            yield v


def walk(n):
    yield n
    for c in kids(n):
        yield from walk(c)


def cls(n):
    return type(n).__name__


def pyx_files():
    res = []
    base = os.path.join(facts.REPO, 'python', 'subprojects')
    for root, _, names in os.walk(base):
        if '/build' in root or '/dist' in root:
            continue
        res += [os.path.join(root, n) for n in names if n.endswith(('.pyx', '.pxd'))]
    return sorted(res)


if __name__ == '__main__':
    import collections
    c = collections.Counter()
    for p in pyx_files():
        t = parse(p)
        for n in walk(t):
            c[cls(n)] += 1
    print(c)
