"""Canonical form of an object graph: equal forms mean equal contents and equal sharing.

Used to merge states in explicit-state searches over real objects.  It knows nothing about the classes it walks;
what it cannot look into is represented by its identity, which only makes merging rarer."""
import types

_ATOM = (str, bytes, int, float, bool, type(None), complex)


def canon(root, label=None, skip=None):
    """label(obj) -> hashable or None: short representation for objects of the harness.
    skip(list) -> indexes of the list that are left out."""
    out = []
    seen = {}

    def walk(o):
        if isinstance(o, _ATOM):
            out.append((type(o).__name__, o))
            return
        if label is not None:
            t = label(o)
            if t is not None:
                out.append(('#', t))
                return
        i = seen.get(id(o))
        if i is not None:
            out.append(('^', i))
            return
        seen[id(o)] = len(seen)
        keep.append(o)
        if isinstance(o, dict):
            out.append(('{', type(o).__name__, len(o)))
            try:
                items = sorted(o.items(), key=lambda kv: repr(kv[0]))
            except Exception:   # noqa
                items = list(o.items())
            for k, v in items:
                walk(k)
                walk(v)
            if type(o) is not dict:
                attrs(o)
        elif isinstance(o, (list, tuple)):
            out.append(('[', type(o).__name__, len(o)))
            drop = skip(o) if skip is not None else ()
            for k, v in enumerate(o):
                if k not in drop:
                    walk(v)
            if type(o) not in (list, tuple):
                attrs(o)
        elif isinstance(o, (set, frozenset)):
            out.append(('s', len(o)))
            for v in sorted(o, key=repr):
                walk(v)
        elif isinstance(o, (types.FunctionType, types.BuiltinFunctionType, type, types.ModuleType)):
            out.append(('f', id(o)))
        elif isinstance(o, types.MethodType):
            out.append(('m', id(o.__func__)))
            walk(o.__self__)
        else:
            out.append(('o', type(o).__name__))
            if not attrs(o):
                out.append(('id', id(o)))

    def attrs(o):
        n = 0
        names = []
        for c in type(o).__mro__:
            s = c.__dict__.get('__slots__', ())
            names.extend([s] if isinstance(s, str) else s)
        for a in names:
            if a in ('__dict__', '__weakref__'):
                continue
            if a.startswith('__') and not a.endswith('__'):
                a = '_%s%s' % (type(o).__name__.lstrip('_'), a)
            try:
                v = getattr(o, a)
            except AttributeError:
                continue
            out.append(('.', a))
            walk(v)
            n += 1
        d = getattr(o, '__dict__', None)
        if d:
            for a in sorted(d):
                out.append(('.', a))
                walk(d[a])
                n += 1
        return n or bool(names) or d is not None

    keep = []
    walk(root)
    return tuple(out)
