"""Reference semantics of routing rules, independent of the router's tree.

A rule is a tuple of tokens:
  ('L', text)                       literal text
  ('W', name, filter, args, sel)    wildcard; name None = anonymous; filter None = plain;
                                    args None = no parentheses; sel = rex selector or None
A spelled rule is (tokens, flavour per wildcard) rendered to rule text.
"""
import re

INT = re.compile(r'-?\d+')
FLT = re.compile(r'-?\d+(\.\d+)?')


def L(t):
    return ('L', t)


def W(name=None, filt=None, args=None, sel=None):
    return ('W', name, filt, args, sel)


# ---- custom filters used by the checks: name -> (regex, python conversion on (text, match), out)
def _c_hex(conf):
    return r'[0-9a-f]+', (lambda s: int(s, 16)), (lambda v: format(v, 'x'))


def _c_rej(conf):
    # accepts by conversion: everything but 'a'
    return r'[^/]+', (lambda s: None if s == 'a' else s.upper()), (lambda v: v.lower())


def _c_two(conf):
    return (r'(?P<h>.)(\w?)', (lambda s, m: m.group('h') + (conf or '')), (lambda v: v[:1]))


def _c_zero(conf):
    return r'b+', (lambda *a: len(a[0])), (lambda n: 'b' * n)


CUSTOM = {'hex': _c_hex, 'rej': _c_rej, 'two': _c_two, 'zero': _c_zero}


def install_custom():
    from ombott.router.filter_factory import FilterFactory
    for k, f in CUSTOM.items():
        FilterFactory.filters[k] = f


def spell(tokens, flavours=None):
    """tokens -> rule text.  flavours: list of flavour ids for the wildcards (see FLAV)."""
    out = ['/']
    wi = 0
    for k, t in enumerate(tokens):
        if t[0] == 'L':
            out.append(t[1])
            continue
        fl = (flavours[wi] if flavours and wi < len(flavours) else 0)
        wi += 1
        nxt = tokens[k + 1] if k + 1 < len(tokens) else None
        out.append(spell_w(t, fl, nxt))
    return ''.join(out)


def flavours_of(t, nxt):
    """All spellings of wildcard t when followed by token nxt."""
    _, name, filt, args, sel = t
    out = []
    if filt is None:
        colon_ok = nxt is None or (nxt[0] == 'L' and nxt[1].startswith('/'))
        if name is None:
            assert colon_ok, 'a plain anonymous wildcard exists in colon syntax only'
            return [':']
        out += ['<%s>' % name, '{%s}' % name]
        if colon_ok:
            out.append(':' + name)
        return out
    s = '[%s]' % sel if sel is not None else ''
    n = name
    if n is not None:
        if args is not None:
            out += ['<%s.%s(%s)%s>' % (n, filt, args, s), '{%s.%s(%s)%s}' % (n, filt, args, s),
                    '<%s:%s(%s)%s>' % (n, filt, args, s)]
            if '>' not in args and args and not s:
                out.append('<%s:%s:%s>' % (n, filt, args))
            if '}' not in args and args and not s:
                out.append('{%s:%s:%s}' % (n, filt, args))
        else:
            out += ['<%s.%s>' % (n, filt), '<%s:%s>' % (n, filt), '{%s:%s}' % (n, filt)]
    else:
        if args is not None:
            out += ['<%s(%s)%s>' % (filt, args, s), '{:%s(%s)%s}' % (filt, args, s), '<:%s(%s)%s>' % (filt, args, s)]
            if '>' not in args and args and not s:
                out.append('<:%s:%s>' % (filt, args))
        else:
            out += ['<:%s>' % filt, '{:%s}' % filt]
    return out


def spell_w(t, fl, nxt):
    f = flavours_of(t, nxt)
    return f[fl % len(f)]


def all_spellings(tokens, limit=None):
    """All combinations of flavours (product)."""
    import itertools
    ws = []
    for k, t in enumerate(tokens):
        if t[0] == 'W':
            nxt = tokens[k + 1] if k + 1 < len(tokens) else None
            ws.append(range(len(flavours_of(t, nxt))))
    seen = []
    for c in itertools.product(*ws):
        r = spell(tokens, c)
        if r not in seen:
            seen.append(r)
        if limit and len(seen) >= limit:
            break
    return seen


def pattern_key(tokens):
    """The pattern: sequence of characters and wildcard markers, names left out."""
    out = []
    for k, t in enumerate(tokens):
        if t[0] == 'L':
            out.extend(t[1])
        else:
            out.append(('W', t[2], filter_args(tokens, k), None))
            if t[4] is not None:
                out.append(('S', t[4]))
    return tuple(out)


def shape(tokens):
    """Pattern without filters (what the radix tree is keyed by)."""
    return tuple(c if isinstance(c, str) else c[0] if c[0] == 'W' else c for c in pattern_key(tokens))


def filter_args(tokens, k):
    """Effective argument of the filter: path takes the literal that follows it."""
    t = tokens[k]
    if t[2] == 'path':
        n = tokens[k + 1] if k + 1 < len(tokens) else None
        return n[1] if n and n[0] == 'L' else ''
    return t[3]


def conflict(p, q):
    """Do two rule patterns (pattern_key) demand different filters of one wildcard?"""
    for a, b in zip(p, q):
        if a == b:
            continue
        return not isinstance(a, str) and not isinstance(b, str) and a[0] == b[0] == 'W'
    return False


NOVALUE = object()


def consume(filt, args, path, i):
    """Wildcard at position i (< len(path)) -> (value, next position, selector) or None."""
    rest = path[i:]
    if filt is None:
        j = path.find('/', i)
        j = len(path) if j < 0 else j
        return path[i:j], j, None
    if filt == 'int':
        m = INT.match(rest)
        if not m:
            return None
        try:
            return int(m.group()), i + m.end(), None
        except ValueError:      # more digits than the interpreter converts
            return None
    if filt == 'float':
        m = FLT.match(rest)
        if not m:
            return None
        v = float(m.group())
        return None if v in (float('inf'), float('-inf')) else (v, i + m.end(), None)
    if filt == 're':
        m = re.compile(args).match(rest)
        return (m.group(), i + m.end(), None) if m else None
    if filt == 'path':
        # greedy text that is followed by the next literal, or all that is left of the path
        if '\n' in rest:
            m = re.compile('.+(?=%s)' % re.escape(args) if args else '.+$').match(rest)
            return (m.group(), i + m.end(), None) if m else None
        if not args:
            return (rest, len(path), None) if rest else None
        j = rest.rfind(args)
        return (rest[:j], i + j, None) if j > 0 else None
    if filt == 'rex':
        m = re.compile(args).match(rest)
        if not m:
            return None
        for n, g in enumerate(m.groups()):
            if g is not None:
                return g, i + m.end(), n + 1
        return m.group(), i + m.end(), None
    rx, conv, _ = CUSTOM[filt](args)
    m = re.compile(rx).match(rest)
    if not m:
        return None
    v = conv(m.group(), m) if filt in ('two', 'zero') else conv(m.group())
    return None if v is None else (v, i + m.end(), None)


def match(tokens, path):
    """Rule against a path without its leading/trailing slashes.
    -> list of (name, value, end position) for all wildcards, or None."""
    i = 0
    vals = []
    n = len(path)
    for k, t in enumerate(tokens):
        if t[0] == 'L':
            if not path.startswith(t[1], i):
                return None
            i += len(t[1])
        else:
            if i >= n:      # a wildcard needs something to look at
                return None
            r = consume(t[2], filter_args(tokens, k), path, i)
            if r is None:
                return None
            v, i, s = r
            if t[4] is not None and str(s) != str(t[4]):
                return None
            vals.append((t[1], v, i))
    return vals if i == n else None


def named(vals):
    return {n: v for n, v, _ in vals if n is not None}


def best(keys):
    """Of the pattern keys that match one path, the ones the router has to prefer (set)."""
    keys = list(dict.fromkeys(keys))
    win = keys[0]
    ties = [win]
    for k in keys[1:]:
        c = prefer(win, k)
        if c > 0:
            win, ties = k, [k]
        elif c == 0:
            ties.append(k)
    return ties


def prefer(p, q):
    """<0: p has literal text where q has a wildcard at the first difference; >0 the reverse; 0 undetermined."""
    for a, b in zip(p, q):
        if a == b:
            continue
        wa = not isinstance(a, str) and a[0] == 'W'
        wb = not isinstance(b, str) and b[0] == 'W'
        if wa and wb:
            return 0
        if not isinstance(a, str) and a[0] == 'S' and isinstance(b, str):
            return -1       # a selected alternative comes before plain text after the same wildcard
        if not isinstance(b, str) and b[0] == 'S' and isinstance(a, str):
            return 1
        return 1 if wa else -1 if wb else 0
    return 0
