"""Hash-consed scalar terms: linear integer forms, byte strings, comparisons."""
import bisect
from math import gcd
from functools import reduce
from bdd import BDD, Budget

bdd = BDD()
AND, OR, NOT = bdd.AND, bdd.OR, bdd.NOT
U64 = (1 << 64) - 1
LEN_MAX = (1 << 63) - 1

_ids = [0]


def nid():
    _ids[0] += 1
    return _ids[0]


class Atom:
    __slots__ = ('id', 'kind', 'args', 'lo', 'hi', 'root', 'tab')

    def __repr__(self):
        return show_atom(self)


class Lin:
    __slots__ = ('id', 'c', 't', 'lo', 'hi')

    def __repr__(self):
        if not self.t:
            return str(self.c)
        s = ''
        for a, k in self.t:
            s += ('+' if k > 0 and s else '') + ('' if k == 1 else '-' if k == -1 else '%d*' % k) + repr(a)
        if self.c:
            s += '%+d' % self.c
        return s


class Bytes:
    """A byte string: tuple of segments
    ('r', region, start Lin, len Lin) | ('c', bytes) | ('i', Lin, width) | ('b', Lin, width) big endian
    | ('s', Bytes, start, len) opaque sub string"""
    __slots__ = ('id', 'segs', 'len')

    def __repr__(self):
        return '[' + '|'.join(show_seg(s) for s in self.segs) + ']'


class Region:
    """Immutable symbolic byte content: key plus (optional) Lin length"""
    __slots__ = ('id', 'key', 'len')

    def __repr__(self):
        return show_key(self.key)


def show_key(k):
    if isinstance(k, tuple):
        return '%s(%s)' % (k[0], ', '.join(show_key(x) for x in k[1:])) if k and isinstance(k[0], str) \
            else '(' + ', '.join(map(show_key, k)) + ')'
    return str(k)


def show_seg(s):
    if s[0] == 'r':
        if s[2] is ZERO and s[1].len is s[3]:
            return repr(s[1])
        return '%r[%r;%r]' % (s[1], s[2], s[3])
    if s[0] == 'c':
        return s[1].hex() if len(s[1]) < 40 else s[1][:40].hex() + '..'
    if s[0] in 'ib':
        return '%s%d(%r)' % ('le' if s[0] == 'i' else 'be', s[2], s[1])
    return 'sub(%r,%r,%r)' % s[1:]


def show_atom(a):
    if a.kind == 'var':
        return str(a.args[0])
    if a.kind in ('le', 'be'):
        return '%s%r' % ('' if a.kind == 'le' else 'be', a.args[0])
    if a.kind == 'tab':
        return 'f%d(%r)' % (a.id, a.args[0])
    return '%s(%s)' % (a.kind, ', '.join(show_key(x) for x in a.args))


_atoms = {}


def _k(x):
    if isinstance(x, tuple):
        return tuple(_k(y) for y in x)
    if hasattr(x, 'id'):
        return ('#', x.id)
    return x


def atom(kind, args, lo, hi):
    k = (kind, _k(args), lo, hi)
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.id = nid()
        a.kind, a.args, a.lo, a.hi = kind, args, lo, hi
        a.root = None
        a.tab = None
        if kind == 'tab':
            a.root, a.tab = args[0], args[1]
        elif lo >= 0 and hi <= 255:
            a.root = a
        _atoms[k] = a
    return a


_lins = {}


def mklin(c, t):
    """t: dict atom->coef or sorted tuple"""
    if isinstance(t, dict):
        t = tuple(sorted(((a, k) for a, k in t.items() if k), key=lambda p: p[0].id))
    key = (c, tuple((a.id, k) for a, k in t))
    l = _lins.get(key)
    if l is None:
        l = Lin()
        l.id = nid()
        l.c, l.t = c, t
        lo = hi = c
        for a, k in t:
            if k > 0:
                lo += k * a.lo
                hi += k * a.hi
            else:
                lo += k * a.hi
                hi += k * a.lo
        l.lo, l.hi = lo, hi
        _lins[key] = l
    return l


def const(c):
    return mklin(c, ())


ZERO = const(0)
ONE = const(1)


def of(a):
    if a.lo == a.hi:
        return const(a.lo)
    return mklin(0, ((a, 1),))


def var(name, lo, hi):
    return of(atom('var', (name,), lo, hi))


def add(x, y):
    if not x.t:
        return y if x.c == 0 else mklin(x.c + y.c, y.t)
    if not y.t:
        return x if y.c == 0 else mklin(x.c + y.c, x.t)
    d = dict(x.t)
    for a, k in y.t:
        d[a] = d.get(a, 0) + k
    return mklin(x.c + y.c, d)


def scale(x, n):
    if n == 0:
        return ZERO
    if n == 1:
        return x
    return mklin(x.c * n, tuple((a, k * n) for a, k in x.t))


def sub(x, y):
    if x is y:
        return ZERO
    return add(x, scale(y, -1))


def addc(x, n):
    return x if n == 0 else mklin(x.c + n, x.t)


def is_const(x):
    return isinstance(x, Lin) and not x.t


# ---- functions of one small (<=8 bit) atom are kept as tables ----
def small_root(l):
    r = None
    for a, _ in l.t:
        if a.root is None:
            return None
        if r is None:
            r = a.root
        elif r is not a.root:
            return None
    return r


def table(l, root):
    n = root.hi + 1
    out = [l.c] * n
    for a, k in l.t:
        if a.kind == 'tab' and a is not root:
            tb = a.tab
            for i in range(n):
                out[i] += k * tb[i]
        else:
            for i in range(n):
                out[i] += k * i
    return out


def from_table(root, tab):
    """Canonical Lin of a function of one small atom."""
    n = root.hi + 1
    tab = list(tab)
    if all(v == tab[0] for v in tab):
        return const(tab[0])
    d = tab[1] - tab[0]
    if all(tab[i] == tab[0] + d * i for i in range(n)):
        return mklin(tab[0], ((root, d),))
    # factor out gcd and offset so that equal shapes coincide
    base = min(tab)
    g = reduce(gcd, (v - base for v in tab))
    tb = tuple((v - base) // g for v in tab)
    a = atom('tab', (root, tb), 0, max(tb))
    return mklin(base, ((a, g),))


def tab_bdd(root, pred):
    """BDD over the bits of root of {v | pred(v)}"""
    n = root.hi + 1
    nbits = max(1, root.hi.bit_length())
    bits = [bdd.atom(('bit', root, i)) for i in range(nbits)]
    memo = {}

    def rec(i, vals):
        if not vals:
            return None
        if i < 0:
            return 1 if pred(vals[0]) else 0
        if all(pred(v) for v in vals):
            return 1
        if not any(pred(v) for v in vals):
            return 0
        l = rec(i - 1, [v for v in vals if not v >> i & 1])
        h = rec(i - 1, [v for v in vals if v >> i & 1])
        if l is None:
            return h
        if h is None:
            return l
        return bdd.ite(bits[i], h, l)
    return rec(nbits - 1, list(range(n)))


_chain = {}        # form -> sorted bounds and their guards
le_labels = {}     # var index -> (Lin form without constant, k)
_le0 = {}


def le0(l):
    """guard l <= 0"""
    if l.hi <= 0:
        return 1
    if l.lo > 0:
        return 0
    r = _le0.get(l.id)
    if r is not None:
        return r
    root = small_root(l)
    if root is not None:
        tb = table(l, root)
        r = tab_bdd(root, lambda v: tb[v] <= 0)
    else:
        g = reduce(gcd, (abs(k) for _, k in l.t))
        form = mklin(0, tuple((a, k // g) for a, k in l.t))
        k = (-l.c) // g
        r = le_form(form, k)
    _le0[l.id] = r
    return r


def le_form(form, k):
    if form.hi <= k:
        return 1
    if form.lo > k:
        return 0
    if form.t[0][1] < 0:
        # -f >= -k  <=>  not (-f <= -k-1)
        return NOT(le_form(scale(form, -1), -k - 1))
    # bounds of one form are kept consistent by construction: the new guard lies
    # between those of the neighbouring bounds
    ks, gs = _chain.setdefault(form.id, ([], {}))
    if k in gs:
        return gs[k]
    v = bdd.new_var(('le', form, k))
    le_labels[v] = (form, k)
    r = bdd.mk(v, 0, 1)
    i = bisect.bisect(ks, k)
    if i < len(ks):
        r = AND(r, gs[ks[i]])
    if i:
        r = OR(r, gs[ks[i - 1]])
    ks.insert(i, k)
    gs[k] = r
    return r


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(addc(sub(a, b), 1))


def eq(a, b):
    l = sub(a, b)
    if not l.t:
        return 1 if l.c == 0 else 0
    if l.lo > 0 or l.hi < 0:
        return 0
    root = small_root(l)
    if root is not None:
        tb = table(l, root)
        return tab_bdd(root, lambda v: tb[v] == 0)
    g = reduce(gcd, (abs(k) for _, k in l.t))
    if l.c % g:
        return 0
    return AND(le0(l), le0(scale(l, -1)))


# ---- non linear integer operations ----
def op(name, args, lo, hi):
    return of(atom(name, tuple(args), lo, hi))


def mod(x, m):
    """x mod m for x >= 0, m > 0 constant"""
    if m == 1:
        return ZERO
    if not x.t:
        return const(x.c % m)
    if x.lo >= 0 and x.hi < m:
        return x
    root = small_root(x)
    if root is not None:
        return from_table(root, [v % m for v in table(x, root)])
    d = {a: k % m for a, k in x.t}
    d = {a: (k - m if k > m // 2 and m > 2 else k) for a, k in d.items()}
    y = mklin(x.c % m, d)
    if not y.t:
        return const(y.c % m)
    if y.lo >= 0 and y.hi < m:
        return y
    root = small_root(y)
    if root is not None:
        return from_table(root, [v % m for v in table(y, root)])
    if len(y.t) == 1 and y.c == 0 and y.t[0][1] == 1 and y.t[0][0].kind == 'mod':
        a = y.t[0][0]
        if a.args[1] % m == 0:
            return mod(a.args[0], m)
    return op('mod', (y, m), 0, m - 1)


def div(x, m):
    if m == 1:
        return x
    if not x.t:
        return const(x.c // m)
    if x.lo >= 0 and x.hi < m:
        return ZERO
    if all(k % m == 0 for _, k in x.t):
        return mklin(x.c // m, tuple((a, k // m) for a, k in x.t))
    root = small_root(x)
    if root is not None:
        return from_table(root, [v // m for v in table(x, root)])
    # split exactly divisible parts off
    d = {a: k for a, k in x.t if k % m == 0}
    if d or x.c >= m or x.c < 0:
        hi = mklin(x.c // m, {a: k // m for a, k in d.items()})
        lo = mklin(x.c % m, {a: k for a, k in x.t if k % m})
        return add(hi, div(lo, m))
    if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1:
        a = x.t[0][0]
        if a.kind == 'div':
            return div(a.args[0], a.args[1] * m)
        if a.kind == 'shr' and m & (m - 1) == 0:
            return shr(a.args[0], addc(a.args[1], m.bit_length() - 1))
    return op('div', (x, m), max(0, x.lo // m), max(0, x.hi // m))


def shr(x, n):
    """x >> n, n symbolic"""
    if not n.t:
        return div(x, 1 << n.c)
    if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1:
        a = x.t[0][0]
        if a.kind == 'shr':
            return shr(a.args[0], add(a.args[1], n))
        if a.kind == 'div' and a.args[1] & (a.args[1] - 1) == 0:
            return shr(a.args[0], addc(n, a.args[1].bit_length() - 1))
    return op('shr', (x, n), 0, max(0, x.hi))


def mul(x, y):
    if not x.t:
        return scale(y, x.c)
    if not y.t:
        return scale(x, y.c)
    r1, r2 = small_root(x), small_root(y)
    if r1 is not None and r1 is r2:
        return from_table(r1, [a * b for a, b in zip(table(x, r1), table(y, r1))])
    if x.id > y.id:
        x, y = y, x
    ps = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi]
    return op('mul', (x, y), min(ps), max(ps))


def bitop(name, x, y, bits):
    f = {'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}[name]
    if not x.t and not y.t:
        return const(f(x.c, y.c))
    r1 = small_root(x) if x.t else None
    r2 = small_root(y) if y.t else None
    r = r1 or r2
    if r is not None and (not x.t or r1 is r) and (not y.t or r2 is r):
        return from_table(r, [f(a, b) for a, b in zip(table(x, r), table(y, r))])
    if x is y:
        return x if name != 'xor' else ZERO
    for p, q in ((x, y), (y, x)):
        if not q.t:
            m = q.c
            if name == 'and':
                if m == 0:
                    return ZERO
                if m == (1 << bits) - 1:
                    return p
                if m & (m + 1) == 0:
                    return mod(p, m + 1)
                # contiguous mask
                lowb = m & -m
                if (m + lowb) & (m + lowb - 1) == 0 or m + lowb == 1 << bits:
                    return scale(mod(div(p, lowb), m // lowb + 1), lowb)
            elif m == 0:
                return p
    if x.id > y.id:
        x, y = y, x
    hi = (1 << bits) - 1
    if name == 'and':
        hi = min(x.hi, y.hi)
    return op(name, (x, y), 0, hi)


def fits(x, bits, signed):
    if signed:
        return x.lo >= -(1 << (bits - 1)) and x.hi < 1 << (bits - 1)
    return x.lo >= 0 and x.hi < 1 << bits


def wrap(x, bits, signed):
    if fits(x, bits, signed):
        return x
    if not signed:
        return mod(x, 1 << bits) if True else x
    h = 1 << (bits - 1)
    if not x.t:
        return const((x.c + h) % (1 << bits) - h)
    return op('wrap', (x, bits), -h, h - 1)


# ---- regions and bytes ----
_regions = {}


def region(key, length=None):
    k = (_k(key), _k(length) if length is not None else None)
    r = _regions.get(k)
    if r is None:
        r = Region()
        r.id = nid()
        r.key = key
        r.len = length
        if length is None:
            r.len = of(atom('len', (r,), 0, LEN_MAX))
        _regions[k] = r
    return r


_bytes = {}


def _segkey(s):
    return tuple(_k(x) for x in s)


def mkbytes(segs):
    out = []
    for s in segs:
        n = seglen(s)
        if n is ZERO:
            continue
        if s[0] == 'i' or s[0] == 'b':
            l = s[1]
            if not l.t:
                s = ('c', (l.c % (1 << 8 * s[2])).to_bytes(s[2], 'little' if s[0] == 'i' else 'big'))
            elif len(l.t) == 1 and l.c == 0 and l.t[0][1] == 1:
                a = l.t[0][0]
                if a.kind in ('le', 'be') and a.args[1] == s[2] and ((a.kind == 'le') == (s[0] == 'i') or s[2] == 1):
                    for q in a.args[0].segs:
                        _push(out, q)
                    continue
        _push(out, s)
    segs = tuple(out)
    k = tuple(_segkey(s) for s in segs)
    b = _bytes.get(k)
    if b is None:
        b = Bytes()
        b.id = nid()
        b.segs = segs
        n = ZERO
        for s in segs:
            n = add(n, seglen(s))
        b.len = n
        _bytes[k] = b
    return b


def _push(out, s):
    if out:
        p = out[-1]
        if p[0] == 'c' and s[0] == 'c':
            out[-1] = ('c', p[1] + s[1])
            return
        if p[0] == 'r' and s[0] == 'r' and p[1] is s[1] and add(p[2], p[3]) is s[2]:
            out[-1] = ('r', p[1], p[2], add(p[3], s[3]))
            return
        if p[0] == 's' and s[0] == 's' and p[1] is s[1] and add(p[2], p[3]) is s[2]:
            out[-1] = ('s', p[1], p[2], add(p[3], s[3]))
            return
    out.append(s)


def seglen(s):
    if s[0] in 'rs':
        return s[3]
    if s[0] == 'c':
        return const(len(s[1]))
    return const(s[2])


def rbytes(r, start=None, n=None):
    start = start or ZERO
    return mkbytes([('r', r, start, n if n is not None else sub(r.len, start))])


def cbytes(b):
    return mkbytes([('c', bytes(b))])


EMPTY = mkbytes([])


def concat(*bs):
    return mkbytes([s for b in bs for s in b.segs])


def bsub(b, start, n):
    """b[start .. start+n]"""
    if start is ZERO and n is b.len:
        return b
    if n is ZERO:
        return EMPTY
    if len(b.segs) == 1 and b.segs[0][0] == 'r':
        s = b.segs[0]
        return mkbytes([('r', s[1], add(s[2], start), n)])
    if len(b.segs) == 1 and b.segs[0][0] == 's':
        s = b.segs[0]
        return mkbytes([('s', s[1], add(s[2], start), n)])
    # walk the segments
    pos = ZERO
    end = add(start, n)
    out = []
    inside = False
    for s in b.segs:
        l = seglen(s)
        nxt = add(pos, l)
        if not inside:
            rel = sub(start, pos)
            if rel.lo >= 0 and sub(nxt, start).lo > 0:
                inside = True
                first = rel
            elif sub(start, nxt).lo >= 0:
                pos = nxt
                continue
            else:
                break
        else:
            first = ZERO
        rem = sub(end, nxt)
        if rem.lo >= 0:
            out.append(_subseg(s, first, sub(l, first)))
            if rem is ZERO:
                return mkbytes(out)
        elif rem.hi <= 0:
            out.append(_subseg(s, first, sub(sub(l, first), sub(nxt, end))))
            return mkbytes(out)
        else:
            break
        pos = nxt
    return mkbytes([('s', b, start, n)])


def _subseg(s, start, n):
    if start is ZERO and n is seglen(s):
        return s
    if s[0] in 'rs':
        return (s[0], s[1], add(s[2], start), n)
    if s[0] == 'c' and not start.t and not n.t:
        return ('c', s[1][start.c:start.c + n.c])
    return ('s', mkbytes([s]), start, n)


def bwrite(b, start, new):
    """b with new written at start (length preserved)"""
    end = add(start, new.len)
    return concat(bsub(b, ZERO, start), new, bsub(b, end, sub(b.len, end)))


def int_le(b, n, signed=False):
    """little endian integer made of the n bytes b"""
    if len(b.segs) == 1:
        s = b.segs[0]
        if s[0] == 'c':
            return const(int.from_bytes(s[1], 'little', signed=signed))
        if s[0] == 'i' and s[2] == n:
            return s[1]
        if s[0] == 'b' and n == 1:
            return s[1]
    if signed:
        return op('sle', (b, n), -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
    if b.segs and all(s[0] in 'ci' for s in b.segs) and all(s[0] == 'c' or True for s in b.segs):
        # compose from constant / integer pieces
        v = ZERO
        sh = 0
        for s in b.segs:
            if s[0] == 'c':
                v = add(v, const(int.from_bytes(s[1], 'little') << sh))
                sh += 8 * len(s[1])
            else:
                x = s[1]
                if x.lo < 0:
                    break
                v = add(v, scale(x, 1 << sh))
                sh += 8 * s[2]
        else:
            return v
    if n == 1:
        return of(atom('le', (b, 1), 0, 255))
    return of(atom('le', (b, n), 0, (1 << 8 * n) - 1))


def int_be(b, n):
    if n == 1:
        return int_le(b, 1)
    if len(b.segs) == 1:
        s = b.segs[0]
        if s[0] == 'c':
            return const(int.from_bytes(s[1], 'big'))
        if s[0] == 'b' and s[2] == n:
            return s[1]
    return of(atom('be', (b, n), 0, (1 << 8 * n) - 1))


def bytes_of_int(x, n):
    return mkbytes([('i', x, n)])


def beq(x, y):
    """guard: byte strings are equal"""
    if x is y:
        return 1
    d = eq(x.len, y.len)
    if d == 0:
        return 0
    if not x.len.t and not y.len.t:
        n = x.len.c
        if n in (1, 2, 4, 8):
            return eq(int_le(x, n), int_le(y, n))
        if len(x.segs) == 1 and len(y.segs) == 1 and x.segs[0][0] == 'c' and y.segs[0][0] == 'c':
            return 1 if x.segs[0][1] == y.segs[0][1] else 0
        # cut at common boundaries when both are composite
        if len(x.segs) > 1 or len(y.segs) > 1:
            cuts = set()
            for b in (x, y):
                p = 0
                for s in b.segs:
                    p += seglen(s).c if not seglen(s).t else 10 ** 9
                    cuts.add(p)
            if max(cuts) == n and len(cuts) > 1:
                r = 1
                p = 0
                for q in sorted(cuts):
                    r = AND(r, beq(bsub(x, const(p), const(q - p)), bsub(y, const(p), const(q - p))))
                    p = q
                    if r == 0:
                        return 0
                return r
    if x.id > y.id:
        x, y = y, x
    v = bdd.new_var(('eqb', x, y))
    r = bdd.mk(v, 0, 1)
    return AND(d, r)


def fresh_bool(label):
    return bdd.atom(label)


# ---- theory lemmas for the atoms of a guard ----
_lem = {}


def _box_lo(form):
    return form.lo


def lemmas(vs, triples=True):
    """Valid clauses over the atoms vs (list of guards that always hold)."""
    out = []
    les = [(v,) + le_labels[v] for v in vs if v in le_labels]
    # literals: v true: form <= k ; v false: -form <= -k-1
    lits = []
    for v, f, k in les:
        g = bdd.mk(v, 0, 1)
        lits.append((g, f, k, v))
        lits.append((NOT(g), scale(f, -1), -k - 1, v))
    n = len(lits)
    by = {}
    for i, (g, f, k, v) in enumerate(lits):
        for a, c in f.t:
            by.setdefault(a.id, []).append(i)
    pairs = []
    for i in range(n):
        gi, fi, ki, vi = lits[i]
        cand = set()
        for a, c in fi.t:
            cand.update(by[a.id])
        for j in cand:
            if j <= i:
                continue
            gj, fj, kj, vj = lits[j]
            if vi == vj:
                continue
            key = (fi.id, ki, fj.id, kj)
            r = _lem.get(key)
            if r is None:
                s = add(fi, fj)
                r = (s.lo > ki + kj)
                if not r:
                    # also try multiples for small coefficients
                    for m1, m2 in ((1, 2), (2, 1), (1, 20), (20, 1)):
                        s2 = add(scale(fi, m1), scale(fj, m2))
                        if s2.lo > m1 * ki + m2 * kj:
                            r = True
                            break
                _lem[key] = r
            if r:
                out.append(NOT(AND(gi, gj)))
            elif triples:
                s = add(fi, fj)
                if len(s.t) <= max(len(fi.t), len(fj.t)):
                    pairs.append((i, j, s, ki + kj))
    if triples and len(pairs) < 20000:
        for i, j, s, k in pairs:
            cand = None
            if not s.t:
                continue
            cand = by.get(s.t[0][0].id, ())
            for l in cand:
                if l == i or l == j:
                    continue
                gl, fl, kl, vl = lits[l]
                if vl == lits[i][3] or vl == lits[j][3]:
                    continue
                t = add(s, fl)
                if t.lo > k + kl:
                    out.append(NOT(AND(AND(lits[i][0], lits[j][0]), gl)))
    # equality of byte strings is transitive
    eqs = {}
    for v in vs:
        lab = bdd.names[v]
        if isinstance(lab, tuple) and lab[0] == 'eqb':
            eqs[(lab[1].id, lab[2].id)] = bdd.mk(v, 0, 1)
    nodes = {}
    for (a, b), g in eqs.items():
        nodes.setdefault(a, {})[b] = g
        nodes.setdefault(b, {})[a] = g
    for (a, b), g in eqs.items():
        for c in nodes[a]:
            if c != b and c in nodes[b]:
                out.append(NOT(AND(AND(nodes[a][c], nodes[b][c]), NOT(g))))
    return out


class _Src:
    """bound of one atom with the literals it follows from"""
    __slots__ = ('v', 'lits')

    def __init__(self, v, lits):
        self.v, self.lits = v, lits


def conflict(cube):
    """A subset of the literals [(var, bool)] that contradicts arithmetic or
    equality, or None when no contradiction was found."""
    les = []
    bits = {}
    eqs = {}
    for v, b in cube:
        q = le_labels.get(v)
        if q is not None:
            f, k = q
            if b:
                les.append((f, k, ((v, b),)))
            else:
                les.append((scale(f, -1), -k - 1, ((v, b),)))
            continue
        lab = bdd.names[v]
        if isinstance(lab, tuple):
            if lab[0] == 'bit':
                bits.setdefault(lab[1], []).append((lab[2], b, v))
            elif lab[0] == 'eqb':
                eqs[(lab[1].id, lab[2].id)] = (v, b, lab[1], lab[2])
    # ---- byte string equality: classes of equal strings
    if eqs:
        par = {}
        obj = {}
        adj = {}

        def add_edge(a, b, lit):
            adj.setdefault(a, []).append((b, lit))
            adj.setdefault(b, []).append((a, lit))
        for (a, b), (v, val, x, y) in eqs.items():
            obj[a], obj[b] = x, y
            if val:
                add_edge(a, b, (v, True))

        def path(a, b):
            prev = {a: None}
            st = [a]
            while st:
                n = st.pop(0)
                if n == b:
                    out = []
                    while prev[n] is not None:
                        m, lit = prev[n]
                        out.append(lit)
                        n = m
                    return out
                for m, lit in adj.get(n, ()):
                    if m not in prev:
                        prev[m] = (n, lit)
                        st.append(m)
            return None
        for (a, b), (v, val, x, y) in eqs.items():
            if not val:
                pth = path(a, b)
                if pth is not None:
                    return pth + [(v, False)]
        consts = [i for i, o in obj.items() if len(o.segs) == 1 and o.segs[0][0] == 'c' and i in adj]
        for i, a in enumerate(consts):
            for b in consts[i + 1:]:
                pth = path(a, b)
                if pth is not None:
                    return pth
    # ---- bounds of single atoms
    lo, hi = {}, {}

    def allowed(a):
        bl = bits.get(a)
        if not bl:
            return None
        return [x for x in range(a.hi + 1) if all((x >> i & 1) == b for i, b, _ in bl)], tuple((v, b) for _, b, v in bl)

    def low(a):
        r = lo.get(a)
        if r is None:
            r = lo[a] = _Src(a.lo, ())
            root = a.root
            if root is not None:
                al = allowed(root)
                if al is not None:
                    vals = [(a.tab[x] if a.kind == 'tab' else x) for x in al[0]]
                    if vals:
                        if min(vals) > a.lo:
                            lo[a] = r = _Src(min(vals), al[1])
        return r

    def high(a):
        r = hi.get(a)
        if r is None:
            r = hi[a] = _Src(a.hi, ())
            root = a.root
            if root is not None:
                al = allowed(root)
                if al is not None:
                    vals = [(a.tab[x] if a.kind == 'tab' else x) for x in al[0]]
                    if vals:
                        if max(vals) < a.hi:
                            hi[a] = r = _Src(max(vals), al[1])
        return r
    for a, bl in bits.items():
        if not allowed(a)[0]:
            return [(v, b) for _, b, v in bl]
    multi = []
    for f, k, lit in les:
        if len(f.t) == 1:
            a, c = f.t[0]
            if c > 0:
                if k // c < high(a).v:
                    hi[a] = _Src(k // c, lit)
            else:
                n = -(k // -c) if False else -((k) // (-c))
                # c*a <= k, c<0  =>  a >= ceil(-k / -c)
                n = -(k // (-c))
                if n > low(a).v:
                    lo[a] = _Src(n, lit)
        else:
            multi.append((f, k, lit))
    for a in set(lo) | set(hi):
        l, h = low(a), high(a)
        if l.v > h.v:
            return list(set(l.lits) | set(h.lits))

    def minimum(f, k):
        """literals showing form > k from the bounds, or None"""
        m = f.c
        for a, c in f.t:
            m += c * (low(a).v if c > 0 else high(a).v)
        if m <= k:
            return None
        need = []
        slack = m - k - 1
        for a, c in f.t:
            if c > 0:
                s, base = low(a), a.lo
                d = c * (s.v - base)
            else:
                s, base = high(a), a.hi
                d = c * (s.v - base)
            if d:
                if d <= slack:
                    slack -= d
                else:
                    need += s.lits
        return need
    for f, k, lit in multi:
        r = minimum(f, k)
        if r is not None:
            return list(set(r) | set(lit))
    by = {}
    for i, (f, k, lit) in enumerate(multi):
        for a, c in f.t:
            by.setdefault((a, c > 0), []).append(i)
    pairs = []
    seen = set()
    for i, (f, k, lit) in enumerate(multi):
        for a, c in f.t:
            for j in by.get((a, c < 0), ()):
                if j <= i or (i, j) in seen:
                    continue
                seen.add((i, j))
                f2, k2, lit2 = multi[j]
                c2 = dict(f2.t)[a]
                m1, m2 = abs(c2), abs(c)
                s, kk = add(scale(f, m1), scale(f2, m2)), k * m1 + k2 * m2
                r = minimum(s, kk)
                if r is not None:
                    return list(set(r) | set(lit) | set(lit2))
                if len(s.t) <= max(len(f.t), len(f2.t)) and s.t:
                    pairs.append((s, kk, lit + lit2))
    level = pairs
    for rnd in range(2):
        if len(level) > 3000:
            break
        nxt = []
        for s, kk, ls in level:
            done = set()
            for a, c in s.t:
                for j in by.get((a, c < 0), ()):
                    f2, k2, lit2 = multi[j]
                    if j in done or lit2[0] in ls:
                        continue
                    done.add(j)
                    c2 = dict(f2.t)[a]
                    m1, m2 = abs(c2), abs(c)
                    t, k3 = add(scale(s, m1), scale(f2, m2)), kk * m1 + k2 * m2
                    r = minimum(t, k3)
                    if r is not None:
                        return list(set(r) | set(ls) | set(lit2))
                    if rnd == 0 and len(t.t) <= 2 and t.t:
                        nxt.append((t, k3, ls + lit2))
        level = nxt
    return None


_learned = set()
theory_rounds = [0]


def theory_sat(f, triples=True):
    """0 when f contradicts arithmetic; otherwise f strengthened by the facts
    that were needed, whose first cube is free of known contradictions."""
    n = 0
    while f > 1:
        c = bdd.cube(f)
        x = conflict(c)
        if x is None:
            return f
        theory_rounds[0] += 1
        n += 1
        if n > 4000:
            raise Budget('more than 4000 arithmetic conflicts')
        g = 1
        for v, b in sorted(x, reverse=True):
            g = AND(g, bdd.mk(v, 0, 1) if b else bdd.mk(v, 1, 0))
        f = AND(f, NOT(g))
    return f


def implies(a, b):
    """Is a => b valid (with the theory)?  Returns (bool, witness guard)."""
    f = AND(a, NOT(b))
    if f == 0:
        return True, 0
    f = theory_sat(f)
    return f == 0, f


def show_guard(f, limit=14):
    c = bdd.cube(f)
    if c is None:
        return 'false'
    bits = {}
    out = []
    for v, b in c:
        lab = bdd.names[v]
        if isinstance(lab, tuple) and lab[0] == 'bit':
            bits.setdefault(lab[1], {})[lab[2]] = b
        elif isinstance(lab, tuple) and lab[0] == 'le':
            out.append('%r %s %d' % (lab[1], '<=' if b else '>', lab[2]))
        elif isinstance(lab, tuple) and lab[0] == 'eqb':
            out.append('%r %s %r' % (lab[1], '==' if b else '!=', lab[2]))
        else:
            out.append(('' if b else 'not ') + show_key(lab))
    for a, d in bits.items():
        n = max(1, a.hi.bit_length())
        out.append('%r = 0b%s' % (a, ''.join('?' if i not in d else '01'[d[i]] for i in reversed(range(n)))))
    if len(out) > limit:
        out = out[:limit] + ['... (%d more)' % (len(out) - limit)]
    return ' and '.join(out)
