"""Structured gated values."""
from terms import *
import terms as TM


class B:           # boolean
    __slots__ = ('id', 'g')

    def __repr__(self):
        return 'B<%s>' % (show_guard(self.g) if self.g > 1 else bool(self.g))


class G:           # guarded scalar leaves
    __slots__ = ('id', 'items')

    def __repr__(self):
        if len(self.items) == 1:
            return repr(self.items[0][1])
        return '{' + '; '.join('%s => %r' % (show_guard(c, 4), l) for c, l in self.items) + '}'


class Agg:
    __slots__ = ('id', 'f')

    def __repr__(self):
        return '(' + ', '.join(map(repr, self.f)) + ')'


class Enum:        # {variant index: (guard, fields)}
    __slots__ = ('id', 'tid', 'v')

    def __repr__(self):
        return 'enum%d{' % self.tid + '; '.join(
            '%d if %s: %r' % (k, show_guard(c, 3) if c > 1 else bool(c), f) for k, (c, f) in self.v.items()) + '}'


class Nat:         # modelled library value
    __slots__ = ('id', 'kind', 'f', 'tag')

    def __repr__(self):
        return '%s<%s>%s' % (self.kind, show_key(self.tag) if self.tag is not None else '', list(self.f))


class Sym:         # lazily expanded unknown of a type
    __slots__ = ('id', 'tid', 'name')

    def __repr__(self):
        return 'sym:%s' % show_key(self.name)


class Ptr:
    """kind: cell(cid, path) | slice(cid, path, start, len, elem) | view(cid, path, off, tid) | fn(inst)"""
    __slots__ = ('id', 'kind', 'a')

    def __repr__(self):
        return '&%s%s' % (self.kind, show_key(tuple(self.a)))


class Uninit:
    __slots__ = ('id',)

    def __repr__(self):
        return 'uninit'


_h = {}


def _mk(cls, key, **kw):
    k = (cls,) + key
    o = _h.get(k)
    if o is None:
        o = cls()
        o.id = nid()
        for a, b in kw.items():
            setattr(o, a, b)
        _h[k] = o
    return o


UNINIT = _mk(Uninit, ())


def mkB(g):
    return _mk(B, (g,), g=g)


TRUE, FALSE = mkB(1), mkB(0)


def leaf(l):
    return _mk(G, ((1, l.id),), items=((1, l),))


def mkG(items):
    d = {}
    o = {}
    for c, l in items:
        if c == 0:
            continue
        d[l.id] = OR(d.get(l.id, 0), c)
        o[l.id] = l
    ks = sorted(d)
    it = tuple((d[k], o[k]) for k in ks)
    if len(it) == 1:
        return leaf(it[0][1])
    return _mk(G, tuple((c, l.id) for c, l in it), items=it)


def mkI(n):
    return leaf(const(n))


def mkL(lin):
    return leaf(lin)


def mkAgg(f):
    f = tuple(f)
    return _mk(Agg, tuple(x.id for x in f), f=f)


UNIT = mkAgg(())


def mkEnum(tid, v):
    v = {k: (c, tuple(f)) for k, (c, f) in sorted(v.items()) if c != 0}
    return _mk(Enum, (tid, tuple((k, c, tuple(x.id for x in f)) for k, (c, f) in v.items())), tid=tid, v=v)


def mkNat(kind, f=(), tag=None):
    f = tuple(f)
    return _mk(Nat, (kind, tuple(x.id for x in f), TM._k(tag)), kind=kind, f=f, tag=tag)


def mkSym(tid, name):
    return _mk(Sym, (tid, TM._k(name)), tid=tid, name=name)


def ptr(kind, *a):
    return _mk(Ptr, (kind,) + tuple(TM._k(x) for x in a), kind=kind, a=a)


def is_uninit(v):
    return v is UNINIT


class Merge:
    """ite over values; sel must partition the current path guard."""

    def __init__(self, prog):
        self.prog = prog


def ite(sel, a, b, prog=None):
    if a is b or sel == 1:
        return a
    if sel == 0:
        return b
    if a is UNINIT:
        return b
    if b is UNINIT:
        return a
    ta, tb = type(a), type(b)
    if ta is Sym and tb is not Sym and prog is not None:
        a2 = prog.expand(a)
        if a2 is not a:
            return ite(sel, a2, b, prog)
    if tb is Sym and ta is not Sym and prog is not None:
        b2 = prog.expand(b)
        if b2 is not b:
            return ite(sel, a, b2, prog)
    if ta is tb:
        if ta is B:
            return mkB(bdd.ite(sel, a.g, b.g))
        if ta is Agg and len(a.f) == len(b.f):
            return mkAgg([ite(sel, x, y, prog) for x, y in zip(a.f, b.f)])
        if ta is Enum:
            out = {}
            ns = NOT(sel)
            for k in set(a.v) | set(b.v):
                ca, fa = a.v.get(k, (0, None))
                cb, fb = b.v.get(k, (0, None))
                c = bdd.ite(sel, ca, cb)
                if fa is None:
                    f = fb
                elif fb is None:
                    f = fa
                else:
                    if fa == fb:
                        f = fa
                    else:
                        sa, sb = AND(sel, ca), AND(ns, cb)
                        s = bdd.restrict(sa, OR(sa, sb)) if OR(sa, sb) != 0 else sel
                        f = tuple(ite(s, x, y, prog) for x, y in zip(fa, fb))
                out[k] = (c, f)
            return mkEnum(a.tid, out)
        if ta is Nat and a.kind == b.kind and len(a.f) == len(b.f) and a.tag == b.tag:
            return mkNat(a.kind, [ite(sel, x, y, prog) for x, y in zip(a.f, b.f)], a.tag)
        if ta is Sym and prog is not None:
            a2, b2 = prog.expand(a), prog.expand(b)
            if a2 is not a or b2 is not b:
                return ite(sel, a2, b2, prog)
    ia = a.items if ta is G else ((1, a),)
    ib = b.items if tb is G else ((1, b),)
    ns = NOT(sel)
    return mkG([(AND(sel, c), l) for c, l in ia] + [(AND(ns, c), l) for c, l in ib])


def simp(v, pc):
    """drop alternatives excluded by the path guard"""
    if type(v) is G and len(v.items) > 1:
        it = [(c, l) for c, l in v.items if AND(c, pc) != 0]
        if len(it) < len(v.items):
            if len(it) == 1:
                l = it[0][1]
                return l if not isinstance(l, (Lin, Bytes, Ptr)) else leaf(l)
            if not it:
                return v
            return mkG([(bdd.restrict(c, pc), l) for c, l in it])
    elif type(v) is Enum and len(v.v) > 1:
        d = {k: (c, f) for k, (c, f) in v.v.items() if AND(c, pc) != 0}
        if len(d) < len(v.v) and d:
            if len(d) == 1:
                d = {k: (1, f) for k, (c, f) in d.items()}
            return mkEnum(v.tid, d)
    elif type(v) is B and v.g > 1:
        if AND(v.g, pc) == 0:
            return FALSE
        if AND(NOT(v.g), pc) == 0:
            return TRUE
    return v


# ---- generic rewriting (substitution) ----
class Subst:
    """Rewrites atoms / regions throughout values.  fa(atom)->Lin|None, fr(region)->Bytes|None"""

    def __init__(self, fa=None, fr=None, fv=None, fs=None, flabel=None):
        self.fa, self.fr, self.fv, self.fs, self.flabel = fa, fr, fv, fs, flabel
        self.mv = {}
        self.ml = {}
        self.mb = {}
        self.ma = {}
        self.mr = {}
        self.mg = {}
        self.mx = {}

    def lin(self, l):
        if not l.t:
            return l
        r = self.ml.get(l.id)
        if r is None:
            r = const(l.c)
            for a, k in l.t:
                r = add(r, scale(self.atom(a), k))
            self.ml[l.id] = r
        return r

    def atom(self, a):
        r = self.ma.get(a.id)
        if r is not None:
            return r
        x = self.fa(a) if self.fa else None
        if x is None:
            x = self.rebuild_atom(a)
        self.ma[a.id] = x
        return x

    def rebuild_atom(self, a):
        k = a.kind
        if k == 'var':
            args = self.obj(a.args)
            return of(a) if args is a.args else of(atom(k, args, a.lo, a.hi))
        if k == 'le':
            b = self.bytes(a.args[0])
            return int_le(b, a.args[1]) if b is not a.args[0] else of(a)
        if k == 'be':
            b = self.bytes(a.args[0])
            return int_be(b, a.args[1]) if b is not a.args[0] else of(a)
        if k == 'len' and isinstance(a.args[0], Region):
            r = self.region(a.args[0])
            return r.len if r is not None and not (len(r.segs) == 1 and r.segs[0][0] == 'r' and r.segs[0][1] is a.args[0]) else of(a)
        if k == 'mod':
            x = self.lin(a.args[0])
            return mod(x, a.args[1]) if x is not a.args[0] else of(a)
        if k == 'div':
            x = self.lin(a.args[0])
            return div(x, a.args[1]) if x is not a.args[0] else of(a)
        if k == 'shr':
            x, y = self.lin(a.args[0]), self.lin(a.args[1])
            return shr(x, y) if x is not a.args[0] or y is not a.args[1] else of(a)
        if k == 'mul':
            x, y = self.lin(a.args[0]), self.lin(a.args[1])
            return mul(x, y) if x is not a.args[0] or y is not a.args[1] else of(a)
        if k == 'tab':
            r = self.atom(a.args[0])
            if r.t and len(r.t) == 1 and r.c == 0 and r.t[0][1] == 1 and r.t[0][0] is a.args[0]:
                return of(a)
            if not r.t:
                return const(a.tab[r.c])
            root = small_root(r)
            if root is not None:
                return from_table(root, [a.tab[v] if 0 <= v < len(a.tab) else 0 for v in table(r, root)])
            return op('tabof', (r, a.tab), a.lo, a.hi)
        args = self.obj(a.args)
        if args == a.args:
            return of(a)
        return of(atom(k, args, a.lo, a.hi))

    def region(self, r):
        """Bytes replacing the region, or None when unchanged"""
        if r.id in self.mr:
            return self.mr[r.id]
        self.mr[r.id] = None
        x = self.fr(r) if self.fr else None
        if x is None:
            key = self.obj(r.key)
            ln = r.len
            if ln.t and not (len(ln.t) == 1 and ln.t[0][0].kind == 'len' and ln.t[0][0].args[0] is r):
                ln = self.lin(ln)
                own = False
            else:
                own = bool(ln.t)
            if key != r.key or (not own and ln is not r.len):
                nr = TM.region(key, None if own else ln)
                x = rbytes(nr)
        self.mr[r.id] = x
        return x

    def bytes(self, b):
        r = self.mb.get(b.id)
        if r is not None:
            return r
        segs = []
        for s in b.segs:
            if s[0] == 'c':
                segs.append(s)
            elif s[0] in 'ib':
                segs.append((s[0], self.lin(s[1]), s[2]))
            elif s[0] == 'r':
                st, n = self.lin(s[2]), self.lin(s[3])
                if self.fs is not None:
                    y = self.fs(s[1], st, n)
                    if y is not None:
                        segs.extend(y.segs)
                        continue
                x = self.region(s[1])
                if x is None:
                    segs.append(('r', s[1], st, n))
                else:
                    segs.extend(bsub(x, st, n).segs)
            else:
                segs.extend(bsub(self.bytes(s[1]), self.lin(s[2]), self.lin(s[3])).segs)
        r = mkbytes(segs)
        self.mb[b.id] = r
        return r

    def guard(self, g):
        if g < 2:
            return g
        return bdd.rebuild(g, self._var, self.mg)

    def _var(self, v):
        r = self.mx.get(v)
        if r is not None:
            return r
        lab = bdd.names[v]
        r = None
        n0 = len(bdd.names)
        try:
            return self._var1(v, lab)
        finally:
            o = bdd.origin.get(v)
            if o is not None:
                for k in range(n0, len(bdd.names)):
                    bdd.origin.setdefault(k, o)

    def _var1(self, v, lab):
        r = None
        if self.flabel:
            r = self.flabel(lab)
        if r is None:
            if isinstance(lab, tuple) and lab[0] == 'le':
                r = TM.le(self.lin(lab[1]), const(lab[2]))
            elif isinstance(lab, tuple) and lab[0] == 'bit':
                a = lab[1]
                l = self.atom(a)
                i = lab[2]
                if len(l.t) == 1 and l.c == 0 and l.t[0][0] is a:
                    r = bdd.mk(v, 0, 1)
                else:
                    r = TM.eq(mod(div(l, 1 << i), 2), ONE)
            elif isinstance(lab, tuple) and lab[0] == 'eqb':
                r = beq(self.bytes(lab[1]), self.bytes(lab[2]))
            else:
                n = self.obj(lab)
                r = bdd.mk(v, 0, 1) if n == lab else bdd.atom(n)
        self.mx[v] = r
        return r

    def obj(self, x):
        if isinstance(x, tuple):
            y = tuple(self.obj(e) for e in x)
            return x if all(p is q for p, q in zip(x, y)) else y
        if isinstance(x, Lin):
            return self.lin(x)
        if isinstance(x, Bytes):
            return self.bytes(x)
        if isinstance(x, Region):
            r = self.region(x)
            return x if r is None else r
        if isinstance(x, Atom):
            l = self.atom(x)
            return x if (len(l.t) == 1 and l.c == 0 and l.t[0][0] is x) else l
        if isinstance(x, (B, G, Agg, Enum, Nat, Sym, Ptr, Uninit)):
            return self.val(x)
        if isinstance(x, GuardKey):
            return GuardKey(self.guard(x.g))
        return x

    def val(self, v):
        r = self.mv.get(v.id)
        if r is not None:
            return r
        r = self.fv(v) if self.fv else None
        if r is None:
            t = type(v)
            if t is B:
                r = mkB(self.guard(v.g))
            elif t is G:
                r = mkG([(self.guard(c), self.obj(l)) for c, l in v.items])
            elif t is Agg:
                r = mkAgg([self.val(x) for x in v.f])
            elif t is Enum:
                r = mkEnum(v.tid, {k: (self.guard(c), tuple(self.val(x) for x in f)) for k, (c, f) in v.v.items()})
            elif t is Nat:
                r = mkNat(v.kind, [self.val(x) for x in v.f], self.obj(v.tag) if isinstance(v.tag, tuple) else v.tag)
            elif t is Ptr:
                r = ptr(v.kind, *[self.obj(x) for x in v.a])
            elif t is Sym:
                r = mkSym(v.tid, self.obj(v.name)) if isinstance(v.name, tuple) else v
            else:
                r = v
        self.mv[v.id] = r
        return r


class GuardKey:
    """A guard used inside an opaque key."""
    __slots__ = ('g',)

    def __init__(self, g):
        self.g = g

    @property
    def id(self):
        return -self.g - 1

    def __eq__(self, o):
        return isinstance(o, GuardKey) and o.g == self.g

    def __hash__(self):
        return hash(('gk', self.g))

    def __repr__(self):
        return '<%s>' % show_guard(self.g)


def atoms_of(*objs):
    """All atoms, regions reachable from values/terms."""
    seen = set()
    atoms = set()
    regs = set()
    st = list(objs)
    while st:
        x = st.pop()
        if isinstance(x, (tuple, list)):
            st.extend(x)
            continue
        if isinstance(x, GuardKey):
            for v in bdd.support(x.g):
                st.append(bdd.names[v])
            continue
        i = getattr(x, 'id', None)
        if i is None or i in seen:
            continue
        seen.add(i)
        if isinstance(x, Lin):
            st.extend(a for a, _ in x.t)
        elif isinstance(x, Atom):
            atoms.add(x)
            st.append(x.args)
        elif isinstance(x, Bytes):
            st.extend(x.segs)
        elif isinstance(x, Region):
            regs.add(x)
            st.append(x.key)
            if x.len.t and not (x.len.t[0][0].kind == 'len'):
                st.append(x.len)
        elif isinstance(x, B):
            st.append(GuardKey(x.g))
        elif isinstance(x, G):
            for c, l in x.items:
                st.append(GuardKey(c))
                st.append(l)
        elif isinstance(x, (Agg, Nat)):
            st.extend(x.f)
            if isinstance(x, Nat) and x.tag is not None:
                st.append(x.tag)
        elif isinstance(x, Enum):
            for c, f in x.v.values():
                st.append(GuardKey(c))
                st.extend(f)
        elif isinstance(x, Ptr):
            st.extend(x.a)
        elif isinstance(x, Sym):
            st.append(x.name)
    return atoms, regs
