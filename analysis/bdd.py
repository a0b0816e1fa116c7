"""Reduced ordered binary decision diagrams (guards of the gated values)."""


class Budget(Exception):
    """the analysis grew beyond its bounds"""


class BDD:
    limit = 16_000_000

    def __init__(self):
        # node 0 = False, node 1 = True
        self.var = [1 << 60, 1 << 60]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.uniq = {}
        self.cache = {}
        self.ncache = {}
        self.names = []          # var index -> label
        self.byname = {}
        self.ops = 0
        self.where = None
        self.origin = {}         # var index -> code location that first asked it

    def mk(self, v, l, h):
        if l == h:
            return l
        k = (v, l, h)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.var)
            if n > self.limit:
                raise Budget('more than %d guard nodes' % self.limit)
            self.var.append(v)
            self.lo.append(l)
            self.hi.append(h)
            self.uniq[k] = n
        return n

    def new_var(self, label):
        v = self.byname.get(label)
        if v is None:
            v = len(self.names)
            self.names.append(label)
            self.byname[label] = v
            if self.where is not None:
                self.origin[v] = self.where()
        return v

    def atom(self, label):
        return self.mk(self.new_var(label), 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        if f == g:
            g = 1
        elif f == h:
            h = 0
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        var = self.var
        v = min(var[f], var[g], var[h])
        lo, hi = self.lo, self.hi
        if var[f] == v:
            f0, f1 = lo[f], hi[f]
        else:
            f0 = f1 = f
        if var[g] == v:
            g0, g1 = lo[g], hi[g]
        else:
            g0 = g1 = g
        if var[h] == v:
            h0, h1 = lo[h], hi[h]
        else:
            h0 = h1 = h
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.cache[k] = r
        return r

    def AND(self, a, b):
        if a == 0 or b == 0:
            return 0
        if a == 1:
            return b
        if b == 1 or a == b:
            return a
        if a > b:
            a, b = b, a
        return self.ite(a, b, 0)

    def OR(self, a, b):
        if a == 1 or b == 1:
            return 1
        if a == 0:
            return b
        if b == 0 or a == b:
            return a
        if a > b:
            a, b = b, a
        return self.ite(a, 1, b)

    def NOT(self, a):
        if a < 2:
            return 1 - a
        r = self.ncache.get(a)
        if r is None:
            r = self.ite(a, 0, 1)
            self.ncache[a] = r
            self.ncache[r] = a
        return r

    def XOR(self, a, b):
        return self.ite(a, self.NOT(b), b)

    def IFF(self, a, b):
        return self.ite(a, b, self.NOT(b))

    def DIFF(self, a, b):
        return self.AND(a, self.NOT(b))

    def all(self, xs):
        r = 1
        for x in xs:
            r = self.AND(r, x)
        return r

    def any(self, xs):
        r = 0
        for x in xs:
            r = self.OR(r, x)
        return r

    def restrict(self, f, c, memo=None):
        """Coudert-Madre restrict: simplify f using don't-cares outside c."""
        if c == 0:
            return 0
        if memo is None:
            memo = {}
        return self._restrict(f, c, memo)

    def _restrict(self, f, c, memo):
        if c == 1 or f < 2:
            return f
        if c == f:
            return 1
        if c == 0:
            return f
        k = (f, c)
        r = memo.get(k)
        if r is not None:
            return r
        vf, vc = self.var[f], self.var[c]
        if vc < vf:
            r = self._restrict(f, self.OR(self.lo[c], self.hi[c]), memo)
        else:
            if vc == vf:
                c0, c1 = self.lo[c], self.hi[c]
            else:
                c0 = c1 = c
            if c0 == 0:
                r = self._restrict(self.hi[f], c1, memo)
            elif c1 == 0:
                r = self._restrict(self.lo[f], c0, memo)
            else:
                r = self.mk(vf, self._restrict(self.lo[f], c0, memo), self._restrict(self.hi[f], c1, memo))
        memo[k] = r
        return r

    def support(self, f):
        seen = set()
        out = set()
        st = [f]
        while st:
            n = st.pop()
            if n < 2 or n in seen:
                continue
            seen.add(n)
            out.add(self.var[n])
            st.append(self.lo[n])
            st.append(self.hi[n])
        return out

    def size(self, f):
        seen = set()
        st = [f]
        while st:
            n = st.pop()
            if n < 2 or n in seen:
                continue
            seen.add(n)
            st.append(self.lo[n])
            st.append(self.hi[n])
        return len(seen)

    def cofactor(self, f, v, b, memo=None):
        if memo is None:
            memo = {}
        if f < 2 or self.var[f] > v:
            return f
        r = memo.get(f)
        if r is not None:
            return r
        if self.var[f] == v:
            r = self.hi[f] if b else self.lo[f]
        else:
            r = self.mk(self.var[f], self.cofactor(self.lo[f], v, b, memo), self.cofactor(self.hi[f], v, b, memo))
        memo[f] = r
        return r

    def exists(self, f, vs):
        for v in sorted(vs, reverse=True):
            f = self.OR(self.cofactor(f, v, 0), self.cofactor(f, v, 1))
        return f

    def cube(self, f):
        """One satisfying cube as [(var, bool)] (None if unsatisfiable)."""
        if f == 0:
            return None
        out = []
        while f != 1:
            if self.lo[f] != 0:
                out.append((self.var[f], False))
                f = self.lo[f]
            else:
                out.append((self.var[f], True))
                f = self.hi[f]
        return out

    def rebuild(self, f, fn, memo=None):
        """Replace every variable v by the guard fn(v)."""
        if memo is None:
            memo = {}
        if f < 2:
            return f
        r = memo.get(f)
        if r is not None:
            return r
        l = self.rebuild(self.lo[f], fn, memo)
        h = self.rebuild(self.hi[f], fn, memo)
        r = self.ite(fn(self.var[f]), h, l)
        memo[f] = r
        return r
