"""The obligations of every property of the on-chain program.

Each function receives the analysis results (Run) and an Ob collecting proof
obligations.  An obligation is a guard that must be unsatisfiable, or a
comparison of an analysed value with the specified one."""
import re, time
from bdd import Budget
from report import *

DOC = {v: k for k, v in ERR.items()}


def errname(e):
    return DOC.get(e, e) if isinstance(e, int) else str(e)


MARKS = ('havoc', 'call', 'completes', 'Kx', 'lv', 'truth', 'discr', 'switch', 'meta', 'proj', 'bytes of', 'enc',
         'address', 'uninit bool')
_marked = {}


def marked(x):
    """does a term come from something the analysis did not follow exactly?"""
    if isinstance(x, str) or isinstance(x, (int, bool)) or x is None:
        return False
    k = ('t', x) if isinstance(x, tuple) else (type(x).__name__, getattr(x, 'id', None) or id(x))
    r = _marked.get(k)
    if r is not None:
        return r
    _marked[k] = False
    if isinstance(x, (tuple, list)):
        r = bool(x) and isinstance(x[0], str) and x[0] in MARKS or any(marked(y) for y in x)
    elif isinstance(x, TM.Atom):
        r = x.kind in MARKS or x.kind.startswith(('arith_', 'bin')) or marked(x.args)
    elif isinstance(x, TM.Region):
        r = marked(x.key)
    elif isinstance(x, TM.Lin):
        r = any(marked(a) for a, _ in x.t)
    elif isinstance(x, TM.Bytes):
        r = any(marked(y) for y in x.segs)
    elif isinstance(x, GuardKey):
        r = any(marked(bdd.names[v]) for v in bdd.support(x.g))
    elif isinstance(x, B):
        r = any(marked(bdd.names[v]) for v in bdd.support(x.g))
    elif isinstance(x, G):
        r = any(marked(l) or any(marked(bdd.names[v]) for v in bdd.support(c)) for c, l in x.items)
    elif isinstance(x, (Agg, Nat)):
        r = any(marked(y) for y in x.f)
    elif isinstance(x, Enum):
        r = any(any(marked(y) for y in f) for c, f in x.v.values())
    elif isinstance(x, Sym):
        r = marked(x.name)
    elif isinstance(x, Ptr):
        r = marked(x.a)
    else:
        r = False
    _marked[k] = r
    return r


def definite(g, fog):
    """the part of a guard that holds whatever the parts not followed do"""
    g = AND(g, NOT(fog))
    for v in sorted(bdd.support(g), reverse=True):
        if marked(bdd.names[v]):
            g = AND(bdd.cofactor(g, v, 0), bdd.cofactor(g, v, 1))
    return theory_sat(g) if g != 0 else 0


class Ob:
    def __init__(self, pid, run=None):
        self.pid = pid
        self.run = run
        self.done = []       # (name, ok)
        self.bad = []        # (name, text, [locations])
        self.open = []       # (name, text): neither discharged nor refuted
        self.units = []      # analysed units for the evidence
        self.t0 = time.time()

    def unsat(self, name, g, why):
        lim, bdd.limit = bdd.limit, len(bdd.var) + 8_000_000
        try:
            return self.unsat1(name, g, why)
        except Budget as e:
            self.open.append((name, why + ' (%s)' % e))
            return False
        finally:
            bdd.limit = max(lim, len(bdd.var) + 4_000_000)

    def unsat1(self, name, g, why):
        if g != 0:
            g = theory_sat(g)
        if g == 0:
            self.done.append((name, True))
            return True
        d = self.definite(g)
        if d == 0:
            self.open.append((name, why + '\n  when: ' + show_guard(g, 60)))
            return False
        self.done.append((name, False))
        self.bad.append((name, why + '\n  when: ' + show_guard(d, 60), origins(d)))
        return False

    def definite(self, g):
        return definite(g, self.run.fog() if self.run else 0)

    def must(self, name, cond, why, where=()):
        if not cond and self.run and self.run.unknown():
            self.open.append((name, why))
            return False
        self.done.append((name, bool(cond)))
        if not cond:
            self.bad.append((name, why, list(where)))
        return bool(cond)


def origins(g):
    """code locations that decide the witness, most specific last"""
    out = []
    for v, b in bdd.cube(g) or []:
        o = bdd.origin.get(v)
        if o and o not in out:
            out.append(o)
    return out


class Run:
    """Analysis results, computed on demand and shared by the obligations"""

    def __init__(self, d):
        self.d = d
        self._r = None
        self.fns = {}

    def interps(self):
        return Interp.started

    def fog(self):
        """where something was not followed, in the terms obligations are stated in"""
        g = 0
        for I in self.interps():
            f = I.fog
            if f == 0:
                continue
            g = OR(g, f)
            r = self._r
            if r is not None and r.I is I and hasattr(r, 'G'):
                c = self.fogs.get(f)
                if c is None:
                    c = self.fogs[f] = r.G(f)
                g = OR(g, c)
        return OR(g, self.extra) if self.extra else g

    fogs = {}
    extra = 0

    def unknown(self):
        return [u for I in self.interps() for u in I.unknown]

    @property
    def r(self):
        if self._r is None:
            self._r = Report(self.d).structure().requirements()
            self._r.others = self._others
            r = self._r
            r.allR = conj(r.dup, r.env, r.axioms, NOT(r.malformed), [g for p, g, e in r.R.values()])
        return self._r

    def _others(self, k):
        r = self._r
        return conj(r.dup, r.env, r.axioms, NOT(r.malformed), [g for n, (p, g, e) in r.R.items() if n != k])

    def close(self):
        r = self.r
        if not hasattr(r, 'C'):
            close_spec(r)
        return r

    def fn(self, pat, what, kind=None):
        """analyse one public function on arbitrary arguments: (prog, interp, args, result, state)"""
        x = self.fns.get(pat)
        if x is None:
            p = Prog(self.d)
            c = [i for i, f in enumerate(p.I) if f['body'] and f['local'] and re.search(pat, f['path'])]
            if len(c) != 1:
                raise Missing('%s: %d functions match %s' % (what, len(c), pat))
            I = Interp(p, Natives())
            body = p.I[c[0]]['body']
            args = [p.sym(body['locals'][k + 1], (pat, k)) for k in range(body['args'])]
            bdd.where = I.locate
            try:
                ret, st = I.run(c[0], args, State(1, {}))
            finally:
                bdd.where = None
            x = self.fns[pat] = Fn(p, I, args, ret, st, p.I[c[0]]['path'], body)
        return x


class Fn:
    def __init__(self, p, I, args, ret, st, path, body):
        self.p, self.I, self.args, self.ret, self.st, self.path, self.body = p, I, args, ret, st, path, body

    def pointee(self, k):
        return self.I.deref_load(self.args[k], self.st)


class Missing(Exception):
    pass


def settle(pid, run, prop):
    """decide one property; a failure to read the result is an open obligation
    when some construct was not followed, else an error of the analysis"""
    ob = Ob(pid, run)
    import __main__
    if hasattr(__main__, 'STATE'):
        __main__.STATE['ob'] = ob
    try:
        prop(run, ob)
    except (Budget, MemoryError) as e:
        ob.open.append(('analysis', '%s: %s' % (type(e).__name__, e)))
    except Exception as e:
        if not run.unknown():
            raise
        ob.open.append(('analysis', '%s: %s' % (type(e).__name__, e)))
    return ob


# ------------------------------------------------------------------ reports
def accept_needs(run, ob, names):
    r = run.r
    for k in names:
        p, g, e = r.R[k]
        ob.unsat('accepted => ' + k, conj(r.ok, r.dup, NOT(g)), 'a report is accepted although this does not hold: ' + k)


def refusal(run, ob, names):
    """with exactly this requirement violated, the report fails with the documented error"""
    r = run.r
    for k in names:
        p, g, es = r.R[k]
        if es == (None,):
            continue
        h = conj(run._others(k), NOT(g))
        got = disj(*[r.errs.get(e, 0) for e in es])
        ob.unsat('refused with %s: %s' % ('/'.join(errname(e) for e in es), k), AND(h, NOT(got)),
                 'only "%s" is violated but the result is not %s' % (k, '/'.join(errname(e) for e in es)))


def not_refused(run, ob, codes, what):
    """a report meeting every requirement never fails with one of these errors"""
    r = run.r
    for c in codes:
        ob.unsat('a valid report is not refused with %s (%s)' % (errname(c), what), AND(r.allR, r.errs.get(c, 0)),
                 'a report meeting every requirement is refused with ' + errname(c))


def names_of(r, prop):
    return [k for k, (p, g, e) in r.R.items() if p == prop]


def simple(prop, *codes):
    def f(run, ob):
        ns = names_of(run.r, prop)
        accept_needs(run, ob, ns)
        refusal(run, ob, ns)
        not_refused(run, ob, codes, 'over-restriction')
        structural(run, ob)
    return f


def structural(run, ob):
    pass


def c02(run, ob):
    simple('C02', ERR['SignatureVerificationMismatch'])(run, ob)


def c03(run, ob):
    simple('C03', ERR['InvalidSignatureVerification'], ERR['MissingSignatureVerification'])(run, ob)


def c06(run, ob):
    r = run.r
    accept_needs(run, ob, ['conflict'])
    rest = run._others('conflict')
    for nm, g in r.conflict_err.items():
        ob.unsat('no conflict is refused with ' + nm, conj(rest, g, NOT(r.errs.get(ERR[nm], 0))),
                 'two non-conflicting shreds are not refused with ' + nm)
    not_refused(run, ob, [ERR[n] for n in r.conflict_err], 'a conflicting pair')


def c07(run, ob):
    r = run.r
    s1, s2 = r.s
    L1, L2 = s1.L, s2.L
    a1, a2 = L1.t[0][0], L2.t[0][0]
    vd = r.vd
    vb = rbytes(vd)
    swapped = TM.concat(bsub(vb, ZERO, const(2)), bsub(vb, const(16), const(14)), bsub(vb, const(2), const(14)),
                        bsub(vb, const(30), addc(vd.len, -30)))
    m = {s1.S: rbytes(s2.S), s2.S: rbytes(s1.S), s1.root: rbytes(s2.root), s2.root: rbytes(s1.root)}

    def fr(x):
        if x is vd:
            return swapped
        return m.get(x)

    def fs(x, st, n):
        if x is vd and not st.t and not n.t:
            o, w = st.c, n.c
            if 2 <= o and o + w <= 16:
                return bsub(vb, const(o + 14), n)
            if 16 <= o and o + w <= 30:
                return bsub(vb, const(o - 14), n)
            if o + w <= 2 or o >= 30:
                return bsub(vb, st, n)
        return None
    sb = Subst(fa=lambda x: L2 if x is a1 else (L1 if x is a2 else None), fr=fr, fs=fs)
    ctx = conj(r.dup, r.env, r.axioms, NOT(r.malformed))
    okS = sb.guard(r.ok)
    run = ob.run
    f0 = run.fog()
    run.extra = sb.guard(f0) if f0 else 0
    # the untouched requirements are the same on both sides
    ob.unsat('accepted => accepted with the shreds exchanged', conj(ctx, r.ok, NOT(okS)),
             'a report is accepted but the same report with both shreds (and their records) exchanged is not')
    ob.unsat('accepted with the shreds exchanged => accepted', conj(ctx, okS, NOT(r.ok)),
             'a report is refused but accepted with both shreds (and their records) exchanged')
    run.extra = 0


def root_problems(r):
    return [p for p in r.problems if p[0] == 'C10']


def c08(run, ob):
    r = run.r
    ns = names_of(r, 'C08')
    accept_needs(run, ob, ns)
    refusal(run, ob, ns)
    not_refused(run, ob, [ERR['LegacyShreds'], ERR['InvalidShredVariant']], 'a known merkle variant')
    for p in r.problems:
        # the recurrence is the specified one for some variants only
        part = getattr(p, 'partial', None) or (len(p) > 3 and p[3])
        ob.must('layout by variant', not part, p[1], [p[2]])
    # the class decides which header fields a conflict may use
    s1, s2 = r.s
    for s in r.s:
        ob.unsat('shred %d accepted => merkle coding or data class' % s.i,
                 conj(r.ok, r.dup, NOT(OR(s.code, s.data))), 'a shred of another class is accepted')
    ob.unsat('accepted => ends of the signed parts are those of the classes',
             conj(r.ok, r.dup, NOT(AND(s1.fits, s2.fits))), 'a shred shorter than its class demands is accepted')
    class_pairs(run, ob)


def class_pairs(run, ob):
    """conflicts between shreds of one type only exist for one type"""
    r = run.r
    s1, s2 = r.s
    diff = OR(AND(s1.code, s2.data), AND(s1.data, s2.code))
    rest = run._others('conflict')
    ob.unsat('type mismatch only for different classes', conj(rest, r.errs.get(ERR['ShredTypeMismatch'], 0), NOT(diff)),
             'two shreds of the same class are refused as a type mismatch')
    ob.unsat('different classes conflict by FEC set only', conj(r.ok, r.dup, diff, NOT(OR(r.kinds['a'], r.kinds['b']))),
             'shreds of different classes are accepted without a FEC set conflict')
    ob.unsat('last-in-slot only for data shreds', conj(r.ok, r.dup, r.cc, NOT(r.conflict)),
             'coding shreds are accepted for a data shred conflict')


def c09(run, ob):
    r = run.r
    ns = names_of(r, 'C09')
    accept_needs(run, ob, ns)
    refusal(run, ob, ns)
    field_reads(run, ob)
    accept_needs(run, ob, [k for k in r.R if re.match(r'shred \d (slot|signature)|same version|conflict', k)])
    not_refused(run, ob, [ERR['SlotMismatch'], ERR['InvalidShredVersion'], ERR['ShredDeserializationError']], 'fields')
    allR = r.allR
    ob.unsat('a conflicting pair is not refused', AND(allR, disj(*[r.errs.get(ERR[n], 0) for n in r.conflict_err])),
             'a pair in conflict by the fields of the protocol is refused')


FIELDS = [(64, 1), (65, 8), (73, 4), (77, 2), (79, 4), (85, 2), (83, 2), (87, 2), (85, 1)]


def field_reads(run, ob):
    """every multi-byte quantity the verdict uses is one of the protocol's fields"""
    r = run.r
    seen = {}
    regs = {s.S: s for s in r.s}
    sup = set()
    for g in (r.ok, r.err):
        sup |= bdd.support(g)
    n = 0
    for v in sorted(sup):
        lab = bdd.names[v]
        if isinstance(lab, tuple) and lab[0] == 'bit':
            b = byte_of(lab[1])
            if b and b[0] in regs and b[1:] not in FIELDS:
                seen[(regs[b[0]].i, (b[1],))] = v
            continue
        if not (isinstance(lab, tuple) and lab[0] == 'le'):
            continue
        per = {}
        for a, c in lab[1].t:
            b = byte_of(a)
            if b and b[0] in regs:
                per.setdefault(b[0], {}).update({b[1] + k: c * 256 ** k for k in range(b[2])})
        for S, m in per.items():
            n += 1
            bad = leftovers(dict(m))
            if bad:
                seen.setdefault((regs[S].i, tuple(sorted(bad))), v)
    ob.units.append('%d comparisons of shred header quantities' % n)
    for (i, bad), v in seen.items():
        ob.must('header bytes of shred %d' % i, False, 'bytes %s of shred %d are combined as no header field of the protocol: %s'
                % (list(bad), i, show_guard(bdd.mk(v, 0, 1))), [bdd.origin.get(v)])
    ob.must('header fields', not seen, 'see above') if seen else ob.done.append(('header fields', True))


def byte_of(a):
    """(region, offset, width) of an atom that reads region bytes at a constant place"""
    if a.kind != 'le':
        return None
    b, w = a.args
    if len(b.segs) == 1 and b.segs[0][0] == 'r' and not b.segs[0][2].t:
        return b.segs[0][1], b.segs[0][2].c, w
    return None


def leftovers(m):
    for o, w in FIELDS:
        c = m.get(o)
        if c is None:
            continue
        if all(m.get(o + k) == c * 256 ** k for k in range(w)) and (o, w) != (85, 1):
            for k in range(w):
                del m[o + k]
        elif (o, w) == (85, 1):
            del m[o]
    return sorted(m)


def c10(run, ob):
    r = run.r
    ob.units.append('%d shred variants of the merkle recurrence' % getattr(r, 'root_cases', 0))
    for p in r.problems:
        ob.must('merkle root', False, p[1], [p[2]])
    ob.must('merkle root recurrence', getattr(r, 'root_cases', 0) >= 1,
            'no merkle root computation over the shred was found on the accepting path')
    ns = names_of(r, 'C10') + [k for k in r.R if k.endswith('merkle root signed')]
    accept_needs(run, ob, ns)
    refusal(run, ob, names_of(r, 'C10'))
    not_refused(run, ob, [ERR['InvalidMerkleShred']], 'a well-formed merkle proof')


def c11(run, ob):
    r = run.r
    k = r.kinds
    h = conj(run._others('conflict'), r.same_type, r.same_idx, NOT(k['a']), NOT(k['b']), NOT(k['e']))
    ob.unsat('equal signed payloads are not a conflict', conj(h, r.payload_same, r.ok),
             'two shreds whose leader-signed bytes are equal are accepted as different')
    ob.unsat('different signed payloads are a conflict', conj(h, NOT(r.payload_same), NOT(r.ok)),
             'two shreds whose leader-signed bytes differ are refused')


def c12(run, ob):
    r = run.r
    ns = names_of(r, 'C12')
    accept_needs(run, ob, ns)
    refusal(run, ob, ns)
    not_refused(run, ob, [ERR['InvalidViolationReportAcccount']], 'the derived address')
    r_cpi(run, ob)
    f = run.fn(r'^get_violation_report_address$', 'public address helper')
    addr = f.ret.f[0] if type(f.ret) is Agg else f.ret
    node = f.I.as_bytes(f.pointee(0))
    slot = f.args[1]
    ty = f.args[2]
    if type(ty) is Sym:
        ty = f.p.expand(ty)
    for k, (c, _) in ty.v.items():
        nm = f.p.T[ty.tid]['variants'][k]['name']
        code = {'InvalidType': 0, 'DuplicateBlockProof': 1}.get(nm)
        want = None
        if code is not None:
            for c1, nb in f.I.items(node):
                for c2, sl in f.I.items(slot):
                    seeds = TM.concat(nb, TM.bytes_of_int(sl, 8), cbytes(bytes([code])))
                    want = rbytes(TM.region(('pda', seeds, cbytes(PROGRAM_ID)), const(32)))
                    differs(ob, f.I, 'public helper address of ' + nm, addr, want, AND(f.st.pc, conj(c, c1, c2)))
        else:
            ob.must('violation type ' + nm, False, 'unknown violation type ' + nm)
    ob.must('the helper does not fail', not live_panics(f), 'the address helper can panic: ' + panics_text(f))


def live_panics(f):
    return [p for p in f.I.panics if theory_sat(p.g) != 0]


def panics_text(f):
    return '; '.join('%s at %s' % (p.msg, p.loc) for p in live_panics(f))


def differs(ob, I, name, v, want, ctx=1):
    """every alternative of v under ctx is the byte string / number want"""
    v = plain(I, v)
    ok = True
    seen = 0
    for c, l in I.items(v):
        g = AND(c, ctx)
        if g == 0 or theory_sat(g) == 0:
            continue
        seen = OR(seen, g)
        if l is want:
            continue
        if isinstance(l, Lin) and isinstance(want, Lin):
            d = AND(g, NOT(eq(l, want)))
        elif isinstance(l, Bytes) and isinstance(want, Bytes):
            d = AND(g, NOT(beq(l, want)))
            if d != 0 and theory_sat(d) != 0:
                d = same_bytes(l, want, g)
        else:
            d = g
        if d != 0:
            d = theory_sat(d)
        if d != 0 and unfollowed(l):
            ok = False
            ob.open.append((name, 'is %s' % short(l)))
            break
        if d != 0:
            ok = False
            ob.must(name, False, 'is %s where %s is specified\n  when: %s' % (short(l), short(want), show_guard(d, 40)), origins(d))
            break
    if ok:
        ob.unsat(name, AND(ctx, NOT(seen)) if seen != 0 else ctx, 'no value where %s is specified' % short(want))
    return ok


def unfollowed(x):
    """does a value come from a loop without a closed form, or from a call that was not followed?"""
    return marked(x) or "mu(" in repr(x) or "('mu'" in repr(x)


def short(x):
    s = repr(x)
    return s if len(s) < 600 else s[:600] + '...'


def same_bytes(a, b, g):
    """guard under which a and b differ, compared piecewise along b's pieces"""
    d = 0
    if theory_sat(AND(g, NOT(eq(a.len, b.len)))) != 0:
        return AND(g, NOT(eq(a.len, b.len)))
    off = ZERO
    for s in b.segs:
        w = bsub(b, off, seg_len(s))
        x = bsub(a, off, seg_len(s))
        d = OR(d, conj(g, NOT(beq(x, w))))
        off = add(off, seg_len(s))
    return d


def seg_len(s):
    return TM.seglen(s)


def plain(I, v):
    """strip newtype wrappers"""
    while True:
        if type(v) is Sym:
            w = I.p.expand(v)
            if w is v:
                return v
            v = w
        elif type(v) is Agg and len(v.f) == 1:
            v = v.f[0]
        elif type(v) is Nat and v.kind == 'vec':
            v = v.f[0]
        elif type(v) is G and len(v.items) == 1 and isinstance(v.items[0][1], (Agg, Nat)):
            v = v.items[0][1]
        else:
            return v


def seeds_flat(I, s):
    """one signer: its seeds as one byte string"""
    v = s
    if type(v) is Agg:
        acc = leaf(EMPTY)
        for x in v.f:
            acc = I.combine2(acc, plain(I, x), concat)
        return acc
    return plain(I, v)


def cpis(run):
    r = run.r
    return [e for e in r.I.effects if e.kind == 'cpi']


def r_cpi(run, ob):
    r = run.r
    es = [e for e in cpis(run) if theory_sat(AND(r.G(e.g), r.dup)) != 0]
    ob.units.append('%d cross-program invocations' % len(es))
    full = TM.concat(r.seeds, TM.bytes_of_int(bump_of(r), 1))
    for e in es:
        ctx = AND(r.G(e.g), r.dup)
        ix, keys, seeds, infos = e.args
        if not (type(ix) is Nat and ix.kind == 'sysix'):
            ob.must('invocation', False, 'an invocation other than a system instruction: ' + short(ix), [e.loc])
            continue
        ob.must('invocation takes ownership', ix.tag == 'assign', 'the program invokes the system instruction %s' % ix.tag, [e.loc])
        if ix.tag == 'assign':
            differs(ob, r.I, 'assigned account', r.V(ix.f[0]), r.pda, ctx)
            differs(ob, r.I, 'assigned owner', r.V(ix.f[1]), cbytes(PROGRAM_ID), ctx)
        if seeds is None or len(seeds) != 1:
            ob.must('signer seeds', False, 'the invocation is not signed by exactly one derived address', [e.loc])
        else:
            differs(ob, r.I, 'signer seeds and bump', r.V(seeds_flat(r.I, seeds[0])), full, ctx)
    ob.unsat('accepted => ownership was taken', conj(r.ok, r.dup, NOT(disj(*[conj(r.G(e.g), r.G(e.ok)) for e in es]))),
             'a report is stored without assigning its account to the program')


def bump_of(r):
    ats = [a for a in TM._atoms.values() if a.kind == 'bump' or (a.kind == 'var' and isinstance(a.args, tuple) and a.args and isinstance(a.args[0], tuple) and a.args[0] and a.args[0][0] == 'bump')]
    for a in ats:
        k = a.args[0] if a.kind == 'var' else a.args
        if k[1 if a.kind == 'var' else 0] is r.seeds:
            return of(a)
    return TM.var(('bump', r.seeds, cbytes(PROGRAM_ID)), 0, 255)


EFFECTS = ('write', 'realloc', 'cpi', 'store-unknown')


def c13(run, ob):
    r = run.r
    ns = names_of(r, 'C13')
    accept_needs(run, ob, ns)
    refusal(run, ob, ns)
    not_refused(run, ob, [ERR['DuplicateReport']], 'an address without a report')
    ex = NOT(r.R['not yet reported'][1])
    for e in r.I.effects:
        if e.kind in EFFECTS:
            ob.unsat('no %s when already reported' % e.kind, conj(r.G(e.g), r.dup, ex),
                     'an existing report is touched: %s at %s' % (e.kind, e.loc))


def final(r, i, f):
    c = ('acct', i, f)
    return r.V(r.e.st.mem.get(c, r.p.cells.get(c)))


def report_bytes(r):
    return TM.concat(cbytes(b'\x01'), r.reporter, r.destination, TM.bytes_of_int(r.clock_epoch, 8), r.node,
                     TM.bytes_of_int(r.slot, 8), cbytes(b'\x01'))


HEADER = [('version', 0, 1), ('reporter', 1, 32), ('destination', 33, 32), ('epoch', 65, 8), ('node', 73, 32),
          ('slot', 105, 8), ('violation type', 113, 1)]


def pieces(r, off, n):
    """alternatives of the final report account bytes [off, off+n)"""
    v = plain(r.I, final(r, 1, 'data'))
    return mkG([(c, bsub(b, off, n) if isinstance(b, Bytes) else b) for c, b in r.I.items(v)])


def c16(run, ob):
    r = run.r
    A = AND(r.ok, r.dup)
    want = report_bytes(r)
    for nm, o, w in HEADER:
        differs(ob, r.I, 'recorded ' + nm, pieces(r, const(o), const(w)), bsub(want, const(o), const(w)), A)
    accept_needs(run, ob, ['key of the accused node', 'shred 1 slot', 'shred 2 slot'])


def c17(run, ob):
    r = run.r
    A = AND(r.ok, r.dup)
    v = plain(r.I, final(r, 1, 'data'))
    for c, b in r.I.items(v):
        g = AND(A, c)
        if g == 0 or theory_sat(g) == 0:
            continue
        ob.unsat('report size', AND(g, NOT(eq(b.len, r.total))) if isinstance(b, Bytes) else g,
                 'the report account does not end with the packed proof: its size is %s' % short(getattr(b, 'len', b)))
    differs(ob, r.I, 'stored proof', pieces(r, const(114), addc(r.total, -114)), r.packed, A)
    for e in r.I.effects:
        if e.kind == 'realloc':
            ctx = conj(r.G(e.g), r.dup)
            if ctx and theory_sat(ctx):
                differs(ob, r.I, 'new size of the report account', r.V(e.args[1]) if not isinstance(e.args[1], Lin) else leaf(r.sub2.lin(r.sub1.lin(e.args[1]))), r.total, ctx)


def c18(run, ob):
    ns = names_of(run.r, 'C18')
    accept_needs(run, ob, ns)
    refusal(run, ob, ns)
    not_refused(run, ob, [ERR['MissingInstructionsSysvar'], ERR['MissingSystemProgramAccount'], 'NotEnoughAccountKeys'], 'the right accounts')


# ------------------------------------------------------------------ closing
def close_spec(r):
    e = r.e
    a0, a1 = e.acc[0], e.acc[1]
    d0 = rbytes(a0.data)
    rec = LE(bsub(d0, const(65), const(8)), 8)
    dest = bsub(d0, const(33), const(32))
    epoch = r.clock_epoch
    r.rec_epoch = rec
    C = {}
    C['two accounts'] = ('C38', le(const(2), e.n), 'NotEnoughAccountKeys')
    C['owned by this program'] = ('C19', beq(rbytes(a0.owner), cbytes(PROGRAM_ID)), ERR['InvalidViolationReportAcccount'])
    C['not empty'] = ('C19', le(ONE, a0.data.len), ERR['InvalidViolationReportAcccount'])
    C['three epochs'] = ('C20', le(addc(rec, 3), epoch), ERR['CloseViolationReportTooSoon'])
    C['recorded destination'] = ('C21', beq(rbytes(a1.key), dest), ERR['InvalidDestinationAccount'])
    C['payout fits'] = ('C21', le(add(a0.lam, a1.lam), const(U64)), 'ArithmeticOverflow')
    r.C = C
    # one byte of input; a report can hold no less than its header; the clock is not at the end of time
    r.cin = eq(e.input.len, ONE)
    r.chdr = imp(le(ONE, a0.data.len), le(const(114), a0.data.len))
    r.cend = le(epoch, const(U64 - 1))
    r.cl = r.close0
    r.cenv = r.env
    r.cshrink = 1


def cothers(r, k):
    return conj(r.cl, r.cin, r.chdr, r.cend, r.env, [g for n, (p, g, e) in r.C.items() if n != k])


def close_needs(run, ob, names):
    r = run.close()
    for k in names:
        ob.unsat('closed => ' + k, conj(r.ok0, r.cl, r.cend, NOT(r.C[k][1])), 'a close succeeds although this does not hold: ' + k)


def close_refusal(run, ob, names):
    r = run.close()
    for k in names:
        p, g, e = r.C[k]
        h = conj(cothers(r, k), NOT(g))
        if k == 'not empty':
            h = conj(r.cl, r.cin, r.cend, r.env, r.C['owned by this program'][1], r.C['two accounts'][1], NOT(g))
        ob.unsat('close refused with %s: %s' % (errname(e), k), AND(h, NOT(r.errs0.get(e, 0))),
                 'only "%s" is violated but the close does not fail with %s' % (k, errname(e)))


def close_not_refused(run, ob, codes):
    r = run.close()
    al = cothers(r, None)
    for c in codes:
        ob.unsat('an eligible close is not refused with ' + errname(c), AND(al, r.errs0.get(c, 0)),
                 'a close meeting every requirement is refused with ' + errname(c))


def c19(run, ob):
    r = run.close()
    close_needs(run, ob, ['owned by this program', 'not empty'])
    close_refusal(run, ob, ['owned by this program', 'not empty'])
    close_not_refused(run, ob, [ERR['InvalidViolationReportAcccount']])
    own = AND(r.C['owned by this program'][1], r.C['not empty'][1])
    for e in r.I.effects:
        if e.kind in EFFECTS or (e.kind == 'fallible' and e.args[0] in ('try_borrow', 'try_borrow_mut') and e.args[1][1] == 0 and e.args[1][2] == 'data'):
            ob.unsat('%s only on an owned report' % e.kind, conj(e.g, r.cl, NOT(own)),
                     'an account that is not an owned report is accessed: %s at %s' % (e.kind, e.loc))


def c20(run, ob):
    close_needs(run, ob, ['three epochs'])
    close_refusal(run, ob, ['three epochs'])
    close_not_refused(run, ob, [ERR['CloseViolationReportTooSoon']])


def cfinal(r, i, f):
    c = ('acct', i, f)
    return r.e.st.mem.get(c, r.p.cells.get(c))


def c21(run, ob):
    r = run.close()
    ns = ['recorded destination', 'payout fits']
    close_needs(run, ob, ns)
    close_refusal(run, ob, ns)
    close_not_refused(run, ob, [ERR['InvalidDestinationAccount'], 'ArithmeticOverflow'])
    A = AND(r.ok0, r.cl)
    a = r.e.acc
    differs(ob, r.I, 'lamports left in the report', cfinal(r, 0, 'lamports'), ZERO, A)
    differs(ob, r.I, 'lamports of the destination', cfinal(r, 1, 'lamports'), add(a[0].lam, a[1].lam), A)
    for i in range(2, NACC):
        differs(ob, r.I, 'lamports of account %d' % i, cfinal(r, i, 'lamports'), a[i].lam, A)


def c22(run, ob):
    r = run.close()
    A = AND(r.ok0, r.cl)
    differs(ob, r.I, 'owner of the closed report', cfinal(r, 0, 'owner'), cbytes(SYSTEM_ID), A)
    v = plain(r.I, cfinal(r, 0, 'data'))
    for c, b in r.I.items(v):
        ob.unsat('data of the closed report', conj(A, c, NOT(eq(b.len, ZERO))) if isinstance(b, Bytes) else conj(A, c),
                 'a close succeeds and leaves %s in the report account' % short(b))


def c23(run, ob):
    r = run.close()
    A = AND(r.ok, r.dup)
    N = 0
    while N < 12 and theory_sat(conj(r.ok0, r.cl, r.cend, NOT(le(addc(r.rec_epoch, N + 1), r.clock_epoch)))) == 0:
        N += 1
    M = None
    for m in range(0, 12):
        if theory_sat(conj(A, NOT(le(sub(r.clock_slot, r.slot), scale(r.spe, m))))) == 0:
            M = m
            break
    ob.units.append('closing waits at least %s epochs; a violation can be reported for at most %s epochs' % (N, M))
    ob.must('closing outlasts reporting', M is not None and N - 1 >= M,
            'a report can be closed %s epoch(s) after it was recorded while its violation can be reported for %s'
            % (N, 'an unbounded time' if M is None else '%d epoch(s)' % M))
    want = report_bytes(r)
    differs(ob, r.I, 'recorded epoch', pieces(r, const(65), const(8)), bsub(want, const(65), const(8)), A)
    accept_needs(run, ob, ['not yet reported'])


# ------------------------------------------------------------------ decoding
def c24(run, ob):
    r = run.close()
    e = r.e
    n = e.input.len
    b0 = LE(bsub(rbytes(e.input), ZERO, ONE), 1)
    some = le(ONE, n)
    any_ok = r.ok0
    bad_data = r.errs0.get('InvalidInstructionData', 0)
    ob.unsat('empty input', AND(NOT(some), NOT(bad_data)), 'an empty input is not refused with InvalidInstructionData')
    known = disj(*[eq(b0, const(k)) for k in (0, 1)])
    ob.unsat('unknown instruction', conj(some, NOT(known), NOT(r.errs0.get(ERR['InvalidInstruction'], 0))),
             'an input whose first byte is neither 0 nor 1 is not refused with InvalidInstruction')
    ob.unsat('empty input is not accepted', AND(any_ok, NOT(some)), 'an empty input is accepted')
    accept_needs(run, ob, ['input length'])
    refusal(run, ob, ['input length'])
    h = cothers(r, None)
    ob.unsat('0 closes', AND(h, OR(r.errs0.get(ERR['InvalidInstruction'], 0), bad_data)), 'the single byte 0 is not taken as a close')
    not_refused(run, ob, [ERR['InvalidInstruction'], 'InvalidInstructionData'], 'the type byte 1')
    # the fields, as they take effect
    A = AND(r.ok, r.dup)
    want = report_bytes(r)
    for nm, o, w in HEADER:
        if nm in ('reporter', 'destination', 'node', 'slot'):
            differs(ob, r.I, 'field ' + nm, pieces(r, const(o), const(w)), bsub(want, const(o), const(w)), A)
    accept_needs(run, ob, ['key of the accused node', 'shred 1 slot', 'shred 2 slot', 'statute of limitations', 'destination is not the report', 'report address'])
    differs(ob, r.I, 'field offset (where the proof is read)', pieces(r, const(114), addc(r.total, -114)), r.packed, A)


def c25(run, ob):
    r = run.close()
    n = 0
    lastly = [g for k, (p, g, e) in r.R.items()]
    for e in r.I.effects:
        if e.kind not in EFFECTS:
            continue
        n += 1
        g1 = AND(r.G(e.g), r.dup)
        g0 = AND(e.g, r.cl)
        tgt = e.args[0] if e.kind in ('write', 'realloc') else None
        if e.kind == 'cpi':
            ob.unsat('a close invokes nothing', g0, 'a close invokes another program at ' + e.loc)
        elif tgt == ('acct', 1, 'data'):
            ob.unsat('a close leaves the destination data', g0, 'a close changes the data of the destination at ' + e.loc)
        elif tgt in (('acct', 0, 'data'), ('acct', 0, 'owner'), ('acct', 0, 'lamports'), ('acct', 1, 'lamports')):
            ob.unsat('a report leaves %s of account %d' % (tgt[2], tgt[1]), g1,
                     'a report changes %s of account %d at %s' % (tgt[2], tgt[1], e.loc))
        else:
            ob.unsat('%s outside the report and payout accounts' % e.kind, OR(g0, g1),
                     'an instruction changes %s at %s' % (show_key(tgt) if tgt else e.kind, e.loc))
        ob.unsat('only after every check (%s)' % e.kind, AND(g1, NOT(conj(*lastly))) if g1 else 0,
                 'a report changes state before every check has passed: %s at %s' % (e.kind, e.loc))
        cl = [g for k, (p, g, x) in r.C.items() if k != 'payout fits']
        ob.unsat('close: only after every check (%s)' % e.kind, conj(g0, r.cend, NOT(conj(*cl))) if g0 else 0,
                 'a close changes state before every check has passed: %s at %s' % (e.kind, e.loc))
        other = conj(e.g, NOT(r.dup), NOT(r.cl))
        ob.unsat('nothing for other inputs', other, 'an unknown instruction changes state at ' + e.loc)
    ob.units.append('%d state-changing effects of the program' % n)
    A = AND(r.ok, r.dup)
    for i in range(NACC):
        for f in ('owner', 'lamports') + (('data',) if i != 1 else ()):
            ac = r.e.acc[i]
            v = final(r, i, f)
            want = ac.lam if f == 'lamports' else rbytes(getattr(ac, f))
            if i == 0 and f == 'data':
                want = r.D
            differs(ob, r.I, 'report: %s of account %d unchanged' % (f, i), v, want, A)
    B = AND(r.ok0, r.cl)
    for i in range(1, NACC):
        for f in ('owner', 'data') + (('lamports',) if i > 1 else ()):
            ac = r.e.acc[i]
            v = cfinal(r, i, f)
            want = ac.lam if f == 'lamports' else rbytes(getattr(ac, f))
            differs(ob, r.I, 'close: %s of account %d unchanged' % (f, i), v, want, B)


UNPACK = r"DuplicateBlockProofData::<'a>::unpack_proof$"
PACK = r"^<duplicate_block_proof::DuplicateBlockProofData<'a> as .*>::pack_proof$"
PLEN = r"^<duplicate_block_proof::DuplicateBlockProofData<'a> as .*>::packed_len$"


def c26(run, ob):
    f = run.fn(UNPACK, 'proof buffer decoder')
    ob.units.append(f.path)
    I = f.I
    (c0, p), = I.items(f.args[0])
    (c1, D), = I.items(I.slice_bytes(p, f.st))
    n = D.len
    l1 = LE(bsub(D, ZERO, const(4)), 4)
    l2 = LE(bsub(D, addc(l1, 4), const(4)), 4)
    wf = conj(le(const(4), n), le(addc(l1, 8), n), le(add(addc(l1, 8), l2), n))
    v = f.ret.v
    ok, err = v.get(0, (0, ())), v.get(1, (0, ()))
    pc = f.st.pc
    ob.unsat('decoded => both shreds fit', conj(pc, ok[0], NOT(wf)), 'a buffer that does not hold both shreds is decoded')
    ob.unsat('both shreds fit => decoded', conj(wf, NOT(AND(pc, ok[0]))), 'a complete buffer is refused')
    e = err[1][0] if err[1] else None
    small = 0
    if type(e) is Enum:
        for k, (c, _) in e.v.items():
            if f.p.T[e.tid]['variants'][k]['name'] == 'ProofBufferTooSmall':
                small = c
    ob.unsat('refused with ProofBufferTooSmall', conj(pc, err[0], NOT(small)), 'a short buffer is refused with another error')
    ob.unsat('short buffer => error', conj(NOT(wf), NOT(AND(pc, err[0]))), 'decoding a short buffer does not end with an error')
    ob.must('decoding never panics', not live_panics(f), 'decoding a proof buffer can panic: ' + panics_text(f), [p.loc for p in live_panics(f)])
    if ok[1]:
        st = ok[1][0]
        if type(st) is Sym:
            st = f.p.expand(st)
        names = [x for x, _ in f.p.fields(data_tid(f, 'DuplicateBlockProofData'))]
        for nm, want in (('shred1', bsub(D, const(4), l1)), ('shred2', bsub(D, addc(l1, 8), l2))):
            if nm not in names:
                raise Missing('field %s of the proof data' % nm)
            x = st.f[names.index(nm)]
            content = mkG([(AND(cc, c2), b) for cc, q in I.items(x) for c2, b in I.items(I.slice_bytes(q, f.st))])
            differs(ob, I, 'decoded ' + nm, content, want, AND(pc, ok[0]))
    # packing
    g = run.fn(PACK, 'proof packing')
    a = g.args[0]
    if type(a) is Sym:
        a = g.p.expand(a)
    names = [x for x, _ in g.p.fields(data_tid(g, 'DuplicateBlockProofData'))]
    sh = []
    for nm in ('shred1', 'shred2'):
        (c, q), = g.I.items(a.f[names.index(nm)])
        (c, b), = g.I.items(g.I.slice_bytes(q, g.st))
        sh.append(b)
    small = conj(*[le(b.len, const((1 << 32) - 1)) for b in sh])
    # lengths that fit their prefix
    got = plain(g.I, g.ret)
    off = ZERO
    want = TM.concat(TM.bytes_of_int(sh[0].len, 4), sh[0], TM.bytes_of_int(sh[1].len, 4), sh[1])
    differs_sized(ob, g, got, sh, small)
    h = run.fn(PLEN, 'packed length')
    a = h.I.deref_load(h.args[0], h.st)
    if type(a) is Sym:
        a = h.p.expand(a)
    ls = []
    for nm in ('shred1', 'shred2'):
        (c, q), = h.I.items(a.f[names.index(nm)])
        ls.append(q.a[3])
    ctx = conj(h.st.pc, *[le(x, const((1 << 32) - 1)) for x in ls])
    differs(ob, h.I, 'announced packed length', h.ret, addc(add(ls[0], ls[1]), 8), ctx)
    # inside the report instruction
    r = run.r
    A = AND(r.ok0, r.dup0)
    ob.unsat('accepted => both shreds fit the proof account', AND(A, NOT(r.buf_wf)), 'a report is accepted although its proof buffer is too short')
    ob.unsat('report over a short buffer', conj(r.dup0, le(r.off, r.e.acc[0].data.len), NOT(r.buf_wf), others_before(r),
                                              NOT(r.errs0.get(ERR['ProofBufferTooSmall'], 0))),
             'a report over a too short proof buffer is not refused with ProofBufferTooSmall')


def others_before(r):
    """requirements that are independent of the proof buffer"""
    g = 1
    for k, (p, x, e) in r.R.items():
        if k in ('four accounts', 'instructions sysvar', 'system program', 'input length', 'slot not in the future',
                 'statute of limitations', 'report address', 'not yet reported', 'destination is not the report') or k.startswith('preceding') or k.startswith('two sig') \
                or k.startswith('both rec') or k.startswith('record ') or k in ('one key', 'key of the accused node'):
            g = AND(g, x)
    return AND(g, r.env)


def differs_sized(ob, g, got, sh, small):
    """pack_proof: le4(len) shred le4(len) shred for lengths that fit their prefix"""
    want = TM.concat(TM.bytes_of_int(sh[0].len, 4), sh[0], TM.bytes_of_int(sh[1].len, 4), sh[1])

    def fa(a):
        if a.kind == 'mod':
            x, m = a.args[0], a.args[1]
            for b in sh:
                if x is b.len:
                    return b.len
        return None
    sb = Subst(fa=fa)
    got2 = sb.val(got)
    differs(ob, g.I, 'packed proof', got2, want, AND(g.st.pc, small))
    ob.must('packing never panics', not [p for p in g.I.panics if theory_sat(AND(p.g, small))],
            'packing two shreds can panic: ' + panics_text(g))


def data_tid(f, name):
    c = [i for i, t in enumerate(f.p.T) if t and t['k'] == 'adt' and t['path'].split('::')[-1] == name and t['variants']]
    if not c:
        raise Missing('type ' + name)
    return c[0]


# ------------------------------------------------------------------ builders
def agg_field(f, v, tname, name):
    tid = data_tid(f, tname)
    if type(v) is Sym:
        v = f.p.expand(v)
    if type(v) is Agg:
        return v.f[[n for n, _ in f.p.fields(tid)].index(name)]
    raise Missing('field %s of %s in %s' % (name, tname, short(v)))


def instruction_parts(f, v):
    if type(v) is G and len(v.items) == 1:
        v = v.items[0][1]
    if type(v) is Nat and v.kind == 'sysix':
        return v
    return (agg_field(f, v, 'Instruction', 'program_id'), agg_field(f, v, 'Instruction', 'accounts'),
            agg_field(f, v, 'Instruction', 'data'))


def metas(f, v):
    v = v.f[0] if type(v) is Nat and v.kind == 'vec' else v
    out = []
    if type(v) is not Agg:
        raise Missing('account list ' + short(v))
    for m in v.f:
        out.append((agg_field(f, m, 'AccountMeta', 'pubkey'), agg_field(f, m, 'AccountMeta', 'is_signer'),
                    agg_field(f, m, 'AccountMeta', 'is_writable')))
    return out


def boolis(ob, f, name, v, want):
    g = f.I.guard(v)
    ob.unsat(name, conj(f.st.pc, NOT(g) if want else g), '%s is not %s' % (name, want))


def check_metas(ob, f, ms, want):
    if not ob.must('number of accounts', len(ms) == len(want), '%d accounts are passed, the program takes %d' % (len(ms), len(want)), [f.path]):
        return
    for i, ((k, s, w), (nm, key, sig, wr)) in enumerate(zip(ms, want)):
        differs(ob, f.I, 'account %d is the %s' % (i, nm), k, key, f.st.pc)
        boolis(ob, f, 'account %d signer' % i, s, sig)
        boolis(ob, f, 'account %d writable' % i, w, wr)


def key_arg(f, k):
    v = plain(f.I, f.pointee(k))
    (c, b), = f.I.items(v)
    return b


IXF = [('offset', 1, 8), ('slot', 9, 8), ('node_pubkey', 17, 32), ('reporter', 49, 32), ('destination', 81, 32),
       ('shred_1_merkle_root', 113, 32), ('shred_1_signature', 145, 64), ('shred_2_merkle_root', 209, 32),
       ('shred_2_signature', 241, 64)]


def ix_fields(f, v):
    """bytes of the fields of the instruction payload argument"""
    v = f.I.deref_load(v, f.st)
    if type(v) is Sym:
        v = f.p.expand(v)
    out = {}
    tid = data_tid(f, 'DuplicateBlockProofInstructionData')
    if type(v) is Agg:
        for (n, t), x in zip(f.p.fields(tid), v.f):
            (c, b), = f.I.items(plain(f.I, f.I.as_bytes(plain(f.I, x))))
            out[n] = b
    return out


def pda_for(seeds):
    return rbytes(TM.region(('pda', seeds, cbytes(PROGRAM_ID)), const(32)))


def check_report_ix(ob, f, parts, proof, fl):
    pid, acc, data = parts
    differs(ob, f.I, 'program of the report', pid, cbytes(PROGRAM_ID), f.st.pc)
    pda = pda_for(TM.concat(fl['node_pubkey'], fl['slot'], cbytes(b'\x01')))
    check_metas(ob, f, metas(f, acc), [('proof account', proof, False, False), ('report address', pda, False, True),
                                       ('instructions sysvar', cbytes(IX_SYSVAR), False, False),
                                       ('system program', cbytes(SYSTEM_ID), False, False)])
    want = TM.concat(cbytes(b'\x01'), *[fl[n] for n, o, w in IXF])
    dv = plain(f.I, data)
    differs(ob, f.I, 'data of the report', dv, want, f.st.pc)
    return pda


def no_panics(ob, f, assume=1):
    live = [p for p in f.I.panics if theory_sat(AND(p.g, assume)) != 0]
    ob.must('%s never panics' % f.path.split('::')[-1], not live, '; '.join('%s at %s' % (p.msg, p.loc) for p in live), [p.loc for p in live])


REPORT_FN = r'^instruction::duplicate_block_proof$'
TRIPLE_FN = r'^instruction::duplicate_block_proof_with_sigverify_and_prefund$'
CLOSE_FN = r'^instruction::close_violation_report$'


def c27(run, ob):
    f = run.fn(REPORT_FN, 'report builder')
    ob.units.append(f.path)
    fl = ix_fields(f, f.args[1])
    check_report_ix(ob, f, instruction_parts(f, f.ret), key_arg(f, 0), fl)
    no_panics(ob, f)
    g = run.fn(TRIPLE_FN, 'transaction builder')
    ixs = triple(g)
    fl = ix_fields(g, g.args[1])
    for ix in ixs:
        p = instruction_parts(g, ix)
        if not (type(p) is Nat) and is_bytes(g, p[0], PROGRAM_ID):
            check_report_ix(ob, g, p, key_arg(g, 0), fl)
    no_panics(ob, g)


def is_bytes(f, v, b):
    its = f.I.items(plain(f.I, v))
    return len(its) == 1 and its[0][1] is cbytes(b)


def triple(g):
    v = g.ret
    if type(v) is Sym:
        v = g.p.expand(v)
    if type(v) is not Agg:
        raise Missing('the three instructions: ' + short(v))
    return list(v.f)


def c28(run, ob):
    g = run.fn(TRIPLE_FN, 'transaction builder')
    ob.units.append(g.path)
    ixs = triple(g)
    if not ob.must('three instructions', len(ixs) == 3, 'the transaction has %d instructions' % len(ixs), [g.path]):
        return
    a, b, c = [instruction_parts(g, x) for x in ixs]
    ob.must('first the prefund transfer', type(a) is Nat and a.tag == 'transfer', 'the first instruction is not the prefund transfer: ' + short(ixs[0]), [g.path])
    if type(b) is Nat or type(c) is Nat:
        ob.must('order', False, 'verification and report are not the second and third instruction', [g.path])
        return
    differs(ob, g.I, 'second the ed25519 verification', b[0], cbytes(ED25519_ID), g.st.pc)
    differs(ob, g.I, 'third the report', c[0], cbytes(PROGRAM_ID), g.st.pc)
    ob.must('verification takes no accounts', len(metas(g, b[1])) == 0, 'accounts are passed to the verification', [g.path])
    rec = b''
    for sig, msg in ((145, 113), (241, 209)):
        rec += b''.join(x.to_bytes(2, 'little') for x in (sig, 2, 17, 2, msg, 32, 2))
    want = b'\x02\x00' + rec
    v = plain(g.I, b[2])
    names = ['signatures announced', 'padding']
    for i in (1, 2):
        names += ['%s of record %d' % (n, i) for n in ('signature offset', 'signature instruction', 'key offset', 'key instruction',
                                                        'message offset', 'message size', 'message instruction')]
    offs = [(0, 1), (1, 1)] + [(2 + 2 * k, 2) for k in range(14)]
    for c_, l in g.I.items(v):
        ob.unsat('length of the verification data', conj(g.st.pc, c_, NOT(eq(l.len, const(30)))) if isinstance(l, Bytes) else c_,
                 'the verification data is %s' % short(l))
    for nm, (o, w) in zip(names, offs):
        if nm == 'padding':
            continue
        part = mkG([(c_, bsub(l, const(o), const(w)) if isinstance(l, Bytes) else l) for c_, l in g.I.items(v)])
        differs(ob, g.I, nm, part, cbytes(want[o:o + w]), g.st.pc)
    # the addressed bytes of the report instruction
    fl = ix_fields(g, g.args[1])
    dv = plain(g.I, c[2])
    for nm, o, w in IXF:
        if nm in ('node_pubkey', 'shred_1_merkle_root', 'shred_1_signature', 'shred_2_merkle_root', 'shred_2_signature'):
            part = mkG([(c_, bsub(l, const(o), const(w)) if isinstance(l, Bytes) else l) for c_, l in g.I.items(dv)])
            differs(ob, g.I, 'addressed bytes: ' + nm, part, fl[nm], g.st.pc)


def c29(run, ob):
    g = run.fn(TRIPLE_FN, 'transaction builder')
    ob.units.append(g.path)
    fl = ix_fields(g, g.args[1])
    ts = [p for p in (instruction_parts(g, x) for x in triple(g)) if type(p) is Nat and p.tag == 'transfer']
    if not ob.must('one prefund transfer', len(ts) == 1, '%d system transfers are built' % len(ts), [g.path]):
        return
    t = ts[0]
    fund = g.args[2]
    if type(fund) is Sym:
        fund = g.p.expand(fund)
    none = fund.v.get(0, (0, ()))[0]
    some = fund.v.get(1, (0, ()))
    differs(ob, g.I, 'payer without a funder', t.f[0], fl['reporter'], AND(g.st.pc, none))
    (c, fb), = g.I.items(plain(g.I, g.I.deref_load(some[1][0], g.st)))
    differs(ob, g.I, 'payer with a funder', t.f[0], fb, AND(g.st.pc, some[0]))
    pda = pda_for(TM.concat(fl['node_pubkey'], fl['slot'], cbytes(b'\x01')))
    differs(ob, g.I, 'funded account', t.f[1], pda, g.st.pc)
    size = 114 + 8 + 2 * 1232
    ok = True
    for c, l in g.I.items(plain(g.I, t.f[2])):
        if theory_sat(AND(c, g.st.pc)) == 0:
            continue
        good = isinstance(l, Lin) and len(l.t) == 1 and l.t[0][1] == 1 and l.c == 0 and l.t[0][0].kind == 'rent' and \
            isinstance(l.t[0][0].args[0], Lin) and l.t[0][0].args[0] is const(size)
        ob.must('prefunded amount', good, 'the prefund is %s, not the rent-exempt minimum of %d bytes' % (short(l), size), [g.path])
    # never less than what the program demands
    r = run.r
    ob.unsat('largest report', conj(r.ok, r.dup, le(r.s[0].L, const(1232)), le(r.s[1].L, const(1232)), lt(const(size), r.total)),
             'the program demands more than the largest report')
    accept_needs(run, ob, ['prefunded'])


def c30(run, ob):
    f = run.fn(CLOSE_FN, 'close builder')
    ob.units.append(f.path)
    pid, acc, data = instruction_parts(f, f.ret)
    differs(ob, f.I, 'program of the close', pid, cbytes(PROGRAM_ID), f.st.pc)
    check_metas(ob, f, metas(f, acc), [('report', key_arg(f, 0), False, True), ('destination', key_arg(f, 1), False, True)])
    differs(ob, f.I, 'data of the close', plain(f.I, data), cbytes(b'\x00'), f.st.pc)
    no_panics(ob, f)


def layout(run, ob, name, size, fields):
    c = [t for t in run.d['types'] if t and t['k'] == 'adt' and t['path'].split('::')[-1] == name and t['variants']]
    if not c:
        raise Missing('type ' + name)
    t = c[0]
    ob.must('%s size' % name, t['size'] == size, '%s takes %s bytes, not %d' % (name, t['size'], size), [t['path']])
    ob.must('%s alignment' % name, t['align'] == 1, '%s needs alignment %s' % (name, t['align']), [t['path']])
    got = {n: o for (n, _), o in zip(t['variants'][0]['fields'], t['offs'])}
    for n, o in fields:
        ob.must('%s.%s' % (name, n), got.get(n) == o, '%s.%s is at offset %s, not %d' % (name, n, got.get(n), o), [t['path']])
    ob.must('%s fields' % name, len(got) == len(fields), '%s has %d fields' % (name, len(got)), [t['path']])
    # no padding: the fields tile the type
    sz = []
    for (n, ft), o in zip(t['variants'][0]['fields'], t['offs']):
        sz.append((o, o + run.d['types'][ft]['size'])) if run.d['types'][ft] and 'size' in run.d['types'][ft] else None


def c31(run, ob):
    layout(run, ob, 'ViolationReport', 114, [('version', 0), ('reporter', 1), ('destination', 33), ('epoch', 65), ('pubkey', 73),
                                             ('slot', 105), ('violation_type', 113)])
    layout(run, ob, 'DuplicateBlockProofInstructionData', 304, [(n, o - 1) for n, o, w in IXF])
    # accessors of the report header
    for nm, fld in (('epoch', 'epoch'), ('slot', 'slot')):
        f = run.fn(r'^state::ViolationReport::%s$' % nm, 'accessor ' + nm)
        v = f.I.deref_load(f.args[0], f.st)
        if type(v) is Sym:
            v = f.p.expand(v)
        x = agg_field(f, v, 'ViolationReport', fld)
        (c, b), = f.I.items(plain(f.I, f.I.as_bytes(plain(f.I, x))))
        differs(ob, f.I, 'ViolationReport::%s()' % nm, f.ret, LE(b, 8), f.st.pc)
    f = run.fn(r'^state::ViolationReport::version$', 'accessor version')
    (c, p), = f.I.items(f.args[0])
    (c, D), = f.I.items(f.I.slice_bytes(p, f.st))
    differs(ob, f.I, 'ViolationReport::version()', f.ret, LE(bsub(D, ZERO, ONE), 1), AND(f.st.pc, le(ONE, D.len)))
    f = run.fn(r'^state::ViolationReport::violation_type$', 'accessor violation_type')
    v = f.I.deref_load(f.args[0], f.st)
    if type(v) is Sym:
        v = f.p.expand(v)
    x = agg_field(f, v, 'ViolationReport', 'violation_type')
    (c, b), = f.I.items(plain(f.I, x))
    variant_is(ob, f, 'ViolationReport::violation_type()', f.ret, {'DuplicateBlockProof': eq(b, ONE), 'InvalidType': NOT(eq(b, ONE))})


def variant_is(ob, f, name, v, want):
    if type(v) is Sym:
        v = f.p.expand(v)
    for k, (c, _) in v.v.items():
        nm = f.p.T[v.tid]['variants'][k]['name']
        ob.unsat('%s is %s' % (name, nm), conj(f.st.pc, c, NOT(want.get(nm, 0))), '%s gives %s where it must not' % (name, nm))
    ob.unsat(name + ' gives a type', NOT(AND(f.st.pc, disj(*[c for c, _ in v.v.values()]))), name + ' can fail')


PLACEHOLDER = cbytes(b'\xc0\x00')     # the compiled template of "{}"


def c32(run, ob):
    NAMES = {'DuplicateBlockProof': b'duplicate block', 'InvalidType': b'invalid'}
    CODES = {'DuplicateBlockProof': 1, 'InvalidType': 0}
    f = run.fn(r'^<state::ProofType as std::convert::From<u8>>::from$', 'decoding a type')
    (c, x), = f.I.items(f.args[0])
    variant_is(ob, f, 'type of a code', f.ret, {'DuplicateBlockProof': eq(x, ONE), 'InvalidType': NOT(eq(x, ONE))})
    f = run.fn(r'^state::<impl std::convert::From<state::ProofType> for u8>::from$|^<u8 as std::convert::From<state::ProofType>>::from$', 'encoding a type')
    a = f.args[0]
    a = f.p.expand(a) if type(a) is Sym else a
    for k, (c, _) in a.v.items():
        nm = f.p.T[a.tid]['variants'][k]['name']
        if not ob.must('type ' + nm, nm in CODES, 'unknown violation type ' + nm):
            continue
        differs(ob, f.I, 'code of ' + nm, f.ret, const(CODES[nm]), AND(f.st.pc, c))
    f = run.fn(r'^<state::ProofType as std::fmt::Display>::fmt$', 'display of a type')
    a = f.I.deref_load(f.args[0], f.st)
    a = f.p.expand(a) if type(a) is Sym else a
    es = [e for e in f.I.effects if e.kind == 'fmt']
    shown = {}
    for k, (c, _) in a.v.items():
        nm = f.p.T[a.tid]['variants'][k]['name']
        got = []
        for e in es:
            got += [(conj(e.g, c, g), b) for g, b in e.strs]
        got = [(g, b) for g, b in got if theory_sat(g) != 0 and b is not PLACEHOLDER]
        want = cbytes(NAMES.get(nm, b'?'))
        ob.must('display name of ' + nm, got and all(b is want for g, b in got),
                'the display name of %s is %s' % (nm, [short(b) for g, b in got]), [f.path])
    f = run.fn(r'^<state::ProofType as std::str::FromStr>::from_str$', 'parsing a type')
    (c, p), = f.I.items(f.args[0])
    (c, S), = f.I.items(f.I.slice_bytes(p, f.st))
    ok, err = f.ret.v.get(0, (0, ())), f.ret.v.get(1, (0, ()))
    for nm, s in NAMES.items():
        hit = AND(eq(S.len, const(len(s))), beq(S, cbytes(s)))
        ty = ok[1][0] if ok[1] else None
        got = 0
        if type(ty) is Enum:
            for k, (c, _) in ty.v.items():
                if f.p.T[ty.tid]['variants'][k]['name'] == nm:
                    got = AND(c, ok[0])
        ob.unsat('parsing the name of ' + nm, AND(hit, NOT(AND(f.st.pc, got))), 'the display name of %s does not parse to it' % nm)
        ob.unsat('only its name parses to ' + nm, conj(f.st.pc, got, NOT(hit)), 'another string parses to ' + nm)


def c33(run, ob):
    r = run.close()
    n = 0
    for e in r.I.effects:
        if e.ok is None:
            continue
        n += 1
        g1 = conj(r.G(e.g), r.dup, NOT(r.G(e.ok)))
        what = e.kind if e.kind != 'fallible' else ' '.join(str(x) for x in e.args[:2])
        ob.unsat('failure propagates: ' + what, AND(g1, r.ok), 'a report succeeds although this step failed: %s at %s' % (what, e.loc))
        ob.unsat('close: failure propagates: ' + what, conj(e.g, r.cl, NOT(e.ok), r.ok0),
                 'a close succeeds although this step failed: %s at %s' % (what, e.loc))
    ob.units.append('%d fallible steps' % n)
    accept_needs(run, ob, list(r.R))
    close_needs(run, ob, list(r.C))
    ob.unsat('unknown instructions fail', conj(r.ok0, NOT(r.dup), NOT(r.cl)), 'an unknown instruction succeeds')


def c34(run, ob):
    r = run.r
    D = r.e.acc[0].data
    ctx = conj(r.dup0, le(r.off, D.len))
    seen = {}
    for p in r.I.panics:
        k = (p.msg, local_loc(r.I, p))
        seen[k] = OR(seen.get(k, 0), p.g)
    for (m, l), g in seen.items():
        ob.unsat('no panic: ' + m, AND(ctx, g), 'judging a proof can panic: %s at %s' % (m, l))
    ob.units.append('%d potential panics left by the analysis' % len(seen))
    f = run.fn(UNPACK, 'proof buffer decoder')
    ob.must('decoding never panics', not live_panics(f), 'decoding a proof buffer can panic: ' + panics_text(f), [p.loc for p in live_panics(f)])
    ob.units.append('%d basic blocks' % (r.I.blocks_done + f.I.blocks_done))


def local_loc(I, p):
    """the place in the analysed crate a panic comes from"""
    ps = {f['path'] for f in I.p.I if f['local']}
    for path, loc in reversed(p.stack):
        if path in ps:
            return '%s (%s)' % (p.loc, path)
    return p.loc


def c35(run, ob):
    r = run.r
    us = [e for e in r.I.effects if e.kind == 'uninit']
    for e in us:
        ob.unsat('initialised', AND(e.g, r.dup0), 'possibly uninitialised memory is handed out at ' + e.loc)
    ob.units.append('%d reads of possibly uninitialised memory' % len(us))
    accept_needs(run, ob, [k for k in r.R if re.match(r'shred \d (merkle root signed|signature)', k)])
    # nothing undefined takes part in the verdict
    bad = undefined_labels(r.ok0) + undefined_labels(r.err0)
    ob.must('defined verdict', not bad, 'the verdict depends on an undefined value: %s' % bad[:1])


def undefined_labels(g):
    out = []
    for v in bdd.support(g):
        lab = bdd.names[v]
        s = show_key(lab) if not (isinstance(lab, tuple) and lab[0] in ('le', 'eqb', 'bit')) else repr(lab[1:])
        if 'uninit' in s:
            out.append(s[:200])
    return out


def c36(run, ob):
    r = run.close()
    refusal(run, ob, list(r.R))
    rest = run._others('conflict')
    for nm, g in r.conflict_err.items():
        ob.unsat('no conflict is refused with ' + nm, conj(rest, g, NOT(r.errs.get(ERR[nm], 0))),
                 'two non-conflicting shreds are not refused with ' + nm)
    close_refusal(run, ob, list(r.C))
    t = [t for t in run.d['types'] if t and t['k'] == 'adt' and t['path'] == 'error::SlashingError']
    if not t:
        raise Missing('error::SlashingError')
    got = {v['name']: int(v['discr']) for v in t[0]['variants']}
    for n, k in ERR.items():
        ob.must('number of ' + n, got.get(n) == k, '%s has number %s, documented %d' % (n, got.get(n), k), ['error::SlashingError'])
    f = run.fn(r'^error::<impl std::convert::From<error::SlashingError> for solana_program::program_error::ProgramError>::from$|^<.*ProgramError as std::convert::From<error::SlashingError>>::from$', 'error conversion')
    a = f.args[0]
    a = f.p.expand(a) if type(a) is Sym else a
    for k, (c, _) in a.v.items():
        nm = f.p.T[a.tid]['variants'][k]['name']
        if nm not in ERR:
            continue
        v = f.ret
        ok = 0
        if type(v) is Enum:
            for kk, (cc, ff) in v.v.items():
                if f.p.T[v.tid]['variants'][kk]['name'] == 'Custom':
                    for c3, l in f.I.items(ff[0]):
                        if isinstance(l, Lin):
                            ok = OR(ok, conj(cc, c3, eq(l, const(ERR[nm]))))
        ob.unsat('program error of ' + nm, conj(c, NOT(AND(f.st.pc, ok))), '%s is not reported as custom error %d' % (nm, ERR[nm]))
    D = r.e.acc[0].data
    ob.unsat('report over a short buffer', conj(r.dup0, le(r.off, D.len), NOT(r.buf_wf), others_before(r),
                                              NOT(r.errs0.get(ERR['ProofBufferTooSmall'], 0))),
             'a report over a too short proof buffer is not refused with ProofBufferTooSmall')


def c37(run, ob):
    r = run.r
    ob.unsat('every requirement => accepted', AND(r.allR, NOT(r.ok)), 'a report meeting every documented requirement is not accepted')
    ob.must('requirements are satisfiable', theory_sat(r.allR) != 0, 'internal: contradictory requirements')


def c38(run, ob):
    r = run.close()
    al = cothers(r, None)
    ob.unsat('every requirement => closed', AND(al, NOT(r.ok0)), 'a close meeting every documented requirement does not succeed')
    ob.must('requirements are satisfiable', theory_sat(al) != 0, 'internal: contradictory requirements')


PROPS = {
    'C01': simple('C01', 'ArithmeticOverflow', ERR['ExceedsStatuteOfLimitations']),
    'C02': c02, 'C03': c03,
    'C04': simple('C04', ERR['SlotMismatch']),
    'C05': simple('C05', ERR['InvalidShredVersion']),
    'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09, 'C10': c10, 'C11': c11, 'C12': c12, 'C13': c13,
    'C14': simple('C14', ERR['DestinationAddressIsReportAccount']),
    'C15': simple('C15', ERR['ReportAccountNotPrefunded']),
    'C16': c16, 'C17': c17, 'C18': c18, 'C19': c19, 'C20': c20, 'C21': c21, 'C22': c22, 'C23': c23, 'C24': c24,
    'C25': c25, 'C26': c26, 'C27': c27, 'C28': c28, 'C29': c29, 'C30': c30, 'C31': c31, 'C32': c32, 'C33': c33,
    'C34': c34, 'C35': c35, 'C36': c36, 'C37': c37, 'C38': c38,
}
