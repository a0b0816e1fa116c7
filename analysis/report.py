"""The duplicate-block report instruction: what the code does (from the value
flow analysis of process_instruction) against what it must do (the guards
written here from the specification)."""
from harness import *

LE = int_le


def imp(a, b):
    return OR(NOT(a), b)


def conj(*gs):
    r = 1
    for g in gs:
        if isinstance(g, (list, tuple)):
            g = conj(*g)
        r = AND(r, g)
        if r == 0:
            return 0
    return r


def disj(*gs):
    r = 0
    for g in gs:
        r = OR(r, g)
    return r


# documented error numbers (SlashingError declaration order) and ProgramError variants
ERR = dict(CloseViolationReportTooSoon=0, DestinationAddressIsReportAccount=1, DuplicateReport=2,
           ExceedsStatuteOfLimitations=3, InvalidDestinationAccount=4, InvalidShredVariant=5, InvalidMerkleShred=6,
           InvalidPayloadProof=7, InvalidErasureMetaConflict=8, InvalidInstruction=9, InvalidLastIndexConflict=10,
           InvalidViolationReportAcccount=11, InvalidShredVersion=12, InvalidSignatureVerification=13, LegacyShreds=14,
           MissingInstructionsSysvar=15, MissingSignatureVerification=16, MissingSystemProgramAccount=17,
           ProofBufferDeserializationError=18, ProofBufferTooSmall=19, ReportAccountNotPrefunded=20,
           ShredDeserializationError=21, ShredTypeMismatch=22, SignatureVerificationMismatch=23, SlotMismatch=24)

ENV = ('sysvar available', 'introspection', 'cpi succeeds', 'realloc may grow', 'borrow succeeds')


def env_guard():
    """every answer of the runtime that the program cannot influence is positive"""
    g = 1
    for lab in list(bdd.names.values() if isinstance(bdd.names, dict) else bdd.names):
        if isinstance(lab, tuple) and lab and lab[0] in ENV:
            g = AND(g, bdd.atom(lab))
    return g


class Shred:
    """The fields of one submitted shred, by the protocol's layout"""

    def __init__(self, i, S):
        self.i = i
        self.S = S
        self.L = S.len
        self.b = rbytes(S)
        f = lambda o, n: LE(bsub(self.b, const(o), const(n)), n)
        self.sig = bsub(self.b, ZERO, const(64))
        self.var = f(64, 1)
        self.slot = f(65, 8)
        self.index = f(73, 4)
        self.version = f(77, 2)
        self.fec = f(79, 4)
        self.flags = f(85, 1)
        self.nd = f(83, 2)
        self.nc = f(85, 2)
        self.pos = f(87, 2)
        a = self.var.t[0][0]
        hi = lambda *hs: tab_bdd(a, lambda v: (v & 0xf0) in hs)
        self.code = tab_bdd(a, lambda v: (v & 0xf0) in (0x40, 0x60, 0x70) and v != 0x5a)
        self.data = tab_bdd(a, lambda v: (v & 0xf0) in (0x80, 0x90, 0xb0))
        self.legacy = tab_bdd(a, lambda v: v in (0x5a, 0xa5))
        self.resigned = hi(0x70, 0xb0)
        self.long0 = le(const(65), self.L)         # variant byte present
        self.valid = conj(self.long0, OR(self.code, self.data))
        self.nib = mod(self.var, 16)
        # end of the merkle proof (leader signed bytes), by class
        self.end = {}
        for c, cg, full in ((True, self.code, 1228), (False, self.data, 1203)):
            for r in (True, False):
                g = AND(cg, self.resigned if r else NOT(self.resigned))
                self.end[(c, r)] = (g, full - (64 if r else 0))
        self.fits = conj(self.long0, disj(*[AND(g, le(const(n), self.L)) for g, n in self.end.values()]))
        # leaf position inside the erasure batch
        self.dpos = sub(self.index, self.fec)
        self.cpos = add(self.nd, self.pos)
        self.pos_ok = disj(self.code, AND(self.data, le(ZERO, self.dpos)))
        self.root = TM.region(('root', i), const(32))
        top = 0
        for v in range(16):
            g = eq(self.nib, const(v))
            for cg, x in ((self.code, self.cpos), (self.data, self.dpos)):
                top = OR(top, conj(g, cg, le(x, const((1 << v) - 1))))
        self.top = top
        self.merkle = conj(self.fits, self.pos_ok, self.top)   # a merkle root exists
        self.last = AND(tab_bdd(self.flags.t[0][0], lambda v: v & 0xc0 == 0xc0), self.data)

    def leaf(self, v):
        """hash of the leaf for the variant byte v"""


eq = TM.eq
le = TM.le
lt = TM.lt


class Report:
    def __init__(self, d=None, quiet=True):
        import build
        self.d = d or build.dump('program')
        self.e = e = Entry(self.d).run()
        self.I = e.I
        self.p = e.p
        self.problems = []          # structural mismatches found on the way: (property, text)
        ok, err = e.ret.v.get(0, (0, ())), e.ret.v.get(1, (0, ()))
        self.pc0 = e.st.pc
        self.ok0 = AND(ok[0], e.st.pc)
        self.err0 = AND(err[0], e.st.pc)
        self.errval = err[1][0] if err[1] else None
        self.dup0 = eq(LE(bsub(rbytes(e.input), ZERO, ONE), 1), ONE)
        self.close0 = eq(LE(bsub(rbytes(e.input), ZERO, ONE), 1), ZERO)
        self.nonempty = le(ONE, e.input.len)
        self.errs0 = self.error_guards(self.errval, self.err0)

    # ---- errors ----
    def error_guards(self, v, g):
        """error code (int) or ProgramError variant name -> guard"""
        out = {}
        if v is None:
            return out

        def walk(v, g):
            if g == 0:
                return
            if type(v) is Sym:
                v = self.p.expand(v)
            if type(v) is Enum:
                vs = self.p.T[v.tid]['variants']
                for k, (c, f) in v.v.items():
                    c = AND(c, g)
                    name = vs[k][0] if isinstance(vs[k], (list, tuple)) else vs[k]['name']
                    if name == 'Custom':
                        w = f[0]
                        for cc, l in (w.items if type(w) is G else ((1, w),)):
                            key = l.c if isinstance(l, Lin) and not l.t else ('?', repr(l))
                            out[key] = OR(out.get(key, 0), AND(c, cc))
                    else:
                        out[name] = OR(out.get(name, 0), c)
            else:
                out[('?', repr(v)[:80])] = OR(out.get(('?', repr(v)[:80]), 0), g)
        walk(v, g)
        return out

    # ---- structured view: the proof account holds two announced shreds ----
    def structure(self):
        e = self.e
        inp = rbytes(e.input)
        self.off = LE(bsub(inp, ONE, const(8)), 8)
        self.slot = LE(bsub(inp, const(9), const(8)), 8)
        self.node = bsub(inp, const(17), const(32))
        self.reporter = bsub(inp, const(49), const(32))
        self.destination = bsub(inp, const(81), const(32))
        L1 = TM.var('len(shred 1)', 0, (1 << 32) - 1)
        L2 = TM.var('len(shred 2)', 0, (1 << 32) - 1)
        S1 = TM.region('shred 1', L1)
        S2 = TM.region('shred 2', L2)
        self.s = [Shred(1, S1), Shred(2, S2)]
        pre = TM.region('before proof', self.off)
        tail = TM.region('after proof')
        self.packed = TM.concat(TM.bytes_of_int(L1, 4), rbytes(S1), TM.bytes_of_int(L2, 4), rbytes(S2))
        self.D = TM.concat(rbytes(pre), self.packed, rbytes(tail))
        D0 = e.acc[0].data
        la, lb = L1.t[0][0], L2.t[0][0]

        def field(r, st, n):
            # bytes of the proof account by their place; reads beyond the announced
            # length of a shred are excluded by the length requirements, not here
            if r is not D0:
                return None
            rel = sub(st, self.off)
            k = dict(rel.t).get(la, 0)
            base, shred = (const(4), rbytes(S1)) if k == 0 else (addc(L1, 8), rbytes(S2))
            if k not in (0, 1) or lb in dict(rel.t):
                return None
            rel = sub(rel, base)
            if rel.lo >= 0 and not (set(dict(n.t)) & {la, lb}):
                return bsub(shred, rel, n)
            return None
        self.sub1 = Subst(fr=lambda r: self.D if r is D0 else None, fs=field)
        # unstructured well-formedness of the buffer
        d = rbytes(D0)
        l1 = LE(bsub(d, self.off, const(4)), 4)
        l2 = LE(bsub(d, add(addc(self.off, 4), l1), const(4)), 4)
        self.buf_wf = conj(le(addc(self.off, 4), D0.len), le(add(addc(self.off, 4), l1), D0.len),
                           le(add(addc(self.off, 8), l1), D0.len),
                           le(add(add(addc(self.off, 8), l1), l2), D0.len))
        # merkle roots
        roots = {}

        def fr(r):
            if r.key and r.key[0] == 'mu':
                x = roots.get(r.id)
                if x is None:
                    x = roots[r.id] = (self.match_root(r),)
                return rbytes(x[0].root) if x[0] is not None else None
            return None
        self.roots = roots
        def flabel(lab):
            if isinstance(lab, tuple) and lab[0] == 'le':
                return self.split_le(self.sub2.lin(lab[1]), lab[2])
            return None
        self.sub2 = Subst(fr=fr, flabel=flabel)
        self.G = lambda g: self.sub2.guard(self.sub1.guard(g))
        self.V = lambda v: self.sub2.val(self.sub1.val(v))
        self.pc = self.G(self.pc0)
        self.ok = self.G(self.ok0)
        self.err = self.G(self.err0)
        self.dup = self.dup0
        self.errs = {k: self.G(g) for k, g in self.errs0.items()}
        self.env = env_guard()
        return self

    def split_le(self, f, k):
        """shifts by (and sums with) a value of one byte are decided per value of the byte"""
        if len(f.t) == 1 and f.t[0][0].kind == 'shr':
            a, c = f.t[0]
            x, n = a.args
            root = small_root(n)
            if root is None or x.lo < 0 and False:
                return None
            # x >> n <= q   <=>   x <= (q + 1) 2^n - 1      (q = k / c for c > 0)
            neg = c < 0
            q = (k - f.c) // c if c > 0 else -((-(k - f.c)) // c)
            if neg:
                # c s <= k - f.c  <=>  s >= ceil((k - f.c) / c)  <=>  not (s <= that - 1)
                q = -((k - f.c) // -c) - 1
            tb = TM.table(n, root)
            g = 0
            for t in sorted(set(tb)):
                sel = tab_bdd(root, lambda v, t=t: tb[v] == t)
                g = OR(g, AND(sel, le(x, const(((q + 1) << t) - 1))))
            return NOT(g) if neg else g
        return None

    # ---- merkle roots ----
    def match_root(self, r):
        """the shred whose specified merkle root the recurrence r computes, or None"""
        key, n = r.key[1], r.key[2]
        ats, regs = atoms_of(key)
        which = [s for s in self.s if s.S in regs or any(s.S in atoms_of(a)[1] for a in ats)]
        if len(which) != 1:
            self.problems.append(('C10', 'a folded hash reads bytes of %d shreds' % len(which), repr(r)[:300]))
            return None
        s = which[0]
        a = s.var.t[0][0]
        bad = []
        cnt = 0
        for v in range(256):
            hn = v & 0xf0
            if hn not in (0x40, 0x60, 0x70, 0x80, 0x90, 0xb0):
                continue
            if v == 0x5a:
                continue
            cnt += 1
            e = self.root_case(r, s, a, v, hn)
            if e:
                bad.append((v, e))
        self.root_cases = getattr(self, 'root_cases', 0) + cnt
        if bad:
            self.problems.append(('C10', 'the merkle root of shred %d is not the specified one for %d of %d variant bytes, e.g. 0x%02x: %s'
                                  % (s.i, len(bad), cnt, bad[0][0], bad[0][1]), ''))
            return None
        return s

    def root_case(self, r, s, a, v, hn):
        code = hn in (0x40, 0x60, 0x70)
        resigned = hn in (0x70, 0xb0)
        size = v & 15
        end = (1228 if code else 1203) - (64 if resigned else 0)
        poff = end - 20 * size
        posn = s.cpos if code else s.dpos
        ctx = conj(le(const(end), s.L), le(ZERO, posn), le(posn, const((1 << size) - 1)))
        sb = Subst(fa=lambda x: const(v) if x is a else None)
        key = sb.obj(r.key[1])
        n = sb.lin(r.key[2])
        if not (n.t == () and n.c == size):
            if size == 0 and not n.t and n.c <= 0:
                pass
            else:
                return 'folds %r proof entries instead of %d' % (n, size)
        ctx = sb.guard(ctx)
        init, nxt = key[0]
        leafb = TM.concat(TM.cbytes(b'\x00SOLANA_MERKLE_SHREDS_LEAF'), bsub(s.b, const(64), const(poff - 64)))
        want = rbytes(TM.region(('sha256', leafb), const(32)))
        x = self.pick(init, ctx, want)
        if x:
            return 'leaf ' + x
        if size == 0:
            return None
        K = [t for t in atoms_of(nxt)[0] if t.kind == 'bvK']
        if len(K) != 1:
            return 'proof entries are not addressed by the level (%d counters)' % len(K)
        k = of(K[0])
        bv = [t for t in atoms_of(nxt)[1] if isinstance(t.key, tuple) and t.key[0] == 'bv']
        if len(bv) != 1 or bv[0].key[1] != 0:
            return 'the folded node depends on other loop variables'
        node = bsub(rbytes(bv[0]), ZERO, const(20))
        entry = bsub(s.b, add(const(poff), scale(k, 20)), const(20))
        pre = TM.cbytes(b'\x01SOLANA_MERKLE_SHREDS_NODE')
        par = mod(shr(posn, k), 2)
        kc = conj(ctx, le(k, const(size - 1)), le(ZERO, k))
        for bit, seq in ((0, (node, entry)), (1, (entry, node))):
            want = rbytes(TM.region(('sha256', TM.concat(pre, *seq)), const(32)))
            x = self.pick(nxt, conj(kc, eq(par, const(bit))), want)
            if x:
                return ('even' if bit == 0 else 'odd') + ' node ' + x
        return None

    def pick(self, val, ctx, want):
        """every alternative of val possible under ctx is want"""
        if type(val) is Agg and len(val.f) == 1:
            val = val.f[0]
        if type(val) is not G:
            return 'is %r' % (val,)
        for c, l in val.items:
            if l is want:
                continue
            g = AND(c, ctx)
            if g != 0 and theory_sat(g) != 0:
                return 'is %s where %s is required' % (repr(l)[:300], repr(want)[:300])
        return None

    # ---- requirements of a report ----
    def requirements(self):
        e = self.e
        s1, s2 = self.s
        inp = rbytes(e.input)
        clock_slot = self.sysvar('Clock', 'slot')
        self.clock_slot = clock_slot
        self.clock_epoch = self.sysvar('Clock', 'epoch')
        spe = self.spe = self.sysvar('EpochSchedule', 'slots_per_epoch')
        cur = self.cur = TM.var(('current instruction index',), 0, 65535)
        self.R = R = {}          # name -> (property, guard, allowed errors)

        def req(name, prop, g, *errs):
            R[name] = (prop, g, errs)
        acct = lambda i, f: rbytes(getattr(e.acc[i], f))
        req('four accounts', 'C18', le(const(4), e.n), 'NotEnoughAccountKeys')
        req('instructions sysvar', 'C18', beq(acct(2, 'key'), cbytes(IX_SYSVAR)), ERR['MissingInstructionsSysvar'])
        req('system program', 'C18', beq(acct(3, 'key'), cbytes(SYSTEM_ID)), ERR['MissingSystemProgramAccount'])
        req('input length', 'C24', eq(e.input.len, const(305)), 'InvalidInstructionData')
        req('slot not in the future', 'C01', le(self.slot, clock_slot), 'ArithmeticOverflow')
        req('statute of limitations', 'C01', OR(lt(clock_slot, self.slot), le(sub(clock_slot, self.slot), spe)),
            ERR['ExceedsStatuteOfLimitations'])
        # the verification instruction
        prev = ('instruction at', addc(cur, -1))
        vd = TM.region((prev, 'data'))
        self.vd = vd
        vb = rbytes(vd)
        count = LE(bsub(vb, ZERO, ONE), 1)
        progok = self.vid_guard()
        req('preceding instruction', 'C02', le(ONE, cur), ERR['MissingSignatureVerification'])
        req('preceding instruction is ed25519', 'C02', progok, ERR['MissingSignatureVerification'])
        req('two signatures announced', 'C03', conj(le(ONE, vd.len), le(const(2), count)), ERR['MissingSignatureVerification'])
        INV = ERR['InvalidSignatureVerification']
        present = conj(le(ONE, vd.len), le(const(2), count))
        req('both records present', 'C03', OR(NOT(le(ONE, vd.len)), le(const(30), vd.len)), INV)
        rec = []
        for i in (0, 1):
            f = [LE(bsub(vb, const(2 + 14 * i + 2 * k), const(2)), 2) for k in range(7)]
            rec.append(f)
            here = conj(eq(f[1], cur), eq(f[3], cur), eq(f[5], cur))
            for k, nm in ((1, 'signature'), (3, 'key'), (5 + 1, 'message')):
                req('record %d %s in this instruction' % (i + 1, nm), 'C03', eq(f[k], cur), INV)
            n = e.input.len
            req('record %d signature in bounds' % (i + 1), 'C03', le(addc(f[0], 64), n), INV)
            req('record %d key in bounds' % (i + 1), 'C03', le(addc(f[2], 32), n), INV)
            req('record %d message in bounds' % (i + 1), 'C03', le(add(f[4], f[5]), n), INV)
            req('record %d message size' % (i + 1), 'C03', eq(f[5], const(32)), INV)
        self.rec = rec
        at = lambda o, n: bsub(inp, o, const(n))
        self.keys = [at(f[2], 32) for f in rec]
        self.sigs = [at(f[0], 64) for f in rec]
        self.msgs = [at(f[4], 32) for f in rec]
        MIS = ERR['SignatureVerificationMismatch']
        req('one key', 'C02', beq(self.keys[0], self.keys[1]), INV)
        req('key of the accused node', 'C02', beq(self.keys[0], self.node), MIS)
        SD, IM = ERR['ShredDeserializationError'], ERR['InvalidMerkleShred']
        for s in self.s:
            i = s.i
            req('shred %d has a variant' % i, 'C09', s.long0, SD)
            req('shred %d is not legacy' % i, 'C08', imp(s.long0, NOT(s.legacy)), ERR['LegacyShreds'])
            req('shred %d has a known variant' % i, 'C08', imp(s.long0, disj(s.legacy, s.code, s.data)), ERR['InvalidShredVariant'])
            req('shred %d reaches the end of its proof' % i, 'C09', imp(s.valid, s.fits), IM, SD)
            req('shred %d index not before its FEC set' % i, 'C10', imp(conj(s.valid, s.fits), s.pos_ok), SD, IM)
            req('shred %d position reaches zero' % i, 'C10', imp(conj(s.valid, s.fits, s.pos_ok), s.top), IM)
            req('shred %d merkle root signed' % i, 'C02', imp(s.merkle, beq(rbytes(s.root), self.msgs[i - 1])), MIS)
            req('shred %d signature' % i, 'C02', imp(s.valid, beq(s.sig, self.sigs[i - 1])), MIS)
            req('shred %d slot' % i, 'C04', imp(s.valid, eq(s.slot, self.slot)), ERR['SlotMismatch'])
        both = conj(s1.valid, s2.valid)
        ready = conj(s1.merkle, s2.merkle, s1.valid, s2.valid)
        req('same version', 'C05', imp(both, eq(s1.version, s2.version)), ERR['InvalidShredVersion'])
        self.conflicts()
        req('conflict', 'C06', imp(ready, self.conflict), None)
        self.pda = self.pda_bytes()
        key1 = acct(1, 'key')
        req('report address', 'C12', beq(key1, self.pda), ERR['InvalidViolationReportAcccount'])
        acc1 = e.acc[1]
        exists = conj(le(ONE, acc1.data.len), beq(acct(1, 'owner'), cbytes(PROGRAM_ID)),
                      le(ONE, LE(bsub(acct(1, 'data'), ZERO, ONE), 1)))
        req('not yet reported', 'C13', NOT(exists), ERR['DuplicateReport'])
        req('destination is not the report', 'C14', NOT(beq(self.destination, self.pda)), ERR['DestinationAddressIsReportAccount'])
        total = addc(add(s1.L, s2.L), 122)
        self.total = total
        rent = self.rent_of(total)
        req('prefunded', 'C15', le(rent, acc1.lam), ERR['ReportAccountNotPrefunded'])
        # facts that hold by construction of the two regions
        self.axioms = self.header_axioms()
        return self

    def sysvar(self, name, field):
        want = ((name,), field)
        return TM.var(want, 0, U64)

    def vid_guard(self):
        """the program id of the preceding instruction is the ed25519 program"""
        prev = ('instruction at', addc(self.cur, -1))
        reg = TM.region(((prev, 'program_id'), '0'), const(32))
        return beq(rbytes(reg), cbytes(ED25519_ID))

    def pda_bytes(self):
        seeds = TM.concat(self.node, TM.bytes_of_int(self.slot, 8), cbytes(b'\x01'))
        self.seeds = seeds
        return rbytes(TM.region(('pda', seeds, cbytes(PROGRAM_ID)), const(32)))

    def rent_of(self, n):
        ats = [a for a in TM._atoms.values() if a.kind == 'rent']
        for a in ats:
            if a.args[0] is n:
                return of(a)
        lo, hi = (ats[0].lo, ats[0].hi) if ats else (0, U64)
        extra = ats[0].args[1:] if ats else ()
        return of(TM.atom('rent', (n,) + tuple(extra), lo, hi))

    def conflicts(self):
        s1, s2 = self.s
        U32 = (1 << 32) - 1
        same_fec = eq(s1.fec, s2.fec)
        rootdiff = NOT(beq(rbytes(s1.root), rbytes(s2.root)))
        a = AND(same_fec, rootdiff)
        b = disj(*[conj(x.code, lt(x.fec, y.fec), lt(y.fec, add(x.fec, x.nd))) for x, y in ((s1, s2), (s2, s1))])
        cc, dd = AND(s1.code, s2.code), AND(s1.data, s2.data)
        same_type = OR(cc, dd)
        same_idx = eq(s1.index, s2.index)
        payload_same = 0
        for k in s1.end:
            g1, n = s1.end[k]
            g2, _ = s2.end[k]
            payload_same = OR(payload_same, conj(g1, g2, beq(bsub(s1.b, ZERO, const(n)), bsub(s2.b, ZERO, const(n)))))
        self.payload_same = payload_same
        c = conj(same_type, same_idx, NOT(payload_same))
        d = conj(dd, OR(AND(s1.last, lt(s1.index, s2.index)), AND(s2.last, lt(s2.index, s1.index))))
        metas = conj(eq(s1.nd, s2.nd), eq(s1.nc, s2.nc), eq(sub(s1.index, s1.pos), sub(s2.index, s2.pos)))
        e_ = conj(cc, same_fec, NOT(metas))
        self.kinds = dict(a=a, b=b, c=c, d=d, e=e_)
        self.conflict = disj(a, b, c, d, e_)
        self.same_type, self.same_idx, self.cc, self.dd, self.same_fec = same_type, same_idx, cc, dd, same_fec
        # field values no producer can emit; the program may refuse them (never accept them wrongly)
        self.ovf = disj(*[AND(x.code, lt(const(U32), add(x.fec, x.nd))) for x in self.s])
        self.under = disj(*[AND(x.code, lt(x.index, x.pos)) for x in self.s])
        self.malformed = OR(self.ovf, AND(cc, self.under))
        nc = NOT(self.conflict)
        self.conflict_err = {
            'ShredTypeMismatch': AND(nc, NOT(same_type)),
            'InvalidPayloadProof': conj(nc, same_type, same_idx),
            'InvalidLastIndexConflict': conj(nc, dd, NOT(same_idx)),
            'InvalidErasureMetaConflict': conj(nc, cc, NOT(same_idx)),
        }

    def header_axioms(self):
        """equal prefixes have equal header fields"""
        s1, s2 = self.s
        g = 1
        for k in s1.end:
            n = s1.end[k][1]
            x = beq(bsub(s1.b, ZERO, const(n)), bsub(s2.b, ZERO, const(n)))
            for f in ('var', 'slot', 'index', 'version', 'fec', 'flags', 'nd', 'nc', 'pos'):
                g = AND(g, imp(x, eq(getattr(s1, f), getattr(s2, f)))) if f not in ('var',) else g
        return g
