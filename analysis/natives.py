"""Models of library primitives (core, alloc, Solana runtime interface).

Each handler gets (I, st, inst, args, ci, dtid), mutates st and returns the
result value, or NotImplemented to fall back to analysing the body.
"""
import re
from values import *
from terms import *
import terms as TM

_H = []


def native(*pats):
    def deco(f):
        for p in pats:
            _H.append((re.compile(p), f))
        return f
    return deco


class Natives:
    @staticmethod
    def cell_slices(I, p, st):
        return cell_slices(I, p, st)

    def __init__(self, extra=()):
        self.h = list(extra) + _H

    def lookup(self, I, inst):
        p = I.p.I[inst]['path']
        for r, f in self.h:
            if r.search(p):
                return f
        return None


# ---------------------------------------------------------------- helpers
def adopt(st, s2):
    if s2 is None:
        st.pc = 0
    else:
        st.pc, st.mem = s2.pc, s2.mem


def ints(I, v):
    return [(c, l) for c, l in I.items(v) if isinstance(l, Lin)]


def slices(I, v, st):
    """[(guard, slice Ptr)] for a value of type &[T] / &mut [T] / &str / &[T; N] / &Vec"""
    out = []
    for c, l in I.items(v):
        if AND(c, st.pc) == 0:
            continue
        if isinstance(l, Ptr) and l.kind == 'slice':
            out.append((c, l))
        elif isinstance(l, Ptr) and l.kind == 'cell':
            out.extend((AND(c, g), p) for g, p in cell_slices(I, l, st))
        elif isinstance(l, (Agg, Nat)) and l.f:
            out.extend((AND(c, g), p) for g, p in slices(I, l.f[0], st))
        else:
            I.note('slice', repr(l)[:100])
    return out


def cell_slices(I, p, st):
    """slices of the array / vector a cell pointer designates"""
    cid, path = p.a
    v = I.read_path(I.cell(st, cid), path, st)
    return content_slices(I, cid, path, v, st)


def content_slices(I, cid, path, v, st):
    if type(v) is Sym:
        v = I.p.expand(v)
    if type(v) is Nat and v.kind == 'vec':
        return content_slices2(I, cid, path + (('n', 0),), v.f[0], v.tag)
    if type(v) is G and all(isinstance(l, Nat) and l.kind == 'vec' for _, l in v.items):
        out = []
        for c, l in v.items:
            out += [(AND(c, g), s) for g, s in content_slices2(I, cid, path + (('n', 0),), l.f[0], l.tag)]
        return out
    if type(v) is G and all(isinstance(l, Ptr) for _, l in v.items):
        out = []
        for c, l in v.items:
            out += [(AND(c, g), s) for g, s in slices(I, leaf(l), st)]
        return out
    if type(v) is G and any(isinstance(l, Bytes) for _, l in v.items):
        return content_slices2(I, cid, path, v, I.p.u8())
    if type(v) is Agg:
        return content_slices2(I, cid, path, v, None)
    if type(v) is Nat and v.kind == 'symseq':
        return content_slices2(I, cid, path, v, v.tag[1])
    I.note('slice of', repr(v)[:100])
    return []


def content_slices2(I, cid, path, c, elem):
    return [(g, ptr('slice', cid, path, ZERO, n, elem)) for g, n in content_len(I, c)]


def content_len(I, c):
    """[(guard, Lin)] length of a vector content"""
    if type(c) is Sym:
        c = I.p.expand(c)
    if type(c) is Agg:
        return [(1, const(len(c.f)))]
    if type(c) is Nat and c.kind == 'symseq':
        return list(c.f[0].items)
    if type(c) is Nat and c.kind == 'subseq':
        return list(I.items(c.f[2]))
    if type(c) is G:
        d = []
        for g, l in c.items:
            if isinstance(l, Bytes):
                d.append((g, l.len))
            else:
                d += [(AND(g, g2), n) for g2, n in content_len(I, l)]
        return d
    if c is UNINIT:
        return [(1, ZERO)]
    return [(1, of(TM.atom('len', (c,), 0, LEN_MAX)))]


def slice_len(I, v, st):
    return mkG([(c, p.a[3]) for c, p in slices(I, v, st)])


def elem_ptr(I, p, ix, st):
    """[(guard, Ptr)] element ix (relative) of a slice pointer"""
    pos = add(p.a[2], ix)
    el = p.a[4]
    if el is None or not I.p.is_u8(el):
        if not pos.t:
            return [(1, ptr('cell', p.a[0], p.a[1] + (('e', pos.c),)))]
        return [(g, I.ptr_of(l)) for g, l in I.symidx(1, p.a[0], p.a[1], pos, el, st)]
    return [(1, ptr('view', p.a[0], p.a[1], pos, el))]


def subptr(p, a, n):
    return ptr('slice', p.a[0], p.a[1], add(p.a[2], a), n, p.a[4])


def opt(I, tid, g, v):
    """Option value: Some(v) under g"""
    T = I.p.T[tid]
    if T['k'] != 'adt':
        raise Exception('option type ' + T['s'])
    s, n = I.p.var(tid, 'Some'), I.p.var(tid, 'None')
    return mkEnum(tid, {s: (g, (v,)), n: (NOT(g), ())})


def res(I, tid, g, ok, err):
    return mkEnum(tid, {I.p.var(tid, 'Ok'): (g, (ok,)), I.p.var(tid, 'Err'): (NOT(g), (err,))})


def content_of(I, v, st):
    """content (Bytes G / Agg / symseq) of a slice value"""
    r = None
    for c, p in slices(I, v, st):
        x = I.load(('s', p), st)
        r = x if r is None else ite(c, x, r, I.p)
    return r if r is not None else UNINIT


def bytes_of(I, v, st):
    return I.as_bytes(content_of(I, v, st))


def decided(g, pc):
    return AND(g, pc) == 0 or AND(NOT(g), pc) == 0


def ret_ty(I, inst, dtid):
    if dtid is not None:
        return dtid
    b = I.p.I[inst]['body']
    return b['locals'][0] if b else None


# ---------------------------------------------------------------- panics
@native(r'^core::panicking::', r'unwrap_failed$', r'expect_failed$', r'^core::slice::index::slice_', r'len_mismatch_fail',
        r'^std::rt::begin_panic', r'^core::cell::panic', r'^std::process::abort', r'handle_alloc_error',
        r'^alloc::raw_vec::handle_error', r'^core::str::slice_error_fail', r'assert_failed', r'capacity_overflow',
        r'panic_const', r'^std::panicking::', r'::do_panic')
def h_panic(I, st, inst, args, ci, d):
    p = I.p.I[inst]['path']
    if p.startswith('core::panicking::panic_nounwind') or 'assert_inhabited' in p:
        st.pc = 0
        return UNINIT
    g = I.stack.pop()
    I.panic(st, 1, p)
    I.stack.append(g)
    st.pc = 0
    return UNINIT


@native(r'::precondition_check$', r'^std::intrinsics::assert_', r'^std::intrinsics::cold_path', r'^std::hint::assert_unchecked',
        r'^std::intrinsics::assume', r'^std::hint::cold_path')
def h_nop(I, st, inst, args, ci, d):
    return UNIT


@native(r'^std::hint::must_use', r'^std::hint::black_box', r'^std::intrinsics::black_box', r'^std::convert::identity',
        r'^std::intrinsics::likely', r'^std::intrinsics::unlikely')
def h_ident(I, st, inst, args, ci, d):
    return args[0]


@native(r'^std::intrinsics::is_val_statically_known')
def h_false(I, st, inst, args, ci, d):
    return FALSE


@native(r'^std::mem::drop$', r'^std::mem::forget$', r'^core::ptr::drop_in_place', r'^std::ptr::drop_in_place')
def h_drop(I, st, inst, args, ci, d):
    return UNIT


# ---------------------------------------------------------------- formatting, logging
def strings(I, v, st, out, g, seen):
    """string contents reachable from a formatting argument"""
    if g == 0 or (v.id, g) in seen:
        return
    seen.add((v.id, g))
    if type(v) is Sym:
        todo = [v.name]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo += x
            elif isinstance(x, (G, Agg, Nat, Enum, Sym)):
                strings(I, x, st, out, g, seen)
        return
    if type(v) is G:
        for c, l in v.items:
            if isinstance(l, Bytes):
                out.append((AND(g, c), l))
            if isinstance(l, Ptr):
                if l.kind == 'slice' and I.p.is_u8(l.a[4]):
                    for c2, b in I.items(I.slice_bytes(l, st)):
                        out.append((AND(AND(g, c), c2), b))
                elif l.kind == 'cell':
                    x = st.mem.get(l.a[0], I.p.cells.get(l.a[0]))
                    if x is not None:
                        strings(I, I.read_path(x, l.a[1], st), st, out, AND(g, c), seen)
            elif isinstance(l, (Agg, Nat, Enum)):
                strings(I, l, st, out, AND(g, c), seen)
    elif type(v) in (Agg, Nat):
        for x in v.f:
            strings(I, x, st, out, g, seen)
    elif type(v) is Enum:
        for c, f in v.v.values():
            for x in f:
                strings(I, x, st, out, AND(g, c), seen)


@native(r'^core::fmt::', r'^std::fmt::', r'log::sol_log$', r'log::__private_api', r'^std::io::_e?print', r'^std::io::stdio::')
def h_fmt(I, st, inst, args, ci, d):
    d = ret_ty(I, inst, d)
    if d is None or I.p.T[d]['k'] == 'tuple' and not I.p.T[d]['fields']:
        return UNIT
    t = I.p.T[d]
    path = I.p.I[inst]['path']
    if 'Formatter' in path and ('write' in path or 'pad' in path):
        out = []
        for x in args[1:]:
            strings(I, x, st, out, 1, set())
        I.effect(st, 'fmt', (path,) + tuple(args)).strs = out
    if t['s'].startswith('std::result::Result<()') or t['s'] == 'std::fmt::Result':
        return res(I, d, 1, UNIT, UNIT)
    return mkSym(d, ('fmt', path) + tuple(args))


@native(r'^std::fmt::format$', r'::to_string$', r'^alloc::fmt::format$')
def h_format(I, st, inst, args, ci, d):
    d = ret_ty(I, inst, d)
    return mkSym(d, ('fmt', I.p.I[inst]['path']) + tuple(args))


# ---------------------------------------------------------------- integers
_IB = {'u8': (8, 0), 'u16': (16, 0), 'u32': (32, 0), 'u64': (64, 0), 'u128': (128, 0), 'usize': (64, 0),
       'i8': (8, 1), 'i16': (16, 1), 'i32': (32, 1), 'i64': (64, 1), 'i128': (128, 1), 'isize': (64, 1)}


@native(r'^core::num::<impl [ui](8|16|32|64|128|size)>::\w+$')
def h_num(I, st, inst, args, ci, d):
    path = I.p.I[inst]['path']
    m = re.match(r'^core::num::<impl (\w+)>::(\w+)$', path)
    ty, fn = m.group(1), m.group(2)
    bits, signed = _IB[ty]
    signed = bool(signed)
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    n = bits // 8
    d = ret_ty(I, inst, d)
    mm = re.match(r'^(checked|saturating|wrapping|overflowing|unchecked|strict)_(add|sub|mul|div|rem)$', fn)
    if mm:
        how, o = mm.groups()
        if o in ('div', 'rem'):
            z = I.guard(mkG([(c, l) for c, l in ints(I, args[1])]))   # non zero
            if how == 'checked':
                raw = I.lift2(args[0], args[1], lambda x, y: I.arith(o, x, y, bits, signed), st)
                return opt(I, d, z, raw)
            return NotImplemented
        raw = I.lift2(args[0], args[1], lambda x, y: I.arith(o, x, y, bits, signed), st)
        if raw is UNINIT:
            return NotImplemented
        ov = I.overflow(raw, bits, signed)
        if how == 'checked':
            return opt(I, d, NOT(ov), mkG([(c, clamp(l, lo, hi)) for c, l in raw.items]))
        if how == 'wrapping':
            return I.wrapv(raw, bits, signed)
        if how == 'overflowing':
            return mkAgg([I.wrapv(raw, bits, signed), mkB(ov)])
        if how == 'saturating':
            out = []
            for c, l in raw.items:
                up, dn = TM.lt(const(hi), l), TM.lt(l, const(lo))
                out += [(AND(c, up), const(hi)), (AND(c, dn), const(lo)), (AND(c, NOT(OR(up, dn))), l)]
            return mkG(out)
        if how == 'unchecked':
            return raw
        if how == 'strict':
            I.panic(st, ov, 'overflow in ' + fn)
            return raw
    if fn in ('to_le_bytes', 'to_ne_bytes', 'to_be_bytes'):
        k = 'b' if fn == 'to_be_bytes' else 'i'
        return mkG([(c, mkbytes([(k, l, n)])) for c, l in ints(I, args[0])])
    if fn in ('from_le_bytes', 'from_ne_bytes', 'from_be_bytes'):
        b = I.as_bytes(args[0])
        if fn == 'from_be_bytes':
            return mkG([(c, int_be(x, n)) for c, x in I.items(b)])
        return mkG([(c, int_le(x, n, signed)) for c, x in I.items(b) if isinstance(x, Bytes)])
    if fn in ('to_le', 'from_le'):
        return args[0]
    if fn in ('swap_bytes', 'to_be', 'from_be'):
        return mkG([(c, int_be(mkbytes([('i', l, n)]), n)) for c, l in ints(I, args[0])])
    if fn in ('abs_diff',) and not signed:
        g = I.compare('Lt', args[0], args[1], st, None)
        return ite(g, I.lift2(args[1], args[0], sub, st), I.lift2(args[0], args[1], sub, st), I.p)
    if fn in ('count_ones', 'leading_zeros', 'trailing_zeros', 'ilog2'):
        f = {'count_ones': lambda v: bin(v).count('1'), 'leading_zeros': lambda v: bits - v.bit_length(),
             'trailing_zeros': lambda v: bits if v == 0 else (v & -v).bit_length() - 1,
             'ilog2': lambda v: max(0, v.bit_length() - 1)}[fn]
        return mkG([(c, unary(fn, l, f, 0, bits)) for c, l in ints(I, args[0])])
    if fn == 'pow':
        out = []
        for c, l in ints(I, args[0]):
            for c2, e in ints(I, args[1]):
                if not e.t and e.c <= 8:
                    r = ONE
                    for _ in range(e.c):
                        r = mul(r, l)
                    out.append((AND(c, c2), r))
                elif not l.t and small_root(e) is not None:
                    rt = small_root(e)
                    out.append((AND(c, c2), from_table(rt, [l.c ** max(0, x) for x in table(e, rt)])))
                else:
                    out.append((AND(c, c2), TM.op('pow', (l, e), 0, hi)))
        raw = mkG(out)
        ov = I.overflow(raw, bits, signed)
        I.panic(st, ov, 'overflow in pow')
        return raw
    if fn == 'rem_euclid' and not signed:
        return NotImplemented
    return NotImplemented


def clamp(l, lo, hi):
    return l


def unary(name, l, f, lo, hi):
    if not l.t:
        return const(f(l.c))
    r = small_root(l)
    if r is not None:
        return from_table(r, [f(v) for v in table(l, r)])
    return TM.op(name, (l,), lo, hi)


@native(r'^std::intrinsics::(saturating_add|saturating_sub|integer_min|integer_max|bswap|ctpop|ctlz|cttz|size_of_val|raw_eq|compare_bytes|exact_div|unchecked_\w+|wrapping_\w+|add_with_overflow|sub_with_overflow|mul_with_overflow|rotate_left|rotate_right|three_way_compare|size_of|min_align_of|transmute)$')
def h_intr(I, st, inst, args, ci, d):
    f = I.p.I[inst]
    fn = f['path'].rsplit('::', 1)[1]
    t = I.p.T[f['targs'][0]] if f['targs'] else None
    if fn in ('integer_min', 'integer_max'):
        g = I.compare('Lt' if fn == 'integer_min' else 'Gt', args[0], args[1], st, None)
        return ite(g, args[0], args[1], I.p)
    if t and t['k'] == 'int':
        bits, signed = t['bits'], t['signed']
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        m = re.match(r'(saturating|wrapping|unchecked)_(add|sub|mul)$', fn) or None
        if m or fn.endswith('_with_overflow'):
            o = m.group(2) if m else fn[:3]
            raw = I.lift2(args[0], args[1], lambda x, y: I.arith(o, x, y, bits, signed), st)
            ov = I.overflow(raw, bits, signed)
            if fn.endswith('_with_overflow'):
                return mkAgg([I.wrapv(raw, bits, signed), mkB(ov)])
            if m.group(1) != 'saturating':
                return I.wrapv(raw, bits, signed)
            out = []
            for c, l in raw.items:
                up, dn = TM.lt(const(hi), l), TM.lt(l, const(lo))
                out += [(AND(c, up), const(hi)), (AND(c, dn), const(lo)), (AND(c, NOT(OR(up, dn))), l)]
            return mkG(out)
        if fn == 'bswap':
            n = bits // 8
            return mkG([(c, int_be(mkbytes([('i', l, n)]), n)) for c, l in ints(I, args[0])])
        ff = {'ctpop': lambda v: bin(v).count('1'), 'ctlz': lambda v: bits - v.bit_length(),
              'cttz': lambda v: bits if v == 0 else (v & -v).bit_length() - 1}.get(fn)
        if ff:
            return mkG([(c, unary(fn, l, ff, 0, bits)) for c, l in ints(I, args[0])])
    if fn == 'size_of' and f['targs']:
        s = I.p.size(f['targs'][0])
        return mkI(s) if s is not None else NotImplemented
    if fn == 'raw_eq':
        a, b = I.deref_load(args[0], st), I.deref_load(args[1], st)
        return mkB(val_eq(I, a, b, st))
    if fn == 'size_of_val' and t and t['k'] in ('slice', 'str'):
        es = 1 if t['k'] == 'str' else I.p.size(t['elem'])
        if es is not None:
            return mkG([(c, scale(p.a[3], es)) for c, p in slices(I, args[0], st)])
    return NotImplemented


@native(r'^std::mem::size_of$', r'^std::mem::align_of$', r'pod_get_packed_len$')
def h_sizeof(I, st, inst, args, ci, d):
    f = I.p.I[inst]
    s = I.p.size(f['targs'][0]) if 'align' not in f['path'] else I.p.align(f['targs'][0])
    return mkI(s) if s is not None else NotImplemented


def val_eq(I, a, b, st):
    """structural equality guard of two values"""
    if a is b:
        return 1
    if type(a) is Sym:
        a = I.p.expand(a)
    if type(b) is Sym:
        b = I.p.expand(b)
    if type(a) is Agg and type(b) is Agg and len(a.f) == len(b.f):
        r = 1
        for x, y in zip(a.f, b.f):
            r = AND(r, val_eq(I, x, y, st))
            if r == 0:
                return 0
        return r
    if type(a) is B or type(b) is B:
        return bdd.IFF(I.guard(a), I.guard(b))
    if type(a) is Enum and type(b) is Enum:
        r = 0
        for k, (c, f) in a.v.items():
            if k in b.v:
                c2, f2 = b.v[k]
                g = AND(c, c2)
                for x, y in zip(f, f2):
                    if g == 0:
                        break
                    g = AND(g, val_eq(I, x, y, st))
                r = OR(r, g)
        return r
    if (type(a) is Agg) != (type(b) is Agg):
        a, b = I.as_bytes(a), I.as_bytes(b)
    return I.compare('Eq', a, b, st, None)


# ---------------------------------------------------------------- comparisons
@native(r'^core::slice::cmp::<impl std::cmp::PartialEq<\[U\]> for \[T\]>::(eq|ne)$',
        r'^std::array::equality::<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)$',
        r'^core::array::equality::<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)$',
        r'SlicePartialEq<.*>>::(equal|not_equal)$', r'SpecArrayEq<.*>>::spec_(eq|ne)$',
        r'^core::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)$',
        r'^alloc::vec::partial_eq::<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)$',
        r'^std::vec::partial_eq::<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)$',
        r'^<std::string::String as std::cmp::PartialEq.*>::(eq|ne)$',
        r'^(alloc|std)::string::<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)$')
def h_eq(I, st, inst, args, ci, d):
    p = I.p.I[inst]['path']
    neg = p.endswith('ne') or p.endswith('not_equal')
    vals = []
    tys = (ci or {}).get('atys') or [None, None]
    for a, ty in zip(args, list(tys) + [None] * 2):
        # &[u8], &[u8; N], &&[u8], &Vec<u8>, &str, &String
        vals.append(seq_content(I, a, st))
    g = val_eq(I, I.as_bytes(vals[0]) if isbyt(vals[0]) else vals[0], I.as_bytes(vals[1]) if isbyt(vals[1]) else vals[1], st)
    return mkB(NOT(g) if neg else g)


def isbyt(v):
    return type(v) is G and any(isinstance(l, Bytes) for _, l in v.items)


def seq_content(I, v, st):
    """content behind any number of references / vectors"""
    for _ in range(6):
        if type(v) is Sym:
            v = I.p.expand(v)
        if type(v) is Nat and v.kind == 'vec':
            v = v.f[0]
            continue
        if type(v) is G and v.items and all(isinstance(l, Ptr) for _, l in v.items):
            if all(l.kind == 'slice' for _, l in v.items):
                v = content_of(I, v, st)
            else:
                v = I.deref_load(v, st)
            continue
        if type(v) is G and all(isinstance(l, Nat) and l.kind == 'vec' for _, l in v.items):
            r = None
            for c, l in v.items:
                r = l.f[0] if r is None else ite(c, l.f[0], r, I.p)
            v = r
            continue
        break
    return v


# ---------------------------------------------------------------- slices
@native(r'^core::slice::<impl \[T\]>::(len|is_empty)$', r'^core::str::<impl str>::(len|is_empty)$', r'^std::ptr::metadata$')
def h_len(I, st, inst, args, ci, d):
    p = I.p.I[inst]['path']
    t = I.p.T[d] if d is not None else None
    n = slice_len(I, args[0], st)
    if not n.items:
        return NotImplemented
    if p.endswith('is_empty'):
        return mkB(I.compare('Eq', n, mkI(0), st, None))
    return n


@native(r'^core::slice::<impl \[T\]>::(as_ptr|as_mut_ptr|as_ptr_range)$', r'^core::str::<impl str>::(as_ptr|as_bytes)$',
        r'^core::str::<impl str>::as_bytes$', r'^(std|core)::str::from_utf8_unchecked')
def h_asptr(I, st, inst, args, ci, d):
    p = I.p.I[inst]['path']
    if 'as_bytes' in p or 'from_utf8' in p:
        return args[0]
    if 'range' in p:
        return NotImplemented
    out = []
    for c, s in slices(I, args[0], st):
        for g, e in elem_ptr_or_base(I, s, st):
            out.append((AND(c, g), e))
    return mkG(out) if out else NotImplemented


def elem_ptr_or_base(I, s, st):
    el = s.a[4]
    if el is not None and I.p.is_u8(el) or not s.a[2].t:
        return elem_ptr(I, s, ZERO, st)
    return [(1, s)]


@native(r'^core::slice::<impl \[T\]>::(iter|iter_mut)$', r"IntoIterator for &('a )?(mut )?(\[T\]|\[T; N\]|std::vec::Vec<T, A>)>::into_iter$",
        r"^<&('a )?(mut )?(std::vec::Vec<T, A>|\[T\]|\[T; N\]) as std::iter::IntoIterator>::into_iter$",
        r'^std::slice::(Iter|IterMut)::<.*>::new$')
def h_iter(I, st, inst, args, ci, d):
    it = [(c, p) for c, p in slices(I, args[0], st)]
    if not it:
        return NotImplemented
    if all(p.a[2] is ZERO for c, p in it):
        return mkNat('siter', [mkG(it), mkI(0), mkG([(c, p.a[3]) for c, p in it])], 's')
    return mkNat('siter', [mkG(it), mkI(0), mkG([(c, p.a[3]) for c, p in it])], 's')


@native(r'^core::slice::<impl \[T\]>::(chunks|chunks_exact|chunks_mut|chunks_exact_mut|windows)$')
def h_chunks(I, st, inst, args, ci, d):
    k = I.p.I[inst]['path'].rsplit('::', 1)[1]
    k = k.replace('_mut', '')
    it = slices(I, args[0], st)
    n = args[1]
    I.panic(st, I.compare('Eq', n, mkI(0), st, None), 'chunk size is zero')
    ln = mkG([(c, p.a[3]) for c, p in it])
    if k == 'chunks_exact':
        # the remainder is cut off
        ln = I.lift2(ln, n, lambda x, y: sub(x, I.arith('rem', x, y, 64, False)), st)
    return mkNat('chunks', [mkG(it), mkI(0), ln, n], k)


@native(r'^<std::slice::(Chunks|ChunksExact|ChunksMut|ChunksExactMut|Windows)<.*> as std::iter::Iterator>::next$')
def h_chunks_next(I, st, inst, args, ci, d):
    return adv(I, st, args[0], ret_ty(I, inst, d), False)


@native(r'^<std::slice::(Iter|IterMut)<.*> as std::iter::Iterator>::next$',
        r'^<std::vec::IntoIter<.*> as std::iter::Iterator>::next$',
        r'^<std::array::IntoIter<.*> as std::iter::Iterator>::next$',
        r'^std::iter::range::<impl std::iter::Iterator for std::ops::Range(Inclusive)?<A>>::next$')
def h_next(I, st, inst, args, ci, d):
    return adv(I, st, args[0], ret_ty(I, inst, d), False)


@native(r'^<std::slice::(Iter|IterMut)<.*> as std::iter::DoubleEndedIterator>::next_back$',
        r'^<std::vec::IntoIter<.*> as std::iter::DoubleEndedIterator>::next_back$',
        r'^<std::array::IntoIter<.*> as std::iter::DoubleEndedIterator>::next_back$',
        r'^std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range(Inclusive)?<A>>::next_back$')
def h_next_back(I, st, inst, args, ci, d):
    return adv(I, st, args[0], ret_ty(I, inst, d), True)


def adv(I, st, itp, d, back):
    """advance the iterator a pointer designates; Option result of type d"""
    r = adv2(I, st, itp, d, back)
    return NotImplemented if r is None else opt(I, d, r[0], r[1])


def adv2(I, st, itp, d, back):
    """the same as (guard of Some, item)"""
    v = I.deref_load(itp, st)
    x, has, nv = step(I, st, v, d, back)
    if x is None:
        return None
    has = has_next(I, v, has, st)
    I.deref_store(itp, ite(has, nv, v, I.p) if has != 1 else nv, st)
    return has, x


def has_next(I, v, has, st):
    """has, decided if possible; tells the loop whether its length is known"""
    if not decided(has, st.pc):
        if TM.theory_sat(AND(has, st.pc), False) == 0:
            has = 0
        elif TM.theory_sat(AND(NOT(has), st.pc), False) == 0:
            has = 1
        else:
            I.sym_next = True
            return has
    lo, hi = (v.f[1], v.f[2]) if type(v) is Nat and v.kind == 'siter' else (v.f[0], v.f[1]) if type(v) is Agg and len(v.f) == 2 else (None, None)
    if lo is not None and all(isinstance(l, Lin) and not l.t for x in (lo, hi) for _, l in I.items(x)):
        # a short list of known length is gone through element by element
        I.known_next = max(h.c for _, h in I.items(hi)) - min(l.c for _, l in I.items(lo)) <= 16
    return has


def step(I, st, v, d, back):
    if type(v) is Nat and v.kind == 'siter':
        pos, end = v.f[1], v.f[2]
        has = I.compare('Lt', pos, end, st, None)
        ix = I.lift2(end, mkI(1), sub, st) if back else pos
        out = []
        val = None
        for c, p in I.items(v.f[0]):
            for c2, i in ints(I, ix):
                g = AND(c, c2)
                if AND(AND(g, st.pc), has) == 0:
                    continue
                if v.tag == 's':
                    out += [(AND(g, g2), e) for g2, e in elem_ptr(I, p, i, st)]
                else:
                    for g2, e in elem_ptr(I, p, i, st):
                        g3 = AND(g, g2)
                        x = I.deref_load(leaf(e), st)
                        val = x if val is None else ite(g3, x, val, I.p)
        x = val if v.tag != 's' else mkG(out)
        if x is None:
            x = UNINIT
        if back:
            nv = mkNat('siter', [v.f[0], pos, ix], v.tag)
        else:
            nv = mkNat('siter', [v.f[0], I.lift2(pos, mkI(1), add, st), end], v.tag)
        return x, has, nv
    if type(v) is Nat and v.kind == 'chunks' and not back:
        sl, pos, end, n = v.f
        if v.tag == 'windows':
            has = I.compare('Le', I.lift2(pos, n, add, st), end, st, None)
            ln = n
            nxt = I.lift2(pos, mkI(1), add, st)
        else:
            has = I.compare('Lt', pos, end, st, None)
            rest = I.lift2(end, pos, sub, st)
            full = I.compare('Le', n, rest, st, None) if v.tag == 'chunks' else 1
            # the last chunk of `chunks` may be shorter
            pcx = AND(st.pc, has)
            if full != 1 and TM.theory_sat(AND(pcx, NOT(full)), True) == 0:
                full = 1
            ln = ite(full, n, rest, I.p) if full != 1 else n
            # past the end after a shorter last chunk
            nxt = I.lift2(pos, n, add, st)
        out = []
        for c, p in I.items(sl):
            for c2, i in ints(I, pos):
                for c3, m in ints(I, ln):
                    g = AND(AND(c, c2), c3)
                    if g:
                        out.append((g, subptr(p, i, m)))
        return mkG(out), has, mkNat('chunks', [sl, nxt, end, n], v.tag)
    if type(v) is Agg and not all(isinstance(l, Lin) for x in v.f[:2] for _, l in I.items(x)):
        return None, 0, None
    if type(v) is Agg and len(v.f) == 2:      # Range { start, end }
        has = I.compare('Lt', v.f[0], v.f[1], st, None)
        if back:
            x = I.lift2(v.f[1], mkI(1), sub, st)
            return x, has, mkAgg([v.f[0], x])
        return v.f[0], has, mkAgg([I.lift2(v.f[0], mkI(1), add, st), v.f[1]])
    if type(v) is Agg and len(v.f) == 3:      # RangeInclusive { start, end, exhausted }
        ex = I.guard(v.f[2])
        has = AND(NOT(ex), I.compare('Le', v.f[0], v.f[1], st, None))
        last = I.compare('Eq', v.f[0], v.f[1], st, None)
        if back:
            return v.f[1], has, mkAgg([v.f[0], ite(last, v.f[1], I.lift2(v.f[1], mkI(1), sub, st), I.p), mkB(OR(ex, last))])
        return v.f[0], has, mkAgg([ite(last, v.f[0], I.lift2(v.f[0], mkI(1), add, st), I.p), v.f[1], mkB(OR(ex, last))])
    return None, 0, None


def next_inst(I, tid):
    """instance of Iterator::next for an iterator type"""
    for i, f in enumerate(I.p.I):
        if f['path'].endswith('Iterator>::next') or f['path'].endswith('Iterator::next') or f['path'].endswith('::next'):
            b = f['body']
            if b and b['args'] == 1:
                t = I.p.T[b['locals'][1]]
                if t['k'] == 'ref' and t['to'] == tid:
                    return i
    return None


def iter_next(I, st, itp, tid):
    """(Option value) of calling next on the iterator behind pointer itp of type tid"""
    v = I.deref_load(itp, st)
    it = I.p.T[tid]
    if it['k'] == 'ref':
        return iter_next(I, st, v, it['to'])
    inst = next_inst(I, tid)
    if inst is None:
        return None
    r, s = I.call_inst(inst, [itp], st, 'next', None, I.p.I[inst]['body']['locals'][0])
    adopt(st, s)
    return r


def drive(I, st, itv, ittid, acc, stepf, name, back=None):
    """acc = stepf(acc, item) over an iterator value; stepf(acc, item, st) -> (acc, st, break guard)"""
    if type(itv) is Nat and itv.kind in ('siter', 'chunks') or I.p.T[ittid]['s'].startswith('std::ops::Range'):
        nxt = None
    else:
        nxt = next_inst(I, ittid)
        if nxt is None:
            return None
    ic = I.new_cell(st, itv, ittid, tag='it')
    ac = I.new_cell(st, acc, tag='acc')
    od = None

    def run(s):
        if nxt is None:
            v = I.cell(s, ic)
            x, has, nv = step(I, s, v, None, False)
            has = has_next(I, v, has, s)
            s.mem[ic] = nv
        else:
            r, s2 = I.call_inst(nxt, [leaf(ptr('cell', ic, ()))], s, name, None, I.p.I[nxt]['body']['locals'][0])
            if s2 is None:
                return [], None
            s = s2
            so = I.p.var(r.tid, 'Some')
            has, x = (r.v[so][0], r.v[so][1][0]) if so in r.v else (0, UNINIT)
        outs = []
        if AND(s.pc, NOT(has)) != 0:
            e = s.copy()
            e.pc = AND(s.pc, NOT(has))
            outs.append(('x', e))
        s.pc = AND(s.pc, has)
        if s.pc == 0:
            return outs, None
        a, s, brk = stepf(I.cell(s, ac), x, s)
        if s is None:
            return outs, None
        s.mem[ac] = a
        if AND(s.pc, brk) != 0:
            e = s.copy()
            e.pc = AND(s.pc, brk)
            outs.append(('x', e))
            s.pc = AND(s.pc, NOT(brk))
        return outs, (s if s.pc != 0 else None)
    outs = I.loop(run, st.copy(), name)
    m = I.merge([s for _, s in outs])
    adopt(st, m)
    if m is None:
        return UNINIT
    r = m.mem.pop(ac)
    nv = m.mem.pop(ic, None)
    st.mem.pop(ac, None)
    st.mem.pop(ic, None)
    if back is not None:
        I.deref_store(back, nv, st)
    return r


def call_mut(I, st, fc, ftid, cargs, name):
    """call the FnMut kept in cell fc; its own state stays in the cell"""
    cf = I.p.T[ftid]
    if cf['k'] == 'closure':
        byref = I.p.T[I.p.I[cf['inst']]['body']['locals'][1]]['k'] == 'ref'
        v = leaf(ptr('cell', fc, ())) if byref else I.cell(st, fc)
        return I.closure_body(cf, v, byref, cargs, st, name, None)
    return I.call_closure((I.cell(st, fc), ftid), cargs, st, name)


@native(r'^<std::slice::(Iter|IterMut|Chunks|ChunksExact|Windows)<.*> as std::iter::Iterator>::(any|all|position|find|find_map|last|nth)$',
        r'^<std::(vec|array)::IntoIter<.*> as std::iter::Iterator>::(any|all|position|find|find_map|last|nth)$',
        r'^std::iter::Iterator::(any|all|position|find|find_map|last)$')
def h_search(I, st, inst, args, ci, d):
    f = I.p.I[inst]
    b = f['body']
    if not b:
        return NotImplemented
    fn = f['path'].rsplit('::', 1)[1]
    d = ret_ty(I, inst, d)
    if fn == 'last':
        itv, tid, back = args[0], b['locals'][1], None
    else:
        back = args[0]
        itv, tid = I.deref_load(back, st), I.p.T[b['locals'][1]]['to']
    if type(itv) is not Nat:
        return NotImplemented
    if fn == 'nth':
        its = ints(I, args[1])
        if len(its) != 1 or its[0][1].t or its[0][1].c > 64:
            return NotImplemented
        has = 1
        for _ in range(its[0][1].c + 1):
            r = adv(I, st, back, d, False)
            if r is NotImplemented or r is None:
                return NotImplemented
        return r
    if fn != 'last':
        fc = I.new_cell(st, args[1], tag='fn')
        ftid = b['locals'][2]
    none = opt(I, d, 0, UNINIT) if fn not in ('any', 'all') else None
    if fn in ('any', 'all'):
        acc = mkB(0 if fn == 'any' else 1)
    elif fn == 'position':
        acc = mkAgg([mkI(0), none])
    else:
        acc = none

    def stepf(acc, x, s):
        if fn == 'last':
            return opt(I, d, 1, x), s, 0
        arg = x
        if fn == 'find':
            arg = leaf(ptr('cell', I.new_cell(s, x, tag='item'), ()))
        r, s = call_mut(I, s, fc, ftid, [arg], f['path'])
        if s is None:
            return acc, None, 0
        if fn == 'find_map':
            if type(r) is Sym:
                r = I.p.expand(r)
            if type(r) is not Enum:
                raise Unsupported('find_map')
            so = I.p.var(r.tid, 'Some')
            g = r.v[so][0] if so in r.v else 0
            return ite(g, r, acc, I.p), s, g
        g = I.guard(r)
        if fn == 'any':
            return mkB(OR(I.guard(acc), g)), s, g
        if fn == 'all':
            return mkB(AND(I.guard(acc), g)), s, NOT(g)
        if fn == 'find':
            return ite(g, opt(I, d, 1, x), acc, I.p), s, g
        i = acc.f[0]
        return mkAgg([ite(g, i, I.lift2(i, mkI(1), add, s), I.p), ite(g, opt(I, d, 1, i), acc.f[1], I.p)]), s, g
    r = drive(I, st, itv, tid, acc, stepf, f['path'], back)
    if r is None:
        return NotImplemented
    return r.f[1] if fn == 'position' and type(r) is Agg else r


@native(r'^<std::slice::(Iter|IterMut)<.*> as std::iter::Iterator>::(fold|for_each)$',
        r'^<std::(vec|array)::IntoIter<.*> as std::iter::Iterator>::(fold|for_each)$',
        r'^<std::slice::(Chunks|ChunksExact|Windows)<.*> as std::iter::Iterator>::(fold|for_each)$')
def h_fold(I, st, inst, args, ci, d):
    f = I.p.I[inst]
    b = f['body']
    if not b:
        return NotImplemented
    each = f['path'].endswith('for_each')
    fi = 1 if each else 2
    ftid = b['locals'][fi + 1]
    fc = I.new_cell(st, args[fi], tag='fn')

    def stepf(acc, x, s):
        cargs = [x] if each else [acc, x]
        r, s = call_mut(I, s, fc, ftid, cargs, f['path'])
        return r, s, 0
    return drive(I, st, args[0], b['locals'][1], UNIT if each else args[1], stepf, f['path'])


@native(r'^<std::(vec|array)::IntoIter<.*> as std::iter::Iterator>::try_fold$')
def h_tryfold(I, st, inst, args, ci, d):
    f = I.p.I[inst]
    b = f['body']
    if not b:
        return NotImplemented
    d = ret_ty(I, inst, d)
    T = I.p.T[d]
    names = [v['name'] for v in T['variants']] if T['k'] == 'adt' else []
    go = [k for k, n in enumerate(names) if n in ('Continue', 'Ok', 'Some')]
    back = args[0]
    itv = I.deref_load(back, st)
    if len(go) != 1 or type(itv) is not Nat:
        return NotImplemented
    go = go[0]
    fc = I.new_cell(st, args[2], tag='fn')
    ftid = b['locals'][3]

    def stepf(acc, x, s):
        r, s = call_mut(I, s, fc, ftid, [acc.f[0], x], f['path'])
        if s is None:
            return acc, None, 0
        if type(r) is Sym:
            r = I.p.expand(r)
        if type(r) is not Enum:
            raise Unsupported('try_fold')
        g, v = r.v.get(go, (0, ()))
        return mkAgg([v[0] if g != 0 else acc.f[0], r]), s, NOT(g)
    r = drive(I, st, itv, I.p.T[b['locals'][1]]['to'], mkAgg([args[1], mkEnum(d, {go: (1, (args[1],))})]), stepf, f['path'], back)
    if r is None:
        return NotImplemented
    return r.f[1] if type(r) is Agg else r


@native(r'^std::array::<impl \[T; N\]>::map$')
def h_arrmap(I, st, inst, args, ci, d):
    f = I.p.I[inst]
    b = f['body']
    a = args[0]
    if type(a) is Sym:
        a = I.p.expand(a)
    t = I.p.T[b['locals'][1]]
    out = []
    fc = I.new_cell(st, args[1], tag='fn')
    ftid = b['locals'][2]
    cf = I.p.T[ftid]
    for i in range(t['len']):
        x = I.proj(a, ('e', i), st)
        if cf['k'] == 'closure':
            byref = I.p.T[I.p.I[cf['inst']]['body']['locals'][1]]['k'] == 'ref'
            v = leaf(ptr('cell', fc, ())) if byref else I.cell(st, fc)
            r, s = I.closure_body(cf, v, byref, [x], st, 'map', None)
        else:
            r, s = I.call_closure((I.cell(st, fc), ftid), [x], st, 'map')
        adopt(st, s)
        if s is None:
            return UNINIT
        out.append(r)
    rt = I.p.T[d if d is not None else b['locals'][0]]
    if rt['k'] == 'array' and I.p.is_u8(rt['elem']):
        return I.as_bytes(mkAgg(out))
    return mkAgg(out)


@native(r'^(std|core)::array::from_fn$')
def h_fromfn(I, st, inst, args, ci, d):
    f = I.p.I[inst]
    b = f['body']
    rt = I.p.T[d if d is not None else b['locals'][0]]
    ftid = b['locals'][1]
    out = []
    v = args[0]
    fc = I.new_cell(st, v, tag='fn')
    cf = I.p.T[ftid]
    for i in range(rt['len']):
        if cf['k'] == 'closure':
            byref = I.p.T[I.p.I[cf['inst']]['body']['locals'][1]]['k'] == 'ref'
            r, s = I.closure_body(cf, leaf(ptr('cell', fc, ())) if byref else I.cell(st, fc), byref, [mkI(i)], st, 'from_fn', None)
        else:
            r, s = I.call_closure((v, ftid), [mkI(i)], st, 'from_fn')
        adopt(st, s)
        if s is None:
            return UNINIT
        out.append(r)
    return I.as_bytes(mkAgg(out)) if I.p.is_u8(rt['elem']) else mkAgg(out)


@native(r'^<std::slice::Iter<.*> as std::iter::ExactSizeIterator>::len$')
def h_iterlen(I, st, inst, args, ci, d):
    v = I.deref_load(args[0], st)
    if type(v) is Nat and v.kind == 'siter':
        return I.lift2(v.f[2], v.f[1], sub, st)
    return NotImplemented


@native(r'^<std::slice::(Iter|IterMut|Chunks|ChunksExact)<.*> as std::iter::Iterator>::(size_hint|count)$',
        r'^<std::vec::IntoIter<.*> as std::iter::Iterator>::(size_hint|count)$')
def h_sizehint(I, st, inst, args, ci, d):
    p = I.p.I[inst]['path']
    v = args[0] if p.endswith('count') else I.deref_load(args[0], st)
    if type(v) is Nat and v.kind in ('siter', 'chunks'):
        n = I.lift2(v.f[2], v.f[1], sub, st)
        if v.kind == 'chunks':
            cs = v.f[3]
            if v.tag == 'chunks':
                n = I.lift2(I.lift2(n, cs, add, st), mkI(1), sub, st)
            n = I.lift2(n, cs, lambda x, y: I.arith('div', x, y, 64, False), st)
        if p.endswith('count'):
            return n
        d = ret_ty(I, inst, d)
        return mkAgg([n, opt(I, I.p.T[d]['fields'][1], 1, n)])
    return NotImplemented


@native(r'^<std::iter::Zip<A, B> as std::iter::adapters::zip::ZipImpl<A, B>>::new$')
def h_zipnew(I, st, inst, args, ci, d):
    return mkAgg([args[0], args[1], mkI(0), mkI(0)])


@native(r'^<std::iter::Zip<A, B> as std::iter::adapters::zip::ZipImpl<A, B>>::next$')
def h_zipnext(I, st, inst, args, ci, d):
    f = I.p.I[inst]
    d = ret_ty(I, inst, d)
    zt = I.p.T[f['body']['locals'][1]]['to']
    (n1, ta), (n2, tb) = I.p.fields(zt)[:2]
    v = None
    ptrs = [[], []]
    for c, loc in I.locs_deref(args[0], st, None):
        for i in (0, 1):
            if loc[0] != 'c':
                return NotImplemented
            ptrs[i].append((c, ptr('cell', loc[1], loc[2] + (('f', i),))))
    outs = []
    for i, tt in ((0, ta), (1, tb)):
        v = I.deref_load(mkG(ptrs[i]), st)
        x = None
        if type(v) is Nat or I.p.T[tt]['s'].startswith('std::ops::Range'):
            x = adv2(I, st, mkG(ptrs[i]), None, False)
        if x is None:
            r = iter_next(I, st, mkG(ptrs[i]), tt)
            if r is None:
                raise Unsupported('zip over ' + I.p.T[tt]['s'])
            so = I.p.var(r.tid, 'Some')
            x = (r.v[so][0], r.v[so][1][0]) if so in r.v else (0, UNINIT)
        if AND(st.pc, x[0]) == 0:
            # the second iterator is not advanced once the first is exhausted
            return opt(I, d, 0, UNINIT)
        outs.append(x)
    a, b = outs
    return opt(I, d, AND(a[0], b[0]), mkAgg([a[1], b[1]]))


def range_bounds(I, path, rng, n, st):
    """(start, end, ok guard builder) of an index range value against length n (all G)"""
    if type(rng) is Sym:
        rng = I.p.expand(rng)
    if 'RangeFull' in path:
        return mkI(0), n, 1
    if 'RangeToInclusive' in path:
        e = I.lift2(rng.f[0], mkI(1), add, st)
        return mkI(0), e, I.compare('Le', e, n, st, None)
    if 'RangeInclusive' in path:
        e = I.lift2(rng.f[1], mkI(1), add, st)
        s = rng.f[0]
        ex = I.guard(rng.f[2]) if len(rng.f) > 2 else 0
        s = ite(ex, e, s, I.p)
        return s, e, AND(I.compare('Le', s, e, st, None), I.compare('Le', e, n, st, None))
    if 'RangeTo' in path:
        return mkI(0), rng.f[0], I.compare('Le', rng.f[0], n, st, None)
    if 'RangeFrom' in path:
        return rng.f[0], n, I.compare('Le', rng.f[0], n, st, None)
    return rng.f[0], rng.f[1], AND(I.compare('Le', rng.f[0], rng.f[1], st, None), I.compare('Le', rng.f[1], n, st, None))


@native(r' as std::slice::SliceIndex<\[T\]>>::(get|get_mut|index|index_mut|get_unchecked|get_unchecked_mut)$',
        r'^core::slice::index::<impl std::slice::SliceIndex<.*> for .*>::(get|get_mut|index|index_mut|get_unchecked|get_unchecked_mut)$')
def h_sindex(I, st, inst, args, ci, d):
    path = I.p.I[inst]['path']
    fn = path.rsplit('::', 1)[1]
    ix, sv = args[0], args[1]
    sl = slices(I, sv, st)
    if not sl:
        return NotImplemented
    n = mkG([(c, p.a[3]) for c, p in sl])
    head = path.split(' as ')[0] if path.startswith('<') else path
    if head.startswith('<usize'):
        ok = I.compare('Lt', ix, n, st, None)
        if fn.startswith('index'):
            I.panic(st, NOT(ok), 'index out of bounds')
        out = []
        for c, p in sl:
            for c2, i in ints(I, ix):
                g = AND(c, c2)
                if AND(AND(g, ok), st.pc) == 0:
                    continue
                out += [(AND(g, g2), e) for g2, e in elem_ptr(I, p, i, st)]
        x = mkG(out) if out else UNINIT
    else:
        s, e, ok = range_bounds(I, head, ix, n, st)
        if fn.startswith('index'):
            I.panic(st, NOT(ok), 'slice range out of bounds')
        out = []
        for c, p in sl:
            for c2, a in ints(I, s):
                for c3, b in ints(I, e):
                    g = AND(AND(c, c2), c3)
                    if AND(AND(g, ok), st.pc) == 0:
                        continue
                    out.append((g, subptr(p, a, sub(b, a))))
        x = mkG(out) if out else UNINIT
    if fn in ('get', 'get_mut'):
        d = ret_ty(I, inst, d)
        return opt(I, d, ok, x)
    return x


@native(r'^core::slice::<impl \[T\]>::(split_at_unchecked|split_at_mut_unchecked)$')
def h_split(I, st, inst, args, ci, d):
    a, b = [], []
    for c, p in slices(I, args[0], st):
        for c2, m in ints(I, args[1]):
            g = AND(c, c2)
            if AND(g, st.pc):
                a.append((g, subptr(p, ZERO, m)))
                b.append((g, subptr(p, m, sub(p.a[3], m))))
    return mkAgg([mkG(a), mkG(b)]) if a else NotImplemented


@native(r'^core::slice::<impl \[T\]>::(copy_from_slice|clone_from_slice)$')
def h_copy(I, st, inst, args, ci, d):
    n1, n2 = slice_len(I, args[0], st), slice_len(I, args[1], st)
    I.panic(st, NOT(I.compare('Eq', n1, n2, st, None)), 'copy_from_slice length mismatch')
    if st.pc == 0:
        return UNINIT
    src = content_of(I, args[1], st)
    for c, p in slices(I, args[0], st):
        if AND(c, st.pc) == 0:
            continue
        gg = 1 if AND(NOT(c), st.pc) == 0 else c
        I.store(('s', p), src, st, gg)
    return UNIT


@native(r'^core::slice::<impl \[T\]>::fill$')
def h_fill(I, st, inst, args, ci, d):
    for c, p in slices(I, args[0], st):
        if p.a[4] is None or not I.p.is_u8(p.a[4]):
            return NotImplemented
        gg = 1 if AND(NOT(c), st.pc) == 0 else c
        n = p.a[3]
        its = ints(I, args[1])
        if len(its) == 1 and not its[0][1].t and not n.t and n.c < 4096:
            b = cbytes(bytes([its[0][1].c]) * n.c)
        else:
            b = rbytes(TM.region(('fill', args[1]), n))
        I.store(('s', p), leaf(b), st, gg)
    return UNIT


@native(r'^(std|alloc|core)::slice::<impl \[T\]>::(to_vec|into_vec|to_vec_in)$', r'^<\[T\] as std::borrow::ToOwned>::to_owned$',
        r'^(std|alloc)::slice::<impl std::borrow::ToOwned for \[T\]>::to_owned$', r'^<std::vec::Vec<T> as std::convert::From<&\[T\]>>::from$',
        r'^(std|alloc)::slice::hack::', r'^<std::vec::Vec<T> as std::convert::From<&\[T; N\]>>::from$',
        r'^<std::vec::Vec<T> as std::convert::From<\[T; N\]>>::from$', r'^std::boxed::box_assume_init_into_vec_unsafe$')
def h_tovec(I, st, inst, args, ci, d):
    d = ret_ty(I, inst, d)
    el = vec_elem(I, d)
    a = args[0]
    if type(a) is G and any(isinstance(l, Ptr) for _, l in a.items):
        c = content_of(I, a, st) if all(l.kind == 'slice' for _, l in a.items if isinstance(l, Ptr)) else seq_content(I, I.deref_load(a, st), st)
    else:
        c = a
    c = norm_content(I, unwrap_mu(I, c), el)
    return mkNat('vec', [c], el)


def unwrap_mu(I, c):
    while type(c) is Nat and c.kind in ('union', 'newtype') and len(c.f) == 1:
        c = c.f[0]
    return c


def norm_content(I, c, el):
    if I.p.is_u8(el):
        return I.as_bytes(c)
    return c


def vec_elem(I, d):
    t = I.p.T[d]
    if t['k'] == 'adt' and t['path'] == 'std::vec::Vec':
        return t['targs'][0]
    return I.p.u8()


@native(r'^core::slice::<impl \[T\]>::(contains|starts_with|ends_with)$')
def h_contains(I, st, inst, args, ci, d):
    fn = I.p.I[inst]['path'].rsplit('::', 1)[1]
    if fn == 'contains':
        c = content_of(I, args[0], st)
        x = I.deref_load(args[1], st)
        if type(c) is Agg:
            g = 0
            for e in c.f:
                g = OR(g, val_eq(I, e, x, st))
            return mkB(g)
        if isbyt(c) and all(not b.len.t and b.len.c <= 64 for _, b in c.items):
            g = 0
            for cc, b in c.items:
                for i in range(b.len.c):
                    e = mkL(int_le(bsub(b, const(i), ONE), 1))
                    g = OR(g, AND(cc, I.compare('Eq', e, x, st, None)))
            return mkB(g)
        return mkB(bdd.atom(('contains', c, x)))
    a, b = bytes_of(I, args[0], st), bytes_of(I, args[1], st)
    g = 0
    for c1, x in I.items(a):
        for c2, y in I.items(b):
            c = AND(c1, c2)
            if c == 0 or not isinstance(x, Bytes) or not isinstance(y, Bytes):
                continue
            fit = TM.le(y.len, x.len)
            s = bsub(x, ZERO, y.len) if fn == 'starts_with' else bsub(x, sub(x.len, y.len), y.len)
            g = OR(g, AND(c, AND(fit, beq(s, y))))
    return mkB(g)


@native(r'^(std|alloc|core)::slice::<impl \[T\]>::(concat)$', r'^<\[V\] as std::slice::Concat<T>>::concat$',
        r'^(std|alloc)::slice::<impl std::slice::Concat<T> for \[V\]>::concat$')
def h_concat(I, st, inst, args, ci, d):
    c = content_of(I, args[0], st)
    d = ret_ty(I, inst, d)
    el = vec_elem(I, d)
    if type(c) is Agg and I.p.is_u8(el):
        acc = leaf(EMPTY)
        for x in c.f:
            b = I.as_bytes(seq_content(I, x, st))
            acc = I.combine2(acc, b, concat)
        return mkNat('vec', [acc], el)
    return NotImplemented


@native(r'^core::array::<impl std::convert::TryFrom<&(mut )?\[T\]> for (&.*)?\[T; N\]>::try_from$',
        r'^std::array::<impl std::convert::TryFrom<&(\'a )?(mut )?\[T\]> for (&.*)?\[T; N\]>::try_from$',
        r'^std::array::<impl std::convert::TryFrom<.*\[T\]> for .*\[T; N\]>::try_from$')
def h_arrfrom(I, st, inst, args, ci, d):
    d = ret_ty(I, inst, d)
    okt = I.p.T[d]['targs'][0]
    byref = I.p.T[okt]['k'] == 'ref'
    n = I.p.T[I.p.T[okt]['to']]['len'] if byref else I.p.T[okt]['len']
    ln = slice_len(I, args[0], st)
    ok = I.compare('Eq', ln, mkI(n), st, None)
    if byref:
        out = []
        for c, p in slices(I, args[0], st):
            out.append((c, arr_ptr(I, p, I.p.T[okt]['to'])))
        v = mkG(out)
    else:
        v = content_of(I, args[0], st)
        if isbyt(v):
            v = mkG([(c, bsub(b, ZERO, const(n)) if isinstance(b, Bytes) else b) for c, b in v.items])
    return res(I, d, ok, v, UNIT)


def arr_ptr(I, p, arrtid):
    """pointer to an array viewed inside a slice"""
    if p.a[4] is not None and I.p.is_u8(p.a[4]):
        return ptr('view', p.a[0], p.a[1], p.a[2], arrtid)
    return ptr('slice', p.a[0], p.a[1], p.a[2], const(I.p.T[arrtid]['len']), p.a[4])


@native(r'^core::slice::<impl \[T\]>::(first_chunk|last_chunk|as_array|split_first_chunk|split_last_chunk)$')
def h_chunk(I, st, inst, args, ci, d):
    fn = I.p.I[inst]['path'].rsplit('::', 1)[1]
    d = ret_ty(I, inst, d)
    some = I.p.T[d]['variants'][I.p.var(d, 'Some')]['fields'][0][1]
    st_ = I.p.T[some]
    if fn.startswith('split'):
        at = I.p.T[st_['fields'][0 if fn == 'split_first_chunk' else 1]]['to']
    else:
        at = st_['to']
    n = I.p.T[at]['len']
    ln = slice_len(I, args[0], st)
    ok = I.compare('Eq' if fn == 'as_array' else 'Ge', ln, mkI(n), st, None)
    hd, tl = [], []
    for c, p in slices(I, args[0], st):
        if fn in ('first_chunk', 'as_array', 'split_first_chunk'):
            hd.append((c, arr_ptr(I, p, at)))
            tl.append((c, subptr(p, const(n), addc(p.a[3], -n))))
        else:
            hd.append((c, arr_ptr(I, subptr(p, addc(p.a[3], -n), const(n)), at)))
            tl.append((c, subptr(p, ZERO, addc(p.a[3], -n))))
    if fn == 'split_first_chunk':
        v = mkAgg([mkG(hd), mkG(tl)])
    elif fn == 'split_last_chunk':
        v = mkAgg([mkG(tl), mkG(hd)])
    else:
        v = mkG(hd)
    return opt(I, d, ok, v)


@native(r'^std::slice::from_ref$', r'^core::slice::from_ref$', r'^std::array::from_ref$')
def h_fromref(I, st, inst, args, ci, d):
    out = []
    el = I.p.I[inst]['targs'][0]
    for c, l in I.items(args[0]):
        if isinstance(l, Ptr) and l.kind == 'view':
            out.append((c, ptr('slice', l.a[0], l.a[1], l.a[2], ONE, el)))
        elif isinstance(l, Ptr) and l.kind == 'cell' and l.a[1] and l.a[1][-1][0] == 'e':
            out.append((c, ptr('slice', l.a[0], l.a[1][:-1], const(l.a[1][-1][1]), ONE, el)))
        elif isinstance(l, Ptr) and l.kind == 'cell':
            # one element sequence over a copy
            v = I.load(('c', l.a[0], l.a[1]), st)
            v = I.as_bytes(mkAgg([v])) if I.p.is_u8(el) else mkAgg([v])
            out.append((c, ptr('slice', I.new_cell(st, v), (), ZERO, ONE, el)))
        else:
            return NotImplemented
    return mkG(out)


@native(r'^(std|core)::slice::from_raw_parts(_mut)?$', r'^(std|core)::ptr::slice_from_raw_parts(_mut)?$')
def h_rawparts(I, st, inst, args, ci, d):
    el = I.p.I[inst]['targs'][0]
    out = []
    for c, p in I.items(args[0]):
        for c2, n in ints(I, args[1]):
            g = AND(c, c2)
            if g == 0 or not isinstance(p, Ptr):
                continue
            if p.kind in ('view', 'slice'):
                out.append((g, ptr('slice', p.a[0], p.a[1], p.a[2], n, el)))
            else:
                out.append((g, I.elem_to_slice(p, n, el)))
    return mkG(out) if out else NotImplemented


# ---------------------------------------------------------------- vectors, strings, boxes
@native(r'^std::vec::Vec::<T(, A)?>::(new|new_in|with_capacity|with_capacity_in)$', r'^std::string::String::(new|with_capacity)$',
        r'^<std::vec::Vec<T> as std::default::Default>::default$', r'^<std::string::String as std::default::Default>::default$')
def h_vecnew(I, st, inst, args, ci, d):
    el = vec_elem(I, ret_ty(I, inst, d))
    return mkNat('vec', [leaf(EMPTY) if I.p.is_u8(el) else UNIT], el)


@native(r'^<std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$', r'^<std::string::String as std::ops::Deref(Mut)?>::deref(_mut)?$',
        r'^std::vec::Vec::<T, A>::(as_slice|as_mut_slice)$', r'^std::string::String::(as_str|as_bytes|as_mut_str)$',
        r'^<std::vec::Vec<T, A> as std::convert::AsRef<\[T\]>>::as_ref$', r'^<std::vec::Vec<T, A> as std::borrow::Borrow.*>::borrow',
        r'^<std::string::String as std::convert::AsRef<.*>>::as_ref$')
def h_vderef(I, st, inst, args, ci, d):
    s = slices(I, args[0], st)
    return mkG(s) if s else NotImplemented


@native(r'^std::vec::Vec::<T, A>::(len|is_empty)$', r'^std::string::String::(len|is_empty)$')
def h_vlen(I, st, inst, args, ci, d):
    n = slice_len(I, args[0], st)
    if not n.items:
        return NotImplemented
    if I.p.I[inst]['path'].endswith('is_empty'):
        return mkB(I.compare('Eq', n, mkI(0), st, None))
    return n


def vec_update(I, st, vp, f):
    """replace the content of the vector behind pointer vp"""
    for g, loc in I.locs_deref(vp, st, None):
        if AND(g, st.pc) == 0:
            continue
        v = I.load(loc, st)
        if type(v) is Sym:
            v = I.p.expand(v)

        def one(v):
            if type(v) is Nat and v.kind == 'vec':
                return mkNat('vec', [f(v.f[0], v.tag)], v.tag)
            return None
        if type(v) is G:
            nv = None
            for c, l in v.items:
                x = one(l)
                if x is None:
                    return False
                nv = x if nv is None else ite(c, x, nv, I.p)
        else:
            nv = one(v)
        if nv is None:
            I.note('vector update', repr(v)[:100])
            return False
        I.store(loc, nv, st, 1 if AND(NOT(g), st.pc) == 0 else g)
    return True


def cappend(I, c, x, el):
    """content ++ x"""
    if type(c) is Sym:
        c = I.p.expand(c)
    if I.p.is_u8(el):
        return I.combine2(I.as_bytes(c), I.as_bytes(x), concat)
    if type(c) is Agg and type(x) is Agg:
        return mkAgg(c.f + x.f)
    if c is UNINIT:
        return x
    if type(x) is Agg and not x.f:
        return c
    if type(c) is Agg and not c.f:
        return x
    if type(c) is G or type(x) is G:
        r = None
        for g, l in (c.items if type(c) is G else ((1, c),)):
            for g2, l2 in (x.items if type(x) is G else ((1, x),)):
                if AND(g, g2) == 0:
                    continue
                y = cappend(I, l, l2, el)
                r = y if r is None else ite(AND(g, g2), y, r, I.p)
        return r
    n1, n2 = content_len(I, c)[0][1], content_len(I, x)[0][1]
    return mkNat('symseq', (leaf(add(n1, n2)),), ('symseq', el, ('append', c, x)))


@native(r'^std::vec::Vec::<T, A>::(push|push_within_capacity)$', r'^std::vec::Vec::<T, A>::push_mut$')
def h_push(I, st, inst, args, ci, d):
    x = args[1]
    ok = vec_update(I, st, args[0], lambda c, el: cappend(I, c, mkG([(g, bytes_of_int(l, 1)) for g, l in ints(I, x)]) if I.p.is_u8(el) else mkAgg([x]), el))
    return UNIT if ok else NotImplemented


@native(r'^std::vec::Vec::<T, A>::(extend_from_slice|append)$', r'^std::string::String::push_str$',
        r'^<std::vec::Vec<T, A> as std::iter::Extend<&.*T>>::extend$',
        r'^<std::vec::Vec<T, A> as std::vec::spec_extend::SpecExtend<&.*T, std::slice::Iter<.*>>::spec_extend$')
def h_extend(I, st, inst, args, ci, d):
    a = args[1]
    if type(a) is Sym:
        a = I.p.expand(a)
    if type(a) is Nat and a.kind == 'siter':
        c = None
        for g, p in I.items(a.f[0]):
            for g2, s in ints(I, a.f[1]):
                for g3, e in ints(I, a.f[2]):
                    gg = AND(AND(g, g2), g3)
                    x = I.load(('s', subptr(p, s, sub(e, s))), st)
                    c = x if c is None else ite(gg, x, c, I.p)
    else:
        c = seq_content(I, a, st)
    if type(c) is not Agg and not isbyt(c) and not (type(c) is Nat and c.kind in ('symseq', 'subseq')):
        return NotImplemented
    ok = vec_update(I, st, args[0], lambda o, el: cappend(I, o, c, el))
    if ok and I.p.I[inst]['path'].endswith('append'):
        vec_update(I, st, args[1], lambda o, el: leaf(EMPTY) if I.p.is_u8(el) else UNIT)
    return UNIT if ok else NotImplemented


@native(r'^std::vec::Vec::<T, A>::clear$')
def h_clear(I, st, inst, args, ci, d):
    vec_update(I, st, args[0], lambda o, el: leaf(EMPTY) if I.p.is_u8(el) else UNIT)
    return UNIT


@native(r'^std::vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit)$')
def h_unit(I, st, inst, args, ci, d):
    return UNIT


@native(r'^<std::vec::Vec<T(, A)?> as std::vec::spec_from_iter(_nested)?::SpecFromIter(Nested)?<.*>>::from_iter$',
        r'^std::vec::in_place_collect::.*from_iter$', r'^std::vec::in_place_collect::from_iter_in_place$')
def h_fromiter(I, st, inst, args, ci, d):
    f = I.p.I[inst]
    b = f['body']
    if not b:
        return NotImplemented
    el = vec_elem(I, ret_ty(I, inst, d))
    v0 = mkNat('vec', [leaf(EMPTY) if I.p.is_u8(el) else UNIT], el)
    return vec_drive(I, st, args[0], b['locals'][1], v0, f['path'])


def rest_content(I, st, itv, el, tid=None):
    """what is left in an owning (or copying) iterator, as a content"""
    t = I.p.T[tid] if tid is not None else None
    if t is not None and t['k'] == 'adt' and re.match(r'^std::iter::(adapters::)?(\w+::)?(Copied|Cloned)$', t['path']) \
            and type(itv) is Agg and len(itv.f) == 1 and type(itv.f[0]) is Nat and itv.f[0].kind == 'siter' \
            and itv.f[0].tag != 'v' and I.p.is_u8(el):
        itv = itv.f[0]
    elif not (type(itv) is Nat and itv.kind == 'siter' and itv.tag == 'v'):
        return None
    out = None
    for g, p in itv.f[0].items:
        for g2, s in ints(I, itv.f[1]):
            for g3, e in ints(I, itv.f[2]):
                gg = AND(g, AND(g2, g3))
                if gg == 0:
                    continue
                c = norm_content(I, I.load(('s', subptr(p, s, sub(e, s))), st), el)
                if not (type(c) is Agg or isbyt(c) or type(c) is Nat and c.kind in ('symseq', 'subseq')):
                    return None
                out = c if out is None else ite(gg, c, out, I.p)
    return out


def vec_drive(I, st, itv, tid, v0, name):
    c = rest_content(I, st, itv, v0.tag, tid)
    if c is not None:
        return mkNat('vec', [cappend(I, v0.f[0], c, v0.tag)], v0.tag)
    vc = I.new_cell(st, v0, tag='vec')
    vp = leaf(ptr('cell', vc, ()))

    def stepf(acc, x, s):
        if not vec_update(I, s, vp, lambda c, el: cappend(I, c, elem_content(I, x, el), el)):
            raise Unsupported('collect')
        return acc, s, 0
    if drive(I, st, itv, tid, UNIT, stepf, name) is None:
        return NotImplemented
    if st.pc == 0:
        return UNINIT
    return I.cell(st, vc)


def elem_content(I, x, el):
    return mkG([(g, bytes_of_int(l, 1)) for g, l in ints(I, x)]) if I.p.is_u8(el) else mkAgg([x])


@native(r'^<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend$')
def h_vextend(I, st, inst, args, ci, d):
    b = I.p.I[inst]['body']
    a = args[1]
    if not b:
        return NotImplemented
    t = I.p.T[b['locals'][2]]
    if type(a) is Sym:
        a = I.p.expand(a)
    el = I.p.T[I.p.T[b['locals'][1]]['to']]['targs'][0]
    c = None
    if type(a) is Nat and a.kind == 'vec':
        c = a.f[0]
    elif t['k'] == 'array':
        c = norm_content(I, a, el)
    elif type(a) is Nat and a.kind == 'siter':
        c = rest_content(I, st, a, el)
    elif rest_content(I, st, a, el, b['locals'][2]) is not None:
        c = rest_content(I, st, a, el, b['locals'][2])
    elif t['k'] == 'adt' and t['path'] == 'std::option::Option' and type(a) is Enum:
        so = I.p.var(a.tid, 'Some')
        if so not in a.v:
            return UNIT
        g, f = a.v[so]
        x = elem_content(I, f[0], el)
        return UNIT if vec_update(I, st, args[0], lambda o, e: ite(g, cappend(I, o, x, e), o, I.p)) else NotImplemented
    if c is not None:
        return UNIT if vec_update(I, st, args[0], lambda o, e: cappend(I, o, c, e)) else NotImplemented
    if next_inst(I, b['locals'][2]) is None:
        return NotImplemented

    def stepf(acc, x, s):
        if not vec_update(I, s, args[0], lambda c, e: cappend(I, c, elem_content(I, x, e), e)):
            raise Unsupported('extend')
        return acc, s, 0
    if drive(I, st, a, b['locals'][2], UNIT, stepf, I.p.I[inst]['path']) is None:
        return NotImplemented
    return UNIT


@native(r'^std::array::<impl std::convert::TryFrom<std::vec::Vec<T(, A)?>> for \[T; N\]>::try_from$',
        r'^std::vec::.*TryFrom<std::vec::Vec<T(, A)?>> for \[T; N\].*try_from$',
        r'^<\[T; N\] as std::convert::TryFrom<std::vec::Vec<T(, A)?>>>::try_from$')
def h_vecarr(I, st, inst, args, ci, d):
    d = ret_ty(I, inst, d)
    okt = I.p.T[d]['targs'][0]
    n = I.p.T[okt]['len']
    v = args[0]
    if type(v) is Sym:
        v = I.p.expand(v)
    if type(v) is not Nat or v.kind != 'vec':
        return NotImplemented
    c = v.f[0]
    ok = 0
    for g, l in content_len(I, c):
        ok = OR(ok, AND(g, TM.eq(l, const(n))))
    if type(c) is Agg:
        x = c if len(c.f) == n else UNINIT
    elif isbyt(c):
        x = mkG([(g, b if b.len is const(n) else bsub(b, ZERO, const(n))) for g, b in c.items])
    else:
        x = mkAgg([I.proj(c, ('e', i), st) for i in range(n)])
    return res(I, d, ok, x, v)


@native(r'^<std::vec::Vec<T, A> as std::vec::spec_extend::SpecExtend<T, .*>>::spec_extend$',
        r"^<std::vec::Vec<T, A> as std::vec::spec_extend::SpecExtend<&'a T, I>>::spec_extend$",
        r'^std::vec::Vec::<T, A>::(extend_desugared|extend_trusted)$')
def h_specextend(I, st, inst, args, ci, d):
    f = I.p.I[inst]
    b = f['body']
    if not b:
        return NotImplemented
    el = I.p.T[I.p.T[b['locals'][1]]['to']]['targs'][0]
    deref = "SpecExtend<&'a T" in f['path']
    c = rest_content(I, st, args[1], el, b['locals'][2])
    if c is not None and not deref:
        return UNIT if vec_update(I, st, args[0], lambda o, e: cappend(I, o, c, e)) else NotImplemented

    def stepf(acc, x, s):
        if deref:
            x = I.deref_load(x, s)
        if not vec_update(I, s, args[0], lambda c, e: cappend(I, c, elem_content(I, x, e), e)):
            raise Unsupported('extend')
        return acc, s, 0
    if drive(I, st, args[1], b['locals'][2], UNIT, stepf, f['path']) is None:
        return NotImplemented
    return UNIT


@native(r"^std::slice::(Iter|IterMut)::<.*>::(as_slice|into_slice)$", r"^<std::slice::Iter<.*> as std::convert::AsRef<\[T\]>>::as_ref$",
        r'^std::vec::IntoIter::<.*>::as_slice$')
def h_assl(I, st, inst, args, ci, d):
    v = args[0]
    if type(v) is G:
        v = I.deref_load(v, st)
    if type(v) is not Nat or v.kind != 'siter':
        return NotImplemented
    out = []
    for g, p in I.items(v.f[0]):
        for g2, s in ints(I, v.f[1]):
            for g3, e in ints(I, v.f[2]):
                gg = AND(AND(g, g2), g3)
                if gg:
                    out.append((gg, subptr(p, s, sub(e, s))))
    return mkG(out) if out else NotImplemented


@native(r'^std::vec::Vec::<T, A>::(truncate)$')
def h_trunc(I, st, inst, args, ci, d):
    def f(c, el):
        if I.p.is_u8(el):
            out = []
            for g, b in I.items(I.as_bytes(c)):
                for g2, n in ints(I, args[1]):
                    keep = TM.le(n, b.len)
                    out += [(AND(AND(g, g2), keep), bsub(b, ZERO, n)), (AND(AND(g, g2), NOT(keep)), b)]
            return mkG(out)
        its = ints(I, args[1])
        if type(c) is Agg and len(its) == 1 and not its[0][1].t:
            return mkAgg(c.f[:its[0][1].c])
        I.note('truncate', repr(c)[:80])
        return c
    return UNIT if vec_update(I, st, args[0], f) else NotImplemented


@native(r'^std::vec::Vec::<T, A>::resize$')
def h_resize(I, st, inst, args, ci, d):
    def f(c, el):
        out = []
        for g, b in I.items(I.as_bytes(c)):
            for g2, n in ints(I, args[1]):
                if b is EMPTY and not n.t:
                    its = ints(I, args[2])
                    if len(its) == 1 and not its[0][1].t:
                        out.append((AND(g, g2), cbytes(bytes([its[0][1].c]) * n.c)))
                        continue
                out.append((AND(g, g2), rbytes(TM.region(('resize', b, n, args[2]), n))))
        return mkG(out)
    d0 = I.deref_load(args[0], st)
    if type(d0) is Nat and d0.kind == 'vec' and I.p.is_u8(d0.tag):
        vec_update(I, st, args[0], f)
        return UNIT
    return NotImplemented


@native(r'^std::vec::Vec::<T, A>::(pop)$')
def h_pop(I, st, inst, args, ci, d):
    v = I.deref_load(args[0], st)
    d = ret_ty(I, inst, d)
    if type(v) is Nat and v.kind == 'vec' and type(v.f[0]) is Agg:
        f = v.f[0].f
        if not f:
            return opt(I, d, 0, UNINIT)
        vec_update(I, st, args[0], lambda c, el: mkAgg(f[:-1]))
        return opt(I, d, 1, f[-1])
    return NotImplemented


@native(r'^std::vec::from_elem$', r'^<.* as std::vec::spec_from_elem::SpecFromElem>::from_elem$')
def h_fromelem(I, st, inst, args, ci, d):
    el = vec_elem(I, ret_ty(I, inst, d))
    if I.p.is_u8(el):
        out = []
        for c, n in ints(I, args[1]):
            its = ints(I, args[0])
            if len(its) == 1 and not its[0][1].t and not n.t and n.c < 8192:
                out.append((c, cbytes(bytes([its[0][1].c]) * n.c)))
            else:
                out.append((c, rbytes(TM.region(('repeat', args[0]), n))))
        return mkNat('vec', [mkG(out)], el)
    its = ints(I, args[1])
    if len(its) == 1 and not its[0][1].t and its[0][1].c <= 64:
        return mkNat('vec', [mkAgg([args[0]] * its[0][1].c)], el)
    return NotImplemented


@native(r'^<std::vec::Vec<T, A> as std::clone::Clone>::clone$', r'^<std::string::String as std::clone::Clone>::clone$',
        r'^<std::boxed::Box<\[T\]> as std::clone::Clone>::clone$')
def h_vclone(I, st, inst, args, ci, d):
    return I.deref_load(args[0], st)


@native(r'^<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$',
        r'^(std|core)::array::.*IntoIterator for \[T; N\]>::into_iter$', r'^std::array::iter::<impl std::iter::IntoIterator for \[T; N\]>::into_iter$')
def h_intoiter(I, st, inst, args, ci, d):
    v = args[0]
    if type(v) is Sym:
        v = I.p.expand(v)
    isvec = type(v) is Nat and v.kind == 'vec'
    c = v.f[0] if isvec else v
    el = v.tag if isvec else None
    if el is None:
        b = I.p.I[inst]['body']
        if b:
            at = I.p.T[b['locals'][1]]
            el = at.get('elem')
    cid = I.new_cell(st, c, tag='seq')
    sl = content_slices2(I, cid, (), c, el)
    return mkNat('siter', [mkG(sl), mkI(0), mkG([(g, p.a[3]) for g, p in sl])], 'v')


@native(r'^<std::slice::(Iter|IterMut)<.*> as std::clone::Clone>::clone$')
def h_itclone(I, st, inst, args, ci, d):
    return I.deref_load(args[0], st)


@native(r'^<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?$')
def h_vindex(I, st, inst, args, ci, d):
    return NotImplemented


@native(r'^std::boxed::Box::<T>::(new|pin)$', r'^std::boxed::box_new$')
def h_boxnew(I, st, inst, args, ci, d):
    return leaf(ptr('cell', I.new_cell(st, args[0], tag='box'), ()))


@native(r'^std::boxed::Box::<T>::new_uninit$')
def h_boxun(I, st, inst, args, ci, d):
    return leaf(ptr('cell', I.new_cell(st, mkNat('union', [mkNat('unwritten')], (1,)), tag='box'), ()))


# ---------------------------------------------------------------- memory
@native(r'^(std|core)::mem::replace$', r'^(std|core)::mem::take$', r'^std::ptr::(mut_ptr::<impl \*mut T>::)?replace$')
def h_replace(I, st, inst, args, ci, d):
    if I.p.I[inst]['path'].endswith('take'):
        return NotImplemented
    old = I.deref_load(args[0], st)
    I.deref_store(args[0], args[1], st)
    return old


@native(r'^(std|core)::mem::swap$', r'^std::ptr::swap$')
def h_swap(I, st, inst, args, ci, d):
    a, b = I.deref_load(args[0], st), I.deref_load(args[1], st)
    I.deref_store(args[0], b, st)
    I.deref_store(args[1], a, st)
    return UNIT


@native(r'^std::ptr::(read|read_unaligned|read_volatile)$', r'^std::ptr::(const|mut)_ptr::<impl \*(const|mut) T>::(read|read_unaligned)$')
def h_read(I, st, inst, args, ci, d):
    return I.deref_load(args[0], st)


@native(r'^std::ptr::(write|write_unaligned|write_volatile)$', r'^std::ptr::mut_ptr::<impl \*mut T>::(write|write_unaligned)$')
def h_write(I, st, inst, args, ci, d):
    I.deref_store(args[0], args[1], st)
    return UNIT


@native(r'^std::mem::MaybeUninit::<T>::(uninit|zeroed)$')
def h_mu(I, st, inst, args, ci, d):
    if I.p.I[inst]['path'].endswith('zeroed'):
        t = I.p.I[inst]['targs'][0]
        n = I.p.size(t)
        if n is not None and I.pod(t):
            return mkNat('union', [I.decode1(cbytes(bytes(n)), ZERO, t)], (1,))
        return NotImplemented
    return mkNat('union', [mkNat('unwritten')], (1,))


def zero_value(I, t):
    n = I.p.size(t)
    if n is None:
        return None
    try:
        return I.decode1(cbytes(bytes(n)), ZERO, t)
    except Unsupported:
        return None


@native(r'^(std|core)::mem::zeroed$')
def h_zeroed(I, st, inst, args, ci, d):
    x = zero_value(I, I.p.I[inst]['targs'][0])
    return x if x is not None else NotImplemented


@native(r'^std::intrinsics::write_bytes$', r'^std::ptr::write_bytes$')
def h_writebytes(I, st, inst, args, ci, d):
    its, n = ints(I, args[1]), ints(I, args[2])
    if len(its) == 1 and its[0][1] is ZERO and len(n) == 1 and n[0][1] is ONE:
        x = zero_value(I, I.p.I[inst]['targs'][0])
        if x is not None:
            I.deref_store(args[0], x, st)
            return UNIT
    return NotImplemented


@native(r'^std::mem::MaybeUninit::<T>::(new)$', r'^std::mem::ManuallyDrop::<T>::new$')
def h_munew(I, st, inst, args, ci, d):
    if 'ManuallyDrop' in I.p.I[inst]['path']:
        return NotImplemented
    return mkNat('union', [args[0]], (1,))


@native(r'^std::mem::MaybeUninit::<T>::(write)$')
def h_muwrite(I, st, inst, args, ci, d):
    out = []
    for c, loc in I.locs_deref(args[0], st, None):
        gg = 1 if AND(NOT(c), st.pc) == 0 else c
        I.store(loc, mkNat('union', [args[1]], (1,)), st, gg)
        if loc[0] == 'c':
            out.append((c, ptr('cell', loc[1], loc[2] + (('f', 1),))))
        else:
            return NotImplemented
    return mkG(out)


@native(r'^std::mem::MaybeUninit::<T>::(assume_init|assume_init_read)$')
def h_muinit(I, st, inst, args, ci, d):
    v = args[0]
    if I.p.I[inst]['path'].endswith('read'):
        v = I.deref_load(v, st)
    x = I.proj(v, ('f', 1), st) if type(v) is Nat and v.kind == 'union' else v
    return check_init(I, x, st)


def unwritten(v):
    return type(v) is Nat and v.kind == 'unwritten'


def has_uninit(v):
    if v is UNINIT or unwritten(v):
        return True
    if type(v) is Agg:
        return any(has_uninit(x) for x in v.f)
    if type(v) is Nat and v.kind == 'union':
        return any(has_uninit(x) for x in v.f)
    if type(v) is G:
        for c, l in v.items:
            if l is UNINIT or (isinstance(l, (Agg, Nat)) and has_uninit(l)):
                return True
            if isinstance(l, Bytes):
                for s in l.segs:
                    if s[0] == 'r' and isinstance(s[1].key, tuple) and s[1].key and s[1].key[0] == 'uninit':
                        return True
    return False


def check_init(I, v, st):
    """v is taken out of possibly uninitialised memory"""
    if type(v) is G and any(unwritten(l) for _, l in v.items):
        keep = []
        bad = 0
        for c, l in v.items:
            if unwritten(l):
                bad = OR(bad, AND(c, st.pc))
            else:
                keep.append((c, l))
        if bad != 0 and TM.theory_sat(bad) != 0:
            s2 = st.copy()
            s2.pc = bad
            I.effect(s2, 'uninit', (v,))
        if not keep:
            return UNINIT
        r = keep[0][1]
        for c, l in keep[1:]:
            r = ite(c, l, r, I.p)
        v = leaf(r) if isinstance(r, (Lin, Bytes, Ptr)) else r
    if has_uninit(v):
        I.effect(st, 'uninit', (v,))
        if unwritten(v):
            return UNINIT
    return v


# ---------------------------------------------------------------- Rc, RefCell
@native(r'^<std::(rc::Rc|sync::Arc)<T(, A)?> as std::clone::Clone>::clone$')
def h_rcclone(I, st, inst, args, ci, d):
    return I.deref_load(args[0], st)


@native(r'^<std::(rc::Rc|sync::Arc)<T(, A)?> as std::(ops::Deref>::deref|convert::AsRef<T>>::as_ref|borrow::Borrow<T>>::borrow)$')
def h_rcderef(I, st, inst, args, ci, d):
    v = I.deref_load(args[0], st)
    if type(v) is Sym:
        v = I.p.expand(v)
    if type(v) is Nat and v.kind == 'rc':
        return v.f[0]
    if type(v) is G:
        return mkG([(AND(c, c2), p) for c, l in v.items if isinstance(l, Nat) for c2, p in I.items(l.f[0])])
    return NotImplemented


@native(r'^std::(rc::Rc|sync::Arc)::<T>::new$')
def h_rcnew(I, st, inst, args, ci, d):
    return mkNat('rc', [leaf(ptr('cell', I.new_cell(st, args[0], tag='rc'), ()))])


@native(r'^std::cell::(Ref)?Cell::<T>::new$')
def h_rcn(I, st, inst, args, ci, d):
    return mkNat('refcell', [args[0]])


def inner_ptrs(I, v, st):
    out = []
    for c, loc in I.locs_deref(v, st, None):
        if loc[0] == 'c':
            out.append((c, ptr('cell', loc[1], loc[2] + (('n', 0),))))
        else:
            I.note('refcell', repr(loc)[:80])
    return mkG(out)


@native(r'^std::cell::RefCell::<T>::(try_borrow|try_borrow_mut|borrow|borrow_mut|as_ptr|get_mut)$', r'^std::cell::Cell::<T>::as_ptr$')
def h_borrow(I, st, inst, args, ci, d):
    fn = I.p.I[inst]['path'].rsplit('::', 1)[1]
    p = inner_ptrs(I, args[0], st)
    if fn.startswith('try'):
        nm = tuple(l.a[0] if isinstance(l, Ptr) else repr(l) for _, l in I.items(p))
        if any(isinstance(x, tuple) and x and x[0] == 'acctcell' for x in nm):
            ok = bdd.atom(('borrow succeeds', nm, 'mut' if fn.endswith('mut') else 'shared'))
            I.effect(st, 'fallible', (fn,) + nm, ok)
            return res(I, ret_ty(I, inst, d), ok, p, UNIT)
        return res(I, ret_ty(I, inst, d), 1, p, UNIT)
    return p


@native(r'^<std::cell::Ref(Mut)?<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$')
def h_refderef(I, st, inst, args, ci, d):
    return I.deref_load(args[0], st)


@native(r'^std::cell::Ref::<.*>::(map|clone)$', r'^std::cell::RefMut::<.*>::map$')
def h_refmap(I, st, inst, args, ci, d):
    if I.p.I[inst]['path'].endswith('clone'):
        return I.deref_load(args[0], st)
    b = I.p.I[inst]['body']
    r, s = I.call_closure((args[1], b['locals'][2]), [args[0]], st, 'Ref::map')
    adopt(st, s)
    return r


@native(r'^std::cell::(RefCell|Cell)::<T>::(replace|set|get|take|into_inner)$')
def h_cellops(I, st, inst, args, ci, d):
    fn = I.p.I[inst]['path'].rsplit('::', 1)[1]
    if fn == 'into_inner':
        v = args[0]
        return v.f[0] if type(v) is Nat else NotImplemented
    p = inner_ptrs(I, args[0], st)
    if fn == 'get':
        return I.deref_load(p, st)
    if fn == 'set':
        I.deref_store(p, args[1], st)
        return UNIT
    if fn == 'replace':
        o = I.deref_load(p, st)
        I.deref_store(p, args[1], st)
        return o
    return NotImplemented


# ---------------------------------------------------------------- bytemuck
@native(r'^bytemuck::(internal::)?(try_from_bytes|try_from_bytes_mut|from_bytes|from_bytes_mut)$', r'^spl_pod::bytemuck::pod_from_bytes(_mut)?$')
def h_frombytes(I, st, inst, args, ci, d):
    f = I.p.I[inst]
    t = f['targs'][0]
    n = I.p.size(t)
    if n is None:
        return NotImplemented
    ln = slice_len(I, args[0], st)
    ok = I.compare('Eq', ln, mkI(n), st, None)
    out = []
    for c, p in slices(I, args[0], st):
        out.append((c, ptr('view', p.a[0], p.a[1], p.a[2], t)))
    x = mkG(out)
    if 'try' not in f['path'] and 'pod' not in f['path']:
        I.panic(st, NOT(ok), 'from_bytes length')
        return x
    d = ret_ty(I, inst, d)
    et = I.p.T[d]['targs'][1]
    if 'spl_pod' in f['path']:
        v = mkEnum(et, {I.p.var(et, 'InvalidArgument'): (1, ())})
    else:
        v = mkEnum(et, {I.p.var(et, 'SizeMismatch'): (1, ())})
    return res(I, d, ok, x, v)


@native(r'^bytemuck::(internal::)?(bytes_of|bytes_of_mut)$', r'^spl_pod::bytemuck::pod_bytes_of$')
def h_bytesof(I, st, inst, args, ci, d):
    t = I.p.I[inst]['targs'][0]
    n = I.p.size(t)
    if n is None:
        return NotImplemented
    out = []
    for c, l in I.items(args[0]):
        if isinstance(l, Ptr) and l.kind == 'view':
            out.append((c, ptr('slice', l.a[0], l.a[1], l.a[2], const(n), I.p.u8())))
        else:
            v = I.encode(I.deref_load(leaf(l), st), t, st)
            cid = I.new_cell(st, v, tag='bytes')
            out.append((c, ptr('slice', cid, (), ZERO, const(n), I.p.u8())))
    return mkG(out)


@native(r'^bytemuck::(internal::)?(pod_read_unaligned|try_pod_read_unaligned)$')
def h_podread(I, st, inst, args, ci, d):
    f = I.p.I[inst]
    t = f['targs'][0]
    n = I.p.size(t)
    ok = I.compare('Eq', slice_len(I, args[0], st), mkI(n), st, None)
    r = None
    for c, p in slices(I, args[0], st):
        x = I.decode(I.read_path(I.cell(st, p.a[0]), p.a[1], st), p.a[2], t)
        r = x if r is None else ite(c, x, r, I.p)
    if 'try' in f['path']:
        d = ret_ty(I, inst, d)
        et = I.p.T[d]['targs'][1]
        return res(I, d, ok, r, mkEnum(et, {I.p.var(et, 'SizeMismatch'): (1, ())}))
    I.panic(st, NOT(ok), 'pod_read length')
    return r


@native(r'^bytemuck::(internal::)?(cast_slice|try_cast_slice)$')
def h_castslice(I, st, inst, args, ci, d):
    f = I.p.I[inst]
    a, b = f['targs'][0], f['targs'][1]
    if I.p.is_u8(b):
        es = I.p.size(a)
        out = []
        for c, p in slices(I, args[0], st):
            if I.p.is_u8(a):
                out.append((c, p))
                continue
            v = I.load(('s', p), st)
            if type(v) is not Agg or es is None:
                return NotImplemented
            acc = leaf(EMPTY)
            for x in v.f:
                acc = I.combine2(acc, I.encode(x, a, st), concat)
            out.append((c, ptr('slice', I.new_cell(st, acc, tag='bytes'), (), ZERO, const(es * len(v.f)), b)))
        x = mkG(out)
        if 'try' in f['path']:
            return res(I, ret_ty(I, inst, d), 1, x, UNINIT)
        return x
    return NotImplemented


# ---------------------------------------------------------------- bincode of fixed layouts
@native(r'^bincode::deserialize$')
def h_bincode(I, st, inst, args, ci, d):
    f = I.p.I[inst]
    t = f['targs'][-1]
    d = ret_ty(I, inst, d)
    b = bytes_of(I, args[0], st)
    r = I.p.T[d]
    n = I.p.size(t)
    if n is None or not I.pod(t):
        v = bdd.atom(('bincode ok', t, b))
        return res(I, d, v, mkSym(t, ('bincode', b)), mkSym(r['targs'][1], ('bincode err', b)))
    ok = I.compare('Le', mkI(n), mkG([(c, x.len) for c, x in I.items(b)]), st, None)
    return res(I, d, ok, I.decode(mkG([(c, bsub(x, ZERO, const(n))) for c, x in I.items(b)]), ZERO, t),
               mkSym(r['targs'][1], ('bincode err',)))


# ---------------------------------------------------------------- Solana runtime interface
def hash_leaf(I, kind, parts):
    """32 byte hash of the concatenation"""
    acc = leaf(EMPTY)
    for p in parts:
        acc = I.combine2(acc, p, concat)
    return mkG([(c, rbytes(TM.region((kind, b), const(32)))) for c, b in I.items(acc)])


@native(r'::hash::hashv$', r'::keccak::hashv$', r'^solana_sha256_hasher::hashv$')
def h_hashv(I, st, inst, args, ci, d):
    c = content_of(I, args[0], st)
    kind = 'keccak' if 'keccak' in I.p.I[inst]['path'] else 'sha256'
    d = ret_ty(I, inst, d)

    def one(c):
        if type(c) is Agg:
            return hash_leaf(I, kind, [I.as_bytes(seq_content(I, x, st)) for x in c.f])
        return leaf(rbytes(TM.region((kind + ' of', c), const(32))))
    if type(c) is G:
        r = None
        for g, l in c.items:
            x = one(l)
            r = x if r is None else ite(g, x, r, I.p)
    else:
        r = one(c)
    return mkAgg([r])


@native(r'::hash::hash$', r'^solana_sha256_hasher::hash$')
def h_hash(I, st, inst, args, ci, d):
    return mkAgg([hash_leaf(I, 'sha256', [bytes_of(I, args[0], st)])])


@native(r'::Hasher::(hashv|hash|result)$', r'Hasher as std::default::Default>::default$')
def h_hasher(I, st, inst, args, ci, d):
    fn = I.p.I[inst]['path'].rsplit('::', 1)[1]
    if fn == 'default':
        return mkNat('hasher', [leaf(EMPTY)])
    if fn == 'result':
        v = args[0]
        return mkAgg([hash_leaf(I, 'sha256', [v.f[0]])]) if type(v) is Nat else NotImplemented
    h = I.deref_load(args[0], st)
    if type(h) is not Nat:
        return NotImplemented
    acc = h.f[0]
    if fn == 'hash':
        acc = I.combine2(acc, bytes_of(I, args[1], st), concat)
    else:
        c = content_of(I, args[1], st)
        if type(c) is not Agg:
            return NotImplemented
        for x in c.f:
            acc = I.combine2(acc, I.as_bytes(seq_content(I, x, st)), concat)
    I.deref_store(args[0], mkNat('hasher', [acc]), st)
    return UNIT


def seeds_of(I, v, st):
    """concatenated seed bytes"""
    c = content_of(I, v, st)
    if type(c) is not Agg:
        return None
    acc = leaf(EMPTY)
    for x in c.f:
        acc = I.combine2(acc, I.as_bytes(seq_content(I, x, st)), concat)
    return acc


def pda(I, seeds, pid):
    return I.combine2(seeds, pid, lambda s, p: rbytes(TM.region(('pda', s, p), const(32))))


@native(r'Pubkey::(find_program_address|try_find_program_address)$')
def h_pda(I, st, inst, args, ci, d):
    s = seeds_of(I, args[0], st)
    if s is None:
        return NotImplemented
    pid = I.as_bytes(I.deref_load(args[1], st))
    key = mkAgg([pda(I, s, pid)])
    bump = I.combine2(s, pid, lambda a, p: of(TM.atom('bump', (a, p), 0, 255)))
    v = mkAgg([key, bump])
    if 'try_' in I.p.I[inst]['path']:
        return opt(I, ret_ty(I, inst, d), 1, v)
    return v


@native(r'Pubkey::create_program_address$')
def h_cpa(I, st, inst, args, ci, d):
    s = seeds_of(I, args[0], st)
    if s is None:
        return NotImplemented
    pid = I.as_bytes(I.deref_load(args[1], st))
    d = ret_ty(I, inst, d)
    out = []
    ok = 0
    for c1, b in I.items(s):
        for c2, p in I.items(pid):
            c = AND(c1, c2)
            if c == 0:
                continue
            last = b.segs[-1] if b.segs else None
            hit = None
            if last and last[0] == 'i' and last[2] == 1 and len(last[1].t) == 1 and last[1].c == 0:
                a = last[1].t[0][0]
                pre = mkbytes(b.segs[:-1])
                if a.kind == 'bump' and a.args[0] is pre and a.args[1] is p:
                    hit = rbytes(TM.region(('pda', pre, p), const(32)))
            if hit is not None:
                out.append((c, hit))
                ok = OR(ok, c)
            else:
                out.append((c, rbytes(TM.region(('cpa', b, p), const(32)))))
                ok = OR(ok, AND(c, bdd.atom(('cpa ok', b, p))))
    et = I.p.T[d]['targs'][1]
    return res(I, d, ok, mkAgg([mkG(out)]), mkSym(et, ('cpa err',)))


@native(r'sysvar::clock::<impl .*Sysvar for .*Clock>::get$', r'sysvar::rent::<impl .*Sysvar for .*Rent>::get$',
        r'sysvar::epoch_schedule::<impl .*Sysvar for .*EpochSchedule>::get$')
def h_sysvar(I, st, inst, args, ci, d):
    d = ret_ty(I, inst, d)
    t, et = I.p.T[d]['targs']
    nm = I.p.T[t]['path'].rsplit('::', 1)[1]
    ok = bdd.atom(('sysvar available', nm))
    I.effect(st, 'fallible', ('sysvar', nm), ok)
    return res(I, d, ok, mkSym(t, (nm,)), mkSym(et, ('sysvar err', nm)))


@native(r'Rent::minimum_balance$')
def h_rent(I, st, inst, args, ci, d):
    r = I.deref_load(args[0], st)
    return mkG([(c, TM.op('rent', (l,), 0, U64)) for c, l in ints(I, args[1])])


@native(r'^<.*Pubkey as std::convert::TryFrom<&\[u8\]>>::try_from$')
def h_pktry(I, st, inst, args, ci, d):
    d = ret_ty(I, inst, d)
    ok = I.compare('Eq', slice_len(I, args[0], st), mkI(32), st, None)
    b = bytes_of(I, args[0], st)
    return res(I, d, ok, mkAgg([mkG([(c, bsub(x, ZERO, const(32))) for c, x in I.items(b)])]), UNIT)


def acct_key(I, info, st):
    """Bytes of the key of an &AccountInfo"""
    v = I.deref_load(info, st)
    return v


@native(r'sysvar::instructions::load_current_index_checked$')
def h_loadidx(I, st, inst, args, ci, d):
    d = ret_ty(I, inst, d)
    et = I.p.T[d]['targs'][1]
    key, cid = info_key(I, args[0], st)
    ok = AND(key_is_sysvar(I, key, st), bdd.atom(('introspection', 'current index')))
    I.effect(st, 'fallible', ('introspection', 'current index'), ok)
    return res(I, d, ok, mkL(TM.var(('current instruction index',), 0, 65535)), mkSym(et, ('introspection err',)))


SYSVAR_IX = bytes.fromhex('06a7d517187bd16635dad40455fdc2c0c124c68f215675a5dbbacb5f08000000')


def key_is_sysvar(I, key, st):
    return I.compare('Eq', key, leaf(cbytes(SYSVAR_IX)), st, None)


def info_key(I, info, st):
    """(key bytes, identity) of an &AccountInfo value"""
    v = I.deref_load(info, st)
    if type(v) is Sym:
        v = I.p.expand(v)
    k = None
    for c, l in I.items(v):
        if isinstance(l, Sym):
            l = I.p.expand(l)
        kb = I.as_bytes(I.deref_load(l.f[0], st)) if isinstance(l, Agg) else None
        if kb is None:
            kb = leaf(rbytes(TM.region(('key of', l), const(32))))
        k = kb if k is None else ite(c, kb, k, I.p)
    return k, v


@native(r'sysvar::instructions::(get_instruction_relative|load_instruction_at_checked)$')
def h_getix(I, st, inst, args, ci, d):
    d = ret_ty(I, inst, d)
    t, et = I.p.T[d]['targs']
    rel = 'relative' in I.p.I[inst]['path']
    key, _ = info_key(I, args[1], st)
    out_ok = 0
    val = None
    cur = TM.var(('current instruction index',), 0, 65535)
    for c, l in ints(I, args[0]):
        # absolute index of the instruction
        pos = add(cur, l) if rel else l
        nm = ('instruction at', pos)
        ok = AND(TM.le(ZERO, pos), bdd.atom(('introspection', nm)))
        out_ok = OR(out_ok, AND(c, ok))
        x = I.p.sym(t, nm)
        val = x if val is None else ite(c, x, val, I.p)
    out_ok = AND(out_ok, key_is_sysvar(I, key, st))
    I.effect(st, 'fallible', ('introspection', 'instruction'), out_ok)
    return res(I, d, out_ok, val, mkSym(et, ('introspection err',)))


@native(r'program::(invoke_signed|invoke|invoke_signed_unchecked|invoke_unchecked)$')
def h_invoke(I, st, inst, args, ci, d):
    d = ret_ty(I, inst, d)
    ix = I.deref_load(args[0], st)
    infos = content_of(I, args[1], st)
    keys = []
    if type(infos) is Agg:
        for x in infos.f:
            if type(x) is Sym:
                x = I.p.expand(x)
            keys.append(I.as_bytes(I.deref_load(x.f[0], st)) if type(x) is Agg else x)
    seeds = []
    if len(args) > 2:
        c = content_of(I, args[2], st)
        if type(c) is Agg:
            seeds = [seeds_of(I, x, st) for x in c.f]
        else:
            seeds = None
    n = sum(1 for e in I.effects if e.kind == 'cpi')
    ok = bdd.atom(('cpi succeeds', n))
    I.effect(st, 'cpi', (ix, tuple(keys), tuple(seeds) if seeds is not None else None, infos), ok)
    # a successful system assign changes the owner of the account
    hook = I.hooks.get('cpi')
    if hook:
        hook(I, st, ix, infos, ok)
    et = I.p.T[d]['targs'][1]
    return res(I, d, ok, UNIT, mkSym(et, ('cpi err', n)))


@native(r'AccountInfo::<.*>::(realloc|resize)$')
def h_realloc(I, st, inst, args, ci, d):
    d = ret_ty(I, inst, d)
    et = I.p.T[d]['targs'][1]
    v = I.deref_load(args[0], st)
    if type(v) is Sym:
        v = I.p.expand(v)
    if type(v) is not Agg:
        return NotImplemented
    di = info_field(I, 'data')
    rc = v.f[di]
    n = args[1]
    if type(rc) is not Nat:
        return NotImplemented
    # the &mut [u8] inside the cell
    for c, p in I.items(rc.f[0]):
        cellp = ptr('cell', p.a[0], p.a[1] + (('n', 0),))
        sl = slices(I, I.deref_load(leaf(cellp), st), st)
        for g, s in sl:
            for g2, ln in ints(I, n):
                ok = OR(TM.le(ln, s.a[3]), bdd.atom(('realloc may grow', s.a[0], ln)))
                e = I.effect(st, 'realloc', (s.a[0], ln), ok)
                old = I.slice_bytes(s, st)
                same = TM.eq(ln, s.a[3])
                newc = []
                for g3, b in I.items(old):
                    if isinstance(b, Bytes):
                        keep = TM.le(ln, b.len)
                        newc.append((AND(g3, keep), bsub(b, ZERO, ln)))
                        newc.append((AND(g3, NOT(keep)), concat(b, rbytes(TM.region(('grown', s.a[0]), None if ln.t else const(10 ** 7)), ZERO, sub(ln, b.len))) if True else None))
                s2 = st.copy()
                s2.mem[s.a[0]] = mkG(newc)
                s2.mem[p.a[0]] = I.write_path(I.cell(s2, p.a[0]), p.a[1] + (('n', 0),), leaf(ptr('slice', s.a[0], (), ZERO, ln, s.a[4])), s2)
                gg = AND(AND(AND(c, g), g2), ok)
                for k in (s.a[0], p.a[0]):
                    st.mem[k] = ite(gg, s2.mem[k], I.cell(st, k), I.p)
                return res(I, d, ok, UNIT, mkSym(et, ('realloc err',)))
    return NotImplemented


def info_field(I, name):
    for t in I.p.T:
        if t and t['k'] == 'adt' and t['path'].endswith('AccountInfo') and t['variants']:
            for i, (n, f) in enumerate(t['variants'][0]['fields']):
                if n == name:
                    return i
    raise Exception('no field ' + name)


@native(r'AccountInfo::<.*>::assign$')
def h_assign(I, st, inst, args, ci, d):
    v = I.deref_load(args[0], st)
    if type(v) is Sym:
        v = I.p.expand(v)
    if type(v) is not Agg:
        return NotImplemented
    new = I.deref_load(args[1], st)
    I.deref_store(v.f[info_field(I, 'owner')], new, st)
    return UNIT


@native(r'system_instruction::(assign|transfer|create_account|allocate)$')
def h_sysix(I, st, inst, args, ci, d):
    d = ret_ty(I, inst, d)
    fn = I.p.I[inst]['path'].rsplit('::', 1)[1]
    vals = []
    for a in args:
        if type(a) is G and any(isinstance(l, Ptr) for _, l in a.items):
            a = I.as_bytes(I.deref_load(a, st))
        vals.append(a)
    return mkNat('sysix', vals, fn)


@native(r'^std::sync::atomic::', r'^std::alloc::', r'^alloc::alloc::')
def h_skip(I, st, inst, args, ci, d):
    return NotImplemented
