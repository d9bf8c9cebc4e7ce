"""Logical sorts, spec functions and axioms shared by all contracts."""
import z3
from z3 import *
import cxx
from cxx import sname

I = IntSort()
B = BoolSort()
R = RealSort()

PtrDT = Datatype('Ptr')
PtrDT.declare('mkptr', ('po', I), ('pf', I))
PtrDT = PtrDT.create()
WordS = DeclareSort('Word')
StrS = DeclareSort('Str')

_zs = {'i1': I, 'i8': I, 'i16': I, 'i32': I, 'i64': I, 'f64': R, 'ptr': PtrDT, 'Word': WordS, 'str': StrS}
ROW = {}
OPAQUE = set()       # names of definitions not used in the function under verification (a contract adds them)
AXIOMS = []          # (set of function-symbol names that must all be present, formula, name)


class VerifUnsupported(Exception):
    pass


def axiom(name, trig, f):
    AXIOMS.append((frozenset(trig), f, name))


def viewsort(cls, zsort):
    _zs[cls] = zsort


def zs(s):
    z = _zs.get(s)
    if z is not None:
        return z
    n = sname(s)
    if s[0] == 'vec':
        d = Datatype(n)
        d.declare('mk_' + n, ('cnt_' + n, I), ('el_' + n, ArraySort(I, zs(s[1]))))
        z = d.create()
    elif s[0] == 'map':
        d = Datatype(n)
        d.declare('mk_' + n, ('dom_' + n, ArraySort(zs(s[1]), B)), ('val_' + n, ArraySort(zs(s[1]), zs(s[2]))))
        z = d.create()
    elif s[0] == 'set':
        z = ArraySort(zs(s[1]), B)
    elif s[0] == 'rec':
        d = Datatype(n)
        d.declare('mk_' + n, *[('f%d_%s' % (o, n), zs(f)) for o, f in s[1]])
        z = d.create()
    else:
        raise VerifUnsupported("sort %r" % (s,))
    _zs[s] = z
    if s[0] == 'vec':
        # the length of a value is its count, never negative
        v, k, e = Const('v', z), Int('k'), Const('e', ArraySort(I, zs(s[1])))
        f = _len[s] = Function('len_' + n, z, I)
        axiom('veclen_' + n, ['len_' + n], ForAll([v], f(v) >= 0, patterns=[f(v)]))
        axiom('veclen2_' + n, ['len_' + n], ForAll([k, e], Implies(k >= 0, f(z.constructor(0)(k, e)) == k), patterns=[f(z.constructor(0)(k, e))]))
    if s[0] in ('map', 'set'):
        setops(s[1])
    return z


_setops = {}
_len = {}


def nonneg(t):
    if z3.is_int_value(t):
        return t.as_long() >= 0
    if z3.is_add(t):
        return all(nonneg(x) for x in t.children())
    if z3.is_app(t) and t.decl().kind() == Z3_OP_ITE:
        return nonneg(t.arg(1)) and nonneg(t.arg(2))
    return z3.is_app(t) and t.decl().kind() == Z3_OP_UNINTERPRETED and t.decl().name().startswith(('len_', 'card_', 'wlen', 'slen'))


BASE = {}       # class -> sort its value stands for


def bounds(s, v):
    """what holds of the contents of every real container: finite, less than 2^48 elements"""
    s = BASE.get(s, s)
    if not isinstance(s, tuple):
        return []
    if s[0] == 'vec':
        return [vlen(s, v) < 2**48]
    if s[0] in ('map', 'set'):
        return [fin(s[1])(mdom(s, v)), card(s, v) < 2**48]
    if s[0] == 'rec':
        return sum([bounds(f, rget(s, v, o)) for o, f in s[1]], [])
    return []


def fin(k):
    setops(k)
    return _fin[sname(k)]


_fin = {}


def x0(K):
    return Const('x', K)


def setops(k):
    """cardinality and enumeration of finite key sets of key sort k"""
    key = sname(k)
    if key in _setops:
        return _setops[key]
    K = zs(k)
    A = ArraySort(K, B)
    card = Function('card_' + key, A, I)
    enum = Function('enum_' + key, A, I, K)
    rank = Function('rank_' + key, A, K, I)
    D, i, x = Const('D', A), Int('i'), Const('x', K)
    fn = _fin[key] = Function('fin_' + key, A, B)
    axiom('card', ['card_' + key], ForAll([D], card(D) >= 0, patterns=[card(D)]))
    # only finite sets can be enumerated; those of containers are
    bb = Const('b', B)
    axiom('fin', ['fin_' + key], And(fn(z3.K(K, BoolVal(False))), ForAll([D, x0(K), bb], fn(Store(D, x0(K), bb)) == fn(D), patterns=[fn(Store(D, x0(K), bb))])))
    axiom('enum', ['enum_' + key], ForAll([D, i], Implies(And(0 <= i, i < card(D)),
                                                             And(Select(D, enum(D, i)), rank(D, enum(D, i)) == i)),
                                             patterns=[enum(D, i)]))
    axiom('rank', ['rank_' + key], ForAll([D, x], Implies(And(fn(D), Select(D, x)), And(0 <= rank(D, x), rank(D, x) < card(D),
                                                                           enum(D, rank(D, x)) == x)),
                                             patterns=[rank(D, x)]))
    # a member has a rank: needed to find the position of an element
    axiom('card0', ['card_' + key], ForAll([x], Not(Select(K_(A, False), x))) if False else card(z3.K(K, BoolVal(False))) == 0)
    _setops[key] = (card, enum, rank)
    return _setops[key]


def K_(A, v):
    return z3.K(A.domain(), BoolVal(v))


# ---- vectors
def vlen(s, v):
    z = zs(s)
    if z3.is_app(v) and v.decl().eq(z.constructor(0)) and nonneg(v.arg(0)):
        return v.arg(0)
    return _len[s](v)


def vel(s, v):
    return zs(s).accessor(0, 1)(v)


def vat(s, v, i):
    return Select(vel(s, v), i)


def vmk(s, n, el):
    return zs(s).constructor(0)(n, el)


def vpush(s, v, x):
    n = vlen(s, v)
    return vmk(s, n + 1, Store(vel(s, v), n, x))


_cat = {}


def vcat(s, v, w):
    k = sname(s)
    if k not in _cat:
        Z = zs(s)
        f = Function('cat_' + k, Z, Z, Z)
        a, b, i = Const('a', Z), Const('b', Z), Int('i')
        axiom('cat', ['cat_' + k], ForAll([a, b], vlen(s, f(a, b)) == vlen(s, a) + vlen(s, b), patterns=[f(a, b)]))
        axiom('catat', ['cat_' + k], ForAll([a, b, i], vat(s, f(a, b), i) == If(i < vlen(s, a), vat(s, a, i), vat(s, b, i - vlen(s, a))), patterns=[vat(s, f(a, b), i)]))
        _cat[k] = f
    return _cat[k](v, w)


_c = [0]


def fresh(name, zsort):
    _c[0] += 1
    return Const("%s!%d" % (name, _c[0]), zsort)


def mark():
    return _c[0]


_dflt = {}


def default(z):
    if z not in _dflt:
        _dflt[z] = Const('dflt_%s' % z, z)
    return _dflt[z]


def vempty(s):
    return vmk(s, IntVal(0), default(ArraySort(I, zs(s[1]))))


# ---- maps
def mdom(s, m):
    return m if s[0] == 'set' else zs(s).accessor(0, 0)(m)


def mval(s, m):
    return zs(s).accessor(0, 1)(m)


def mget(s, m, k):
    return Select(mval(s, m), k)


def mhas(s, m, k):
    return Select(mdom(s, m), k)


def mmk(s, dom, val=None):
    return dom if s[0] == 'set' else zs(s).constructor(0)(dom, val)


def mput(s, m, k, v):
    return mmk(s, Store(mdom(s, m), k, True), Store(mval(s, m), k, v))


def mempty(s):
    e = z3.K(zs(s[1]), BoolVal(False))
    return e if s[0] == 'set' else mmk(s, e, default(ArraySort(zs(s[1]), zs(s[2]))))


def card(s, m):
    return setops(s[1])[0](mdom(s, m))


def enum(s, m, i):
    return setops(s[1])[1](mdom(s, m), i)


def rank(s, m, k):
    return setops(s[1])[2](mdom(s, m), k)


# ---- records
def rget(s, r, off):
    for n, (o, f) in enumerate(s[1]):
        if o == off:
            return zs(s).accessor(0, n)(r)
    raise VerifUnsupported("record offset %d of %r" % (off, s))


def rmk(s, vals):
    return zs(s).constructor(0)(*vals)


# ---- words: letters are integers 0..65535
wlen = Function('wlen', WordS, I)
wat = Function('wat', WordS, I, I)
_W, _V, _i, _n, _o, _k = Const('W', WordS), Const('V', WordS), Int('i'), Int('n'), Int('o'), Int('k')
ROWI = ArraySort(I, I)
mkw = Function('mkw', ROWI, I, I, WordS)
_r = Const('r', ROWI)
axiom('wlen', ['wlen'], ForAll([_W], And(wlen(_W) >= 0, wlen(_W) < 2**29), patterns=[wlen(_W)]))
axiom('wat', ['wat'], ForAll([_W, _i], And(wat(_W, _i) >= 0, wat(_W, _i) < 65536), patterns=[wat(_W, _i)]))
axiom('mkw', ['mkw'], ForAll([_r, _o, _n], Implies(And(_n >= 0, _n < 2**29), wlen(mkw(_r, _o, _n)) == _n), patterns=[mkw(_r, _o, _n)]))
m16 = Function('m16', I, I)      # a letter read from memory (memory cells hold values of their type)
axiom('m16', ['m16'], ForAll([_i], And(m16(_i) >= 0, m16(_i) < 65536, Implies(And(_i >= 0, _i < 65536), m16(_i) == _i)), patterns=[m16(_i)]))
axiom('mkwat', ['mkw', 'wat'], ForAll([_r, _o, _n, _i], Implies(And(0 <= _i, _i < _n), wat(mkw(_r, _o, _n), _i) == m16(Select(_r, _o + 2 * _i))),
                                       patterns=[wat(mkw(_r, _o, _n), _i)]))
emptyw = Const('emptyw', WordS)
axiom('emptyw', ['emptyw'], wlen(emptyw) == 0)
axiom('emptyw2', ['emptyw', 'wlen'], ForAll([_W], Implies(wlen(_W) == 0, _W == emptyw), patterns=[wlen(_W)]))


DEFS = {}
_nm = {}


def badpat(t, _c={}):
    if t.get_id() in _c:
        return _c[t.get_id()][1]
    st = [(t, None)]
    while st:
        x, ch = st.pop()
        if x.get_id() in _c:
            continue
        r = z3.is_quantifier(x) or (z3.is_app(x) and (x.decl().kind() == Z3_OP_ITE or (z3.is_bool(x) and x.decl().kind() not in (Z3_OP_UNINTERPRETED, Z3_OP_SELECT))))
        if not r:
            if ch is None:
                ch = x.children()
                new = [(c, None) for c in ch if c.get_id() not in _c]
                if new:
                    st.append((x, ch))
                    st.extend(new)
                    continue
            r = any(_c[c.get_id()][1] for c in ch)
        _c[x.get_id()] = (x, r)
    return _c[t.get_id()][1]


def nm(t):
    """t, or a constant defined equal to it when t may not occur in patterns"""
    if not badpat(t):
        return t
    k = t.get_id()
    if k not in _nm:
        c = Const('def@%d' % len(_nm), t.sort())
        _nm[k] = c
        DEFS[c.decl().name()] = c == t
    return _nm[k]


def weq(a, b):
    if a.eq(b):
        return BoolVal(True)
    a, b = nm(a), nm(b)
    i = fresh('wi', I)
    return And(wlen(a) == wlen(b), ForAll([i], Implies(And(0 <= i, i < wlen(a)), wat(a, i) == wat(b, i)),
                                          patterns=[wat(a, i), wat(b, i)]))


# strict lexicographic order on words, by the first difference
wlt = Function('wlt', WordS, WordS, B)
lcp = Function('lcp', WordS, WordS, I)
axiom('lcp', ['lcp'], ForAll([_W, _V], And(0 <= lcp(_W, _V), lcp(_W, _V) <= wlen(_W), lcp(_W, _V) <= wlen(_V),
                                          Implies(And(lcp(_W, _V) < wlen(_W), lcp(_W, _V) < wlen(_V)), wat(_W, lcp(_W, _V)) != wat(_V, lcp(_W, _V)))), patterns=[lcp(_W, _V)]))
axiom('lcpext', ['lcp'], ForAll([_W, _V], Implies(And(lcp(_W, _V) == wlen(_W), wlen(_W) == wlen(_V)), _W == _V), patterns=[lcp(_W, _V)]))
axiom('lcp2', ['lcp', 'wat'], ForAll([_W, _V, _i], Implies(And(0 <= _i, _i < lcp(_W, _V)), wat(_W, _i) == wat(_V, _i)), patterns=[MultiPattern(lcp(_W, _V), wat(_W, _i)), MultiPattern(lcp(_W, _V), wat(_V, _i))]))
axiom('wlt', ['wlt'], ForAll([_W, _V], wlt(_W, _V) == Or(And(lcp(_W, _V) == wlen(_W), wlen(_W) < wlen(_V)),
                                                        And(lcp(_W, _V) < wlen(_W), lcp(_W, _V) < wlen(_V), wat(_W, lcp(_W, _V)) < wat(_V, lcp(_W, _V)))), patterns=[wlt(_W, _V)]))
white = lambda c: Or(c == 32, c == 9, c == 10, c == 13)
high = lambda c: And(c >= 0xd800, c < 0xdc00)
lows = lambda c: And(c >= 0xdc00, c < 0xe000)


def paired(W, j, n):
    """letter j of W is properly paired within the first n letters"""
    return And(Implies(And(high(wat(W, j)), j + 1 < n), lows(wat(W, j + 1))), Implies(lows(wat(W, j)), And(j >= 1, high(wat(W, j - 1)))))


nowhite, nonul, pairedw = Function('nowhite', WordS, B), Function('nonul', WordS, B), Function('pairedw', WordS, B)
wordok = lambda W: And(nowhite(W), nonul(W), pairedw(W))
axiom('nowhite', ['nowhite'], ForAll([_W], nowhite(_W) == ForAll([_i], Implies(And(0 <= _i, _i < wlen(_W)), Not(white(wat(_W, _i)))), patterns=[wat(_W, _i)]), patterns=[nowhite(_W)]))
axiom('nonul', ['nonul'], ForAll([_W], nonul(_W) == ForAll([_i], Implies(And(0 <= _i, _i < wlen(_W)), wat(_W, _i) != 0), patterns=[wat(_W, _i)]), patterns=[nonul(_W)]))
axiom('pairedw', ['pairedw'], ForAll([_W], pairedw(_W) == And(ForAll([_i], Implies(And(0 <= _i, _i < wlen(_W)), paired(_W, _i, wlen(_W))), patterns=[wat(_W, _i)]),
                                                            Implies(wlen(_W) > 0, Not(high(wat(_W, wlen(_W) - 1))))), patterns=[pairedw(_W)]))
wcat = Function('wcat', WordS, WordS, WordS)
axiom('wcat', ['wcat'], ForAll([_W, _V], Implies(wlen(_W) + wlen(_V) < 2**29, wlen(wcat(_W, _V)) == wlen(_W) + wlen(_V)), patterns=[wcat(_W, _V)]))
axiom('wcatat', ['wcat', 'wat'], ForAll([_W, _V, _i], Implies(And(0 <= _i, _i < wlen(_W) + wlen(_V), wlen(_W) + wlen(_V) < 2**29), wat(wcat(_W, _V), _i) == If(_i < wlen(_W), wat(_W, _i), wat(_V, _i - wlen(_W)))), patterns=[wat(wcat(_W, _V), _i)]))
whash = Function('whash', WordS, I)
axiom('whash', ['whash'], ForAll([_W], And(whash(_W) >= 0, whash(_W) < IntVal(2**64)), patterns=[whash(_W)]))
# copyrow(dst, doff, src, soff, n): dst with [doff, doff+n) replaced by src[soff..soff+n)
_copy = {}


def copyrow(s):
    z = zs(s)
    n = str(z)
    if n not in _copy:
        A = ArraySort(I, z)
        f = Function('copyrow_' + n, A, I, A, I, I, A)
        d, sr = Const('d', A), Const('s', A)
        do, so, ln, k = Ints('do so ln k')
        axiom('copyrow', ['copyrow_' + n], ForAll([d, do, sr, so, ln, k], Select(f(d, do, sr, so, ln), k) == If(
            And(do <= k, k < do + ln), Select(sr, so + k - do), Select(d, k)), patterns=[Select(f(d, do, sr, so, ln), k)]))
        _copy[n] = f
    return _copy[n]


_fill = {}


def fillrow(s):
    z = zs(s)
    n = str(z)
    if n not in _fill:
        A = ArraySort(I, z)
        f = Function('fillrow_' + n, A, I, I, z, A)
        d = Const('d', A)
        do, ln, k = Ints('do ln k')
        v = Const('v', z)
        axiom('fillrow', ['fillrow_' + n], ForAll([d, do, ln, v, k], Select(f(d, do, ln, v), k) == If(
            And(do <= k, k < do + ln), v, Select(d, k)), patterns=[Select(f(d, do, ln, v), k)]))
        _fill[n] = f
    return _fill[n]


# ---- strings: bytes 0..255, no NUL inside
slen = Function('slen', StrS, I)
sbyte = Function('sbyte', StrS, I, I)
_S = Const('S', StrS)
axiom('slen', ['slen'], ForAll([_S], And(slen(_S) >= 0, slen(_S) < 2**31), patterns=[slen(_S)]))
axiom('sbyte', ['sbyte'], ForAll([_S, _i], And(sbyte(_S, _i) >= 0, sbyte(_S, _i) < 256,
                                               Implies(And(0 <= _i, _i < slen(_S)), sbyte(_S, _i) != 0)), patterns=[sbyte(_S, _i)]))
cstr = Function('cstr', ROWI, I, StrS)
m8 = Function('m8', I, I)      # a byte read from memory
axiom('m8', ['m8'], ForAll([_i], And(m8(_i) >= 0, m8(_i) < 256, (m8(_i) == 0) == (_i == 0), Implies(And(_i >= 0, _i < 256), m8(_i) == _i)), patterns=[m8(_i)]))
ends = Function('ends', ROWI, I, B)      # a terminator follows
axiom('cstr', ['cstr', 'sbyte'], ForAll([_r, _o, _i], Implies(And(0 <= _i, _i < slen(cstr(_r, _o))), sbyte(cstr(_r, _o), _i) == m8(Select(_r, _o + _i))),
                               patterns=[sbyte(cstr(_r, _o), _i)]))
axiom('cstr2', ['cstr'], ForAll([_r, _o, _k], And(Implies(And(_o <= _k, _k < _o + slen(cstr(_r, _o))), Select(_r, _k) != 0),
                                                 Implies(And(_o <= _k, _k < _o + 2**31, Select(_r, _k) == 0), And(ends(_r, _o), slen(cstr(_r, _o)) <= _k - _o))),
                                patterns=[MultiPattern(cstr(_r, _o), Select(_r, _k))]))
axiom('cstr3', ['cstr'], ForAll([_r, _o], Implies(ends(_r, _o), Select(_r, _o + slen(cstr(_r, _o))) == 0), patterns=[cstr(_r, _o)]))
# text -> letters (UTF-8 decoding, then lower case), letters -> text
utf8ok = Function('utf8ok', StrS, B)
u16len = Function('u16len', StrS, I)
u16at = Function('u16at', StrS, I, I)
low = Function('low', I, I)
convertible = Function('convertible', WordS, B)
utf8 = Function('utf8', WordS, StrS)
textword = Function('textword', StrS, WordS)
axiom('convertible', ['convertible', 'pairedw'], ForAll([_W], Implies(pairedw(_W), convertible(_W)), patterns=[convertible(_W)]))
noconv = Const('converter_missing', B)
axiom('u16len', ['u16len'], ForAll([_S], And(u16len(_S) >= 0, u16len(_S) <= slen(_S), u16len(_S) < 2**29), patterns=[u16len(_S)]))
axiom('u16at', ['u16at'], ForAll([_S, _i], And(u16at(_S, _i) >= 0, u16at(_S, _i) < 65536, Implies(And(0 <= _i, _i < u16len(_S)), u16at(_S, _i) != 0)), patterns=[u16at(_S, _i)]))
axiom('low', ['low'], ForAll([_i], And(low(_i) >= 0, low(_i) < 65536, (low(_i) == 0) == (_i == 0)), patterns=[low(_i)]))
axiom('textword', ['textword'], ForAll([_S], wlen(textword(_S)) == u16len(_S), patterns=[textword(_S)]))
axiom('textwordat', ['textword', 'wat'], ForAll([_S, _i], Implies(And(0 <= _i, _i < u16len(_S)), wat(textword(_S), _i) == low(u16at(_S, _i))), patterns=[wat(textword(_S), _i)]))
axiom('utf8len', ['utf8'], ForAll([_W], slen(utf8(_W)) <= 3 * wlen(_W), patterns=[utf8(_W)]))

osize = Function('osize', I, I)
akind = Function('akind', I, I)
mapfd, fdof, fileof = Function('mapfd', I, I), Function('fdof', I, I), Function('fileof', I, I)     # the file of a mapping, the descriptor of a FILE and back
okind = Function('okind', I, I)


def eqv(s, a, b):
    """observable equality of logical values"""
    if a.eq(b):
        return BoolVal(True)
    if isinstance(s, tuple) and s[0] in ('vec', 'map', 'set'):
        a, b = nm(a), nm(b)
    if s == 'Word':
        return a == b
    if isinstance(s, tuple) and s[0] == 'vec':
        i = fresh('vi', I)
        return And(vlen(s, a) == vlen(s, b), ForAll([i], Implies(And(0 <= i, i < vlen(s, a)), eqv(s[1], vat(s, a, i), vat(s, b, i))),
                                                    patterns=[vat(s, a, i), vat(s, b, i)]))
    if isinstance(s, tuple) and s[0] == 'map':
        k = fresh('mk', zs(s[1]))
        return And(ForAll([k], mhas(s, a, k) == mhas(s, b, k), patterns=[mhas(s, a, k), mhas(s, b, k)]),
                   ForAll([k], Implies(mhas(s, a, k), eqv(s[2], mget(s, a, k), mget(s, b, k))),
                          patterns=[mget(s, a, k), mget(s, b, k)]))
    if isinstance(s, tuple) and s[0] == 'set':
        k = fresh('mk', zs(s[1]))
        return ForAll([k], Select(a, k) == Select(b, k), patterns=[Select(a, k), Select(b, k)])
    if isinstance(s, tuple) and s[0] == 'rec':
        return And(*[eqv(f, rget(s, a, o), rget(s, b, o)) for o, f in s[1]])
    if s in EQV:
        return EQV[s](a, b)
    return a == b


EQV = {}
LIT = {}


def strlit(b):
    if b not in LIT:
        c = Const('lit_%d' % len(LIT), StrS)
        LIT[b] = c
        axiom('lit', [c.decl().name()], And(slen(c) == len(b), *[sbyte(c, k) == ch for k, ch in enumerate(b[:64])]))
    return LIT[b]


UNFOLD = {}
for _f, _b in ((nowhite, lambda W, i: Not(white(wat(W, i)))), (nonul, lambda W, i: wat(W, i) != 0)):
    def _mk(b):
        def g(W):
            i = Int('u!i')
            return ForAll([i], Implies(And(0 <= i, i < wlen(W)), b(W, i)))
        return g
    UNFOLD[_f.name()] = _mk(_b)


def _unp(W):
    i = Int('u!i')
    return ForAll([i], Implies(And(0 <= i, i < wlen(W)), And(paired(W, i, wlen(W)), Implies(i == wlen(W) - 1, Not(high(wat(W, i)))))))


UNFOLD['pairedw'] = _unp


def unfold(g):
    if z3.is_app(g) and g.decl().name() in UNFOLD:
        return UNFOLD[g.decl().name()](*g.children())
    return g
