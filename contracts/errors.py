"""Contracts of ErrorValues (C11, C12, C22)."""
from z3 import *
import cxx
import logic as L
import vc
from vc import *
from logic import fresh, I, StrS, WordS
from lists import alias, at, N

PL = cxx.mkrec(['i16', 'i16'])
SM = ('map', PL, 'i32')          # errors of single pairs, smaller letter first
GM = ('map', 'i16', 'i64')       # letter -> number of its group
GE = ('vec', 'i32')              # errors of the groups
EV = ('rec', ((0, 'i32'), (4, 'i32'), (8, 'i32'), (12, 'i32'), (16, 'i32'), (20, 'i32'), (24, 'i64'), (32, SM), (40, GM), (48, GE)))
FIELDS = [('i32', 0), ('i32', 4), ('i32', 8), ('i32', 12), ('i32', 16), ('i32', 20), ('i64', 24)]
INS, DEL, ENDDEL, STARTINS, SUBST, TRANS, LIMIT, SINGLE, GROUP, GERR = 0, 4, 8, 12, 16, 20, 24, 32, 40, 48
cxx.CLASS_SIZES.update({'ErrorValues': 40})
alias('ErrorValues', EV)
ev = lambda e, o: L.rget(EV, e, o)
pair = lambda a, b: L.rmk(PL, [a, b])
NL = 512                         # letters served by the table


def upd(e, **kw):
    """e with some parts replaced"""
    names = dict(ins=0, dele=4, enddel=8, startins=12, subst=16, trans=20, limit=24, single=32, group=40, gerr=48)
    new = {names[k]: v for k, v in kw.items()}
    return L.rmk(EV, [new.get(o, ev(e, o)) for o, f in EV[1]])


# the substitution error: identity, then the pair, then the common group, then the default
sube = Function('sube', L.zs(SM), L.zs(GM), L.zs(GE), I, I, I, I)
_s, _g, _e, _d, _a, _b = Const('s', L.zs(SM)), Const('g', L.zs(GM)), Const('e', L.zs(GE)), Int('d'), Int('a'), Int('b')


def subdef(s, g, e, d, a, b):
    k = If(a < b, pair(a, b), pair(b, a))
    return If(a == b, 0, If(L.mhas(SM, s, k), L.mget(SM, s, k), If(And(L.mhas(GM, g, a), L.mhas(GM, g, b), L.mget(GM, g, a) == L.mget(GM, g, b)), L.vat(GE, e, L.mget(GM, g, a)), d)))


L.axiom('sube', ['sube'], ForAll([_s, _g, _e, _d, _a, _b], sube(_s, _g, _e, _d, _a, _b) == subdef(_s, _g, _e, _d, _a, _b), patterns=[sube(_s, _g, _e, _d, _a, _b)]))
sub = lambda E, a, b: sube(ev(E, SINGLE), ev(E, GROUP), ev(E, GERR), ev(E, SUBST), a, b)

# one of the first n letters of W is l, at position lpos
inw, lpos = Function('inw', WordS, I, I, BoolSort()), Function('lpos', WordS, I, I, I)
_W, _n, _l, _i = Const('W', WordS), Int('n'), Int('l'), Int('i')
L.axiom('inw', ['inw'], ForAll([_W, _n, _l], Implies(inw(_W, _n, _l), And(0 <= lpos(_W, _n, _l), lpos(_W, _n, _l) < _n, L.wat(_W, lpos(_W, _n, _l)) == _l)), patterns=[inw(_W, _n, _l)]))
L.axiom('inw2', ['inw'], ForAll([_W, _n, _l, _i], Implies(And(0 <= _i, _i < _n, L.wat(_W, _i) == _l), inw(_W, _n, _l)), patterns=[MultiPattern(inw(_W, _n, _l), L.wat(_W, _i))]))
inword = lambda W, l: inw(W, L.wlen(W), l)
# the letters of W become group k
addg = Function('addg', L.zs(GM), WordS, I, L.zs(GM))
_k = Int('k')
_ag = addg(_g, _W, _k)
L.axiom('addgdom', ['addg'], ForAll([_g, _W, _k, _l], L.mhas(GM, _ag, _l) == Or(L.mhas(GM, _g, _l), inword(_W, _l)), patterns=[L.mhas(GM, _ag, _l)]))
L.axiom('addgval', ['addg'], ForAll([_g, _W, _k, _l], L.mget(GM, _ag, _l) == If(inword(_W, _l), _k, L.mget(GM, _g, _l)), patterns=[L.mget(GM, _ag, _l)]))
L.axiom('addgfin', ['addg'], ForAll([_g, _W, _k], Implies(L.fin('i16')(L.mdom(GM, _g)), L.fin('i16')(L.mdom(GM, _ag))), patterns=[_ag]))
# some letter of W has a group already
clash, cpos = Function('clash', L.zs(GM), WordS, BoolSort()), Function('cpos', L.zs(GM), WordS, I)
L.axiom('clash', ['clash'], ForAll([_g, _W], Implies(clash(_g, _W), And(0 <= cpos(_g, _W), cpos(_g, _W) < L.wlen(_W), L.mhas(GM, _g, L.wat(_W, cpos(_g, _W))))), patterns=[clash(_g, _W)]))
L.axiom('clash2', ['clash'], ForAll([_g, _W, _i], Implies(And(0 <= _i, _i < L.wlen(_W), L.mhas(GM, _g, L.wat(_W, _i))), clash(_g, _W)), patterns=[MultiPattern(clash(_g, _W), L.wat(_W, _i))]))


# ---------------------------------------------------------------- typing presets, from the documented layouts
KEYS = ["1234567890+", "qwertyuiop\xe5", "asdfghjkl\xf6\xe4'", "zxcvbnm,.-"]
PAD = [["", "abc", "def"], ["ghi", "jkl", "mno"], ["pqrs", "tuv", "wxyz"]]


def keyboard():
    out = set()
    for y, r in enumerate(KEYS):
        for x, c in enumerate(r):
            # keys are staggered: a key touches the one below it and the one left of that
            near = [(y, x + 1), (y + 1, x), (y + 1, x - 1)]
            for j, i in near:
                if j < len(KEYS) and 0 <= i < len(KEYS[j]):
                    a, b = ord(c), ord(KEYS[j][i])
                    out.add((min(a, b), max(a, b)))
    return {k: 30 for k in out}


def numpad():
    out = {}
    for y in range(3):
        for x in range(3):
            d = ord('1') + 3 * y + x
            for v in range(3):
                for u in range(3):
                    if abs(u - x) + abs(v - y) <= 1:
                        for c in PAD[v][u]:
                            out[(min(d, ord(c)), max(d, ord(c)))] = 0 if (u, v) == (x, y) else 50
    return out


def preset(name, table):
    """the pair map with all pairs of the table added"""
    f = Function(name, L.zs(SM), L.zs(SM))
    k = Const('k', L.zs(PL))
    a, b = L.rget(PL, k, 0), L.rget(PL, k, 2)
    byval = {}
    for (x, y), v in sorted(table.items()):
        byval.setdefault(v, []).append((x, y))

    def among(ps):
        d = {}
        for x, y in ps:
            d.setdefault(x, []).append(y)
        return Or(*[And(a == x, Or(*[b == y for y in ys])) for x, ys in sorted(d.items())])
    any_ = Or(*[among(ps) for ps in byval.values()])
    val = L.mget(SM, _s, k)
    for v, ps in byval.items():
        val = If(among(ps), IntVal(v), val)
    L.axiom(name, [name], ForAll([_s, k], L.mhas(SM, f(_s), k) == Or(L.mhas(SM, _s, k), any_), patterns=[L.mhas(SM, f(_s), k)]))
    L.axiom(name + 'val', [name], ForAll([_s, k], L.mget(SM, f(_s), k) == val, patterns=[L.mget(SM, f(_s), k)]))
    L.axiom(name + 'fin', [name], ForAll([_s], Implies(L.fin(PL)(L.mdom(SM, _s)), L.fin(PL)(L.mdom(SM, f(_s)))), patterns=[f(_s)]))
    return f


kbpairs = preset('kbpairs', keyboard())
padpairs = preset('padpairs', numpad())


# ---------------------------------------------------------------- representation
def rep():
    prv = lambda X, st, p: X.load(st, 'ptr', X.padd(st, p, 32), False)
    lutp = lambda X, st, o: X.load(st, 'ptr', PB(o, 120), False)

    def view(X, st, p):
        o = prv(X, st, p).obj
        return L.rmk(EV, [X.toz(s, X.load(st, s, X.padd(st, p, f), False)) for s, f in FIELDS] + [at(X, st, SM, o, 0), at(X, st, GM, o, 48), at(X, st, GE, o, 96)])

    def wf0(X, st, p):
        t = prv(X, st, p)
        o = t.obj
        u = lutp(X, st, o)
        ad = X.addr(p)
        own = L.PtrDT.mkptr(ad[0], ad[1])
        l = fresh('wl', I)
        gm, ge = at(X, st, GM, o, 48), at(X, st, GE, o, 96)
        return [("its data is memory of its own", And(o != 0, Select(st.g['alive'], o), t.off == 0, L.akind(o) == 1, L.okind(o) == 0, L.osize(o) >= 128)),
                ("its data has one owner", Select(st.g['owner'], o) == own),
                ("its table is memory of its own", And(u.obj != 0, u.obj != o, Select(st.g['alive'], u.obj), u.off == 0, L.akind(u.obj) == 2, L.okind(u.obj) == 1, L.osize(u.obj) >= 4 * NL * NL)),
                ("groups have errors", ForAll([l], Implies(L.mhas(GM, gm, l), And(0 <= L.mget(GM, gm, l), L.mget(GM, gm, l) < L.vlen(GE, ge))), patterns=[L.mhas(GM, gm, l)]))]

    def wf(X, st, p):
        E = view(X, st, p)
        u = lutp(X, st, prv(X, st, p).obj)
        return wf0(X, st, p) + [("the table holds the errors of small letters", table(X, st, u.obj, E))]
    r = Rep('ErrorValues', FIELDS + [('ptr', 32)], view, wf, lambda X, st, p: [prv(X, st, p).obj, lutp(X, st, prv(X, st, p).obj).obj],
            eq=lambda a, b: L.eqv('ErrorValues', a, b), rowsorts=('i32', 'ptr', SM, GM, GE))
    r.movedfrom = lambda X, st, p: BoolVal(False)
    r.lut = lambda X, st, p: lutp(X, st, prv(X, st, p).obj)
    return r


# the letters of the table entry at byte k
sa, sb = Function('slota', I, I), Function('slotb', I, I)
slot = lambda k: (sa(k), sb(k))


inlut = lambda k: And(0 <= k, k < 4 * NL * NL, k % IntVal(4) == 0)
_t = Int('t')
L.axiom('slot', ['slota'], ForAll([_t], Implies(inlut(_t), And(0 <= sa(_t), sa(_t) < NL, 0 <= sb(_t), sb(_t) < NL, _t == 4 * NL * sa(_t) + 4 * sb(_t))), patterns=[sa(_t)]))
cell = Function('cell', I, I, I)
_ca, _cb = Ints('ca cb')
L.axiom('cell', ['cell'], ForAll([_ca, _cb], Implies(And(0 <= _ca, _ca < NL, 0 <= _cb, _cb < NL), And(
    cell(_ca, _cb) == 4 * NL * _ca + 4 * _cb, cell(_ca, _cb) % IntVal(4) == 0, sa(cell(_ca, _cb)) == _ca, sb(cell(_ca, _cb)) == _cb)), patterns=[cell(_ca, _cb)]))


def table(X, st, lut, E):
    k = fresh('tk', I)
    row = L.nm(X.row(st, 'i32', lut))
    E = L.nm(E)
    return ForAll([k], Implies(inlut(k), Select(row, k) == sub(E, *slot(k))), patterns=[Select(row, k)])


def hints(lc):
    X = lc.X
    g = X.spec.ghost.get('ev')
    r = X.reps_active.get('ErrorValues')
    if g is None or r is None:
        return []
    this, E0, W = g
    out = []
    k, a, b, l = fresh('tk', I), fresh('ta', I), fresh('tb', I), fresh('tl', I)
    lutof = lambda S: r.lut(X, S.st, this).obj
    row = lambda S: L.nm(X.row(S.st, 'i32', lutof(S)))
    now = lambda S: L.nm(r.view(X, S.st, this))
    sl = slot(k)
    # clearing the table
    small = [x for x in lc.ints(32)]
    # loop variables of the loops around
    envints, have = [], set()
    for v in lc.env.values():
        if isinstance(v, IV) and v.w in (32, 64) and z3.is_const(v.u) and '@' in v.u.decl().name() and v.u.decl().name() not in have:
            have.add(v.u.decl().name())
            envints.append(v)
    default = lambda S: If(sl[0] == sl[1], 0, ev(now(S), SUBST))
    for x in small if W is None else []:
        out.append(("rows below %s are default" % x, lambda S, x=x: ForAll([k], Implies(And(inlut(k), sl[0] < num(S.v(x))), Select(row(S), k) == default(S)), patterns=[Select(row(S), k)])))
        for y in envints:
            out.append(("rows below and part of a row are default %s %s" % (x, y.u), lambda S, x=x, y=y: ForAll([k], Implies(And(inlut(k), Or(sl[0] < y.u, And(sl[0] == y.u, sl[1] < num(S.v(x))))),
                                                                                                         Select(row(S), k) == default(S)), patterns=[Select(row(S), k)])))
    if W is None:
        return out
    gm = lambda S: ev(now(S), GROUP)
    g0 = ev(E0, GROUP)
    n0 = L.vlen(GE, ev(E0, GERR))
    N = X.spec.ghost['newev']
    rowis = lambda S, e: ForAll([k], Implies(inlut(k), Select(row(S), k) == sub(e, *sl)), patterns=[Select(row(S), k)])
    out.append(("the table has old or new errors", lambda S: ForAll([k], Implies(inlut(k), Or(Select(row(S), k) == sub(N, *sl), Select(row(S), k) == sub(E0, *sl))), patterns=[Select(row(S), k)])))
    out.append(("all letters are grouped", lambda S: gm(S) == addg(g0, W, n0)))
    done = lambda S, cond: ForAll([a, b], Implies(And(0 <= a, a <= b, b < L.wlen(W), cond, L.wat(W, a) < NL, L.wat(W, b) < NL), And(
        Select(row(S), cell(L.wat(W, a), L.wat(W, b))) == sub(N, L.wat(W, a), L.wat(W, b)),
        Select(row(S), cell(L.wat(W, b), L.wat(W, a))) == sub(N, L.wat(W, a), L.wat(W, b)))), patterns=[MultiPattern(L.wat(W, a), L.wat(W, b))])
    for x in small:
        out.append(("no clash before %s" % x, lambda S, x=x: ForAll([a], Implies(And(0 <= a, a < num(S.v(x))), Not(L.mhas(GM, g0, L.wat(W, a)))), patterns=[L.wat(W, a)])))
        out.append(("%s letters are grouped" % x, lambda S, x=x: ForAll([l], And(L.mhas(GM, gm(S), l) == Or(L.mhas(GM, g0, l), inw(W, num(S.v(x)), l)), L.mget(GM, gm(S), l) == If(inw(W, num(S.v(x)), l), n0, L.mget(GM, g0, l))),
                                                                        patterns=[L.mhas(GM, gm(S), l), L.mget(GM, gm(S), l)])))
        out.append(("pairs from before %s" % x, lambda S, x=x: done(S, a < num(S.v(x)))))
        for y in envints:
            out.append(("pairs from before %s and with some of its own %s" % (y.u, x), lambda S, x=x, y=y: done(S, Or(a < y.u, And(a == y.u, b < num(S.v(x)))))))
    return out


def install(lib):
    C = lib.contracts
    lib.reps['ErrorValues'] = rep()

    def con(*names):
        def d(f):
            def g(spec, *a):
                if spec.mode == 'def':
                    spec.hints.append(hints)
                f(spec, *a)
            for n in names:
                C[N + n] = g
            return f
        return d

    def E(spec, p, w=None):
        e = spec.get('ErrorValues', p)
        if spec.mode == 'def':
            spec.ghost['ev'] = (p, e, w)
        return e

    C[N + 'debugMessage(char const*, ...)'] = lambda spec, *a: None
    fresh0 = lambda: L.rmk(EV, [IntVal(100)] * 6 + [IntVal(0), L.mempty(SM), L.mempty(GM), L.vempty(GE)])

    @con('ErrorValues::ErrorValues()')
    def c(spec, this):
        if spec.mode == 'def':
            spec.ghost['ev'] = (this, None, None)
        spec.set('ErrorValues', this, fresh0())

    @con('ErrorValues::~ErrorValues()')
    def c(spec, this):
        spec.get('ErrorValues', this)
        spec.destroy('ErrorValues', this)

    @con('ErrorValues::getSubstituteError(LetterT<unsigned short>, LetterT<unsigned short>) const')
    def c(spec, this, a, b):
        spec.returns(sub(E(spec, this), a.u, b.u))

    for nm, o in (('Insertion', INS), ('Deletion', DEL), ('EndDeletion', ENDDEL), ('Transpose', TRANS)):
        @con('ErrorValues::get%sError() const' % nm)
        def c(spec, this, o=o):
            spec.returns(ev(spec.get('ErrorValues', this), o))

    for nm, o in (('Insertion', 'ins'), ('Deletion', 'dele'), ('EndDeletion', 'enddel'), ('StartInsertion', 'startins'), ('Transpose', 'trans')):
        @con('ErrorValues::set%sError(int)' % nm)
        def c(spec, this, v, o=o):
            spec.set('ErrorValues', this, upd(spec.get('ErrorValues', this), **{o: v.u}))

    @con('ErrorValues::setSubstringStartLimit(unsigned long)')
    def c(spec, this, v):
        spec.set('ErrorValues', this, upd(spec.get('ErrorValues', this), limit=v.u))

    @con('ErrorValues::setSubstringMode()')
    def c(spec, this):
        spec.set('ErrorValues', this, upd(spec.get('ErrorValues', this), startins=IntVal(15), enddel=IntVal(15), limit=IntVal(3)))

    @con('ErrorValues::getStartInsertionError(unsigned long) const')
    def c(spec, this, n):
        e = spec.get('ErrorValues', this)
        spec.returns(If(n.u >= ev(e, LIMIT), ev(e, STARTINS), ev(e, INS)))

    @con('ErrorValues::setError(LetterT<unsigned short>, LetterT<unsigned short>, int)')
    def c(spec, this, a, b, v):
        e = E(spec, this)
        k = If(a.u < b.u, pair(a.u, b.u), pair(b.u, a.u))
        s = ev(e, SINGLE)
        if a.isconst() and b.isconst():
            k = pair(a.u, b.u) if a.cval() < b.cval() else pair(b.u, a.u)
            s2 = s if a.cval() == b.cval() else L.mput(SM, s, k, v.u)
        else:
            s2 = If(a.u == b.u, s, L.mput(SM, s, k, v.u))
        spec.set('ErrorValues', this, upd(e, single=s2))

    @con('ErrorValues::clearErrors()')
    def c(spec, this):
        e = E(spec, this)
        spec.set('ErrorValues', this, upd(e, single=L.mempty(SM), group=L.mempty(GM), gerr=L.vempty(GE)))

    @con('ErrorValues::isInGroup(LetterT<unsigned short>)')
    def c(spec, this, l):
        spec.returns(L.mhas(GM, ev(spec.get('ErrorValues', this), GROUP), l.u))

    @con('ErrorValues::setGroupError(Columbus::Word const&, int)')
    def c(spec, this, w, v):
        W = spec.get('Word', w)
        spec.ghost['htimeout'] = 6
        e = E(spec, this, W)
        g, r = ev(e, GROUP), ev(e, GERR)
        n = L.vlen(GE, r)
        new = upd(e, group=addg(g, W, n), gerr=L.vpush(GE, r, v.u))
        bad = clash(g, W)
        if spec.mode == 'def':
            # the substitution error by the lemmas 'symmetric', 'a new group gives ...', 'a new group changes no other pair'
            L.OPAQUE.add('sube')
            spec.ghost['newev'] = new
            a, b = fresh('na', I), fresh('nb', I)
            A = lambda x, pats: spec.st.assume(ForAll([a, b], x, patterns=pats))
            both = And(inword(W, a), inword(W, b))
            A(sub(new, a, b) == sub(new, b, a), [sub(new, a, b)])
            A(sub(e, a, b) == sub(e, b, a), [sub(e, a, b)])
            A(Implies(a == b, sub(new, a, b) == 0), [sub(new, a, b)])
            A(Implies(a == b, sub(e, a, b) == 0), [sub(e, a, b)])
            single = L.mhas(SM, ev(e, SINGLE), If(a < b, pair(a, b), pair(b, a)))
            A(Implies(And(Not(bad), both, a != b, Not(single)), sub(new, a, b) == v.u), [sub(new, a, b)])
            A(Implies(And(Not(bad), Or(Not(both), single, a == b)), sub(new, a, b) == sub(e, a, b)), [sub(new, a, b)])
        spec.throws('std::runtime_error', bad)
        spec.set('ErrorValues', this, new)

    @con('ErrorValues::addKeyboardErrors()')
    def c(spec, this):
        e = spec.get('ErrorValues', this)
        spec.set('ErrorValues', this, upd(e, single=kbpairs(ev(e, SINGLE))))

    @con('ErrorValues::addNumberpadErrors()')
    def c(spec, this):
        e = spec.get('ErrorValues', this)
        spec.set('ErrorValues', this, upd(e, single=padpairs(ev(e, SINGLE))))


def lemmas_sub():
    s, g, e, d, a, b, x, y, v = Const('ls', L.zs(SM)), Const('lg', L.zs(GM)), Const('le', L.zs(GE)), Int('ld'), Int('la'), Int('lb'), Int('lx'), Int('ly'), Int('lv')
    W = Const('lW', WordS)
    n = L.vlen(GE, e)
    key = If(x < y, pair(x, y), pair(y, x))
    gok = ForAll([_l], Implies(L.mhas(GM, g, _l), And(0 <= L.mget(GM, g, _l), L.mget(GM, g, _l) < n)), patterns=[L.mhas(GM, g, _l)])
    S = lambda *k: sube(*k)
    put = L.mput(SM, s, key, v)
    g2, e2 = addg(g, W, n), L.vpush(GE, e, v)
    return [("the substitution error is symmetric", [], S(s, g, e, d, a, b) == S(s, g, e, d, b, a)),
            ("identical letters have no error", [], S(s, g, e, d, a, a) == 0),
            ("a pair has the error set last", [x != y], S(put, g, e, d, x, y) == v),
            ("setting one pair changes no other", [x != y, Not(Or(And(a == x, b == y), And(a == y, b == x)))], S(put, g, e, d, a, b) == S(s, g, e, d, a, b)),
            ("a new group gives its error to its pairs", [gok, Not(clash(g, W)), inword(W, a), inword(W, b), a != b, Not(L.mhas(SM, s, If(a < b, pair(a, b), pair(b, a))))], S(s, g2, e2, d, a, b) == v),
            ("a new group changes no other pair", [gok, Not(clash(g, W)), Not(And(inword(W, a), inword(W, b)))], S(s, g2, e2, d, a, b) == S(s, g, e, d, a, b)),
            ("an error set for a pair beats a group", [L.mhas(SM, s, If(a < b, pair(a, b), pair(b, a)))], S(s, g2, e2, d, a, b) == S(s, g, e, d, a, b)),
            ("cleared errors are the default", [a != b], S(L.mempty(SM), L.mempty(GM), L.vempty(GE), d, a, b) == d),
            ("a new group makes exactly its letters grouped", [], L.mhas(GM, g2, a) == Or(L.mhas(GM, g, a), inword(W, a)))]
