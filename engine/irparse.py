"""Reader for the subset of textual LLVM 18 IR that clang -O0 + always-inline + sroa produces here."""
import re

TOK = re.compile(r'''
   \s+ | ;[^\n]*
 | (?P<str>c"(?:[^"])*")
 | (?P<id>[%@](?:"[^"]+"|[\w.$\-]+))
 | (?P<meta>![\w.]*(?:\([^)]*\))?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<q>"[^"]*")
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<p><\{|\}>|\.\.\.|[()\[\]{}<>,=*:|])
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise ParseError("token: " + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    return out


class Ty:
    __slots__ = ("k", "w", "el", "n", "fs", "name", "packed")

    def __init__(self, k, w=0, el=None, n=0, fs=None, name=None, packed=False):
        self.k, self.w, self.el, self.n, self.fs, self.name, self.packed = k, w, el, n, fs, name, packed

    def __repr__(self):
        if self.k == 'i':
            return "i%d" % self.w
        if self.k == 'arr':
            return "[%d x %r]" % (self.n, self.el)
        if self.k == 'named':
            return self.name
        if self.k == 'st':
            return "{%s}" % ", ".join(map(repr, self.fs))
        return self.k


PTR = Ty('ptr')
VOID = Ty('void')


class Cursor:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, o=0):
        return self.t[self.i + o][1] if self.i + o < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if self.peek() != v:
            raise ParseError("expected %s got %s in %s" % (v, self.peek(), " ".join(x[1] for x in self.t)[:300]))
        self.i += 1

    def type(self):
        t = self.next()
        if t == 'ptr':
            r = PTR
        elif t == 'void':
            r = VOID
        elif re.fullmatch(r'i\d+', t):
            r = Ty('i', w=int(t[1:]))
        elif t in ('double', 'float', 'x86_fp80', 'metadata', 'token', 'label'):
            r = Ty(t)
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            el = self.type()
            self.expect(']')
            r = Ty('arr', n=n, el=el)
        elif t == '<':
            n = int(self.next())
            self.expect('x')
            el = self.type()
            self.expect('>')
            r = Ty('vec', n=n, el=el)
        elif t in ('{', '<{'):
            fs = []
            close = '}' if t == '{' else '}>'
            while not self.eat(close):
                fs.append(self.type())
                self.eat(',')
            r = Ty('st', fs=fs, packed=(t == '<{'))
        elif t[0] == '%':
            r = Ty('named', name=unq(t))
        elif t == 'opaque':
            r = Ty('opaque')
        else:
            raise ParseError("type " + t)
        # function type: T (args...)
        if self.peek() == '(' and r.k != 'x':
            save = self.i
            try:
                self.next()
                while not self.eat(')'):
                    if self.eat('...'):
                        continue
                    self.type()
                    self.eat(',')
                return Ty('fn', el=r)
            except ParseError:
                self.i = save
        return r


def unq(s):
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
    return s


PATTR = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly',
         'returned', 'inreg', 'immarg', 'dead_on_unwind', 'writable', 'nofree', 'allocptr', 'allocalign', 'noreturn',
         'mustprogress', 'dso_local', 'linkonce_odr', 'internal', 'weak_odr', 'hidden', 'local_unnamed_addr',
         'unnamed_addr', 'fastcc', 'ccc', 'external', 'available_externally', 'weak', 'private', 'protected', 'comdat',
         'initializes', 'dead_on_return', 'nofpclass', 'swiftself', 'extern_weak', 'linkonce', 'common', 'coldcc'}


def skip_pattrs(c):
    info = {}
    while True:
        t = c.peek()
        if t in PATTR:
            c.next()
            info[t] = True
            if c.peek() == '(':
                depth = 0
                while True:
                    v = c.next()
                    if v == '(':
                        depth += 1
                    if v == ')':
                        depth -= 1
                        if depth == 0:
                            break
        elif t == 'align':
            c.next()
            if c.peek() == '(':
                c.next(); c.next(); c.next()
            else:
                c.next()
        elif t in ('dereferenceable', 'dereferenceable_or_null', 'captures', 'range', 'memory'):
            c.next()
            while True:
                v = c.next()
                if v == ')':
                    break
                if t == 'dereferenceable' and v.isdigit():
                    info['deref'] = int(v)
        elif t in ('sret', 'byval', 'elementtype', 'preallocated', 'inalloca', 'byref'):
            c.next()
            c.expect('(')
            info[t] = c.type()
            c.expect(')')
        else:
            return info


class Ins:
    __slots__ = ("op", "res", "ty", "a", "x", "text", "line")

    def __init__(self, op, res=None, ty=None, a=None, text="", **x):
        self.op, self.res, self.ty, self.a, self.x, self.text = op, res, ty, a or [], x, text
        self.line = None

    def __repr__(self):
        return self.text


# operand: (ty, kind, value)   kind in reg, glob, int, null, undef, float, cexpr, agg, bool, zero
class Opd:
    __slots__ = ("ty", "k", "v")

    def __init__(self, ty, k, v):
        self.ty, self.k, self.v = ty, k, v

    def __repr__(self):
        return "%s:%s" % (self.k, self.v)


class Function:
    def __init__(self, name, ret, params, body, retinfo, vararg=False):
        self.name, self.ret, self.params, self.body = name, ret, params, body
        self.retinfo = retinfo
        self.vararg = vararg
        self.blocks = None
        self.order = None
        self.pers = None


def operand(c, ty):
    t = c.peek()
    k = c.kind()
    if k == 'id':
        c.next()
        return Opd(ty, 'reg' if t[0] == '%' else 'glob', unq(t))
    if k == 'num':
        c.next()
        if ty.k == 'i':
            return Opd(ty, 'int', int(t))
        return Opd(ty, 'float', t)
    if t in ('true', 'false'):
        c.next()
        return Opd(ty, 'int', 1 if t == 'true' else 0)
    if t == 'null':
        c.next()
        return Opd(ty, 'null', 0)
    if t in ('undef', 'poison'):
        c.next()
        return Opd(ty, 'undef', 0)
    if t == 'zeroinitializer':
        c.next()
        return Opd(ty, 'zero', 0)
    if t == 'getelementptr':
        c.next()
        while c.peek() in ('inbounds', 'nuw', 'nusw'):
            c.next()
        c.expect('(')
        bt = c.type()
        c.expect(',')
        ops = []
        while True:
            oty = c.type()
            ops.append(operand(c, oty))
            if not c.eat(','):
                break
        c.expect(')')
        return Opd(ty, 'gep', (bt, ops))
    if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
        c.next()
        c.expect('(')
        st = c.type()
        o = operand(c, st)
        c.expect('to')
        dt = c.type()
        c.expect(')')
        return Opd(dt, 'cast', (t, o))
    if k == 'str':
        c.next()
        return Opd(ty, 'str', cstring(t))
    if t in ('[', '{', '<{', '<'):
        close = {'[': ']', '{': '}', '<{': '}>', '<': '>'}[t]
        c.next()
        els = []
        while not c.eat(close):
            et = c.type()
            els.append(operand(c, et))
            c.eat(',')
        return Opd(ty, 'agg', els)
    if t == 'sub' or t == 'add':
        raise ParseError("const expr " + t)
    raise ParseError("operand %s in %s" % (t, " ".join(x[1] for x in c.t)[:200]))


def cstring(t):
    s = t[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext',
        'fptrunc'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'nneg', 'disjoint', 'samesign', 'volatile', 'tail', 'notail', 'musttail', 'nusw', 'inrange'}


class Module:
    def __init__(self, path):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.raw = {}
        self.internal = set()
        self.decls = set()
        self.locs = {}
        self._parse(open(path).read())
        self._lay = {}

    def _parse(self, txt):
        lines = txt.split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                c = Cursor(tokenize(l))
                nm = unq(c.next())
                c.expect('=')
                c.expect('type')
                self.types[nm] = c.type()
            elif l.startswith('@'):
                self._global(l)
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._define(l, lines[i + 1:j])
                i = j
            elif l.startswith('declare'):
                m = re.search(r'@("(?:[^"]+)"|[\w.$]+)\(', l)
                self.decls.add(m.group(1).strip('"'))
            elif l.startswith('!') and 'DILocation(' in l:
                m = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', l)
                if m:
                    self.locs[m.group(1)] = int(m.group(2))
            i += 1

    def _global(self, l):
        m = re.match(r'@("(?:[^"]+)"|[\w.$]+) = (.*)$', l)
        name = m.group(1).strip('"')
        self.globals[name] = ('raw', m.group(2))
        if re.match(r'(internal|private)\b', m.group(2)):
            self.internal.add(name)

    def glob(self, name):
        g = self.globals.get(name)
        if g is None:
            return None
        if g[0] == 'raw':
            txt = re.sub(r', (align|comdat|section|!).*$', '', g[1])
            c = Cursor(tokenize(txt))
            const = False
            while c.peek() not in ('constant', 'global'):
                if c.peek() is None:
                    self.globals[name] = g = ('alias', None, None, True)
                    return g
                c.next()
            const = c.next() == 'constant'
            try:
                ty = c.type()
                init = operand(c, ty) if c.peek() else None
            except ParseError:
                ty, init = ty, None
            g = ('g', ty, init, const)
            self.globals[name] = g
        return g

    def unwritten(self, name):
        """an internal global whose address only reaches loads: what the initialiser put there stays"""
        if name not in self.internal:
            return False
        tok = '@' + name
        pat = re.compile(re.escape(tok) + r'(?![\w.$])')
        for g in self.globals.values():
            if g[0] == 'raw' and pat.search(g[1]):
                return False
        seen = set()

        def uses(fname, tok):
            if (fname, tok) in seen:
                return True
            seen.add((fname, tok))
            pat = re.compile(re.escape(tok) + r'(?![\w.$-])')
            for l in self.raw[fname]:
                if not pat.search(l) or ':' in l[:len(tok) + 2] and not l.startswith(' '):
                    continue
                s = l.strip()
                m = re.match(r'(%(?:"[^"]*"|[\w.$-]+)) = (.*)$', s)
                res, r = (m.group(1), m.group(2)) if m else (None, s)
                if re.match(r'load |icmp ', r):
                    continue
                if re.match(r'(getelementptr|phi|select) ', r):
                    if not uses(fname, res):
                        return False
                    continue
                m = re.match(r'(?:tail )?(?:call|invoke) .*?@("(?:[^"]+)"|[\w.$]+)\((.*)$', r)
                if not m:
                    return False
                cal, rest = m.group(1).strip('"'), m.group(2)
                args, depth, cur = [], 0, ''
                for ch in rest:
                    if ch == ')' and depth == 0:
                        break
                    depth += (ch in '([{<') - (ch in ')]}>')
                    if ch == ',' and depth == 0:
                        args.append(cur)
                        cur = ''
                    else:
                        cur += ch
                args.append(cur)
                at = [k for k, a in enumerate(args) if pat.search(a)]
                if re.match(r'llvm\.mem(cpy|move)', cal) and at == [1]:
                    continue
                if cal not in self.raw:
                    return False
                ps = self.func(cal).params
                for k in at:
                    if k >= len(ps) or not uses(cal, '%' + ps[k][0]):
                        return False
            return True
        return all(uses(f, tok) for f, b in self.raw.items() if any(tok in l for l in b))

    def _define(self, head, body):
        m = re.search(r'@("(?:[^"]+)"|[\w.$]+)\(', head)
        name = m.group(1).strip('"')
        self.funcs[name] = ('raw', head, body)
        self.raw[name] = body

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            return None
        if isinstance(f, Function):
            return f
        _, head, body = f
        head = re.sub(r'!dbg.*$', '', head)
        c = Cursor(tokenize(head))
        c.expect('define')
        ri = skip_pattrs(c)
        ret = c.type()
        nm = c.next()
        c.expect('(')
        params = []
        vararg = False
        while not c.eat(')'):
            if c.eat('...'):
                vararg = True
                continue
            ty = c.type()
            info = skip_pattrs(c)
            pn = unq(c.next()) if c.kind() == 'id' else "arg%d" % len(params)
            params.append((pn, ty, info))
            c.eat(',')
        fn = Function(name, ret, params, None, ri, vararg)
        self.funcs[name] = fn
        self._body(fn, body)
        return fn

    def _body(self, fn, body):
        blocks = {}
        order = []
        cur = None
        k = 0
        n = len(body)
        while k < n:
            l = body[k]
            k += 1
            s = l.strip()
            if not s or s.startswith(';'):
                continue
            if not l.startswith(' '):
                m = re.match(r'("(?:[^"]+)"|[\w.$\-]+):', s)
                if m:
                    lab = m.group(1).strip('"')
                    blocks[lab] = cur = []
                    order.append(lab)
                    continue
            if cur is None:
                cur = blocks['0'] = []
                order.append('0')
            # multi-line: switch / invoke / landingpad
            if re.search(r'\bswitch\b', s) and s.rstrip().endswith('['):
                while not body[k].strip().startswith(']'):
                    s += ' ' + body[k].strip()
                    k += 1
                s += ' ' + body[k].strip()
                k += 1
            elif re.search(r'(^|= )invoke\b', s):
                s += ' ' + body[k].strip()
                k += 1
            elif re.search(r'= landingpad\b', s):
                while k < n and re.match(r'\s+(cleanup|catch|filter)\b', body[k]):
                    s += ' ' + body[k].strip()
                    k += 1
            line = None
            m = re.search(r', !dbg !(\d+)', s)
            if m:
                line = self.locs.get(m.group(1))
                if line is None:
                    line = ('md', m.group(1))
            s2 = re.sub(r', !(?:dbg|llvm\.loop|tbaa|prof|noalias|alias\.scope|srcloc|range|nonnull|align|heapallocsite|noundef|invariant\.\w+) !\d+', '', s)
            s2 = re.sub(r', !\w+ !\{[^}]*\}', '', s2)
            ins = self._ins(s2)
            if ins is None:
                continue
            ins.line = line
            cur.append(ins)
        fn.blocks = blocks
        fn.order = order

    def lineof(self, ins):
        if isinstance(ins.line, tuple):
            return self.locs.get(ins.line[1])
        return ins.line

    def _ins(self, s):
        c = Cursor(tokenize(s))
        res = None
        if c.kind() == 'id' and c.peek(1) == '=':
            res = unq(c.next())
            c.next()
        op = c.next()
        fl = set()
        while op in ('tail', 'notail', 'musttail'):
            op = c.next()

        def flags():
            while c.peek() in FLAGS:
                fl.add(c.next())
        flags()
        mk = lambda op, ty=None, a=None, **x: Ins(op, res, ty, a, s, flags=fl, **x)
        if op in BIN:
            ty = c.type()
            a = operand(c, ty)
            c.expect(',')
            b = operand(c, ty)
            return mk(op, ty, [a, b])
        if op == 'fneg':
            ty = c.type()
            return mk(op, ty, [operand(c, ty)])
        if op in CAST:
            st = c.type()
            a = operand(c, st)
            c.expect('to')
            return mk(op, c.type(), [a])
        if op in ('icmp', 'fcmp'):
            pred = c.next()
            flags()
            ty = c.type()
            a = operand(c, ty)
            c.expect(',')
            b = operand(c, ty)
            return mk(op, ty, [a, b], pred=pred)
        if op == 'alloca':
            c.eat('inalloca')
            ty = c.type()
            n = None
            if c.eat(',') and c.peek() != 'align':
                nt = c.type()
                n = operand(c, nt)
            return mk(op, ty, [n] if n else [])
        if op == 'load':
            c.eat('atomic'); flags()
            ty = c.type()
            c.expect(',')
            pt = c.type()
            return mk(op, ty, [operand(c, pt)])
        if op == 'store':
            c.eat('atomic'); flags()
            ty = c.type()
            v = operand(c, ty)
            c.expect(',')
            pt = c.type()
            return mk(op, ty, [v, operand(c, pt)])
        if op == 'getelementptr':
            flags()
            bt = c.type()
            c.expect(',')
            ops = []
            while True:
                t = c.type()
                ops.append(operand(c, t))
                if not c.eat(','):
                    break
            return mk(op, PTR, ops, bt=bt)
        if op == 'select':
            t0 = c.type()
            a = operand(c, t0)
            c.expect(',')
            t1 = c.type()
            b = operand(c, t1)
            c.expect(',')
            t2 = c.type()
            d = operand(c, t2)
            return mk(op, t1, [a, b, d])
        if op == 'freeze':
            t = c.type()
            return mk(op, t, [operand(c, t)])
        if op == 'phi':
            ty = c.type()
            inc = []
            while True:
                c.expect('[')
                v = operand(c, ty)
                c.expect(',')
                b = unq(c.next())
                c.expect(']')
                inc.append((v, b))
                if not c.eat(','):
                    break
            return mk(op, ty, [], inc=inc)
        if op == 'br':
            if c.eat('label'):
                return mk('br', None, [], to=[unq(c.next())])
            t = c.type()
            cond = operand(c, t)
            c.expect(','); c.expect('label')
            a = unq(c.next())
            c.expect(','); c.expect('label')
            b = unq(c.next())
            return mk('br', None, [cond], to=[a, b])
        if op == 'switch':
            t = c.type()
            v = operand(c, t)
            c.expect(','); c.expect('label')
            d = unq(c.next())
            c.expect('[')
            cases = []
            while not c.eat(']'):
                ct = c.type()
                cv = operand(c, ct)
                c.expect(','); c.expect('label')
                cases.append((cv, unq(c.next())))
            return mk('switch', t, [v], to=[d] + [x[1] for x in cases], cases=cases, default=d)
        if op == 'ret':
            t = c.type()
            return mk('ret', t, [] if t.k == 'void' else [operand(c, t)])
        if op == 'unreachable':
            return mk(op)
        if op == 'resume':
            t = c.type()
            return mk(op, t, [operand(c, t)])
        if op == 'extractvalue':
            t = c.type()
            a = operand(c, t)
            idx = []
            while c.eat(','):
                idx.append(int(c.next()))
            return mk(op, t, [a], idx=idx)
        if op == 'insertvalue':
            t = c.type()
            a = operand(c, t)
            c.expect(',')
            t2 = c.type()
            b = operand(c, t2)
            idx = []
            while c.eat(','):
                idx.append(int(c.next()))
            return mk(op, t, [a, b], idx=idx)
        if op == 'landingpad':
            t = c.type()
            clauses = []
            while c.peek():
                k = c.next()
                if k == 'cleanup':
                    clauses.append(('cleanup', None))
                elif k == 'catch':
                    ct = c.type()
                    clauses.append(('catch', operand(c, ct)))
                elif k == 'filter':
                    ct = c.type()
                    clauses.append(('filter', operand(c, ct)))
                else:
                    raise ParseError("landingpad " + k)
            return mk(op, t, [], clauses=clauses)
        if op in ('call', 'invoke'):
            flags()
            skip_pattrs(c)
            t = c.type()
            if t.k == 'fn':
                t = t.el
            if c.kind() != 'id':
                return mk('asm', t)
            callee = c.next()
            c.expect('(')
            args = []
            infos = []
            while not c.eat(')'):
                at = c.type()
                info = skip_pattrs(c)
                if at.k == 'metadata':
                    c.next()
                    while c.peek() not in (',', ')'):
                        c.next()
                    c.eat(',')
                    continue
                args.append(operand(c, at))
                infos.append(info)
                c.eat(',')
            to = None
            if op == 'invoke':
                while c.peek() != 'to':
                    c.next()
                c.next(); c.expect('label')
                n = unq(c.next())
                c.expect('unwind'); c.expect('label')
                to = [n, unq(c.next())]
            return mk(op, t, args, callee=unq(callee), indirect=(callee[0] == '%'), infos=infos, to=to)
        if op == 'fence':
            return None
        raise ParseError("instruction " + s)

    # ---- layout
    def layout(self, ty):
        """(size, align, [(offset, ty)] for struct)"""
        key = repr(ty) if ty.k != 'named' else ty.name
        if key in self._lay:
            return self._lay[key]
        if ty.k == 'i':
            n = max(1, (ty.w + 7) // 8)
            b = 1
            while b < n:
                b *= 2
            r = (b, min(b, 16), None)
        elif ty.k == 'ptr':
            r = (8, 8, None)
        elif ty.k == 'double':
            r = (8, 8, None)
        elif ty.k == 'float':
            r = (4, 4, None)
        elif ty.k == 'x86_fp80':
            r = (16, 16, None)
        elif ty.k == 'arr':
            s, a, _ = self.layout(ty.el)
            r = (s * ty.n, a, None)
        elif ty.k == 'vec':
            s, a, _ = self.layout(ty.el)
            r = (s * ty.n, s * ty.n, None)
        elif ty.k == 'named':
            r = self.layout(self.types[ty.name])
        elif ty.k == 'st':
            off = 0
            al = 1
            fo = []
            for f in ty.fs:
                s, a, _ = self.layout(f)
                if ty.packed:
                    a = 1
                off = (off + a - 1) // a * a
                fo.append((off, f))
                off += s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al, fo)
        elif ty.k in ('fn', 'opaque', 'void'):
            r = (1, 1, None)
        else:
            raise ParseError("layout " + repr(ty))
        self._lay[key] = r
        return r

    def resolve(self, ty):
        while ty.k == 'named':
            ty = self.types[ty.name]
        return ty
