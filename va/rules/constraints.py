"""Constraints: classes (P10), printing (P11), precedence (P12), parsing (P13)."""
import re
from ..core import rule, Undecided
from ..engine import *
from ..engine import last, short
from ..model import *
from ..model import V

CONS = V + 'Constraint'
BIN, UN = V + 'BinaryConstraint', V + 'UnaryConstraint'
LEXER, PARSER, TOKEN = V + 'ConstraintLexer', V + 'ConstraintParser', V + 'ConstraintToken'
BUILDER = V + 'ConstraintBuilder'
VISITOR = V + 'ConstraintVisitor'


def bases(fx, q, seen=None):
    out = []
    for b in fx.recs.get(q, {}).get('bases', ()):
        out.append(b['n'])
        out.extend(bases(fx, b['n']))
    return out


def field_of(ck, q):
    """field returned by an accessor"""
    for f in ck.fns(q):
        for p in ck.paths(f):
            if p.ret and p.ret[0] == 'fld' and p.ret[1] == THIS:
                return p.ret[2]
    raise Undecided('accessor %s does not return a field' % q)


class Classes:
    """the concrete constraint classes: kind, operand fields"""

    def __init__(self, ck):
        fx = ck.fx
        self.left = field_of(ck, BIN + '::getLeftOperand')
        self.right = field_of(ck, BIN + '::getRightOperand')
        self.operand = field_of(ck, UN + '::getOperand')
        self.value = field_of(ck, V + 'PrimaryIntegerConstraint::getValue')
        self.kindf = field_of(ck, CONS + '::getKind')
        self.parentf = field_of(ck, CONS + '::getParent')
        self.cls = {}
        for q in fx.recs:
            bs = bases(fx, q)
            if CONS in bs and fx.by_q.get(q + '::clone'):
                self.cls[q] = 'bin' if BIN in bs else 'un' if UN in bs else 'prim'
        if len(self.cls) < 10:
            raise Undecided('constraint classes not found')
        self.kind = {}
        for q in self.cls:
            for f in fx.by_q.get(q + '::' + last(q), ()):
                for p in ck.paths(f):
                    for e in p.events:
                        if e.kind == 'init' and e.q == self.kindf:
                            self.kind[q] = e.args[0]

    def ops(self, q):
        return {'bin': [self.left, self.right], 'un': [self.operand],
                'prim': []}[self.cls[q]]


_C = {}


def classes(ck):
    k = id(ck.fx)
    if k not in _C:
        _C[k] = Classes(ck)
    return _C[k]


def new_cls(t):
    return short(t[1]) if t and t[0] == 'new' else None


# ------------------------------------------------------------------ P10
@rule('P10', 'clone-constraint', 'The clone of a constraint is a constraint of '
      'the same class over the clones of its operands in their order.')
def clone_constraint(ck):
    C = classes(ck)
    for q in sorted(C.cls):
        fn = ck.fn(q + '::clone')
        en = Engine(ck.fx)
        for p in ck.paths(fn, eng=en):
            if p.kind != 'ret':
                continue
            site = 'clone of %s' % last(q)
            t = p.ret
            if not ck.req(t[0] == 'new' and short(t[1]) == q, site + ': class',
                          'returns %s' % show(t)[:200], fn):
                continue
            for f in C.ops(q):
                v = en.field_of_new(t, f)
                if v is None:
                    ck.undec(site + ': ' + last(f), 'value not derived')
                    continue
                v = unk(v)
                ok = v[0] == 'call' and last(v[1]) == 'clone' and \
                    v[2] == ('fld', THIS, f)
                ck.req(ok, site + ': ' + last(f), 'is %s instead of the clone '
                       'of the operand' % show(v)[:200], fn)
            if last(q) == 'PrimaryIntegerConstraint':
                v = en.field_of_new(t, C.value)
                ck.req(v == ('fld', THIS, C.value), site + ': value',
                       'is %s' % (show(v)[:200] if v else v), fn)
            if last(q) == 'PrimaryFeatureConstraint':
                # a (shallow) feature of the same name
                a = t[2][0] if t[2] else VOID
                while a[0] == 'new' and a[2] and short(a[1]).startswith('std::'):
                    a = a[2][0]
                R = roles(ck)
                if a[0] == 'new' and last(a[1]) == 'Feature':
                    n = en.field_of_new(a, R.of['fname'])
                    n = n if n is not None else (a[2][0] if a[2] else VOID)
                    ok = any(x[0] == 'fld' and x[1] == THIS for x in walk(n)) and \
                        (n[0] == 'fld' and n[2] == R.of['fname'] or
                         n[0] == 'call' and last(n[1]) == 'getName')
                    ck.req(ok, site + ': feature', 'names %s' % show(n)[:200], fn)
                else:
                    ck.undec(site + ': feature', 'clone holds %s' % show(a)[:100])


@rule('P10', 'own-kind', 'Every constraint class has a kind of its own and '
      'classof accepts exactly this kind.')
def own_kind(ck):
    C = classes(ck)
    seen = {}
    for q in sorted(C.cls):
        k = C.kind.get(q)
        if k is None or k[0] != 'enum':
            ck.undec('kind of %s' % last(q), 'not derived')
            continue
        ck.req(k not in seen, 'kind of %s' % last(q), '%s is also the kind of %s'
               % (last(k[1]), seen.get(k)), ck.fx.recs[q])
        seen[k] = last(q)
    for q in sorted(C.cls):
        k = C.kind.get(q)
        for fn in ck.fns(q + '::classof'):
            par = ('param', 0, fn['params'][0]['n'])
            kt = ('fld', par, C.kindf)
            acc, other = set(), False
            for p in ck.paths(fn, join=False):
                if p.kind != 'ret':
                    continue
                r = p.ret
                eqs = {a: v for a, v in p.facts.items()
                       if a[0] == 'eq' and kt in a[1:]}
                if r == TRUE:
                    pos = [a for a, v in eqs.items() if v]
                    if not pos:
                        other = True
                    for a in pos:
                        acc.add(a[2] if a[1] == kt else a[1])
                elif r == FALSE:
                    pass
                elif r[0] in ('op', 'eq') and kt in r:
                    if '==' in r or r[0] == 'eq':
                        acc |= {x for x in r[1:] if isinstance(x, tuple) and x != kt}
                    else:
                        other = True
                else:
                    acc = None
                    break
            if acc is None or k is None:
                ck.undec('classof of %s' % last(q), 'not derived')
                continue
            ck.req(acc == {k} and not other, 'classof of %s' % last(q),
                   'accepts %s but the class has kind %s'
                   % (sorted(last(show(a)) for a in acc) or 'other kinds', last(k[1])), fn)


@rule('P10', 'operand-parent', 'Constructing a constraint makes it the parent of '
      'each operand; the root of a constraint is the outermost constraint.')
def operand_parent(ck):
    C = classes(ck)
    for q in (BIN, UN):
        n = 0
        for fn in ck.fns(q + '::' + last(q)):
            flds = [C.left, C.right] if q == BIN else [C.operand]
            ps = [p for p in ck.paths(fn) if p.kind == 'ret']
            for p in ps:
                ini = {}
                for e in p.events:
                    if e.kind in ('init', 'write') and e.args:
                        f = e.q if e.kind == 'init' else (
                            e.obj[2] if e.obj and e.obj[0] == 'fld' and e.obj[1] == THIS else None)
                        if f in flds:
                            ini[f] = e.args[0]
                params = [('param', i, x['n']) for i, x in enumerate(fn['params'])
                          if 'unique_ptr' in x['t']]
                if len(params) != len(flds):
                    continue
                n += 1
                for f, par in zip(flds, params):
                    ck.req(ini.get(f) == par, '%s keeps its %s' % (last(q), last(f)),
                           'is initialised with %s' % show(ini.get(f) or VOID), fn)
                    w = [e for e in p.events if e.kind == 'write' and
                         e.obj == ('fld', par, C.parentf) or
                         e.kind == 'write' and e.obj == ('fld', ('fld', THIS, f), C.parentf)]
                    ck.req(bool(w) and w[-1].args[0] == THIS,
                           '%s becomes parent of %s' % (last(q), last(f)),
                           'the parent of the operand is not set to the constraint', fn)
        ck.need(n, 'constructor of %s' % q)
    # derived classes pass their operands on in order
    for q in sorted(C.cls):
        flds = C.ops(q)
        for fn in ck.fns(q + '::' + last(q)):
            params = [('param', i, x['n']) for i, x in enumerate(fn['params'])
                      if 'unique_ptr' in x['t']]
            if not flds or len(params) != len(flds):
                continue
            for p in ck.paths(fn):
                ini = {e.q: e.args[0] for e in p.events if e.kind == 'init' and e.args}
                for f, par in zip(flds, params):
                    if f in ini:
                        ck.req(ini[f] == par, '%s passes on its %s' % (last(q), last(f)),
                               'gets %s' % show(ini[f]), fn)
    fn = ck.fn(CONS + '::getRoot')
    here = ('fld', THIS, C.parentf)
    for p in ck.paths(fn, mark_loops=True):
        if p.kind != 'ret':
            continue
        has = p.facts.get(('nn', here))
        if has is False:
            ck.req(p.ret == THIS, 'root of a top-level constraint',
                   'is %s' % show(p.ret), fn)
        elif has is True:
            rec = p.ret[0] == 'call' and last(p.ret[1]) == 'getRoot' and p.ret[2] == here
            loop = any(e.kind == 'iter' for e in p.events) and p.ret == here
            ck.req(rec or loop, 'root of a nested constraint',
                   'is %s, not the outermost constraint' % show(p.ret), fn)
        elif p.ret == THIS:
            ck.bad('root of a nested constraint', 'is the constraint itself', fn)
        else:
            ck.undec('root of a nested constraint', 'unrecognised')


@rule('P10', 'visit-all', 'Visiting a constraint visits every operand with the '
      'same visitor and reports failure of any of them; accept dispatches to visit.')
def visit_all(ck):
    C = classes(ck)
    fns = [f for f in ck.fns(VISITOR + '::visit')]
    ck.need(fns, 'visitor')
    subs = [q for q in ck.fx.recs if VISITOR in bases(ck.fx, q)]
    for q in subs:
        fns += ck.fns(q + '::visit')
    for fn in fns:
        t = fn['params'][0]['t']
        ops = [C.left, C.right] if 'BinaryConstraint' in t else \
            [C.operand] if 'UnaryConstraint' in t else None
        if ops is None and fn['q'] == VISITOR + '::visit':
            for p in ck.paths(fn, opaque=[VISITOR + '::visit']):
                ck.req(p.kind != 'ret' or p.ret == TRUE, 'visiting a %s' % last(t.rstrip(' *')),
                       'fails (%s) although it has no operands' % show(p.ret)[:60], fn)
        if ops is None or 'Z3' in fn['q']:
            continue
        par = ('param', 0, fn['params'][0]['n'])
        base = fn['q'] == VISITOR + '::visit'
        # visiting is complete also if an earlier operand reported failure
        for p in ck.paths(fn, opaque=[VISITOR + '::visit'], join=False):
            if p.kind != 'ret':
                continue
            if not base and p.ret == FALSE:
                continue
            deleg = any(e.kind == 'call' and short(e.q) == VISITOR + '::visit' and
                        e.args and e.args[0] == par for e in p.events)
            for f in ops:
                acc = [e for e in p.events if e.kind == 'call' and last(e.q) == 'accept'
                       and e.obj == ('fld', par, f) and e.args and e.args[0] == THIS]
                ck.req(deleg or acc, '%s(%s) visits %s' % (
                    short(fn['q']).replace(V, ''), last(t.rstrip(' *')), last(f)),
                    'a path returns %s without visiting the operand' % show(p.ret), fn)
                if base and acc:
                    a = ('nn', acc[-1].res)
                    r = p.facts.get(a)
                    if p.ret == TRUE:
                        ck.req(r is True, 'visiting a %s reports failure of %s' % (
                            last(t.rstrip(' *')), last(f)),
                            'True is returned although the operand may fail', fn)
                    elif p.ret == FALSE and len(ops) == 1:
                        ck.req(r is not True, 'visiting a %s reports success' % last(t), '', fn)
            if base and p.ret == FALSE:
                neg = any(v is False and a[0] == 'nn' and a[1][0] == 'call' and
                          last(a[1][1]) == 'accept' for a, v in p.facts.items())
                ck.req(neg, 'visiting a %s succeeds with its operands' % last(t),
                       'False is returned although every operand succeeded', fn)
    # accept dispatches to visit(this)
    n = 0
    for q in [BIN, UN] + [q for q in C.cls]:
        for fn in ck.fns(q + '::accept'):
            par = ('param', 0, fn['params'][0]['n'])
            for p in ck.paths(fn, opaque=[VISITOR + '::visit']):
                if p.kind != 'ret':
                    continue
                n += 1
                e = [e for e in p.events if e.kind == 'call' and last(e.q) == 'visit'
                     and e.obj == par and e.args and e.args[0] == THIS]
                ok = bool(e) and (p.ret == e[-1].res or
                                  p.ret in (TRUE, FALSE) and
                                  p.facts.get(('nn', e[-1].res)) == (p.ret == TRUE))
                ck.req(ok, '%s::accept visits the constraint' % last(q),
                       'returns %s' % show(p.ret)[:160], fn)
    ck.need(n, 'accept methods')


# ------------------------------------------------------------------ lexer
def lam_accepts(en, lam, c):
    """does a character predicate accept character c? None if unknown"""
    while lam and lam[0] == 'new' and lam[2]:
        lam = lam[2][0]
    if not lam or lam[0] != 'lambda':
        return None
    C = ('var', 'C', ('char', c))
    arg = ('ch',)
    res = set()
    try:
        if lam[1] not in en.lambdas:
            return None
        sub = Engine(en.fx, join=False)
        ps = sub.lambda_paths(en.lambdas[lam[1]][0], [arg])
    except (TooComplex, RecursionError):
        return None
    for p in ps:
        ok = True
        for a, v in p.facts.items():
            x = char_atom(a, arg, c)
            if x is None:
                return None
            if x != v:
                ok = False
        if ok:
            r = p.ret
            if r in (TRUE, FALSE):
                res.add(r == TRUE)
            else:
                x = char_atom(('nn', r), arg, c)
                if x is None:
                    return None
                res.add(x)
    return res.pop() if len(res) == 1 else None


def cval(t, arg, c):
    if t == arg:
        return c if c < 128 else c - 256
    if t[0] == 'int':
        return t[1]
    if t[0] == 'char':
        return t[1] if isinstance(t[1], int) else ord(t[1])
    if t[0] == 'str' and len(t[1]) == 1:
        return ord(t[1])
    return None


CTYPE = {
    'isAlnum': lambda c: chr(c).isalnum() and c < 128,
    'isalnum': lambda c: chr(c).isalnum() and c < 128,
    'isAlpha': lambda c: chr(c).isalpha() and c < 128,
    'isalpha': lambda c: chr(c).isalpha() and c < 128,
    'isDigit': lambda c: 48 <= c <= 57, 'isdigit': lambda c: 48 <= c <= 57,
    'isSpace': lambda c: c in (9, 10, 11, 12, 13, 32),
    'isspace': lambda c: c in (9, 10, 11, 12, 13, 32),
}


def char_atom(a, arg, c):
    """truth of a branch condition about character arg == c"""
    if a[0] == 'nn':
        t = a[1]
        if t == arg:
            return c != 0
        if t[0] == 'call' and last(t[1]) in CTYPE and t[3] and t[3][0] == arg:
            return CTYPE[last(t[1])](c)
        if t[0] == 'op' and len(t) == 4:
            x, y = cval(t[2], arg, c), cval(t[3], arg, c)
            if x is not None and y is not None and t[1] in OPS:
                return OPS[t[1]](x, y)
        return None
    if a[0] in ('eq', 'lt', 'le'):
        x, y = cval(a[1], arg, c), cval(a[2], arg, c)
        if x is None or y is None:
            return None
        return {'eq': x == y, 'lt': x < y, 'le': x <= y}[a[0]]
    return None


OPS = {'==': lambda x, y: x == y, '!=': lambda x, y: x != y, '<': lambda x, y: x < y,
       '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y}


class Lex:
    """first-token decisions of the lexer, decoded from its branches"""

    def __init__(self, ck, LEXER=LEXER, TOKEN=TOKEN):
        self.ck = ck
        self.token = TOKEN
        self.fn = ck.fn(LEXER + '::tokenize')
        self.en = Engine(ck.fx, join=False, mark_loops=True, max_paths=20000)
        self.paths = ck.paths(self.fn, eng=self.en)
        self.kindf = field_of(ck, TOKEN + '::getKind')
        self.valf = field_of(ck, TOKEN + '::getValue')
        self.cases = []      # (path, kind, value, length, first push event)
        self.text = None
        for p in self.paths:
            pushes = [e for e in p.events if e.kind == 'call' and last(e.q) in ADD
                      and e.args and new_cls(unv(e.args[-1])) == TOKEN]
            first = [e for e in pushes if e.loops]
            if not first:
                continue
            tok = unv(first[0].args[-1])
            k = self.en.field_of_new(tok, self.kindf) or (tok[2][0] if tok[2] else VOID)
            v = tok[2][1] if len(tok[2]) > 1 else None
            ln = None
            for e in p.events:
                if e.kind in ('set', 'call') and (
                        e.kind == 'set' and e.args and e.args[0][0] == 'call' and
                        last(e.args[0][1]) in ('drop_front', 'substr')):
                    c = e.args[0]
                    ln, self.text = c[3][0], c[2]
            more = any(e.kind == 'iter' for e in p.events)
            self.cases.append((p, last(k[1]) if k[0] == 'enum' else None, v, ln,
                               first[0], more))
        if not self.cases or self.text is None:
            raise Undecided('tokens pushed by the lexer not recognised')

    def atom(self, a, text):
        """truth of a branch condition for the input text; None = unknown"""
        fr = None
        for t in walk(a):
            if t and t[0] == 'call' and last(t[1]) in ('front', 'operator[]') and t[2] == self.text:
                fr = t
            if t and t[0] == 'front' and t[1] == self.text:
                fr = t
        if a == ('empty', self.text):
            return False
        if a[0] == 'nn' and a[1][0] == 'call' and last(a[1][1]) in (
                'startswith', 'starts_with') and a[1][2] == self.text and \
                a[1][3] and a[1][3][0][0] == 'str':
            return text.startswith(a[1][3][0][1])
        if fr is not None:
            return char_atom(a, fr, ord(text[0]))
        return None

    def decide(self, text):
        """cases compatible with the input text"""
        out = []
        for c in self.cases:
            if all(self.atom(a, text) in (None, v) for a, v in c[0].facts.items()):
                out.append(c)
        return out

    def kind(self, sym):
        """kind and length decided for a symbol followed by a blank"""
        ks = {(c[1], c[3] if c[5] else None) for c in self.decide(sym + ' ')}
        if sym == 'or':
            ks = {(c[1], c[3] if c[5] else None) for c in self.decide('or ')
                  if any(v and ('str', 'or') in a for a, v in c[0].facts.items()
                         if a[0] == 'eq')}
        return ks


def unv(t):
    while t and t[0] == 'var':
        t = t[2]
    return t


SYMBOLS = {'&': 'AndConstraint', '|': 'OrConstraint', 'or': 'OrConstraint',
           '^': 'XorConstraint', '=': 'EqualConstraint', '!=': 'NotEqualConstraint',
           '<': 'LessConstraint', '>': 'GreaterConstraint',
           '<=': 'LessEqualConstraint', '>=': 'GreaterEqualConstraint',
           '=>': 'ImpliesConstraint', '->': 'ImpliesConstraint',
           '<=>': 'EquivalenceConstraint', '<->': 'EquivalenceConstraint',
           '+': 'AdditionConstraint', '-': 'SubtractionConstraint',
           '*': 'MultiplicationConstraint', '/': 'DivisionConstraint'}
UNARY = {'!': 'NotConstraint', '~': 'NegConstraint'}


# ------------------------------------------------------------------ parser
class Parse:
    """the recursive descent, one path per decision"""

    def __init__(self, ck):
        self.ck = ck
        self.entry = ck.fn(PARSER + '::buildConstraint')
        callee = None
        for f in ck.fx.by_q:
            if short(f).startswith(PARSER + '::') and f != PARSER + '::buildConstraint':
                pass
        p0 = Engine(ck.fx, opaque=[q for q in ck.fx.by_q
                                   if q.startswith(PARSER + '::') and
                                   q != PARSER + '::buildConstraint']).paths(self.entry)
        calls = {}
        for p in p0:
            for e in p.events:
                if e.kind == 'call' and e.q.startswith(PARSER + '::'):
                    calls[e.q] = e
        if len(calls) != 1:
            raise Undecided('entry of the parser')
        self.q, self.call = calls.popitem()
        self.fn = ck.fn(self.q)
        self.en = Engine(ck.fx, join=False, mark_loops=True, max_paths=20000,
                         opaque=[self.q, V + 'parseInteger'])
        self.paths = ck.paths(self.fn, eng=self.en)
        self.kindf = field_of(ck, TOKEN + '::getKind')
        self.valf = field_of(ck, TOKEN + '::getValue')
        tl = set()
        for p in self.paths:
            for a in p.facts:
                for t in walk(a):
                    if t and t[0] == 'front' and t[1][0] == 'fld':
                        tl.add(t[1])
        if len(tl) != 1:
            raise Undecided('token list of the parser')
        self.tokens = tl.pop()
        self.nest = self.prec = None
        for i, x in enumerate(self.fn['params']):
            if 'unsigned' in x['t'] or 'Precedence' in x['t']:
                self.prec = ('param', i, x['n'])
            else:
                self.nest = ('param', i, x['n'])
        if self.prec is None or self.nest is None:
            raise Undecided('parameters of the parser')

    def version(self, t):
        """i if t is the i-th front token"""
        if t[0] == 'front':
            c = t[1]
            if c == self.tokens:
                return 0
            if c[0] == 'ver' and c[1] == self.tokens:
                return c[2]
        return None

    def kinds(self, p):
        """version -> (known kind or None, excluded kinds)"""
        out = {}
        for a, v in p.facts.items():
            if a[0] == 'eq' and a[1][0] == 'fld' and a[1][2] == self.kindf:
                i, k = self.version(a[1][1]), a[2]
            elif a[0] == 'eq' and a[2][0] == 'fld' and a[2][2] == self.kindf:
                i, k = self.version(a[2][1]), a[1]
            else:
                continue
            if i is None or k[0] != 'enum':
                continue
            d = out.setdefault(i, [None, set()])
            if v:
                d[0] = last(k[1])
            else:
                d[1].add(last(k[1]))
        return out

    def walk(self, p):
        """sequence of ('pop', version), ('rec', version, event), ('iter', version)"""
        v, out = 0, []
        for e in p.events:
            if e.kind == 'call' and e.obj == self.tokens and last(e.q) in (
                    'pop_front', 'erase'):
                out.append(('pop', v, e))
                v += 1
            elif e.kind == 'call' and e.q == self.q:
                out.append(('rec', v, e))
                v += 1          # the call consumes tokens as well
            elif e.kind == 'iter':
                out.append(('iter', v, e))
        return out


_P = {}


def parser(ck):
    if id(ck.fx) not in _P:
        _P[id(ck.fx)] = Parse(ck)
    return _P[id(ck.fx)]


_L = {}


def lexer(ck):
    if id(ck.fx) not in _L:
        _L[id(ck.fx)] = Lex(ck)
    return _L[id(ck.fx)]


def recs_of(P, t):
    """recursion calls within a term"""
    return [x for x in walk(t) if x and x[0] == 'call' and x[1] == P.q]


def precedence(ck):
    """token kind -> precedence"""
    fn = ck.fn(TOKEN + '::calcPrecedence')
    kf = field_of(ck, TOKEN + '::getKind')
    allk = {x['n'] for x in ck.fx.enums[TOKEN + '::ConstraintTokenKind']['vals']}
    out = {}
    for p in ck.paths(fn, join=False):
        if p.kind != 'ret':
            continue
        if p.ret[0] != 'int':
            raise Undecided('precedence is %s' % show(p.ret))
        pos = [last(a[2][1]) for a, v in p.facts.items()
               if v and a[0] == 'eq' and a[2][0] == 'enum']
        neg = {last(a[2][1]) for a, v in p.facts.items()
               if not v and a[0] == 'eq' and a[2][0] == 'enum'}
        for k in (pos or allk - neg):
            out.setdefault(k, set()).add(p.ret[1])
    return {k: (v.pop() if len(v) == 1 else None) for k, v in out.items()}


def operators(ck):
    """operator decisions of the parser: [(kind, class, path, term, lhs, rec)]"""
    P = parser(ck)
    C = classes(ck)
    out = []
    for p in P.paths:
        ks = P.kinds(p)
        w = P.walk(p)
        terms = [p.ret] + [e.args[0] for e in p.events if e.kind == 'set' and e.args]
        terms += [a for x, v, e in w if x == 'rec' for a in e.args]
        seen = set()
        for t in terms:
            for x in walk(t):
                if not (x and x[0] == 'new' and C.cls.get(short(x[1])) in ('bin', 'un')) \
                        or x in seen:
                    continue
                seen.add(x)
                rs = [a for a in x[2] if a[0] == 'call' and a[1] == P.q]
                if not rs:
                    out.append((None, short(x[1]), p, x, None, None, None))
                    continue
                rec = rs[-1]
                # the token consumed right before the recursion
                k, ver = None, None
                pops = []
                for kind, v, e in w:
                    if kind == 'pop':
                        pops.append(v)
                    elif kind == 'rec' and e.res == rec:
                        break
                if pops:
                    # skip blanks that are consumed as well
                    for v in reversed(pops):
                        kk = ks.get(v, [None])[0]
                        if kk != 'WHITESPACE':
                            k, ver = kk, v
                            break
                out.append((k, short(x[1]), p, x, x[2], rec, ver))
    return out


ORDER = [['*', '/'], ['+', '-'], ['<', '>', '<=', '>='], ['=', '!='], ['&'],
         ['|', '^'], ['=>', '->'], ['<=>', '<->']]


def tok(ck, sym):
    ks = lexer(ck).kind(sym)
    if len(ks) != 1:
        return None
    return list(ks)[0][0]


def cont(P, p, n):
    """(strict?, parameter) conditions on a path under which parsing goes on"""
    for a, v in p.facts.items():
        if a[0] in ('lt', 'le') and P.prec in a[1:]:
            yield a, v


@rule('P12', 'precedence-table', 'Token precedences are ordered as documented, '
      'above the minimum and below the maximum.')
def precedence_table(ck):
    pr = precedence(ck)
    P = parser(ck)
    fn = ck.fn(TOKEN + '::calcPrecedence')
    top = P.call.args[-1]
    lvls = []
    for lv in ORDER:
        ks = {tok(ck, s) for s in lv}
        if None in ks:
            ck.undec('tokens of %s' % ' '.join(lv), 'not decided')
            return
        vs = {pr.get(k) for k in ks}
        if not ck.req(len(vs) == 1 and None not in vs, 'precedence of %s' % ' '.join(lv),
                      'the operators have different precedences: %s' %
                      {k: pr.get(k) for k in ks}, fn):
            return
        lvls.append(vs.pop())
    for i in range(len(lvls) - 1):
        ck.req(lvls[i] < lvls[i + 1], '%s bind tighter than %s' % (
            ' '.join(ORDER[i]), ' '.join(ORDER[i + 1])),
            'precedences are %s and %s' % (lvls[i], lvls[i + 1]), fn)
    if top[0] == 'int':
        ck.req(max(lvls) < top[1], 'every operator is read at the top level',
               'the parser starts with precedence %s' % top[1], fn)


def goes_on(a, v, P, n, arg):
    """does condition a (value v) let operator of precedence n be read when the
    limit is arg?"""
    x = n if a[1] != P.prec else arg
    y = n if a[2] != P.prec else arg
    r = x < y if a[0] == 'lt' else x <= y
    return r == v


@rule('P12', 'parser-precedence', 'The right operand of a binary operator is read '
      'up to the next operator that does not bind tighter; the operand of a unary '
      'operator ends before any binary operator; parentheses have no limit.')
def parser_precedence(ck):
    P = parser(ck)
    pr = precedence(ck)
    lv = {tok(ck, s): i for i, l in enumerate(ORDER) for s in l}
    binks = [k for k in lv]
    # the stop condition
    conds = set()
    for k, cls, p, t, ops, rec, ver in operators(ck):
        if k in lv and rec:
            for a, v in cont(P, p, None):
                o = a[1] if a[2] == P.prec else a[2]
                if o == ('int', pr[k]):
                    conds.add((a[0], a[1] == P.prec, v))
                elif o[0] == 'int' and isinstance(o[1], int):
                    # the precedence of another operator: each branch has its own
                    pass
                else:
                    conds.add((a[0], a[1] == P.prec, v))
    if len(conds) == 2 and len({c[:2] for c in conds}) == 1:
        ck.bad('stop condition', 'operators are also read when they do not bind tighter than '
               'the one before', P.fn)
        return
    if len(conds) != 1:
        raise Undecided('stop condition of the parser: %s' % conds)
    kind, flip, val = conds.pop()

    def on(n, arg):
        x, y = (arg, n) if flip else (n, arg)
        return (x < y if kind == 'lt' else x <= y) == val
    seen = 0
    for k, cls, p, t, ops, rec, ver in operators(ck):
        if rec is None:
            continue
        arg = rec[3][-1]
        if arg[0] != 'int':
            ck.undec('precedence for the operand of %s' % k, show(arg))
            continue
        arg = arg[1]
        seen += 1
        if k in lv:
            bad = [x for x in binks if on(pr[x], arg) != (lv[x] < lv[k])]
            ck.req(not bad, 'right operand of %s' % k,
                   'operators %s are %sread into the right operand' % (
                       bad, '' if bad and on(pr[bad[0]], arg) else 'not '), P.fn)
            # left operand: what has been parsed so far
            ck.req(ops and len(ops) == 2 and not any(
                x == rec for x in walk(ops[0])) and ops[1] == rec,
                'operands of %s' % k, 'are %s' % [show(o) for o in (ops or ())], P.fn)
        elif k in ('NOT', 'NEG'):
            bad = [x for x in binks if on(pr[x], arg)]
            ck.req(not bad, 'operand of %s' % k, 'operators %s are read into the '
                   'operand of the unary operator' % bad, P.fn)
    for p in P.paths:
        for kind_, v, e in P.walk(p):
            if kind_ != 'rec':
                continue
            k = P.kinds(p).get(v - 1, [None])[0]
            if k == 'L_PAR' and e.args[-1][0] == 'int':
                seen += 1
                bad = [x for x in binks if not on(pr[x], e.args[-1][1])]
                ck.req(not bad, 'contents of parentheses', 'operators %s end the '
                       'contents' % bad, P.fn)
    top = P.call.args[-1]
    if top[0] == 'int':
        bad = [x for x in binks if not on(pr[x], top[1])]
        ck.req(not bad, 'top-level expression', 'operators %s are not read' % bad, P.fn)
    ck.need(seen > 20, 'operator decisions')


BMETHODS = {'lNot': 'NotConstraint', 'neg': 'NegConstraint', 'lOr': 'OrConstraint',
            'lXor': 'XorConstraint', 'lAnd': 'AndConstraint', 'implies': 'ImpliesConstraint',
            'excludes': 'ExcludesConstraint', 'equivalent': 'EquivalenceConstraint',
            'equal': 'EqualConstraint', 'notEqual': 'NotEqualConstraint',
            'less': 'LessConstraint', 'greater': 'GreaterConstraint',
            'lessEqual': 'LessEqualConstraint', 'greaterEqual': 'GreaterEqualConstraint',
            'add': 'AdditionConstraint', 'subtract': 'SubtractionConstraint',
            'multiply': 'MultiplicationConstraint', 'divide': 'DivisionConstraint'}
BLEVEL = {'MultiplicationConstraint': 0, 'DivisionConstraint': 0,
          'AdditionConstraint': 1, 'SubtractionConstraint': 1,
          'LessConstraint': 2, 'GreaterConstraint': 2, 'LessEqualConstraint': 2,
          'GreaterEqualConstraint': 2, 'EqualConstraint': 3, 'NotEqualConstraint': 3,
          'AndConstraint': 4, 'OrConstraint': 5, 'XorConstraint': 5,
          'ImpliesConstraint': 6, 'ExcludesConstraint': 6, 'EquivalenceConstraint': 7}


def built_class(ck, t):
    """class of constraint a builder node (new ...BuilderImpl<C>) builds, with
    the fields its operands come from"""
    for f in ck.fx.by_q.get(t[1] + '::build', ()):
        for p in ck.paths(f):
            if p.kind == 'ret' and p.ret[0] == 'new':
                return short(p.ret[1]), p.ret, f
    return None, None, None


def success(ck, fn):
    """paths of a builder method that add a node: (path, location, node)"""
    out = []
    for p in ck.paths(fn, join=False, mark_loops=True):
        for e in p.events:
            if e.kind == 'write' and e.args and e.args[0][0] == 'new' and \
                    ck.fx.by_q.get(e.args[0][1] + '::build'):
                out.append((p, e.obj, e.args[0], e))
    return out


def frame_push(p):
    for e in p.events:
        if e.kind == 'call' and last(e.q) in ('push', 'emplace'):
            ints = [t for a in e.args for t in walk(a) if t and t[0] == 'int']
            if ints:
                return ints[0][1], e
    return None, None


def pops_if(p, own):
    """condition on a frame's precedence in path p, as function f -> bool, and
    whether the path pops"""
    for a, v in p.facts.items():
        if a[0] in ('lt', 'le'):
            x, y = a[1], a[2]
            fx_ = [z[0] == 'get' and z[2][0] == 'back' for z in (x, y)]
            if fx_[0] and y[0] == 'int':
                return (lambda f, a=a, v=v: (f < a[2][1] if a[0] == 'lt' else f <= a[2][1]) == v)
            if fx_[1] and x[0] == 'int':
                return (lambda f, a=a, v=v: (a[1][1] < f if a[0] == 'lt' else a[1][1] <= f) == v)
    return None


@rule('P12', 'builder-precedence', 'Each builder method adds its operator; a binary '
      'operator takes as left operand everything that binds at least as tight, up '
      'to the innermost open parenthesis.')
def builder_precedence(ck):
    prec, conds = {}, {}
    unary = set()
    n = 0
    for m, cls in sorted(BMETHODS.items()):
        fn = ck.fn(BUILDER + '::' + m)
        ss = success(ck, fn)
        if not ss:
            ck.undec('builder method %s' % m, 'no node is added')
            continue
        for p, loc, node, ev in ss:
            c, t, bf = built_class(ck, node)
            if c is None:
                ck.undec('builder method %s' % m, 'class not derived')
                continue
            n += 1
            ck.req(last(c) == cls, 'builder method %s' % m, 'builds %s' % last(c), fn)
            pv, pe = frame_push(p)
            if pv is None:
                ck.undec('frame of %s' % m, 'not pushed')
                continue
            if 'Binary' in ck_kind(ck, cls):
                prec[cls] = pv
                # the left operand is what the location held before
                ck.req(loc in node[2], 'left operand of %s' % m, 'is %s' %
                       [show(a) for a in node[2]], fn)
                # operands are built in order
                ops = [a[2] for a in t[2] if a[0] == 'call' and last(a[1]) == 'build']
                left = Engine(ck.fx).field_of_new(node, ops[0][2]) \
                    if len(ops) == 2 and ops[0][0] == 'fld' else None
                if left is not None:
                    ck.req(left == loc and ops[0] != ops[1], 'operands of %s are built '
                           'in order' % m, 'the first operand is %s' % show(left), bf)
                cnd = pops_if(p, pv)
                popped = any(e.kind == 'call' and last(e.q) == 'pop' for e in p.events)
                if cnd:
                    conds.setdefault(cls, []).append((popped, cnd))
            else:
                unary.add(pv)
            # the next operand goes into the new node
            w = [e for e in p.events if e.kind == 'write' and e.args and
                 e.args[0][0] == 'call' and last(e.args[0][1]) == 'next']
            ck.req(bool(w) and w[-1].args[0][2] == node, 'operand after %s' % m,
                   'does not become an operand of the new node', fn)
    for f in ck.fns(BUILDER + '::feature') + ck.fns(BUILDER + '::constant'):
        for p, loc, node, ev in success(ck, f):
            pv, pe = frame_push(p)
            if pv is not None:
                unary.add(pv)
    par = None
    for p in ck.paths(ck.fn(BUILDER + '::openPar'), join=False):
        pv, pe = frame_push(p)
        if pv is not None:
            par = pv
    for cls, own in prec.items():
        for popped, cnd in conds.get(cls, ()):
            for c2, f in prec.items():
                if not cnd(f):
                    continue        # this frame does not lead to this path
                want = BLEVEL[c2] <= BLEVEL[cls]
                ck.req(popped == want, 'builder: %s after %s' % (cls, c2),
                       'the former takes %s as left operand' % (
                           'the whole latter' if popped else 'only its right operand'),
                       ck.fn(BUILDER + '::' + [m for m, c in BMETHODS.items() if c == cls][0]))
            for f in unary:
                if cnd(f):
                    ck.req(popped, 'builder: %s after an operand' % cls,
                           'does not take the whole operand', '')
            if par is not None and cnd(par):
                ck.req(not popped, 'builder: %s within parentheses' % cls,
                       'leaves the open parenthesis', '')
    for m in ('closePar', 'build', 'operator()'):
        for fn in ck.fns(BUILDER + '::' + m):
            for p in ck.paths(fn, join=False, mark_loops=True):
                cnd = pops_if(p, None)
                if not cnd:
                    continue
                looped = any(e.kind == 'call' and last(e.q) == 'pop' and e.loops
                             for e in p.events)
                for f in list(prec.values()) + list(unary):
                    if cnd(f):
                        ck.req(looped, 'builder: %s ends pending operators' % m,
                               'a pending operator of precedence %s is not ended' % f, fn)
                if par is not None and cnd(par):
                    ck.req(not looped, 'builder: %s stops at an open parenthesis' % m,
                           'the open parenthesis is dropped', fn)
    for fn in ck.fns(BUILDER + '::build'):
        for p in ck.paths(fn, join=False):
            if p.kind == 'ret' and p.ret != NULL:
                ok = any(a[0] == 'empty' and v for a, v in p.facts.items())
                ck.req(ok, 'builder: open parentheses are rejected',
                       'a constraint is built although frames are left', fn)
    ck.need(n > 15, 'builder methods')


def is_build(t):
    return t and t[0] == 'call' and last(t[1]) == 'build' and t[2]


@rule('P12', 'builder-errors', 'A builder accepts an operand only where an operand is '
      'missing and an operator or closing parenthesis only after one; once a call did not '
      'fit, every further call is ignored and nothing is built.')
def builder_errors(ck):
    heads = set()
    for m in BMETHODS:
        for p, loc, node, ev in success(ck, ck.fn(BUILDER + '::' + m)):
            if loc[0] == 'pt' and loc[1][0] == 'fld' and loc[1][1] == THIS:
                heads.add(loc[1])
    if len(heads) != 1 or list(heads)[0][0] != 'fld':
        raise Undecided('position of the builder')
    H = heads.pop()
    kind = {m: 'Binary' in ck_kind(ck, c) for m, c in BMETHODS.items()}
    kind.update({'feature': False, 'constant': False, 'openPar': False,
                 'closePar': True, 'operator()': True})
    for m, after in sorted(kind.items()):
        for fn in ck.fns(BUILDER + '::' + m):
            site = 'builder method %s' % m
            ps = ck.paths(fn, join=False, mark_loops=True)
            for c, e in once_only(ps):
                ck.bad(site, 'ends only one of the pending operators', fn)
            for p in ps:
                w = [e for e in p.events if e.kind == 'write' and e.obj == H]
                failed = bool(w) and w[-1].args and w[-1].args[0] == NULL
                here = p.facts.get(('nn', H))
                full = p.facts.get(('nn', ('pt', H)))
                did = [e for e in p.events if e.kind == 'call' and
                       last(e.q) in ('push', 'emplace') or
                       e.kind == 'write' and e.args and e.args[0][0] == 'new']
                if here is False:
                    ck.req(not did and (not w or failed), site,
                           'goes on after a call that did not fit', fn)
                elif failed:
                    ck.req(not did, site, 'adds to a constraint it rejects', fn)
                    em = [v for a, v in p.facts.items() if a[0] == 'empty'][-1:]
                    par = m == 'closePar' and em == [True] or m == 'operator()' and em == [False]
                    ck.req(full is (not after) or par, site, 'rejects a call that fits', fn)
                else:
                    ck.req(here is True and full is after, site, 'is accepted %s' % (
                        'without an operand before it' if after else 'after an operand'), fn)
                    if m in ('closePar', 'operator()'):
                        em = [v for a, v in p.facts.items() if a[0] == 'empty']
                        ck.req(bool(em) and em[-1] == (m == 'operator()'), site,
                               'is accepted %s open parenthesis' % (
                                   'with an' if m == 'operator()' else 'without an'), fn)
    root = None
    for fn in ck.fns(BUILDER + '::build'):
        ps = ck.paths(fn, join=False, mark_loops=True)
        for c, e in once_only(ps):
            ck.bad('build', 'ends only one of the pending operators', fn)
        for p in ps:
            if p.kind == 'ret' and is_build(p.ret):
                root = p.ret[2]
            if p.kind != 'ret' or p.ret != NULL:
                continue
            em = [v for a, v in p.facts.items() if a[0] == 'empty'][-1:]
            no = [a for a, v in p.facts.items() if a[0] == 'nn' and not v and mentions(
                a, lambda x: x[0] == 'fld' and x[1] == THIS)]
            ck.req(no or em == [False], 'build', 'rejects a constraint that is complete', fn)
    ck.req(root is not None, 'build', 'never yields a constraint', '')
    # where the next operator goes
    for m in sorted(kind):
        for fn in ck.fns(BUILDER + '::' + m):
            for p in ck.paths(fn, join=False, mark_loops=True):
                ev = [e for e in p.events if e.kind == 'write' and e.obj == H]
                pop = [e for e in p.events if e.kind == 'call' and last(e.q) == 'pop']
                if ev and ev[-1].args and ev[-1].args[0] == NULL or \
                        p.facts.get(('nn', H)) is False:
                    continue
                if m == 'operator()' and root is not None:
                    ck.req(ev and ev[-1].args[0] in (root, ('addr', root)), 'builder method %s'
                           % m, 'does not put the whole constraint into parentheses', fn)
                elif m == 'closePar' or kind[m] and pop:
                    ck.req([e for e in ev if mentions(e.args[0], lambda x: x[0] == 'back')],
                           'builder method %s' % m, 'continues with the last operand only', fn)
    for fn in ck.fns(BUILDER + '::build'):
        for p in ck.paths(fn, join=False, mark_loops=True):
            if p.kind == 'ret' and p.ret != NULL:
                ck.req(p.facts.get(('nn', H)) is True and
                       p.facts.get(('nn', ('pt', H))) is True, 'builder method build',
                       'an incomplete constraint is built', fn)


def ck_kind(ck, cls):
    return {'bin': 'Binary', 'un': 'Unary'}.get(classes(ck).cls.get(V + cls), '')


# ------------------------------------------------------------------ P11
def flat(t):
    """string term -> list of literal strings and operand terms"""
    if t[0] == 'cat':
        out = []
        for x in (t[1] if isinstance(t[1], tuple) and t[1] and
                  isinstance(t[1][0], tuple) else t[1:]):
            out += flat(x)
        return out
    if t[0] == 'str':
        return [t[1]]
    if t[0] == 'char':
        return [chr(t[1]) if isinstance(t[1], int) else t[1]]
    if t[0] == 'new' and t[2] and short(t[1]).startswith('std::') and len(t[2]) <= 2:
        return flat(t[2][0])
    return [t]


def merged(l):
    out = []
    for x in l:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != '':
            out.append(x)
    return out


def sym_class(ck):
    """symbol -> class according to lexer and parser"""
    by_kind = {}
    for k, cls, p, t, ops, rec, ver in operators(ck):
        if k:
            by_kind.setdefault(k, set()).add(cls)
    out = {}
    for s in list(SYMBOLS) + list(UNARY):
        k = tok(ck, s)
        c = by_kind.get(k)
        out[s] = last(list(c)[0]) if c and len(c) == 1 else None
    return out


HTML = {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;', "'": '&apos;'}


def html(s):
    return ''.join(HTML.get(c, c) for c in s)


def operand(ck, C, x, meth):
    """field whose meth() the term is"""
    if isinstance(x, tuple) and x[0] == 'call' and last(x[1]) == meth and \
            x[2] and x[2][0] == 'fld' and x[2][1] == THIS:
        return x[2][2]
    return None


@rule('P11', 'print', 'The text of a constraint consists of its operands in order '
      'and a symbol that is parsed as the same operator; binary operators are '
      'parenthesised.')
def print_text(ck):
    C = classes(ck)
    sc = sym_class(ck)
    for q in sorted(C.cls):
        fn = ck.fn(q + '::toString')
        for p in ck.paths(fn):
            if p.kind != 'ret':
                continue
            parts = merged(flat(p.ret))
            site = 'text of %s' % last(q)
            if C.cls[q] == 'prim':
                if last(q) == 'PrimaryIntegerConstraint':
                    ck.req(parts == [('fld', THIS, C.value)], site,
                           'is %s' % show(p.ret)[:160], fn)
                else:
                    R = roles(ck)
                    x = parts[0] if len(parts) == 1 else VOID
                    ok = isinstance(x, tuple) and (
                        x[0] == 'fld' and x[2] == R.of['fname'] or
                        x[0] == 'call' and last(x[1]) == 'getName')
                    ck.req(ok, site, 'is %s' % show(p.ret)[:160], fn)
                continue
            ops = [operand(ck, C, x, 'toString') for x in parts if not isinstance(x, str)]
            if None in ops:
                ck.undec(site, 'unrecognised text %s' % show(p.ret)[:120])
                continue
            ck.req(ops == C.ops(q), site + ': operands', 'are %s' %
                   [last(o) for o in ops], fn)
            shape = ['s' if isinstance(x, str) else 'o' for x in parts]
            if C.cls[q] == 'bin':
                ok = shape == ['s', 'o', 's', 'o', 's'] and parts[0].strip() == '(' and \
                    parts[-1].strip() == ')'
                if not ck.req(ok, site + ': parentheses', 'is printed as %s' %
                              ''.join(x if isinstance(x, str) else '?' for x in parts), fn):
                    continue
                s = parts[2].strip()
                # a unary operator may follow for exclusion
                un = ''
                while s and s[-1] in UNARY and len(s.split()) > 1:
                    un, s = s[-1] + un, s[:-1].strip()
                want = last(q)
                if want == 'ExcludesConstraint':
                    ck.req(sc.get(s) == 'ImpliesConstraint' and sc.get(un) == 'NotConstraint',
                           site + ': operator', '%r is not parsed as implied negation'
                           % parts[2], fn)
                else:
                    ck.req(sc.get(s) == want and not un, site + ': operator',
                           '%r is parsed as %s' % (parts[2], sc.get(s)), fn)
                # a word is only read as operator if it is separated
                if s.isalnum():
                    ck.req(parts[2][0] == ' ' and parts[2][-1] == ' ',
                           site + ': separation', '%r runs into the operands' % parts[2], fn)
            else:
                ok = len(parts) >= 2 and isinstance(parts[0], str) and \
                    sc.get(parts[0].strip(' (')) == last(q)
                ck.req(ok, site + ': operator', '%s is not parsed as the operator' %
                       [x if isinstance(x, str) else '?' for x in parts], fn)
                if ok:
                    o = parts[0].count('(')
                    c = parts[-1].count(')') if isinstance(parts[-1], str) else 0
                    ck.req(o == c, site + ': parentheses', 'are not balanced', fn)


@rule('P11', 'html', 'The HTML text of a constraint is its text with the special '
      'characters escaped.')
def print_html(ck):
    C = classes(ck)
    base = ck.fn(CONS + '::toHTML')
    for p in ck.paths(base):
        if p.kind == 'ret':
            e = [e for e in p.events if e.kind == 'call' and last(e.q) == 'printHTMLEscaped']
            ok = any(e.args and e.args[0][0] == 'call' and
                     last(e.args[0][1]) == 'toString' and e.args[0][2] == THIS for e in e)
            ck.req(ok, 'HTML text of constraints', 'is not the escaped text', base)
    n = 0
    for q in sorted(C.cls) + [BIN, UN, V + 'PrimaryConstraint']:
        for fn in ck.fns(q + '::toHTML'):
            ts = ck.fns(q + '::toString')
            for p in ck.paths(fn):
                if p.kind != 'ret':
                    continue
                parts = merged(flat(p.ret))
                site = 'HTML text of %s' % last(q)
                if not any(isinstance(x, str) for x in parts):
                    x = parts[0] if parts else VOID
                    esc = [e for e in p.events if e.kind == 'call' and
                           last(e.q) == 'printHTMLEscaped' and e.args and
                           e.args[0] and e.args[0][0] == 'call' and
                           last(e.args[0][1]) == 'toString' and e.args[0][2] == THIS]
                    if esc:
                        ck.good(site)
                    elif x[0] == 'call' and last(x[1]) == 'toString':
                        ck.bad(site, 'is not escaped', fn)
                    else:
                        ck.undec(site, 'unrecognised')
                    continue
                n += 1
                want = []
                for t in ts:
                    for tp in ck.paths(t):
                        want = merged(flat(tp.ret))
                exp = [html(x) if isinstance(x, str) else operand(ck, C, x, 'toString')
                       for x in want]
                got = [x if isinstance(x, str) else operand(ck, C, x, 'toHTML')
                       for x in parts]
                raw = [x for x in parts if operand(ck, C, x, 'toString')]
                if raw:
                    ck.bad(site, 'an operand is not escaped', fn)
                    continue
                if None in got:
                    ck.undec(site, 'unrecognised text')
                    continue
                ck.req(got == exp, site, 'is %s instead of %s' % (got, exp), fn)


# ------------------------------------------------------------------ P13
@rule('P13', 'token-table', 'Each symbol is read as one token of the kind that the '
      'parser turns into its operator, with the length of the symbol.')
def token_table(ck):
    L = lexer(ck)
    sc = sym_class(ck)
    for s, want in list(SYMBOLS.items()) + list(UNARY.items()):
        ks = L.kind(s)
        site = 'symbol %s' % s
        if not ks:
            ck.undec(site, 'not decided')
            continue
        bad = [(k, l) for k, l in ks if l is not None and l[0] == 'int' and
               l[1] != len(s)]
        ck.req(len({k for k, l in ks}) == 1 and not bad, site + ': token',
               'is read as %s' % [(k, show(l) if l else None) for k, l in ks], L.fn)
        if sc.get(s) is None and len({k for k, l in ks}) == 1:
            k = list(ks)[0][0]
            has = any(o[0] == k for o in operators(ck))
            if has:
                ck.bad(site + ': operator', 'is parsed ambiguously', parser(ck).fn)
            else:
                ck.bad(site + ': operator', 'the parser builds no operator for its '
                       'token %s' % k, parser(ck).fn)
        else:
            ck.req(sc.get(s) == want, site + ': operator', 'is parsed as %s' % sc.get(s),
                   parser(ck).fn)
    for s, want in (('(', 'L_PAR'), (')', 'R_PAR')):
        ks = L.kind(s)
        ck.req({k for k, l in ks} == {want} and all(
            l is None or l == ('int', 1) for k, l in ks), 'symbol %s: token' % s,
            'is read as %s' % [k for k, l in ks], L.fn)


def size_base(t):
    """(string term) whose size the term is"""
    if t and t[0] == 'call' and last(t[1]) in ('size', 'length'):
        return t[2]
    if t and t[0] == 'size':
        return t[1]
    return None


def value_base(t):
    """string a token value is made of (up to case and conversions)"""
    while t and t[0] in ('call', 'new', 'var'):
        if t[0] == 'call' and last(t[1]) in ('lower', 'upper', 'str') and t[2]:
            t = t[2]
        elif t[0] == 'new' and t[2] and short(t[1]).startswith(('std::', 'llvm::')) \
                and 'StringRef' not in t[1]:
            t = t[2][0]
        elif t[0] == 'var':
            t = t[2]
        else:
            return t
    return t


@rule('P13', 'lexer-progress', 'Every step of the lexer consumes at least one and '
      'only characters it has recognised; names and numbers become tokens with '
      'exactly their text; the token list always ends with end of file or an error.')
def lexer_progress(ck):
    check_lexer(ck, lexer(ck), '$%@#?:;.,[]{}`"\\', ' &|^()=<>!+-*/~')


def check_lexer(ck, L, errors, delims, numbers=''):
    TOKEN = L.token
    n = 0
    for c in range(1, 256):
        t = chr(c)
        for p, k, v, ln, ev, more in L.decide(t + ' '):
            site = 'character class of %s' % (repr(t) if c < 128 else 'non-ASCII')
            if not more:
                # the loop ends with this token
                ck.req(k in ('END_OF_FILE', 'ERROR'), site, 'reading stops after a '
                       'token %s' % k, L.fn)
                continue
            if ln is None:
                ck.bad(site, 'nothing is consumed, the lexer does not terminate', L.fn)
                continue
            n += 1
            if ln[0] == 'int':
                lits = [1]
                for a, val in p.facts.items():
                    if val and a[0] == 'nn' and a[1][0] == 'call' and \
                            last(a[1][1]) in ('startswith', 'starts_with') and \
                            a[1][2] == L.text and a[1][3][0][0] == 'str':
                        lits.append(len(a[1][3][0][1]))
                    if val and a[0] == 'eq':
                        for x, y in ((a[1], a[2]), (a[2], a[1])):
                            if x[0] == 'str' and y[0] == 'call' and y[2] == L.text:
                                lits.append(len(x[1]))
                ck.req(1 <= ln[1] <= max(lits), 'consumed length for %s' % k,
                       '%s characters are consumed, %s are recognised' % (ln[1], max(lits)), L.fn)
                continue
            b = size_base(ln)
            if b is None:
                ck.undec(site, 'length %s' % show(ln)[:80])
                continue
            if b[0] == 'call' and last(b[1]) in ('take_while', 'take_until') and \
                    b[2] == L.text:
                acc = lam_accepts(L.en, b[3][0], c)
                if acc is not None and last(b[1]) == 'take_until':
                    acc = not acc
                if acc is None:
                    ck.undec(site, 'predicate not decided')
                else:
                    ck.req(acc, 'progress at %s' % (repr(t) if c < 128 else 'non-ASCII'),
                           'the character is not consumed, the lexer does not '
                           'terminate', L.fn)
            if v is not None and k in ('IDENTIFIER', 'NUMBER'):
                vb = value_base(v)
                ck.req(vb == b, 'text of %s' % k, 'the value is %s but %s is consumed'
                       % (show(vb)[:80], show(b)[:80]), L.fn)
    # letters begin names, digits begin numbers
    for cs, want in (('abcxyzABCXYZ', 'IDENTIFIER'), ('0123456789', 'NUMBER'),
                     (' \t\r\n', 'WHITESPACE')):
        for ch in cs:
            ks = {k for p, k, v, ln, ev, more in L.decide(ch + ' ')
                  if not any(val and a[0] == 'eq' and any(
                      x[0] == 'str' and len(x[1]) > 1 for x in a[1:])
                      for a, val in p.facts.items())}
            ck.req(ks == {want}, '%s begins %s' % (repr(ch), want), 'is read as %s' % ks, L.fn)
    for p, k, v, ln, ev, more in L.cases:
        if k == 'IDENTIFIER' and ln is not None:
            b = size_base(ln)
            if b and b[0] == 'call' and last(b[1]) == 'take_while':
                for ch in 'abzABZ059_':
                    acc = lam_accepts(L.en, b[3][0], ord(ch))
                    if acc is not None:
                        ck.req(acc, 'names contain %s' % ch, 'a name ends there', L.fn)
                for ch in delims:
                    acc = lam_accepts(L.en, b[3][0], ord(ch))
                    if acc is not None:
                        ck.req(not acc, 'names end before %s' % repr(ch),
                               'it is read into the name', L.fn)
        if k == 'NUMBER' and ln is not None:
            b = size_base(ln)
            if b and b[0] == 'call' and last(b[1]) == 'take_while':
                for ch in '0123456789' + numbers:
                    acc = lam_accepts(L.en, b[3][0], ord(ch))
                    if acc is not None:
                        ck.req(acc, 'numbers contain %s' % ch, 'a number ends there', L.fn)
                for ch in delims:
                    acc = lam_accepts(L.en, b[3][0], ord(ch))
                    if acc is not None:
                        ck.req(not acc, 'numbers end before %s' % repr(ch),
                               'it is read into the number', L.fn)
        if k == 'WHITESPACE' and ln is not None:
            b = size_base(ln)
            if b and b[0] == 'call' and last(b[1]) == 'take_while':
                for ch in 'azAZ09_' + delims.strip():
                    acc = lam_accepts(L.en, b[3][0], ord(ch))
                    if acc is not None:
                        ck.req(not acc, 'blanks end before %s' % repr(ch),
                               'it is read into the blank', L.fn)
    # characters outside of the language are errors
    for ch in errors:
        ks = {k for p, k, v, ln, ev, more in L.decide(ch + ' ')}
        ck.req(ks == {'ERROR'}, '%s is an error' % repr(ch), 'is read as %s' % ks, L.fn)
    # the end of the list
    for p in L.paths:
        if p.kind != 'ret':
            continue
        pushes = [e for e in p.events if e.kind == 'call' and last(e.q) in ADD and
                  e.args and new_cls(unv(e.args[-1])) == TOKEN]
        for e in pushes:
            ck.req(not last(e.q).endswith('_front'), 'order of the tokens',
                   'a token is put before those read earlier', e)
        lastk = None
        if pushes:
            t = unv(pushes[-1].args[-1])
            k = L.en.field_of_new(t, L.kindf) or (t[2][0] if t[2] else VOID)
            lastk = last(k[1]) if k[0] == 'enum' else None
        fact = [last(a[2][1]) for a, v in p.facts.items()
                if v and a[0] == 'eq' and a[1][0] == 'fld' and a[1][2] == L.kindf and
                a[1][1][0] == 'back' and a[2][0] == 'enum']
        ck.req(lastk in ('END_OF_FILE', 'ERROR') or
               any(f in ('END_OF_FILE', 'ERROR') for f in fact),
               'the token list ends with end of file or error',
               'a path ends with %s' % (lastk or fact), L.fn)
    ck.need(n > 100, 'decided characters')


SEARCH = ('contains', 'contains_insensitive', 'find', 'find_insensitive', 'count',
          'consume_front', 'consume_front_insensitive', 'startswith', 'starts_with',
          'startswith_insensitive', 'starts_with_insensitive', 'find_first_of', 'front')


def exponent_marks(atoms):
    """(marks that are looked for, whether in both cases) of the given conditions"""
    got, both = set(), False
    for a in atoms:
        for t in walk(a):
            cs = None
            if t and t[0] == 'call' and last(t[1]) in SEARCH and t[3]:
                cs = [x for x in t[3] if x[0] in ('str', 'int')]
            elif t and t[0] == 'eq':
                cs = [x for x in t[1:] if x[0] == 'int']
            for x in cs or ():
                x = x[1] if x[0] == 'str' else chr(x[1]) if isinstance(x[1], int) and \
                    0 < x[1] < 128 else ''
                if x and set(x) <= set('eE'):
                    got |= set(x)
                    both |= t[0] == 'call' and 'insensitive' in last(t[1]) or any(
                        y and y[0] == 'call' and last(y[1]) in ('lower', 'upper', 'tolower',
                                                                'toLower', 'to_lower')
                        for y in walk(t))
    return got, both


@rule('P13', 'exponents', 'A number extends over its exponent, with or without sign.')
def exponents(ck):
    L = lexer(ck)
    cases = [c for c in L.cases if c[1] == 'NUMBER' and c[3] is not None]
    ck.need(cases, 'numbers')
    got, both = exponent_marks([a for c in cases for a in c[0].facts])
    if not ck.req(got, 'numbers in scientific notation', 'have no exponent', L.fn):
        return
    ck.req(both or got == {'e', 'E'}, 'numbers in scientific notation', 'have exponents '
           'with %s only' % '/'.join(sorted(got)), L.fn)

    def taken(t):
        return is_front(t, '+'), is_front(t, '-')

    def is_front(t, ch):
        return t and t[0] == 'call' and last(t[1]) == 'consume_front' and \
            t[3] and t[3][0] == ('str', ch)
    n = 0
    for p, k, v, ln, ev, more in cases:
        on = [a for a, val in p.facts.items() if val and a[0] == 'nn' and a[1][0] == 'call' and
              last(a[1][1]) in ('consume_front', 'consume_front_insensitive') and
              exponent_marks([a])[0]]
        b = size_base(ln)
        if not on or b is None:
            continue
        n += 1
        done = [e.args[0][1] for e in p.events if e.kind == 'call' and
                last(e.q) == 'consume_front' and e.args and e.args[0][0] == 'str']
        won = any(val and a[0] == 'nn' and any(taken(a[1])) for a, val in p.facts.items())
        ck.req(won or {'+', '-'} <= set(done), 'signs of exponents', 'are not all read', L.fn)
        if b[0] == 'call' and last(b[1]) == 'drop_back' and b[3]:
            x = size_base(b[3][0])
            if x is not None:
                ck.req(not (x[0] == 'call' and last(x[1]) == 'drop_front'), 'digits of '
                       'exponents', 'are not part of the number', L.fn)
    if not n:
        ck.undec('exponents', 'not recognised')


@rule('P13', 'blanks', 'Blanks between the tokens of a constraint have no meaning.')
def blanks(ck):
    P = parser(ck)
    n = 0
    for p in P.paths:
        ks = P.kinds(p)
        w = P.walk(p)
        for i, (kind, v, e) in enumerate(w):
            if kind != 'pop' or ks.get(v, [None])[0] != 'WHITESPACE':
                continue
            n += 1
            nxt = [x for x in w[i + 1:]]
            ck.req(nxt or v + 1 in ks or p.kind != 'ret', 'blanks', 'decide about what '
                   'follows: the parser ends without looking at the next token', P.fn)
    if not n:
        ck.undec('blanks', 'not recognised')


def offset(t, x):
    """c if the term is x + c"""
    if t == x:
        return 0
    if t[0] == 'op' and len(t) == 4 and t[1] in '+-' and t[1]:
        for i, j in ((2, 3), (3, 2)):
            d = offset(t[i], x)
            if d is not None and t[j][0] == 'int' and (t[1] == '+' or i == 2):
                return d + (t[j][1] if t[1] == '+' else -t[j][1])
    return None


@rule('P13', 'parser-progress', 'The parser consumes only tokens it has identified '
      'and never the last one, consumes a token before every recursion and in every '
      'iteration, and accepts only when the text is used up.')
def parser_progress(ck):
    P = parser(ck)
    allk = {x['n'] for x in ck.fx.enums[TOKEN + '::ConstraintTokenKind']['vals']}
    nrec = 0
    for p in P.paths:
        ks = P.kinds(p)
        w = P.walk(p)
        popped_since = False
        anypop = False
        for kind, v, e in w:
            if kind == 'pop':
                k, ex = ks.get(v, [None, set()])
                ok = (k is not None and k not in ('END_OF_FILE', 'ERROR')) or \
                    {'END_OF_FILE', 'ERROR'} <= ex
                ck.req(ok, 'consumed token %s' % (k or '?'), 'the end of the text or an '
                       'unknown token is consumed' if k is None else
                       '%s is consumed, the parser reads beyond the end' % k, P.fn)
                popped_since = anypop = True
            elif kind == 'rec':
                nrec += 1
                ck.req(anypop, 'recursion consumes', 'the parser calls itself without '
                       'consuming a token', P.fn)
                popped_since = True
            elif kind == 'iter':
                ck.req(popped_since, 'iteration consumes', 'an iteration does not '
                       'consume a token (%s)' % ks, P.fn)
        if p.kind != 'ret' or p.ret == NULL:
            continue
        # accepted: what stops the parser?
        nv = sum(1 for x in w if x[0] in ('pop', 'rec'))
        k, ex = ks.get(nv, [None, set()])
        prec = any(a[0] in ('lt', 'le') and P.prec in a[1:] for a in p.facts)
        nested = p.facts.get(('nn', P.nest)) is True or any(
            a[0] in ('lt', 'le', 'eq') and P.nest in a[1:] for a in p.facts)
        if k == 'END_OF_FILE':
            ck.good('accepts at the end of the text')
        elif k == 'R_PAR':
            ck.req(nested, 'accepts at a closing parenthesis', 'although none is open', P.fn)
        elif prec:
            ck.good('accepts before a weaker operator')
        elif p.ret[0] == 'call' and p.ret[1] == P.q or any(
                x and x[0] == 'call' and x[1] == P.q for x in walk(p.ret)):
            ck.undec('accepts', 'tail recursion')
        else:
            ck.bad('accepts at %s' % (k or 'any token'), 'a constraint is returned '
                   'although text is left', P.fn)
    top = P.call.args
    i = P.nest[1]
    ck.req(top[i] == ('int', 0), 'no parenthesis is open at the beginning',
           'nesting starts with %s' % show(top[i]), P.entry)
    # no operator closes a level
    for p in P.paths:
        ks = P.kinds(p)
        for kind, v, e in P.walk(p):
            if kind != 'rec':
                continue
            a = e.args[i]
            d = offset(a, P.nest)
            if d is not None:
                ck.req(d >= 0, 'nesting of operands', 'an operand lies on level %s' % show(a),
                       P.fn)
            elif a[0] == 'int' and a[1] == 0 and ks.get(v - 1, [None])[0] != 'L_PAR':
                ck.req(p.facts.get(('nn', P.nest)) is False, 'nesting of operands', 'an operand '
                       'is outside of all parentheses', P.fn)
    # a parenthesis has to be closed
    for p in P.paths:
        w = P.walk(p)
        ks = P.kinds(p)
        if p.kind != 'ret':
            continue
        for j, (kind, v, e) in enumerate(w):
            if kind == 'rec' and ks.get(v - 1, [None])[0] == 'L_PAR':
                used = any(x == e.res for t in [p.ret] + [
                    y.args[0] for y in p.events if y.kind == 'set' and y.args]
                    for x in walk(t))
                if used and p.ret != NULL:
                    nxt = [x for x in w[j + 1:] if x[0] == 'pop']
                    ck.req(bool(nxt) and ks.get(nxt[0][1], [None])[0] == 'R_PAR',
                           'parentheses are closed', 'the contents are accepted without '
                           'a closing parenthesis', P.fn)
                a = e.args[i]
                d = offset(a, P.nest)
                ck.req(a != ('int', 0) and (d is None or d > 0), 'a parenthesis opens a level',
                       'nesting stays %s' % show(a), P.fn)
    ck.need(nrec > 10, 'recursions')


@rule('P13', 'operands', 'Names and numbers become the feature and the number they '
      'denote, and the left operand of an operator is what was read before it.')
def parser_operands(ck):
    P = parser(ck)
    n = 0
    for p in P.paths:
        ks = P.kinds(p)
        if p.kind != 'ret':
            continue
        k = ks.get(0, [None])[0]
        if k not in ('IDENTIFIER', 'NUMBER'):
            continue
        terms = [p.ret] + [e.args[0] for e in p.events if e.kind == 'set' and e.args]
        want = 'PrimaryFeatureConstraint' if k == 'IDENTIFIER' else 'PrimaryIntegerConstraint'
        for t in terms:
            for x in walk(t):
                if x and x[0] == 'new' and last(x[1]).startswith('Primary') and \
                        last(x[1]).endswith('Constraint'):
                    n += 1
                    tokv = ('fld', ('front', P.tokens), P.valf)
                    ck.req(last(x[1]) == want and any(y == tokv for y in walk(x)),
                           'operand from %s' % k, 'is %s' % show(x)[:160], P.fn)
        if p.ret != NULL and not any(x[0] == 'rec' for x in P.walk(p)):
            ck.req(last(p.ret[1]) == want if p.ret[0] == 'new' else True,
                   'constraint from a single %s' % k, 'is %s' % show(p.ret)[:160], P.fn)
    for k, cls, p, t, ops, rec, ver in operators(ck):
        if not ops or len(ops) != 2 or rec is None:
            continue
        k0 = P.kinds(p).get(0, [None])[0]
        if k0 in ('IDENTIFIER', 'NUMBER'):
            tokv = ('fld', ('front', P.tokens), P.valf)
            ck.req(any(y == tokv for y in walk(ops[0])), 'left operand of %s' % k,
                   'is %s' % show(ops[0])[:160], P.fn)
    ck.need(n, 'operands')
