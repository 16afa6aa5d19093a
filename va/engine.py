"""Path-sensitive, interprocedural dataflow over the extracted program.

For a function the engine enumerates the acyclic control-flow paths (loops are
abstracted by "zero iterations" and "one iteration over a generic element"),
propagates *value provenance terms* through locals, fields and inlined callees,
records the branch facts that select the path and the ordered effects (calls,
writes) on it.  Branch facts are only matched structurally; no solver and no
concrete or symbolic execution of the program's arithmetic takes place.

Terms (tuples):
  ('this',) ('param', i, name) ('int', n) ('bool', b) ('str', s) ('null',)
  ('enum', 'Qualified::Value') ('fld', base, name) ('call', q, obj, args, n)
  ('elem', container, k) ('new', cls, args, n) ('op', op, a, b) ('not', a)
  ('Ok', t) ('Err', t) ('lambda', id) ('get', T, v) ('cat', parts) ...
Pointers, references, smart pointers and their referents share one term.
"""
import re
from . import facts as F


class TooComplex(Exception):
    pass


TRUE, FALSE, NULL, THIS = ('bool', True), ('bool', False), ('null',), ('this',)
VOID = ('void',)

IDENT_CALLS = {
    'std::move', 'std::forward', 'std::ref', 'std::cref', 'std::addressof',
    'std::as_const', 'std::launder', 'llvm::cast', 'std::to_address',
    'std::static_pointer_cast', 'std::make_optional',
}
IDENT_METHODS = {
    'get', 'operator*', 'operator->', 'value', 'str', 'c_str', 'data',
    'release', 'operator std::basic_string_view', 'operator std::string',
    'operator basic_string_view', 'getValuePtr', 'extractValue',
    'operator basic_string', 'operator basic_string_view<char, std::char_traits<char>>',
}
BOOLK = ('holds', 'isa', 'empty', 'contains', 'not', 'bool')
OPT_SCALAR = re.compile(r'^std::optional<')
GROWS = ('operator=', 'operator+=', 'append', 'push_back')
STRINGY = re.compile(
    r'^(const )?(std::basic_string|llvm::StringRef|std::basic_string_view|'
    r'std::filesystem::path|std::filesystem::__cxx11::path|llvm::Twine)|'
    r'^std::__cxx11::basic_string')
SSTREAM = re.compile(r'^std::(__cxx11::)?basic_o?stringstream<|^llvm::raw_string_ostream')
NORETURN = {
    'abort', 'exit', '_exit', 'std::terminate', 'std::abort', 'std::exit',
    '__assert_fail', 'llvm::llvm_unreachable_internal',
    '__builtin_unreachable', '__builtin_trap', 'std::__throw_bad_variant_access',
    'llvm::report_fatal_error',
}


def strip_cvref(t):
    t = (t or '').strip()
    ch = True
    while ch:
        ch = False
        for s in ('const ', 'volatile '):
            if t.startswith(s):
                t = t[len(s):]
                ch = True
        for s in ('&&', '&', ' const', '*const'):
            if t.endswith(s):
                t = t[:-len(s)].strip() + ('*' if s == '*const' else '')
                ch = True
    return t.strip()


def base_type(t):
    """type name without cv, refs, pointers"""
    t = strip_cvref(t)
    while t.endswith('*'):
        t = strip_cvref(t[:-1].strip())
    return t


def is_smart(t):
    t = strip_cvref(t)
    return t.startswith(('std::unique_ptr', 'std::shared_ptr', 'std::optional',
                         'std::__cxx11::unique_ptr'))


def scalar_t(t):
    return bool(re.fullmatch(r'(const )?(bool|char|float|double|(unsigned )?(int|long|short|'
                             r'char)( long)?)|(const )?(std::basic_string<.*|llvm::StringRef)',
                             strip_cvref(t)))


def is_result(t):
    t = strip_cvref(t)
    return t.startswith(('vara::Result<', 'vara::Error<', 'vara::Ok<'))


def short(q):
    """drop template arguments from a qualified name"""
    out, d = [], 0
    i = 0
    while i < len(q):
        c = q[i]
        if q.startswith('operator', i) and d == 0:
            m = re.match(r'operator\s*(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>|\(\)|\[\])', q[i:])
            if m:
                out.append(m.group(0))
                i += len(m.group(0))
                continue
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


def last(q):
    q = short(q)
    if 'operator' in q:
        return q[q.rindex('operator'):]
    return q.rsplit('::', 1)[-1]


# terms that count elements
COUNT = {'contains', 'size'}


class Ev:
    __slots__ = ('kind', 'q', 'obj', 'args', 'res', 'file', 'line', 'loops',
                 'fn', 'extra')

    def __init__(self, kind, q, obj, args, res, file, line, loops, fn, extra=None):
        self.kind, self.q, self.obj, self.args = kind, q, obj, args
        self.res, self.file, self.line, self.loops = res, file, line, loops
        self.fn, self.extra = fn, extra

    @property
    def name(self):
        return last(self.q)

    def key(self):
        return (self.kind, self.q, self.obj, self.args, self.loops)

    def __repr__(self):
        return '%s:%s %s %s.%s(%s)%s' % (
            self.file.rsplit('/', 1)[-1], self.line, self.kind,
            show(self.obj) if self.obj else '', self.q,
            ', '.join(show(a) for a in self.args),
            ' in loops %s' % [show(l) for l in self.loops] if self.loops else '')


def has_lambda(t):
    return isinstance(t, tuple) and bool(t) and (
        t[0] == 'lambda' or any(has_lambda(x) for x in t))


def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if d > 7:
        return '..'
    k = t[0]
    S = lambda x: show(x, d + 1)
    if k == 'this':
        return 'this'
    if k == 'param':
        return str(t[2])
    if k in ('int', 'bool', 'str'):
        return repr(t[1])
    if k == 'null':
        return 'null'
    if k == 'enum':
        return t[1].rsplit('::', 1)[-1]
    if k == 'fld':
        return '%s.%s' % (S(t[1]), last(t[2]))
    if k == 'call':
        return '%s%s(%s)' % (S(t[2]) + '.' if t[2] else '', last(t[1]),
                             ', '.join(S(a) for a in t[3]))
    if k == 'elem':
        return 'elem(%s)' % S(t[1])
    if k == 'new':
        return 'new %s(%s)' % (last(t[1]), ', '.join(S(a) for a in t[2]))
    if k == 'op':
        return '(%s %s %s)' % (S(t[2]), t[1], S(t[3]))
    return '%s(%s)' % (k, ', '.join(S(x) if isinstance(x, tuple) else str(x)
                                    for x in t[1:]))


def walk(t):
    """all subterms"""
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from walk(x)


def mentions(t, pred):
    return any(pred(x) for x in walk(t) if x and isinstance(x[0], str))


def unk(t):
    """strip occurrence counters so structurally equal terms compare equal"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'elem':
        return ('elem', unk(t[1]))
    if t[0] == 'call':
        return ('call', t[1], unk(t[2]), tuple(unk(a) for a in t[3]))
    if t[0] in ('new',):
        return ('new', t[1], tuple(unk(a) for a in t[2]))
    if t[0] == 'iter':
        return ('iter', unk(t[1]))
    return tuple(unk(x) for x in t)


class State:
    __slots__ = ('env', 'heap', 'facts', 'trace', 'n', 'loops', 'ver')

    def __init__(self):
        self.env, self.heap, self.facts = {}, {}, {}
        self.trace = None
        self.n = 0
        self.loops = ()
        self.ver = {}

    def copy(self):
        s = State.__new__(State)
        s.env, s.heap, s.facts = self.env, self.heap, self.facts
        s.trace, s.n, s.loops, s.ver = self.trace, self.n, self.loops, self.ver
        return s

    def bind(self, k, v):
        s = self.copy()
        s.env = dict(self.env)
        s.env[k] = v
        return s

    def store(self, k, v):
        s = self.copy()
        s.heap = dict(self.heap)
        s.heap[k] = v
        return s

    def fact(self, a, b):
        s = self.copy()
        s.facts = dict(self.facts)
        s.facts[a] = b
        return s

    def ev(self, e):
        s = self.copy()
        s.trace = (self.trace, e)
        return s

    def tick(self):
        s = self.copy()
        s.n += 1
        return s

    def bump(self, o):
        s = self.copy()
        s.ver = dict(self.ver)
        s.ver[o] = s.ver.get(o, 0) + 1
        return s

    def events(self):
        out = []
        t = self.trace
        while t:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


class Path:
    """one summarised path: events, facts, exit kind, return term"""

    def __init__(self, st, kind, ret):
        self.events = st.events()
        self.facts = st.facts
        self.heap = st.heap
        self.env = st.env
        self.kind = kind      # 'ret' | 'abort' | 'again' | 'throw'
        self.ret = ret
        self.st = st

    def fact(self, atom):
        return self.facts.get(atom)

    def __repr__(self):
        fs = ' & '.join(('' if v else '!') + show(a)
                        for a, v in self.facts.items())
        return '[%s] {%s} -> %s %s' % (
            self.kind, fs, show(self.ret),
            ''.join('\n      ' + repr(e) for e in self.events))


class Engine:
    def __init__(self, fx, opaque=(), inline=None, max_paths=6000, depth=8,
                 record=None, havoc=False, algos=True, const_enum=True,
                 no_inline_q=(), virtual_inline=False, ident=(), iters=1,
                 join=True, mark_loops=False, havoc_calls=None, outs=None, returns=None,
                 returns_at=None, derefs=False, streams=False):
        self.fx = fx
        self.derefs = derefs
        self.streams = streams       # texts written to string streams are kept apart
        self.mark_loops = mark_loops
        self.havoc_calls = havoc_calls or {}
        self.outs = outs or {}
        self.returns = returns
        self.returns_at = returns_at or {}   # call node (its id()) -> result
        self.opaque = set(opaque)
        self.inline_pred = inline
        self.max_paths = max_paths
        self.depth = depth
        self.record = record
        self.havoc = havoc
        self.algos = algos
        self.virtual_inline = virtual_inline
        self.ident = set(ident)
        self.iters = iters
        self.join = join
        self.stack = []
        self.fstack = []
        self.analysed = set()
        self.lambdas = {}
        self.refvars = set()
        self.again_exits = False         # endless loops may end after an iteration
        self.absval = None               # abstraction of the values of variables
        self.glob_cache = {}

    # ------------------------------------------------------------ entry
    def paths(self, fn, this=THIS, args=None, st=None):
        st = st or State()
        for i, p in enumerate(fn['params']):
            if p['t'].endswith('&'):
                self.refvars.add(p['id'])
            t = args[i] if args and i < len(args) else ('param', i, p['n'])
            st = st.bind(p['id'], t)
        self.this = this
        self.stack = [fn['key']]
        self.fstack = [fn]
        self.analysed.add(fn['key'])
        out = []
        starts = [st]
        if fn.get('ctor'):
            starts = self.ctor_inits(fn, st, this)
        for s0 in starts:
            for s, ex in self.stmt(fn['body'], s0):
                if ex is None:
                    out.append(Path(s, 'ret', VOID))
                elif ex[0] == 'ret':
                    out.append(Path(s, 'ret', ex[1]))
                else:
                    out.append(Path(s, ex[0], VOID))
        return out

    def lambda_paths(self, lam, args, st=None, body=0):
        """paths of a lambda AST node with given argument terms"""
        st = st or State()
        b = lam['bodies'][body]
        self.stack, self.fstack = ['lambda'], [self._pseudo(lam)]
        self.this = THIS
        for p, a in zip(b['params'], args):
            st = st.bind(p['id'], a)
        out = []
        for s, ex in self.stmt(b['body'], st):
            if ex is None:
                out.append(Path(s, 'ret', VOID))
            elif ex[0] == 'ret':
                out.append(Path(s, 'ret', ex[1]))
            else:
                out.append(Path(s, ex[0], VOID))
        return out

    def _pseudo(self, lam):
        return {'q': '<lambda>', 'file': '?', 'key': 'lambda', 'rt': ''}

    def ctor_inits(self, fn, st, this):
        sts = [st]
        for i in fn.get('inits', ()):
            nxt = []
            for s in sts:
                for s2, v in self.ev(i['e'], s):
                    if i.get('f'):
                        s2 = s2.store(('fld', this, i['f']), v)
                        s2 = self.emit(s2, 'init', i['f'], this, (v,), v, fn['l'])
                    elif i.get('base') or i.get('deleg'):
                        s2 = self.base_ctor(s2, i['e'], this, v)
                        nxt.extend(s2)
                        continue
                    nxt.append(s2)
            sts = nxt
        return sts

    def base_ctor(self, st, e, this, v):
        """inline a base-class/delegated constructor on the same object"""
        fnr = e.get('fn') if isinstance(e, dict) else None
        callee = self.fx.fns.get(fnr['id']) if fnr else None
        if callee is None or v[0] != 'new' or callee['key'] in self.stack:
            if v[0] == 'new':
                st = self.emit(st, 'base', v[1], this, v[2], v,
                               e.get('l', 0) if isinstance(e, dict) else 0)
            return [st]
        self.analysed.add(callee['key'])
        self.stack.append(callee['key'])
        self.fstack.append(callee)
        try:
            for p, a in zip(callee['params'], v[2]):
                st = st.bind(p['id'], a)
            st = self.emit(st, 'base', v[1], this, v[2], v, e.get('l', 0))
            out = []
            for s in self.ctor_inits(callee, st, this):
                save, self.this = self.this, this
                for s2, ex in self.stmt(callee['body'], s):
                    if ex is None or ex[0] == 'ret':
                        out.append(s2)
                self.this = save
            return out
        finally:
            self.stack.pop()
            self.fstack.pop()

    def emit(self, st, kind, q, obj, args, res, line, extra=None):
        f = self.fstack[-1] if self.fstack else {'file': '?', 'q': '?'}
        e = Ev(kind, q, obj, tuple(args), res, f.get('file', '?'), line,
               st.loops, f.get('q'), extra)
        if self.record and not self.record(e):
            return st
        return st.ev(e)

    # ------------------------------------------------------- statements
    def cap(self, l):
        if len(l) > self.max_paths:
            raise TooComplex('%d paths in %s' % (len(l), self.stack))
        return l

    def seq(self, stmts, st):
        cur = [st]
        out = []
        for x in stmts:
            nxt = []
            for s in cur:
                for s2, ex in self.stmt(x, s):
                    if ex is None:
                        nxt.append(s2)
                    else:
                        out.append((s2, ex))
            cur = self.dedupe(nxt)
            self.cap(cur)
            if not cur:
                break
        out.extend((s, None) for s in cur)
        return self.cap(out)

    def dedupe(self, sts):
        """join states that agree on everything but branch facts"""
        if len(sts) < 2:
            return sts
        groups, order = {}, []
        for s in sts:
            k = (frozenset(s.env.items()), frozenset(s.heap.items()),
                 id(s.trace), s.loops)
            if not self.join:
                k = k + (frozenset(s.facts.items()),)
            elif self.join is not True:
                k = k + (frozenset((a, v) for a, v in s.facts.items() if self.join(a)),)
            if k in groups:
                groups[k].append(s)
            else:
                groups[k] = [s]
                order.append(k)
        if len(order) == len(sts):
            return sts
        out = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                out.append(g[0])
                continue
            s = g[0].copy()
            fs = dict(g[0].facts)
            for o in g[1:]:
                for a in list(fs):
                    if a not in o.facts or o.facts[a] != fs[a]:
                        del fs[a]
            s.facts = fs
            s.n = max(o.n for o in g)
            if any(o.ver != s.ver for o in g):
                v = {}
                for o in g:
                    for a, b in o.ver.items():
                        v[a] = max(b, v.get(a, 0))
                s.ver = v
            out.append(s)
        return out

    @staticmethod
    def scope(st, env):
        """drop bindings of names that went out of scope"""
        if len(st.env) == len(env):
            return st
        s = st.copy()
        s.env = {k: v for k, v in st.env.items() if k in env}
        return s

    def stmt(self, x, st):
        if x is None:
            return [(st, None)]
        k = x['s']
        if k == 'block':
            return [(self.scope(s, st.env) if ex is None or
                     (len(ex) < 2 or not has_lambda(ex[1])) else s, ex)
                    for s, ex in self.seq(x['b'], st)]
        if k == 'expr' and self.derefs and isinstance(x['e'], dict) and \
                x['e'].get('k') == 'call' and (x['e'].get('fn') or {}).get(
                    'rt', '').startswith('vara::Result<') and \
                not last(x['e']['fn']['q']).startswith('operator='):
            return [((s if v in (('abort',), ('throw',)) or v[0] == 'Ok' else
                      self.emit(s, 'dropped', x['e']['fn']['q'], v, (), None, x.get('l', 0))),
                     v if v in (('abort',), ('throw',)) else None)
                    for s, v in self.ev(x['e'], st)]
        if k == 'expr':
            return [(s, ('abort',) if v == ('abort',) else
                     (('throw',) if v == ('throw',) else None))
                    for s, v in self.ev(x['e'], st)]
        if k == 'decl':
            cur = [(st, None)]
            for d in x['d']:
                nxt = []
                for s, ex in cur:
                    if ex is not None:
                        nxt.append((s, ex))
                        continue
                    nxt.extend(self.declare(d, s))
                cur = nxt
            return cur
        if k == 'if':
            return self.st_if(x, st)
        if k in ('while', 'for', 'do', 'rfor'):
            return self.st_loop(x, st)
        if k == 'switch':
            return self.st_switch(x, st)
        if k in ('case', 'default'):
            return self.stmt(x['b'], st)
        if k == 'return':
            if x.get('e') is None:
                return [(st, ('ret', VOID))]
            out = []
            for s, v in self.ev(x['e'], st):
                if v in (('abort',), ('throw',)):
                    out.append((s, v))
                else:
                    rt = self.fstack[-1].get('rt', '')
                    out.append((s, ('ret', self.wrap_result(v, rt))))
            return out
        if k == 'break':
            return [(st, ('break',))]
        if k == 'continue':
            return [(st, ('continue',))]
        if k == 'try':
            out = list(self.stmt(x['b'], st))
            for h in x['h']:
                out.extend(self.stmt(h, st))
            return out
        return [(st, None)]

    def wrap_result(self, v, rt):
        return v

    def declare(self, d, st):
        if d['t'].endswith('&'):
            self.refvars.add(d['id'])
            for b in d.get('bind', ()):
                self.refvars.add(b['id'])
        if d.get('init') is None:
            v = ('undef', str(d['n']))
            return [(st.bind(d['id'], v), None)]
        out = []
        if d['t'].endswith('&') and not d.get('bind'):
            # a reference keeps naming its variable or field, whatever happens to it
            n = d['init']
            while isinstance(n, dict) and n.get('k') in ('paren', 'cast') and \
                    n.get('ck', 'NoOp') == 'NoOp' and isinstance(n.get('e'), dict):
                n = n['e']
            if n.get('k') == 'ref' and n.get('dk') in ('var', 'param', 'bind') and 'd' in n:
                x, v = self.lookup(st, n['d'])
                if v is not None and x != d['id']:
                    return [(st.bind(d['id'], ('alias', x)), None)]
            if n.get('k') == 'mem' and 'mfn' not in n and 'b' in n:
                vs = self.ev(n, st)
                if all(v[0] != 'pair' and v[0] != 'mapval' for _, v in vs):
                    for s, b in self.ev(n['b'], st):
                        if b in (('abort',), ('throw',)):
                            out.append((s, b))
                        elif b[0] in ('pair', 'mapent'):
                            out = []
                            break
                        else:
                            if n.get('arrow'):
                                s = self.used(s, b, 'ptr', n)
                            out.append((s.bind(d['id'], ('lref', ('fld', b, n['q']))), None))
                    if out:
                        return out
        for s, v in self.ev(d['init'], st):
            if v in (('abort',), ('throw',)):
                out.append((s, v))
                continue
            if self.absval is not None:
                v = self.absval(v)
            if v[0] == 'new' and v[1] and not d['t'].endswith(('*', '&')) \
                    and not is_smart(d['t']) and not STRINGY.search(d['t']):
                pass
            s = s.bind(d['id'], v)
            for i, b in enumerate(d.get('bind', ())):
                if b.get('e') is not None and b['e'].get('k') == 'mem':
                    bv = ('fld', v, b['e']['q'])
                else:
                    bv = ('tupget', i, v)
                    if v[0] == 'pair':
                        bv = v[1 + i]
                s = s.bind(b['id'], bv)
                if 'hid' in b:
                    s = s.bind(b['hid'], bv)
            out.append((s, None))
        return out

    def st_if(self, x, st):
        pre = [(st, None)]
        if x.get('init'):
            pre = self.stmt(x['init'], st)
        if x.get('var'):
            nxt = []
            for s, ex in pre:
                nxt.extend(self.declare(x['var'], s) if ex is None else [(s, ex)])
            pre = nxt
        out = []
        for s, ex in pre:
            if ex is not None:
                out.append((s, ex))
                continue
            if 'const' in x:
                out.extend(self.stmt(x['a'] if x['const'] else x.get('b'), s))
                continue
            for s2, b in self.cond(x['c'], s):
                if b is None:
                    out.append((s2, ('abort',)))
                else:
                    out.extend(self.stmt(x['a'] if b else x.get('b'), s2))
        return self.cap(out)

    def st_switch(self, x, st):
        pre = [(st, None)]
        if x.get('init'):
            pre = self.stmt(x['init'], st)
        if x.get('var'):
            nxt = []
            for s, ex in pre:
                nxt.extend(self.declare(x['var'], s) if ex is None else [(s, ex)])
            pre = nxt
        # flatten body into labelled statement list
        items = []

        def flat(b):
            if b is None:
                return
            if b['s'] == 'block':
                for y in b['b']:
                    flat(y)
            elif b['s'] in ('case', 'default'):
                items.append((b['s'], b.get('v')))
                flat1(b['b'])
            else:
                items.append(('stmt', b))

        def flat1(b):
            if b is None:
                return
            if b['s'] in ('case', 'default'):
                items.append((b['s'], b.get('v')))
                flat1(b['b'])
            else:
                items.append(('stmt', b))
        flat(x['b'])
        out = []
        for s0, ex in pre:
            if ex is not None:
                out.append((s0, ex))
                continue
            for s, v in self.ev(x['c'], s0):
                cases = [(i, it) for i, it in enumerate(items)
                         if it[0] == 'case']
                rest = s
                done = False
                for i, it in cases:
                    cs = self.ev(it[1], rest)
                    cv = cs[0][1]
                    r = self.decide_eq(rest, v, cv)
                    if r is False:
                        continue
                    sx = rest
                    if r is None:
                        sx = self.assume_eq(rest, v, cv, True)
                    out.extend(self.run_from(items, i, sx))
                    if r is True:
                        done = True
                        break
                    rest = self.assume_eq(rest, v, cv, False)
                if done:
                    continue
                df = [i for i, it in enumerate(items) if it[0] == 'default']
                if df:
                    out.extend(self.run_from(items, df[0], rest))
                elif not x.get('all'):
                    out.append((rest, None))
                elif x.get('all') and not cases:
                    out.append((rest, None))
        return self.cap(out)

    def run_from(self, items, i, st):
        seq = [it[1] for it in items[i:] if it[0] == 'stmt']
        res = []
        for s, ex in self.seq(seq, st):
            if ex == ('break',):
                ex = None
            res.append((s, ex))
        return res

    def assigned(self, node, acc):
        if isinstance(node, dict):
            if node.get('k') == 'asg' and node['a'].get('k') == 'ref' and 'd' in node['a']:
                acc.add(node['a']['d'])
            if node.get('k') == 'un' and node.get('op') in ('++', '--') and \
                    node['e'].get('k') == 'ref' and 'd' in node['e']:
                acc.add(node['e']['d'])
            if self.havoc in ('all', 'text') and node.get('k') == 'call' and \
                    isinstance(node.get('fn'), dict) and \
                    last(node['fn']['q']) in (('operator=',) if self.havoc == 'all' else
                                              GROWS):
                o = node.get('obj') or (node.get('a') or [{}])[0]
                if o.get('k') == 'ref' and 'd' in o:
                    acc.add(o['d'])
            for v in node.values():
                if isinstance(v, (dict, list)):
                    self.assigned(v, acc)
        elif isinstance(node, list):
            for v in node:
                self.assigned(v, acc)

    def havocked(self, body, inc, s):
        acc = set()
        self.assigned(body, acc)
        if self.havoc in ('all', 'text') and inc:
            self.assigned(inc, acc)
        for d in acc:
            if d in s.env:
                d, v = self.lookup(s, d)
                if v is not None and v[0] != 'lref':
                    s = s.bind(d, ('mu', str(d), v))
        return s

    def st_loop(self, x, st):
        k = x['s']
        pre = [(st, None)]
        if x.get('init'):
            pre = self.stmt(x['init'], st)
        out = []
        for s, ex in pre:
            if ex is not None:
                out.append((s, ex))
                continue
            if self.havoc:
                s = self.havocked(x['b'], x.get('inc'), s)
            if k == 'rfor':
                out.extend(self.loop_range(x, s))
            else:
                out.extend(self.loop_cond(x, s))
        return self.cap(out)

    def loop_range(self, x, st):
        out = []
        for s, c in self.ev(x['r'], st):
            if c in (('abort',), ('throw',)):
                out.append((s, c))
                continue
            if c[0] == 'edges' and self.owned(x['r']):
                s = self.emit(s, 'snap', 'snap', None, [c], VOID, 0)
            out.extend(self.iterate(
                s, c, lambda s2, el: self.loop_body_var(x, s2, el), x.get('l') or 0))
        return out

    def owned(self, r):
        """is the iterated range a container of its own (a copy)?"""
        own = lambda t: bool(re.match(r'(const )?(std::(vector|set|deque|list)|llvm::Small'
                                      r'(Vector|PtrSet|Set)|llvm::SetVector)<[^&]*$', t or ''))
        if r.get('k') == 'call' and isinstance(r.get('fn'), dict):
            return own(r['fn'].get('rt'))
        return r.get('k') == 'ref' and r.get('dk') == 'var' and \
            r.get('d') not in self.refvars and own(r.get('t'))

    def loop_body_var(self, x, s, el):
        v = x['v']
        if v['t'].endswith('&'):
            self.refvars.add(v['id'])
            for b in v.get('bind', ()):
                self.refvars.add(b['id'])
        s = s.bind(v['id'], el)
        for i, b in enumerate(v.get('bind', ())):
            if b.get('e') is not None and b['e'].get('k') == 'mem':
                bv = ('fld', el, b['e']['q'])
            else:
                bv = ('tupget', i, el)
            s = s.bind(b['id'], bv)
            if 'hid' in b:
                s = s.bind(b['hid'], bv)
        return self.stmt(x['b'], s)

    def iterate(self, st, c, body, line=0):
        """zero iterations, or one over a generic element of c"""
        out = []
        c = self.norm_container(c)
        ea = ('empty', c)
        kn = st.facts.get(ea)
        if kn is not False:
            out.append((st.fact(ea, True), None))
        if kn is not True:
            s = st.fact(ea, False).tick()
            el = ('elem', c, s.n)
            if c[0] == 'list' and len(c[1]) == 1:
                el = c[1][0]
            saved = s.loops
            s.loops = saved + (c,)
            for s2, ex in body(s, el):
                if self.mark_loops and ex in (None, ('continue',), ('break',)):
                    k = 'brk' if ex == ('break',) else 'iter'
                    s2 = self.emit(s2, k, k, None, [c], VOID, line)
                elif self.mark_loops == 'ret' and ex[0] == 'ret':
                    s2 = self.emit(s2, 'lret', 'lret', None, [c], VOID, line)
                s3 = s2.copy()
                s3.loops = saved
                if ex is None or ex == ('continue',):
                    out.append((s3, None))
                elif ex == ('break',):
                    out.append((s3, None))
                else:
                    out.append((s3, ex))
        return out

    def norm_container(self, c):
        # range adaptors denote their container
        while True:
            if c[0] == 'range':
                c = c[1]
            elif c[0] == 'iter':
                c = c[1]
            else:
                return c

    def loop_cond(self, x, st):
        k = x['s']
        infinite = x.get('c') is None or (
            x.get('c', {}).get('k') == 'bool' and x['c']['v'])
        out = []
        saved = st.loops
        tag = ('while', x['l'])
        cur = [st]
        if k == 'do':
            for s in cur:
                s = s.copy()
                s.loops = saved + (tag,)
                for s2, ex in self.stmt(x['b'], s):
                    s2 = s2.copy()
                    s2.loops = saved
                    if ex in (None, ('continue',), ('break',)):
                        if ex == ('break',):
                            out.append((s2, None))
                        else:
                            if self.mark_loops:
                                s2 = self.emit(s2, 'iter', 'iter', None, [tag],
                                               VOID, x['l'])
                            for s3, b in self.cond(x['c'], s2):
                                out.append((s3, None if b is not None else ('abort',)))
                    else:
                        out.append((s2, ex))
            return out
        for it in range(self.iters):
            nxt = []
            for s in cur:
                starts = []
                s = s.copy()
                if x.get('var'):
                    pres = self.declare(x['var'], s)
                else:
                    pres = [(s, None)]
                for s1, ex1 in pres:
                    if ex1 is not None:
                        out.append((s1, ex1))
                        continue
                    if infinite:
                        starts.append((s1, True))
                    else:
                        starts.extend(self.cond(x['c'], s1))
                for s1, b in starts:
                    if b is None:
                        out.append((s1, ('abort',)))
                        continue
                    if b is False:
                        out.append((s1, None))
                        continue
                    cont = self.loop_container(x, s1)
                    s1 = s1.copy()
                    s1.loops = saved + (cont or tag,)
                    for s2, ex in self.stmt(x['b'], s1):
                        s2 = s2.copy()
                        if ex in (None, ('continue',)):
                            if self.mark_loops:
                                # one iteration is complete, the loop goes on
                                s2 = self.emit(s2, 'iter', 'iter', None, [tag],
                                               VOID, x['l'])
                            incs = [(s2, None)]
                            if x.get('inc'):
                                incs = self.ev(x['inc'], s2)
                            for s3, _ in incs:
                                s3 = s3.copy()
                                s3.loops = saved
                                nxt.append(s3)
                        elif ex == ('break',):
                            if self.mark_loops:
                                s2 = self.emit(s2, 'brk', 'brk', None, [tag],
                                               VOID, x['l'])
                            s2.loops = saved
                            out.append((s2, None))
                        else:
                            if self.mark_loops == 'ret':
                                s2 = self.emit(s2, 'lret', 'lret', None, [tag],
                                               VOID, x['l'])
                            s2.loops = saved
                            out.append((s2, ex))
            cur = nxt
            self.cap(cur)
        for s in cur:
            if infinite and not self.again_exits:
                out.append((s, ('again',)))
            else:
                out.append((s, None))
        return out

    def loop_container(self, x, st):
        """container of an iterator-style loop, from its condition"""
        c = x.get('c')
        if isinstance(c, dict):
            todo = [c]
            while todo:
                n = todo.pop()
                if isinstance(n, dict):
                    if n.get('k') == 'ref' and n.get('d') in st.env:
                        v = self.lookup(st, n['d'])[1]
                        if v is not None and v[0] in ('iter', 'end'):
                            return v[1]
                    todo.extend(v for v in n.values() if isinstance(v, (dict, list)))
                elif isinstance(n, list):
                    todo.extend(n)
        return None

    # ------------------------------------------------------- conditions
    def norm_cond(self, t):
        """-> (atom, polarity) or (None, bool) for constants"""
        pol = True
        while True:
            k = t[0]
            if k == 'bool':
                return None, t[1] == pol
            if k == 'int':
                return None, (t[1] != 0) == pol
            if k == 'null':
                return None, (not pol)
            if k == 'not':
                t = t[1]
                pol = not pol
                continue
            if k == 'new' or k == 'lambda' or k == 'str' or k == 'some':
                return None, pol
            if k == 'Ok':
                return None, pol
            if k == 'Err':
                return None, not pol
            if k == 'op' and t[1] == '!=':
                t = ('op', '==', t[2], t[3])
                pol = not pol
                continue
            if k == 'op' and t[1] in ('>', '>=') :
                # a > b  ==  b < a ; a >= b == !(a < b)
                if t[1] == '>':
                    t = ('op', '<', t[3], t[2])
                else:
                    t = ('op', '<', t[2], t[3])
                    pol = not pol
                continue
            if k == 'op' and t[1] == '<=':
                t = ('op', '<', t[3], t[2])
                pol = not pol
                continue
            if k == 'op' and t[1] == '==':
                a, b = t[2], t[3]
                if a[0] in ('null', 'int', 'bool', 'enum', 'str') and \
                        b[0] not in ('null', 'int', 'bool', 'enum', 'str'):
                    a, b = b, a
                if b == NULL or (b == ('int', 0)):
                    t = a
                    pol = not pol
                    continue
                if b == TRUE or b == ('int', 1) and a[0] == 'contains':
                    t = a
                    continue
                if b == FALSE:
                    t = a
                    pol = not pol
                    continue
                if a[0] in ('int', 'bool', 'enum', 'str') and \
                        b[0] == a[0]:
                    return None, (a == b) == pol
                if unk(a) == unk(b) and a == b:
                    return None, pol
                for (p, q) in ((a, b), (b, a)):
                    if p[0] == 'end' and q[0] == 'end' and p == q:
                        return None, pol
                    if p[0] == 'end' and q[0] == 'found':
                        return None, not pol
                    if p[0] == 'end' and q[0] == 'iter' and len(q) > 2 and q[2] == 'pos':
                        return None, not pol
                if b[0] == 'end' and a[0] == 'iter' and a[1] == b[1]:
                    return ('empty', a[1]), pol
                if a[0] == 'end' and b[0] == 'iter' and a[1] == b[1]:
                    return ('empty', a[1]), pol
                if a[0] not in ('enum', 'int', 'str') and b[0] not in ('enum', 'int', 'str') and repr(b) < repr(a):
                    a, b = b, a
                return ('eq', a, b), pol
            if k == 'op' and t[1] == '<':
                # size() < 1, count() > 0 etc.
                if t[2] == ('int', 0) and t[3][0] in COUNT:
                    t = t[3]
                    continue
                if t[3] == ('int', 1) and t[2][0] in COUNT:
                    t = t[2]
                    pol = not pol
                    continue
                return ('lt', t[2], t[3]), pol
            if k == 'size':
                return ('empty', t[1]), not pol
            if k in ('isa', 'holds', 'empty', 'contains', 'eq', 'lt'):
                return t, pol
            return ('nn', t), pol

    def decide(self, st, t):
        """True/False/None + atom,pol"""
        atom, pol = self.norm_cond(t)
        if atom is None:
            return pol, None, None
        v = st.facts.get(atom)
        if v is not None:
            return (v == pol), atom, pol
        if atom[0] == 'eq' and atom[2][0] in ('enum', 'int', 'str'):
            for a, b in st.facts.items():
                if b and a[0] == 'eq' and a[1] == atom[1] and \
                        a[2][0] == atom[2][0] and a[2] != atom[2]:
                    return (False == pol), atom, pol
        if atom[0] == 'nn':
            x = atom[1]
            if x[0] in ('elem',):
                return None, atom, pol
            if x[0] == 'cast' and ('isa', x[1], x[2]) in st.facts:
                return (st.facts[('isa', x[1], x[2])] == pol), atom, pol
            for a, b in st.facts.items():
                if b and a[0] == 'isa' and a[2] == x:
                    return (True == pol), atom, pol
        if atom[0] == 'isa':
            if st.facts.get(('nn', atom[2])) is False:
                return (False == pol), atom, pol
            # sibling leaf classes are exclusive
        if atom[0] == 'holds':
            for a, b in st.facts.items():
                if b and a[0] == 'holds' and a[2] == atom[2] and a[1] != atom[1]:
                    return (False == pol), atom, pol
        return None, atom, pol

    def decide_eq(self, st, a, b):
        r, _, _ = self.decide(st, ('op', '==', a, b))
        return r

    def assume_eq(self, st, a, b, val):
        r, atom, pol = self.decide(st, ('op', '==', a, b))
        if atom is None:
            return st
        return st.fact(atom, val == pol)

    def branch(self, st, t):
        """[(state, bool)] for truth of term t"""
        if t[0] == 'op' and t[1] in ('&&', '||'):
            out = []
            for s, b in self.branch(st, t[2]):
                if (t[1] == '&&') == b:
                    out.extend(self.branch(s, t[3]))
                else:
                    out.append((s, b))
            return out
        if t[0] == 'not':
            return [(s, not b) for s, b in self.branch(st, t[1])]
        if t[0] == 'op' and t[1] in ('==', '!=') and t[2][0] in BOOLK and t[3][0] in BOOLK:
            return [(s2, (a == b) == (t[1] == '=='))
                    for s, a in self.branch(st, t[2]) for s2, b in self.branch(s, t[3])]
        r, atom, pol = self.decide(st, t)
        if r is not None:
            return [(st, r)]
        return [(st.fact(atom, pol), True), (st.fact(atom, not pol), False)]

    def cond(self, e, st):
        """evaluate a condition with short-circuit -> [(state, True/False/None)]"""
        k = e.get('k')
        if k == 'bin' and e['op'] in ('&&', '||'):
            out = []
            for s, b in self.cond(e['a'], st):
                if b is None:
                    out.append((s, None))
                elif b == (e['op'] == '&&'):
                    out.extend(self.cond(e['b'], s))
                else:
                    out.append((s, b))
            return self.cap(out)
        if k == 'un' and e['op'] == '!':
            return [(s, (not b) if b is not None else None)
                    for s, b in self.cond(e['e'], st)]
        if k == 'cast':
            return self.cond(e['e'], st) if e.get('ck') in (
                'IntegralToBoolean', 'PointerToBoolean', 'NoOp',
                'UserDefinedConversion', 'ConstructorConversion') or \
                e.get('t') == 'bool' else self._cond_gen(e, st)
        return self._cond_gen(e, st)

    def _cond_gen(self, e, st):
        out = []
        for s, v in self.ev(e, st):
            if v in (('abort',), ('throw',)):
                out.append((s, None))
            else:
                out.extend(self.branch(s, v))
        return out

    # ------------------------------------------------------ expressions
    def ev_list(self, es, st):
        cur = [(st, ())]
        for e in es:
            nxt = []
            for s, vs in cur:
                if vs is None:
                    nxt.append((s, None))
                    continue
                for s2, v in self.ev(e, s):
                    if v in (('abort',), ('throw',)):
                        nxt.append((s2, None))
                    else:
                        nxt.append((s2, vs + (v,)))
            cur = nxt
            self.cap(cur)
        return cur

    def lookup(self, st, d):
        seen = 0
        v = st.env.get(d)
        while v is not None and v[0] == 'alias' and seen < 10:
            d = v[1]
            v = st.env.get(d)
            seen += 1
        return d, v

    def read(self, st, lv):
        """read a field location through the abstract heap"""
        v = st.heap.get(lv)
        if v is not None:
            return v
        if lv[0] == 'fld' and lv[1][0] == 'new':
            v = self.field_of_new(lv[1], lv[2])
            if v is not None:
                return v
        return lv

    def field_of_new(self, new, q):
        """field value of a freshly constructed object, from its constructor"""
        fnid = new[4] if len(new) > 4 else None
        fn = self.fx.fns.get(fnid) if fnid else None
        if fn is None:
            return None
        key = ('fon', new, q)
        if key in self.glob_cache:
            return self.glob_cache[key]
        self.glob_cache[key] = None
        sub = Engine(self.fx, opaque=self.opaque, depth=4, max_paths=200)
        try:
            ps = sub.paths(fn, this=('obj', new), args=new[2])
        except (TooComplex, RecursionError):
            return None
        vals = set(p.heap.get(('fld', ('obj', new), q)) for p in ps)
        r = None
        if len(vals) == 1:
            r = vals.pop()
        self.glob_cache[key] = r
        return r

    def ev(self, e, st):
        if e is None:
            return [(st, VOID)]
        return getattr(self, 'x_' + e['k'], self.x_unk)(e, st)

    def x_int(self, e, st):
        return [(st, ('int', int(e['v'])))]

    def x_char(self, e, st):
        return [(st, ('int', int(e['v'])))]

    def x_bool(self, e, st):
        return [(st, ('bool', bool(e['v'])))]

    def x_str(self, e, st):
        return [(st, ('str', e['v']))]

    def x_float(self, e, st):
        return [(st, ('float', e['v']))]

    def x_null(self, e, st):
        return [(st, NULL)]

    def x_zero(self, e, st):
        t = e.get('t', '')
        if t == 'bool':
            return [(st, FALSE)]
        if t.endswith('*'):
            return [(st, NULL)]
        return [(st, ('int', 0))]

    def x_this(self, e, st):
        return [(st, self.this)]

    def x_ref(self, e, st):
        dk = e['dk']
        if dk == 'enum':
            return [(st, ('enum', e.get('en') or e['q']))]
        if dk == 'fn':
            return [(st, ('fn', e['fn']['q'], e['fn']['id']))]
        if e.get('q') == 'std::nullopt':
            return [(st, NULL)]
        if dk == 'global':
            if 'cv' in e:
                return [(st, ('int', int(e['cv'])))]
            return [(st, self.global_term(e['q']))]
        if dk in ('var', 'param', 'bind'):
            d, v = self.lookup(st, e['d'])
            if v is not None:
                return [(st, self.read(st, v[1]) if v[0] == 'lref' else v)]
            if 'cv' in e:
                return [(st, ('int', int(e['cv'])))]
            return [(st, ('free', e['n']))]
        return [(st, ('global', e.get('q', e['n'])))]

    def global_term(self, q):
        g = self.fx.globals.get(q)
        if g and g.get('const') or (g and 'const' in g.get('t', '')):
            if q in self.glob_cache:
                return self.glob_cache[q]
            self.glob_cache[q] = ('global', q)
            r = self.ev(g['init'], State())
            if len(r) == 1 and r[0][1][0] in ('str', 'int', 'bool'):
                self.glob_cache[q] = r[0][1]
            return self.glob_cache[q]
        return ('global', q)

    def x_mem(self, e, st):
        if 'mfn' in e:
            return [(st, ('fn', e['mfn']['q'], e['mfn']['id']))]
        out = []
        for s, b in self.ev(e['b'], st):
            if b in (('abort',), ('throw',)):
                out.append((s, b))
                continue
            if b[0] == 'pair' and e['n'] in ('first', 'second'):
                out.append((s, b[1 if e['n'] == 'first' else 2]))
                continue
            if b[0] == 'mapent' and e['n'] == 'second':
                out.append((s, ('mapval',) + b[1:]))
                continue
            if e.get('arrow'):
                s = self.used(s, b, 'ptr', e)
            out.append((s, self.read(s, ('fld', b, e['q']))))
        return out

    def x_idx(self, e, st):
        out = []
        for s, vs in self.ev_list([e['b'], e['i']], st):
            if vs is None:
                out.append((s, ('abort',)))
            else:
                out.append((s, ('at', vs[0], vs[1])))
        return out

    def x_cast(self, e, st):
        out = []
        ck = e.get('ck')
        for s, v in self.ev(e['e'], st):
            if v in (('abort',), ('throw',)):
                out.append((s, v))
                continue
            if ck == 'ToVoid':
                v = VOID
            elif ck in ('IntegralToBoolean', 'PointerToBoolean'):
                a, p = self.norm_cond(v)
                v = ('bool', p) if a is None else (v if ck == 'PointerToBoolean' or True else v)
            elif ck in ('FloatingToIntegral', 'IntegralToFloating', 'FloatingCast'):
                v = ('conv', ck, e['t'], v)
            elif ck == 'IntegralCast' and v[0] not in ('int', 'enum', 'bool') and \
                    not e.get('imp') or (ck == 'IntegralCast' and 'fb' in e and 'tb' in e
                                         and abs(e['tb']) < abs(e['fb'])
                                         and v[0] not in ('int', 'enum', 'bool')):
                if abs(e.get('tb', 0)) < abs(e.get('fb', 0)):
                    v = ('trunc', e['t'], v)
            out.append((s, v))
        return out

    def x_cond(self, e, st):
        out = []
        for s, b in self.cond(e['c'], st):
            if b is None:
                out.append((s, ('abort',)))
            else:
                out.extend(self.ev(e['a'] if b else e['b'], s))
        return out

    def x_bin(self, e, st):
        op = e['op']
        if op in ('&&', '||'):
            return [(s, ('bool', b) if b is not None else ('abort',))
                    for s, b in self.cond(e, st)]
        if op == ',':
            out = []
            for s, v in self.ev(e['a'], st):
                out.extend(self.ev(e['b'], s))
            return out
        out = []
        for s, vs in self.ev_list([e['a'], e['b']], st):
            if vs is None:
                out.append((s, ('abort',)))
                continue
            out.append((s, self.binop(op, vs[0], vs[1], s)))
        return out

    def binop(self, op, a, b, st=None):
        if a[0] == 'int' and b[0] == 'int':
            x, y = a[1], b[1]
            try:
                r = {'+': x + y, '-': x - y, '*': x * y}.get(op)
                if r is not None:
                    return ('int', r)
                c = {'==': x == y, '!=': x != y, '<': x < y, '>': x > y,
                     '<=': x <= y, '>=': x >= y}.get(op)
                if c is not None:
                    return ('bool', c)
            except Exception:
                pass
        t = ('op', op, a, b)
        if op in ('==', '!=') and st is not None:
            r, _, _ = self.decide(st, t)
            if r is not None:
                return ('bool', r)
        return t

    def x_un(self, e, st):
        op = e['op']
        if op == '!':
            out = []
            for s, v in self.ev(e['e'], st):
                if v in (('abort',), ('throw',)):
                    out.append((s, v))
                    continue
                a, p = self.norm_cond(v)
                out.append((s, ('bool', not p) if a is None else ('not', v)))
            return out
        if op in ('++', '--'):
            out = []
            for s, v in self.ev(e['e'], st):
                if v[0] == 'int':
                    nv = ('int', v[1] + (1 if op == '++' else -1))
                elif v[0] in ('iter', 'found'):
                    nv = ('iter', v[1], 'next') if v[0] == 'iter' else v
                else:
                    nv = ('op', '+' if op == '++' else '-', v, ('int', 1))
                s2 = self.assign(e['e'], nv, s, e['l'], op)
                for s3 in s2:
                    out.append((s3, v if e.get('post') else nv))
            return out
        if op == '*':
            if is_smart(e.get('t', '')):
                # pointer to a smart pointer: the pointer and what the pointee
                # points to are different things
                return [(s, self.deref(v, s) if v[0] in ('iter', 'found') else
                         v[1] if v[0] == 'addr' else self.read(s, ('pt', v)))
                        for s, v in self.ev(e['e'], st)]
            return [(self.used(s, v, 'ptr', e), self.deref(v, s))
                    for s, v in self.ev(e['e'], st)]
        if op == '&' and is_smart(e['e'].get('t', '')):
            return [(s, ('addr', self.lvalue(e['e'], s, v)))
                    for s, v in self.ev(e['e'], st)]
        if op in ('&', '+'):
            return self.ev(e['e'], st)
        out = []
        for s, v in self.ev(e['e'], st):
            if op == '-' and v[0] == 'int':
                out.append((s, ('int', -v[1])))
            else:
                out.append((s, ('neg' if op == '-' else 'un' + op, v)))
        return out

    def lvalue(self, e, st, v):
        """location of an expression with value v"""
        if e.get('k') == 'mem' and 'mfn' not in e:
            r = self.ev(e['b'], st)
            if len(r) == 1:
                return ('fld', r[0][1], e['q'])
        return v

    def used(self, st, v, kind, e):
        """note a use of what a pointer, optional, result or iterator refers to
        that is not known to be there (only with derefs=True)"""
        if not self.derefs or v[0] in ('new', 'this', 'some', 'addr', 'lambda', 'iter') or \
                v[0] == 'elem' and kind != 'res':
            return st
        if v == NULL or v[0] in ('Err', 'end'):
            k = False
        elif kind == 'res':
            if v[0] == 'Ok':
                return st
            k = st.facts.get(('nn', ('ok', v)), st.facts.get(('ok', v)))
        else:
            k = st.facts.get(('nn', v))
            if k is None and any(a[0] == 'isa' and a[2] == v and b
                                 for a, b in st.facts.items()):
                k = True
        if k:
            return st
        return self.emit(st, 'deref', kind, v, (), k, e.get('l', 0))

    def deref(self, v, st):
        if v[0] == 'iter':
            return ('elem', v[1], 0)
        if v[0] == 'found':
            return v[2]
        if v[0] == 'some':
            return v[1]
        return v

    def assign(self, lhs, v, st, line, op='='):
        """-> list of states"""
        k = lhs.get('k')
        if k == 'ref' and 'd' in lhs:
            d, old = self.lookup(st, lhs['d'])
            # a reference variable bound to a field location writes through
            if old is not None and lhs.get('t', '') and old[0] == 'lref':
                st = st.store(old[1], v)
                return [self.emit(st, 'write', old[1][2], old[1], (v,), v, line, op)]
            if self.absval is not None:
                v = self.absval(v)
            s = st.bind(d, v)
            if self.record is None or getattr(self, 'rec_vars', False):
                s = self.emit(s, 'set', lhs['n'], None, (v,), v, line, op)
            if old is not None and d in self.refvars and old[0] in (
                    'fld', 'elem', 'get', 'call', 'at', 'mapval', 'found'):
                s = self.emit(s, 'write', old[2] if old[0] == 'fld' else 'deref',
                              old, (v,), v, line, op)
            return [s]
        if k == 'mem' and 'mfn' not in lhs:
            out = []
            for s, b in self.ev(lhs['b'], st):
                lv = ('fld', b, lhs['q'])
                s = s.store(lv, v)
                out.append(self.emit(s, 'write', lhs['q'], lv, (v,), v, line, op))
            return out
        if k == 'un' and lhs.get('op') == '*' and is_smart(lhs.get('t', '')):
            out = []
            for s, b in self.ev(lhs['e'], st):
                lv = b[1] if b[0] == 'addr' else ('pt', b)
                s = s.store(lv, v)
                out.append(self.emit(s, 'write', 'deref', lv, (v,), v, line, op))
            return out
        if k == 'un' and lhs.get('op') == '*' or k in ('call', 'idx'):
            out = []
            for s, b in self.ev(lhs, st):
                s = s.store(('deref', b), v)
                out.append(self.emit(s, 'write', 'deref', b, (v,), v, line, op))
            return out
        if k == 'cond':
            out = []
            for s, b in self.cond(lhs['c'], st):
                out.extend(self.assign(lhs['a'] if b else lhs['b'], v, s, line, op))
            return out
        return [self.emit(st, 'write', 'unknown', None, (v,), v, line, op)]

    def x_asg(self, e, st):
        out = []
        op = e['op']
        for s, v in self.ev(e['b'], st):
            if v in (('abort',), ('throw',)):
                out.append((s, v))
                continue
            if op != '=':
                for s2, o in self.ev(e['a'], s):
                    nv = self.concat(o, v) if op == '+=' and self.is_stringy(e['a']) \
                        else self.binop(op[:-1], o, v)
                    for s3 in self.assign(e['a'], nv, s2, e['l'], op):
                        out.append((s3, nv))
            else:
                for s3 in self.assign(e['a'], v, s, e['l']):
                    out.append((s3, v))
        return out

    def is_stringy(self, e):
        return bool(STRINGY.search(strip_cvref(e.get('t', ''))))

    def x_init(self, e, st):
        out = []
        for s, vs in self.ev_list(e['a'], st):
            if vs is None:
                out.append((s, ('abort',)))
                continue
            if e.get('cls'):
                cls = e['cls']
                if cls.startswith('Overloaded<'):
                    out.append((s, ('overload', vs)))
                    continue
                out.append((s, ('agg', cls, vs)))
            else:
                out.append((s, ('list', vs)))
        return out

    def x_lambda(self, e, st):
        lid = id(e)
        self.lambdas[lid] = (e, self.this)
        s = st
        for c in e['caps']:
            if 'init' in c and 'd' in c:
                r = self.ev(c['init'], s)
                s = r[0][0].bind(c['d'], r[0][1])
        return [(s, ('lambda', lid))]

    def x_new(self, e, st):
        if e.get('e') is not None:
            return [(s, v) for s, v in self.ev(e['e'], st)]
        return [(st, ('new', e['nt'], (), 0))]

    def x_delete(self, e, st):
        out = []
        for s, v in self.ev(e['e'], st):
            out.append((self.emit(s, 'delete', 'delete', v, (), VOID, e['l']), VOID))
        return out

    def x_throw(self, e, st):
        return [(self.emit(st, 'throw', 'throw', None, (), VOID, e['l']), ('throw',))]

    def x_unk(self, e, st):
        cls = e.get('cls')
        if e.get('a'):
            out = []
            for s, vs in self.ev_list(e['a'], st):
                out.append((s, ('unk', cls, vs or ())))
            return out
        return [(st, ('unk', cls, ()))]

    # ------------------------------------------------------------ ctor
    def x_ctor(self, e, st):
        cls = e['cls']
        out = []
        args = e['a']
        for s, vs in self.ev_list(args, st):
            if vs is None:
                out.append((s, ('abort',)))
                continue
            if self.streams and SSTREAM.search(cls) and not e.get('copy') and not e.get('move'):
                s = s.tick()
                v = ('sstr', s.n, e['l'])
                if 'raw_string' in cls and args:      # what it is written to
                    for s2 in self.assign(args[0], ('text', v), s, e['l']):
                        out.append((s2, v))
                else:
                    out.append((s, v))
                continue
            out.append((s, self.construct(cls, vs, e, s)))
        return out

    def construct(self, cls, vs, e, st):
        if (e.get('copy') or e.get('move')) and len(vs) >= 1:
            return vs[0]
        real = [a for a in e['a'] if not (isinstance(a, dict) and a.get('dflt'))]
        if cls.startswith('vara::Result<') and len(vs) == 1:
            v = vs[0]
            if v[0] in ('Ok', 'Err'):
                return v
            at = strip_cvref(e['a'][0].get('t', ''))
            if at.startswith('vara::Error<'):
                return ('Err', v) if v[0] != 'Err' else v
            if at.startswith('vara::Ok<'):
                return ('Ok', v) if v[0] != 'Ok' else v
            if at.startswith('vara::Result<'):
                return v
            # a bare enumerator / value: decide by the error type
            et = result_args(cls)
            if at == et[0] and (len(et) < 2 or et[1] != at):
                return ('Err', v)
            if at.endswith('ErrorCode'):
                return ('Err', v)
            if v[0] == 'err':
                return ('Err', v)
            return ('Ok', v)
        if cls.startswith('vara::Error<'):
            return ('Err', vs[0] if vs else VOID)
        if cls.startswith('vara::Ok<'):
            return ('Ok', vs[0] if vs else VOID)
        if is_smart(cls):
            if not vs:
                return NULL
            if OPT_SCALAR.match(strip_cvref(cls)) and vs[0] != NULL and \
                    vs[0][0] != 'some' and e.get('a') and isinstance(e['a'][0], dict) \
                    and 'optional' not in e['a'][0].get('t', ''):
                return ('some', vs[0])
            return vs[0]
        if STRINGY.search(cls) or cls.startswith('llvm::StringLiteral'):
            if not real:
                return ('str', '')
            if len(real) == 1:
                return vs[0]
            if len(real) >= 2 and vs[0][0] in ('iter',):
                return vs[0][1]
            return ('new', cls, vs, 0)
        if cls.startswith('std::pair<') and len(vs) == 2:
            return ('pair', vs[0], vs[1])
        if cls.startswith('std::variant<') and len(vs) == 1:
            T = variant_alt(cls, (e['a'][0] or {}).get('t', '')
                            if isinstance(e['a'][0], dict) else '')
            return ('var', T, vs[0]) if T and vs[0][0] != 'var' else vs[0]
        if cls.startswith(('llvm::iterator_range', 'std::function<')) and len(vs) == 1:
            return vs[0]
        if cls.startswith(('std::vector<', 'llvm::SmallVector<', 'std::set<',
                           'llvm::SmallSet<', 'std::deque<', 'std::list<')):
            if len(real) == 1 and vs[0][0] == 'list':
                return vs[0]
            if len(real) == 1 and vs[0][0] not in ('int',):
                return vs[0]
            if len(real) >= 2 and vs[0][0] == 'iter' and vs[1][0] == 'end':
                return vs[0][1]
            if len(real) == 2 and vs[0] == vs[1] and vs[0][0] in ('iter', 'end') and \
                    len(vs[0]) == 2:
                return ('list', ())
            return ('new', cls, vs if real else (), ('n', st.n, e['l']))
        if re.search(r'(iterator|Iterator)', cls.split('<')[0]) and len(vs) == 1:
            return vs[0]
        return ('new', cls, vs, (st.n, e['l']), e['fn']['id'])

    # ------------------------------------------------------------ calls
    def x_call(self, e, st):
        fn = e.get('fn')
        out = []
        if fn is None:
            # call through an expression (function pointer, std::function)
            for s, vs in self.ev_list([e['ce']] + e['a'], st):
                if vs is None:
                    out.append((s, ('abort',)))
                    continue
                if vs[0][0] == 'lambda':
                    out.extend(self.call_lambda(vs[0], vs[1:], s))
                    continue
                if vs[0][0] == 'fn':
                    fake = dict(e, fn={'q': vs[0][1], 'id': vs[0][2]})
                    out.extend(self.apply(fake, None, vs[1:], s))
                    continue
                s = s.tick()
                r = ('call', '<indirect>', vs[0], vs[1:], s.n)
                out.append((self.emit(s, 'call', '<indirect>', vs[0], vs[1:], r, e['l']), r))
            return out
        q = fn['q']
        # out-parameter aliasing needs argument expressions, see inline()
        has_obj = 'obj' in e
        es = ([e['obj']] if has_obj else []) + e['a']
        for s, vs in self.ev_list(es, st):
            if vs is None:
                out.append((s, ('abort',)))
                continue
            obj = vs[0] if has_obj else None
            args = vs[1:] if has_obj else vs
            if self.streams:
                r = self.stream_op(e, obj, args, s)
                if r is not None:
                    out.append(r)
                    continue
            if self.derefs and obj is not None:
                if e.get('arrow'):
                    s = self.used(s, obj, 'ptr', e)
                else:
                    nm, cls = last(q), fn.get('cls', '')
                    if cls.startswith('vara::Result<'):
                        if nm in ('operator*', 'extractValue', 'operator->'):
                            s = self.used(s, obj, 'res', e)
                    elif is_smart(cls) and nm in ('operator*', 'operator->', 'value'):
                        s = self.used(s, obj, 'opt', e)
                    elif nm in ('operator*', 'operator->') and obj[0] == 'end':
                        s = self.used(s, obj, 'iter', e)
            out.extend(self.apply(e, obj, args, s))
            self.cap(out)
        return out

    def stream_op(self, e, obj, args, st):
        nm, cls = last(e['fn']['q']), e['fn'].get('cls') or ''
        if obj is not None and obj[0] == 'sstr' and nm in ('str', 'view') and not args:
            return st, ('text', obj)
        if obj is not None and obj[0] == 'sstr' and nm == 'str':
            return self.emit(st, 'call', e['fn']['q'], obj, tuple(args), VOID, e['l']), VOID
        if obj is not None and 'raw_ostream' in cls and nm == 'indent':
            return self.emit(st, 'put', 'indent', obj, (('str', ' '),), obj, e['l']), obj
        if nm in ('operator<<', 'write', 'put', 'write_escaped'):
            if obj is not None and ('ostream' in cls or 'stringstream' in cls):
                o, vs = obj, args
            elif obj is None and len(args) == 2 and \
                    re.search(r'ostream|stringstream', e.get('t') or ''):
                o, vs = args[0], args[1:]
            else:
                return None
            if vs and vs[0][0] == 'fn':              # a manipulator
                return st, o
            return self.emit(st, 'put', nm, o, tuple(vs[:1]), o, e['l']), o
        return None

    def call_lambda(self, lam, args, st):
        e, this = self.lambdas[lam[1]]
        if not e['bodies']:
            s = st.tick()
            return [(s, ('call', '<lambda>', None, tuple(args), s.n))]
        b = e['bodies'][0]
        return self.call_lambda_body(e, b, args, st, this)

    def call_lambda_body(self, e, b, args, st, this):
        if len(self.stack) > self.depth + 6 or self.stack.count(b['id']) > 0:
            s = st.tick()
            return [(s, ('call', '<lambda>', None, tuple(args), s.n))]
        for p, a in zip(b['params'], args):
            st = st.bind(p['id'], a)
        save, self.this = self.this, this
        self.stack.append(b['id'])
        f = dict(self.fstack[-1])
        f['rt'] = b['rt']
        self.fstack.append(f)
        out = []
        try:
            for s, ex in self.stmt(b['body'], st):
                if ex is None:
                    out.append((s, VOID))
                elif ex[0] == 'ret':
                    out.append((s, ex[1]))
                elif ex[0] in ('abort', 'throw'):
                    out.append((s, (ex[0],)))
        finally:
            self.this = save
            self.stack.pop()
            self.fstack.pop()
        return out

    def concat(self, a, b):
        pa = a[1] if a[0] == 'cat' else (() if a == ('str', '') else (a,))
        pb = b[1] if b[0] == 'cat' else (() if b == ('str', '') else (b,))
        r = []
        for x in pa + pb:
            if x[0] == 'str' and r and r[-1][0] == 'str':
                r[-1] = ('str', r[-1][1] + x[1])
            else:
                r.append(x)
        if not r:
            return ('str', '')
        if len(r) == 1:
            return r[0]
        return ('cat', tuple(r))

    def fmt(self, args):
        if not args or args[0][0] != 'str':
            return None
        r = ('str', '')
        f = args[0][1]
        pos = 0
        for m in re.finditer(r'\{\{|\{(\d+)[^}]*\}', f):
            r = self.concat(r, ('str', f[pos:m.start()]))
            pos = m.end()
            if m.group(1) is None:
                r = self.concat(r, ('str', '{'))
                continue
            i = int(m.group(1)) + 1
            if i >= len(args):
                # printed as it is written
                r = self.concat(r, ('str', m.group(0)[1:-1]))
                continue
            r = self.concat(r, args[i])
        return self.concat(r, ('str', f[pos:]))

    def apply(self, e, obj, args, st):
        fn = e['fn']
        q = short(fn['q'])
        nm = last(q)
        cls = fn.get('cls', '')
        # user override
        h = self.hook(e, q, obj, args, st)
        if h is not None:
            return h
        opaque = (q in self.opaque or fn['q'] in self.opaque or
                  bool(self.returns_at) and id(e) in self.returns_at)
        if not opaque:
            h = self.builtin(e, fn, q, nm, cls, obj, args, st)
            if h is not None:
                return h
            if not (fn.get('virt') and not e.get('qual') and not self.virtual_inline):
                r = self.try_inline(e, fn, q, obj, args, st)
                if r is not None:
                    return r
        if q in NORETURN or nm in ('llvm_unreachable_internal',):
            return [(st, ('abort',))]
        return self.opaque_call(e, fn, q, obj, args, st)

    def hook(self, e, q, obj, args, st):
        return None

    def opaque_call(self, e, fn, q, obj, args, st):
        if fn.get('targs') and q.startswith('vara::'):
            q = '%s<%s>' % (q, ','.join(fn['targs']))
        if self.returns is not None or self.returns_at:
            v = self.returns_at.get(id(e))
            if v is None and self.returns is not None:
                v = self.returns(q)
            if v is not None:
                return [(self.emit(st, 'call', q, obj, args, v, e['l'], fn), v)]
        pure = fn.get('const') or (self.is_pure(q))
        if pure:
            v = st.ver.get(obj, 0) if obj is not None else 0
            r = ('call', q, obj, tuple(args), ('v', v) if v else 0)
            s = st
        else:
            s = st.tick()
            if obj is not None:
                s = s.bump(obj)
                if last(q) in ('pop_front', 'pop_back', 'pop', 'erase', 'clear', 'resize',
                               'insert', 'emplace', 'push_front', 'assign', 'operator='):
                    s = s.bump(('f', obj))
                    for k in ('back', 'front'):
                        if (k, obj) in s.heap:
                            s.heap = dict(s.heap)
                            del s.heap[(k, obj)]
            r = ('call', q, obj, tuple(args), s.n)
        s = self.emit(s, 'call', q, obj, args, r, e['l'], fn)
        for f in self.havoc_calls.get(last(q), ()):
            # the callee changes these fields of its arguments
            for a in args:
                lv = ('fld', a, f)
                s = s.store(lv, ('after', lv, s.n))
        for i in self.outs.get(last(q), ()):
            # the callee writes its result to this argument
            a = e.get('a', [])
            if i < len(a) and isinstance(a[i], dict):
                res = self.assign(a[i], ('out', i, r), s, e['l'])
                if res:
                    s = res[0]
        return [(s, r)]

    PURE = {
        'size', 'empty', 'begin', 'end', 'length', 'count', 'front', 'back',
        'getName', 'getFeature', 'getRoot', 'getParent', 'getParentFeature',
        'getKind', 'getChildren', 'hasEdgeTo', 'hasEdgeFrom', 'lower', 'upper',
        'trim', 'children', 'getKey', 'operator==', 'operator!=', 'operator<',
        'at', 'find', 'peek', 'top', 'first', 'second', 'to_string', 'startswith',
        'starts_with', 'getLocations', 'xmlStrcmp', 'xmlStrEqual', 'substr',
    }

    def is_pure(self, q):
        return last(q) in self.PURE

    def try_inline(self, e, fn, q, obj, args, st):
        callee = self.fx.fns.get(fn['id'])
        if callee is None:
            callee = self.fx.fns.get(fn['id'] + '@' + self.fstack[-1].get('file', ''))
        if callee is None:
            c = [f for f in self.fx.by_q.get(fn['q'], ()) if f['id'] == fn['id']]
            callee = c[0] if c else None
        if callee is None or callee['key'] in self.stack:
            return None
        if len(self.stack) >= self.depth:
            return None
        if self.inline_pred is not None and not self.inline_pred(callee):
            return None
        self.analysed.add(callee['key'])
        s = st
        for i, p in enumerate(callee['params']):
            a = args[i] if i < len(args) else ('undef', p['n'])
            if p['t'].endswith('&'):
                self.refvars.add(p['id'])
            # reference parameters alias the caller's variable
            if p['t'].endswith('&') and not p['t'].startswith('const ') \
                    and i < len(e['a']) and isinstance(e['a'][i], dict) \
                    and e['a'][i].get('k') == 'ref' and 'd' in e['a'][i]:
                d, v = self.lookup(s, e['a'][i]['d'])
                if v is not None and d != p['id']:
                    s = s.bind(p['id'], ('alias', d))
                    continue
            s = s.bind(p['id'], a)
        save, self.this = self.this, (obj if obj is not None else self.this)
        self.stack.append(callee['key'])
        self.fstack.append(callee)
        out = []
        try:
            for s2, ex in self.stmt(callee['body'], s):
                if ex is None:
                    out.append((s2, VOID))
                elif ex[0] == 'ret':
                    out.append((s2, ex[1]))
                elif ex[0] in ('abort', 'throw'):
                    out.append((s2, (ex[0],)))
                elif ex[0] == 'again':
                    out.append((s2, ('abort',)))
        finally:
            self.this = save
            self.stack.pop()
            self.fstack.pop()
        return self.merge_vals(out, st.env)

    def merge_vals(self, out, env):
        """leave a callee: drop its locals, join per returned value"""
        by, order = {}, []
        for s, v in out:
            if not has_lambda(v):
                s = self.scope(s, env)
            if v not in by:
                by[v] = []
                order.append(v)
            by[v].append(s)
        r = []
        for v in order:
            r.extend((s, v) for s in self.dedupe(by[v]))
        return self.cap(r)

    # -------------------------------------------------- library knowledge
    def builtin(self, e, fn, q, nm, cls, obj, args, st):
        one = lambda v: [(st, v)]
        if q in NORETURN:
            return [(st, ('abort',))]
        if q in IDENT_CALLS or q in self.ident:
            return one(args[0]) if args else None
        if q in ('std::make_unique', 'std::make_shared'):
            t = fn.get('targs', [''])[0]
            return one(('new', t, tuple(args), (st.n, e['l']), self.ctor_id(t, len(args))))
        if q in ('llvm::dyn_cast', 'llvm::dyn_cast_or_null',
                 'llvm::dyn_cast_if_present', 'llvm::cast_or_null'):
            T = short_t(fn.get('targs', [''])[0])
            v = args[0]
            if v == NULL:
                return one(NULL)
            a = ('isa', T, v)
            r = st.facts.get(a)
            if r is None and st.facts.get(('nn', v)) is False:
                r = False
            if r is True:
                return one(v)
            if r is False:
                return one(NULL)
            return [(st.fact(a, True), v), (st.fact(a, False), NULL)]
        if q in ('llvm::isa', 'llvm::isa_and_nonnull', 'llvm::isa_and_present'):
            ts = [short_t(t.strip('<> ') if t.startswith('<') else t)
                  for t in fn.get('targs', ['']) if t and t != '<>']
            T = ts[0]
            if len(ts) > 1 and ts[0] != ts[-1] and len(ts) > 2:
                T = '|'.join(ts[:-1])
            return one(('isa', T, args[0]))
        if q == 'std::holds_alternative':
            if args[0][0] == 'var':
                return one(('bool', args[0][1] == strip_cvref(fn['targs'][0])))
            return one(('holds', strip_cvref(fn['targs'][0]), args[0]))
        if q in ('std::get', 'std::get_if'):
            t = fn['targs'][0] if fn.get('targs') else '?'
            if args[0][0] == 'pair' and t in ('0', '1'):
                return one(args[0][1 + int(t)])
            if re.fullmatch(r'\d+\w*', t):
                if args[0][0] == 'pair':
                    return one(args[0][1 + int(re.match(r'\d+', t).group(0))])
                return one(('tupget', int(re.match(r'\d+', t).group(0)), args[0]))
            if args[0][0] == 'var':
                if args[0][1] == strip_cvref(t):
                    return one(('some', args[0][2]) if q == 'std::get_if' and scalar_t(t)
                               else args[0][2])
                return one(NULL)
            g = ('get', strip_cvref(t), args[0])
            if q == 'std::get_if':
                return [(s, (('some', g) if scalar_t(t) else g) if b else NULL)
                        for s, b in self.branch(st, ('holds', strip_cvref(t), args[0]))]
            return one(g)
        if q == 'std::visit':
            return self.b_visit(e, args, st)
        if nm.startswith('operator') and obj is not None and obj[0] == 'lambda' and nm == 'operator()':
            return self.call_lambda(obj, args, st)
        if obj is not None and fn.get('lam'):
            if obj[0] == 'lambda':
                return self.call_lambda(obj, args, st)
        # Result
        if cls.startswith(('vara::Result<', 'vara::Error<', 'vara::Ok<')):
            if nm == 'operator bool':
                if obj[0] == 'Ok':
                    return one(TRUE)
                if obj[0] == 'Err':
                    return one(FALSE)
                return one(('ok', obj))
            if nm in ('operator*', 'extractValue'):
                return one(obj[1] if obj[0] == 'Ok' else ('val', obj))
            if nm in ('getError', 'extractError'):
                return one(obj[1] if obj[0] == 'Err' else ('err', obj))
            if nm == 'operator=' and args:
                return [(s, args[0]) for s in self.assign(e['obj'], args[0], st, e['l'])]
        if cls.startswith('std::variant<') and nm == 'operator=' and args and 'obj' in e:
            a0 = e['a'][0] if e.get('a') else {}
            T = variant_alt(cls, a0.get('t', '') if isinstance(a0, dict) else '')
            v = ('var', T, args[0]) if T and args[0][0] != 'var' else args[0]
            return [(s, v) for s in self.assign(e['obj'], v, st, e['l'])]
        if cls.startswith('z3::') and nm == 'operator=' and args and 'obj' in e:
            return [(s, args[0]) for s in self.assign(e['obj'], args[0], st, e['l'])]
        # smart pointers / optionals
        if is_smart(cls):
            if obj is not None and obj[0] == 'some' and nm in ('operator*', 'operator->', 'value', 'value_or'):
                return one(obj[1])
            if nm in ('get', 'operator*', 'operator->', 'value', 'release'):
                if nm == 'release' and 'obj' in e:
                    return [(s, obj) for s in self.assign(e['obj'], NULL, st, e['l'], 'release')]
                return one(obj)
            if nm in ('operator bool', 'has_value'):
                return one(('nnb', obj)) if False else one(self.nnterm(obj))
            if nm == 'value_or':
                s_t = self.branch(st, obj)
                return [(s, obj if b else args[0]) for s, b in s_t]
            if nm == 'operator=' and args:
                return [(s, args[0]) for s in self.assign(e['obj'], args[0], st, e['l'])]
            if nm == 'reset':
                v = args[0] if args else NULL
                return [(s, VOID) for s in self.assign(e['obj'], v, st, e['l'], 'reset')]
        if q in ('std::operator==', 'std::operator!=') and len(args) == 2:
            return one(self.binop(nm[8:], args[0], args[1], st))
        # strings
        if STRINGY.search(cls or ''):
            if nm in ('str', 'c_str', 'data', 'string', 'native') or \
                    nm.startswith('operator') and 'basic_string' in nm:
                return one(obj)
            if nm == 'operator=':
                return [(s, args[0]) for s in self.assign(e['obj'], args[0], st, e['l'])]
            if nm == 'empty':
                return one(('empty', obj))
            if nm in ('operator+=', 'append', 'push_back') and len(args) == 1:
                x = args[0]
                if x[0] == 'int' and isinstance(x[1], int) and 0 < x[1] < 128:
                    x = ('str', chr(x[1]))
                nv = self.concat(obj, x)
                return [(s, nv) for s in self.assign(e['obj'], nv, st, e['l'], '+=')]
            if nm in ('equals', 'operator=='):
                return one(self.binop('==', obj, args[0], st))
            if nm == 'compare' and len(args) == 1:
                return one(('not', self.binop('==', obj, args[0], st)))
        if q == 'std::operator+' and len(args) == 2:
            return one(self.concat(args[0], args[1]))
        if q == 'llvm::operator+' and len(args) == 2:
            return one(self.concat(args[0], args[1]))
        if q == 'llvm::formatv':
            r = self.fmt(args)
            return one(r if r is not None else ('call', q, None, tuple(args), 0))
        if 'formatv_object' in cls and (nm == 'str' or nm.startswith('operator')):
            return one(obj)
        if nm in ('operator==', 'operator!=') and q.startswith('llvm::') and len(args) == 2:
            return one(self.binop(nm[8:], args[0], args[1], st))
        # tree nodes
        if q == 'vara::feature::FeatureTreeNode::getChildren' and obj is not None:
            T = short_t(fn['targs'][0]) if fn.get('targs') else 'FeatureTreeNode'
            d = args[0] if args else ('int', -1)
            return one(('kids', T, obj, d))
        if 'DGNode' in cls and nm in ('begin', 'end') and obj is not None:
            return one(('iter' if nm == 'begin' else 'end', ('edges', obj)))
        if nm in ('getValue', 'second') and 'StringMapEntry' in cls and obj is not None:
            return one(self.read(st, ('mapval', obj)) if False else obj)
        if nm == 'operator->' and ('PointerProxy' in cls or 'iterator_facade_base' in cls
                                   ) and obj is not None and obj[0] not in ('iter', 'found', 'end'):
            return one(obj)
        # containers and iterators
        h = self.b_container(e, fn, q, nm, cls, obj, args, st)
        if h is not None:
            return h
        if self.algos:
            h = self.b_algo(e, fn, q, nm, args, st)
            if h is not None:
                return h
        return None

    def nnterm(self, obj):
        a, p = self.norm_cond(obj)
        if a is None:
            return ('bool', p)
        return obj

    def ctor_id(self, cls, n):
        c = cls.strip()
        cands = [f for f in self.fx.fns.values()
                 if f.get('ctor') and f.get('cls') == c]
        cands = [f for f in cands if len(f['params']) >= n and all(
            'def' in p for p in f['params'][n:])]
        if len(cands) == 1:
            return cands[0]['id']
        return None

    def b_visit(self, e, args, st):
        vis, var = args[0], args[1] if len(args) > 1 else None
        lams = []
        if vis[0] == 'overload':
            lams = [v for v in vis[1] if v[0] == 'lambda']
        elif vis[0] == 'agg':
            lams = [v for v in vis[2] if v[0] == 'lambda']
        elif vis[0] == 'lambda':
            lams = [vis]
        if not lams or var is None:
            return None
        out = []
        for l in lams:
            node, this = self.lambdas[l[1]]
            for b in node['bodies']:
                if not b['params']:
                    continue
                T = strip_cvref(b['params'][0]['t'])
                if var[0] == 'var':
                    if var[1] == T or T.startswith('auto'):
                        out.extend(self.call_lambda_body(node, b, (var[2],), st, this))
                    continue
                a = ('holds', T, var)
                kn = st.facts.get(a)
                if kn is None and any(
                        v and f[0] == 'holds' and f[2] == var and f[1] != T
                        for f, v in st.facts.items()):
                    kn = False
                if kn is False:
                    continue
                s = st if kn else st.fact(a, True)
                out.extend(self.call_lambda_body(node, b, (('get', T, var),), s, this))
        return out

    ASSOC = re.compile(r'^(std::(__cxx11::)?(set|map|unordered_map|unordered_set)<|'
                       r'llvm::(StringMap|DenseMap|SmallSet|StringSet|DenseSet|SmallPtrSet|SmallDenseMap|SmallDenseSet|DenseMapBase|SmallPtrSetImpl))')
    SETLIKE = re.compile(r'^(std::(__cxx11::)?(set|unordered_set)<|'
                         r'llvm::(SmallSet|StringSet|DenseSet|SmallPtrSet|SmallDenseSet|SmallPtrSetImpl))')
    CONT = re.compile(r'^(std::(__cxx11::)?(vector|set|map|unordered_map|deque|list|'
                      r'stack|array|initializer_list|multimap|unordered_set)|'
                      r'llvm::(Small\w+|StringMap\w*|DenseMap\w*|DenseSet\w*|'
                      r'iterator_range|ArrayRef|StringSet|SetVector\w*|SmallPtrSet\w*))')

    def b_container(self, e, fn, q, nm, cls, obj, args, st):
        one = lambda v: [(st, v)]
        if q in ('std::begin', 'std::cbegin', 'llvm::adl_begin') and args:
            return one(('iter', args[0]))
        if q in ('std::end', 'std::cend', 'llvm::adl_end') and args:
            return one(('end', args[0]))
        if q in ('llvm::make_range', 'std::make_pair') and len(args) == 2:
            if q == 'llvm::make_range':
                if args[0][0] == 'iter' and args[1][0] == 'end':
                    return one(args[0][1])
                return one(('rng', args[0], args[1]))
            return one(('pair', args[0], args[1]))
        if q in ('std::next', 'std::prev') and args:
            return one((nm, args[0]))
        if q == 'std::make_tuple':
            return one(('tuple',) + tuple(args))
        is_it = obj is not None and (
            obj[0] in ('iter', 'end', 'found') or
            re.search(r'[iI]terator', cls.split('<')[0]))
        if is_it:
            if nm in ('operator*', 'operator->'):
                return one(self.deref(obj, st)) if obj[0] in ('iter', 'found') \
                    else None
            if nm in ('operator==', 'operator!=') and args:
                return one(self.binop(nm[8:], obj, args[0], st))
            if nm in ('operator++', 'operator--') and obj[0] in ('iter', 'found'):
                nv = ('iter', obj[1], 'pos') if obj[0] == 'iter' else obj
                return [(s, nv) for s in self.assign(e['obj'], ('iter', obj[1], 'next'), st, e['l'], nm[8:])]
        if nm in ('operator==', 'operator!=') and len(args) == 2 and any(
                a[0] in ('iter', 'end', 'found') for a in args):
            return one(self.binop(nm[8:], args[0], args[1], st))
        if nm in ('operator==', 'operator!=') and obj is not None and any(
                a[0] in ('iter', 'end', 'found') for a in (obj,) + tuple(args)):
            return one(self.binop(nm[8:], obj, args[0], st))
        if obj is not None and not self.CONT.match(cls):
            return None
        if obj is None:
            return None
        if nm in ('begin', 'cbegin') and not args:
            if obj[0] == 'rng':
                return one(obj[1])
            return one(('iter', obj))
        if nm in ('end', 'cend') and not args:
            if obj[0] == 'rng':
                return one(obj[2])
            return one(('end', obj))
        if nm == 'empty' and not args:
            v = st.ver.get(obj, 0)
            return one(('empty', obj) if not v else ('empty', ('ver', obj, v)))
        if nm == 'size' and not args:
            v = st.ver.get(obj, 0)
            if obj[0] == 'list':
                return one(('int', len(obj[1])))
            return one(('size', obj) if not v else ('size', ('ver', obj, v)))
        if nm == 'find' and len(args) == 1:
            v = st.ver.get(obj, 0)
            a = ('contains', obj if not v else ('ver', obj, v), args[0])
            kn = st.facts.get(a)
            out = []
            if kn is not False:
                out.append((st if kn else st.fact(a, True),
                            ('found', obj, ('mapent', obj, args[0]))))
            if kn is not True:
                out.append((st if kn is False else st.fact(a, False), ('end', obj)))
            return out
        if nm in ('count', 'contains') and len(args) == 1:
            v = st.ver.get(obj, 0)
            return one(('contains', obj if not v else ('ver', obj, v), args[0]))
        if nm in ('try_emplace', 'emplace', 'insert', 'insert_or_assign') and args and \
                self.ASSOC.match(cls) and not (nm == 'insert' and len(args) != 1):
            key = args[0]
            val = args[1] if len(args) == 2 else None
            if nm == 'insert':
                if args[0][0] == 'pair':
                    key, val = args[0][1], args[0][2]
                elif self.SETLIKE.match(cls):
                    val = key
                else:
                    return None
            elif len(args) != 2:
                return None
            v = st.ver.get(obj, 0)
            a = ('contains', obj if not v else ('ver', obj, v), key)
            kn = st.facts.get(a)
            out = []
            if kn is not True:
                s = st if kn is False else st.fact(a, False)
                s = s.bump(obj)
                v2 = s.ver.get(obj, 0)
                s = s.fact(('contains', ('ver', obj, v2), key), True)
                s = self.emit(s, 'call', q, obj, args, val, e['l'], fn)
                out.append((s, ('pair', val, TRUE)))
            if kn is not False:
                s = st if kn else st.fact(a, True)
                if nm == 'insert_or_assign':
                    s = self.emit(s, 'call', q, obj, args, val, e['l'], fn)
                out.append((s, ('pair', ('mapent', obj, key), FALSE)))
            return out
        if (nm in ('push_back', 'emplace_back') or nm in ('push', 'emplace') and
                cls.startswith('std::stack')) and len(args) == 1:
            s = st.tick().bump(obj).store(('back', obj), args[0])
            s = self.emit(s, 'call', q, obj, args, args[0], e['l'], fn)
            return [(s, args[0])]
        if (nm in ('back', 'front') or nm == 'top' and cls.startswith('std::stack')) \
                and not args:
            if nm == 'top':
                nm = 'back'
            w = st.heap.get((nm, obj))
            if w is not None:
                return one(w)
            v = st.ver.get(('f', obj), 0)
            b = obj
            while b and b[0] == 'fld':
                b = b[1]
                v += st.ver.get(b, 0)
            return one((nm, obj if not v else ('ver', obj, v)))
        if nm in ('operator[]', 'at', 'lookup') and len(args) == 1:
            w = st.heap.get(('deref', ('at', obj, args[0])))
            r = w if w is not None else ('at', obj, args[0])
            s = self.emit(st, 'call', q, obj, args, r, e['l'], fn)
            return [(s, r)]
        if nm == 'operator=' and args:
            return [(s, args[0]) for s in self.assign(e['obj'], args[0], st, e['l'])]
        return None

    def b_algo(self, e, fn, q, nm, args, st):
        if not q.startswith(('std::', 'llvm::')) or not args:
            return None
        lam = next((a for a in args if a[0] == 'lambda'), None)

        def cont():
            if args[0][0] == 'iter':
                return args[0][1], 2
            if q.startswith('llvm::'):
                return args[0], 1
            if args[0][0] == 'new' or args[0][0] in ('call', 'param', 'fld'):
                return args[0], 2
            return None, 2
        if nm in ('all_of', 'any_of', 'none_of', 'for_each', 'find_if',
                  'find_if_not', 'count_if', 'transform') and lam is not None:
            c, na = cont()
            if c is None:
                return None
            out = []

            def body(s, el):
                return [(s2, ('v', v)) for s2, v in self.call_lambda(lam, (el,), s)]
            empty_val = {'all_of': TRUE, 'any_of': FALSE, 'none_of': TRUE,
                         'for_each': VOID, 'find_if': ('end', c),
                         'find_if_not': ('end', c), 'count_if': ('int', 0),
                         'transform': VOID}[nm]
            if na == 2 and len(args) > 2 and args[0] == args[1] and args[0] == ('iter', c):
                # nothing between an iterator and itself
                return [(st, args[0] if nm.startswith('find') else empty_val)]
            if self.havoc == 'text' and lam[0] == 'lambda':
                st = self.havocked([b['body'] for b in self.lambdas[lam[1]][0]['bodies'][:1]], None, st)
            for s, ex in self.iterate(st, c, body):
                if ex is None:
                    out.append((s, empty_val))
                    continue
                if ex[0] != 'v':
                    out.append((s, ex))
                    continue
                v = ex[1]
                if v in (('abort',), ('throw',)):
                    out.append((s, v))
                    continue
                if nm == 'for_each':
                    out.append((s, VOID))
                    continue
                if nm == 'transform':
                    dst = args[na] if len(args) > na else VOID
                    s = s.copy()
                    sl = s.loops
                    s.loops = sl + (c,)
                    s = self.emit(s, 'call', 'std::transform-out', dst, (v,), VOID, e['l'])
                    s = s.copy()
                    s.loops = sl
                    out.append((s, VOID))
                    continue
                if nm == 'count_if':
                    out.append((s, ('count_if', c, v)))
                    continue
                el = ('elem', c, 0)
                for s2, b in self.branch(s, v):
                    if self.mark_loops == 'ret':
                        k = 'iter' if b == (nm in ('all_of', 'find_if_not')) else 'lret'
                        s2 = self.emit(s2, k, k, None, [c], VOID, e['l'])
                    if nm == 'all_of':
                        out.append((s2, ('bool', b)))
                    elif nm == 'any_of':
                        out.append((s2, ('bool', b)))
                    elif nm == 'none_of':
                        out.append((s2, ('bool', not b)))
                    elif nm == 'find_if':
                        out.append((s2, ('found', c, ('elem', c, s2.n)) if b else ('end', c)))
                    else:
                        out.append((s2, ('end', c) if b else ('found', c, ('elem', c, s2.n))))
            return out
        if nm in ('find', 'is_contained', 'count') and lam is None and len(args) >= 2:
            c, na = cont()
            if c is None:
                return None
            x = args[na] if len(args) > na else args[-1]
            a = ('contains', c, x)
            if nm in ('is_contained', 'count'):
                return [(st, a)]
            if na == 2 and args[0] == args[1] == ('iter', c):
                return [(st, args[0])]
            kn = st.facts.get(a)
            out = []
            if kn is not False:
                out.append((st if kn else st.fact(a, True), ('found', c, x)))
            if kn is not True:
                out.append((st if kn is False else st.fact(a, False), ('end', c)))
            return out
        if nm == 'accumulate' and len(args) >= 3 and args[0][0] == 'iter':
            c = args[0][1]
            if lam is not None:
                out = []
                for s, ex in self.iterate(
                        st, c, lambda s, el: [(s2, ('v', v)) for s2, v in
                                              self.call_lambda(lam, (('acc', c), el), s)]):
                    if ex is None:
                        out.append((s, args[2]))
                    elif ex[0] == 'v':
                        out.append((s, ('accumulate', c, args[2], ex[1])))
                    else:
                        out.append((s, ex))
                return out
        return None


def split_targs(s):
    i = s.index('<')
    out, d, cur = [], 0, ''
    for c in s[i + 1:]:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
            if d < 0:
                break
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def variant_alt(cls, at):
    """alternative of variant class cls selected by an argument type"""
    at = strip_cvref(at)
    if not at or at.startswith('std::variant<'):
        return None
    alts = [strip_cvref(a) for a in split_targs(cls)]
    if at in alts:
        return at
    if at.endswith('*'):
        c = [a for a in alts if a.endswith('*')]
    elif STRINGY.search(at) or at.startswith('char') or at == 'const char*':
        c = [a for a in alts if STRINGY.search(a)]
    else:
        c = []
    return c[0] if len(c) == 1 else None


def result_args(cls):
    """template arguments of vara::Result<...>"""
    inner = cls[cls.index('<') + 1:cls.rindex('>')]
    out, d, cur = [], 0, ''
    for c in inner:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    out.append(cur.strip())
    return out


def short_t(t):
    t = base_type(t)
    return t.rsplit('::', 1)[-1] if '<' not in t else t
