"""P25: numbers keep their range and sign."""
import re
from ..core import *
from ..model import V
from .constraints import exponent_marks

NARROW = re.compile(r'(?<![\w ])(?:unsigned int|unsigned short|short|int|unsigned|float)(?![\w ])')
BOXES = ('std::vector', 'std::optional', 'std::pair', 'std::variant', 'std::set', 'std::array',
         'std::deque', 'std::list', 'std::tuple', 'std::unordered_set', 'llvm::SmallVector',
         'llvm::SmallSet', 'std::multiset', 'std::queue', 'std::stack')
# reading a number from a text; the result type tells how much of it is kept
TEXT = {'atoi': 'int', 'stoi': 'int', 'atol': 'long', 'stol': 'long', 'stoll': 'long'}
OUT = ('getAsInteger', 'consumeInteger', 'to_integer')


def sub(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from sub(v)
    elif isinstance(n, (list, tuple)):
        for v in n:
            yield from sub(v)


def library(ck):
    for f in sorted(ck.fx.fns.values(), key=lambda f: (f.get('file', ''), f['l'])):
        if f.get('body') is not None and not f['q'].startswith('vfx_driver'):
            yield f


def site(f, n):
    return '%s:%s' % (f['file'], n.get('l') or f['l'])


def callee(n):
    return (n.get('fn') or {}).get('q', '').split('<')[0]


def is_distance(e):
    """differences and numbers of elements, not values of a model"""
    while e.get('k') in ('cast', 'un', 'paren') and isinstance(e.get('e'), dict):
        e = e['e']
    if e.get('k') == 'call':
        return callee(e).rsplit('::', 1)[-1] in (
            'distance', 'count', 'count_if', 'operator-', 'size', 'ssize')
    if e.get('k') == 'bin':
        return any('*' in (x.get('t') or '') or 'iterator' in (x.get('t') or '')
                   for x in (e.get('a'), e.get('b'), e.get('lhs'), e.get('rhs'))
                   if isinstance(x, dict))
    return e.get('k') in ('int', 'char', 'bool', 'zero', 'sizeof')


def bits(n):
    return n.get('fb', 0), n.get('tb', 0)


def stepping(f):
    return (f.get('cls') or '').startswith(V + 'StepFunction')


@rule('P25', 'conversions', 'A 64-bit value is nowhere converted to a type that cannot hold all '
      'of its values.')
def conversions(ck):
    n = 0
    for f in library(ck):
        ck.analysed.add(f.get('id') or f['q'])
        for c in list(sub(f['body'])) + list(sub(f.get('inits'))):
            if c.get('k') != 'cast':
                continue
            fb, tb = bits(c)
            e = c.get('e') or {}
            what = '%s: %s' % (f['q'].replace(V, ''), c.get('ck'))
            if c['ck'] == 'IntegralCast' and fb == -64:
                if tb == -64 or is_distance(e):
                    continue
                n += 1
                ck.bad(what, 'a 64-bit value is converted to %s and loses its %s' % (
                    c['t'], 'sign' if tb == 64 else 'upper half'), site(f, c))
            elif c['ck'] == 'IntegralToFloating' and fb == -64 and not stepping(f) and \
                    not is_distance(e):
                ck.bad(what, 'a 64-bit value is converted to %s, which cannot hold all of its '
                       'values' % c['t'], site(f, c))
            elif c['ck'] == 'FloatingToIntegral' and not stepping(f):
                # comparisons of floating point numbers may guard the range
                lim = any(x.get('k') == 'bin' and x.get('op') in ('<', '>', '<=', '>=') and
                          any(isinstance(y, dict) and 'double' in (y.get('t') or '')
                              for y in x.values())
                          for x in sub(f['body']))
                (ck.undec if lim else ck.bad)(
                    what, 'a floating point number is converted to %s without regard to its '
                    'range' % c['t'], site(f, c))
            elif c['ck'] == 'IntegralCast':
                n += 1
                ck.good(what)
    ck.need(n, 'no conversions found')


def elements(t):
    """the integer types that a container type holds: set of 'narrow', 'wide'"""
    out = set()
    t = re.sub(r'\b(const|volatile)\b', '', t or '').strip()
    if not t.startswith(BOXES) or '<' not in t:
        return out
    inner = t[t.index('<') + 1:]
    inner = re.sub(r'std::(basic_string|char_traits|allocator|less|hash|equal_to)<[^<>]*>', '', inner)
    if re.search(r'(?<![\w:])(long|long long)(?!\w)', inner) and 'unsigned long' not in inner:
        out.add('wide')
    if re.search(r'(?<![\w:])(int|short|unsigned int|float)(?!\w)', inner):
        out.add('narrow')
    return out


def wide(t):
    return re.sub(r'\bconst\b|&', '', t or '').strip() in ('long', 'long long')


@rule('P25', 'containers', 'No container, optional or variant of a smaller type is filled with '
      '64-bit values.')
def containers(ck):
    n = 0
    for f in library(ck):
        for c in list(sub(f['body'])) + list(sub(f.get('inits'))):
            if c.get('k') not in ('call', 'ctor'):
                continue
            for t in (c.get('t') if c['k'] == 'ctor' or 'make_' in callee(c) else None,
                      c.get('ot'), (c.get('fn') or {}).get('cls')):
                if not t:
                    continue
                el = elements(t)
                if not el:
                    continue
                n += 1
                what = '%s: %s' % (f['q'].replace(V, ''), t.split('<')[0])
                if 'wide' in el or 'narrow' not in el:
                    ck.good(what)
                    continue
                args = [a for a in c.get('a', ()) if isinstance(a, dict)]
                boxed = [a for a in args if 'wide' in elements(a.get('t')) and
                         'narrow' not in elements(a.get('t'))]
                hit = [a for a in args if wide(a.get('t')) and not is_distance(a)] or boxed
                if callee(c).rsplit('::', 1)[-1] in ('operator[]', 'at', 'resize', 'reserve'):
                    hit = []
                ck.req(not hit, what, 'a 64-bit value is put into %s' % t[:80], site(f, c))
        # objects that are created from 64-bit values take them as they are
        for c in sub(f['body']):
            if c.get('k') != 'call' or callee(c) not in ('std::make_unique', 'std::make_shared'):
                continue
            cl = ((c.get('fn') or {}).get('targs') or ['?'])[0]
            args = c.get('a', ())
            ws = [i for i, a in enumerate(args) if isinstance(a, dict) and wide(a.get('t')) and
                  not is_distance(a)]
            r = ck.fx.recs.get(cl)
            if not ws or r is None:
                continue
            cs = [m['p'] for m in r.get('methods', ()) if len(m['p']) == len(args) and
                  m['n'] == last(cl.split('<')[0])]
            for i in ws:
                ts = [re.sub(r'\bconst\b|&', '', x[i]).strip() for x in cs]
                n += 1
                ck.req(not ts or any(t not in ('int', 'unsigned int', 'short', 'char', 'float',
                                               'double', 'unsigned long', 'bool') for t in ts),
                       '%s: new %s' % (f['q'].replace(V, ''), last(cl.split('<')[0])),
                       'a 64-bit value is passed on to %s as %s' % (cl, ', '.join(ts)),
                       site(f, c))
        # functions that are handed to algorithms take the values as they are
        for l in sub(f['body']):
            if l.get('k') != 'call' or not callee(l).startswith('std::'):
                continue
            rng = [a for a in l.get('a', ()) if isinstance(a, dict) and
                   re.search(r'__normal_iterator<(const )?long \*', a.get('t') or '')]
            for a in l.get('a', ()):
                if rng and isinstance(a, dict) and a.get('k') == 'lambda':
                    for b in a.get('bodies', ()):
                        for p in b.get('params', ()):
                            t = re.sub(r'\bconst\b|&', '', p.get('t', '')).strip()
                            n += 1
                            ck.req(t not in ('int', 'unsigned int', 'short', 'float', 'char',
                                             'unsigned long'),
                                   '%s: element' % f['q'].replace(V, ''),
                                   'a 64-bit element is passed on as %s' % t, site(f, l))
    ck.need(n, 'no containers of numbers found')


def narrow_reads(f):
    """[(node, variable or None)]: numbers that are read from a text in a smaller type"""
    out = []
    body = list(sub(f['body'])) + list(sub(f.get('inits')))
    for c in body:
        if c.get('k') != 'call':
            continue
        nm = callee(c).rsplit('::', 1)[-1]
        if nm in TEXT and TEXT[nm] == 'int':
            out.append((c, None))
        elif nm in ('min', 'max') and callee(c).startswith('std::numeric_limits') and \
                c.get('t') not in ('long', 'long long'):
            out.append((c, None))
        elif nm in OUT:
            for a in c.get('a', ()):
                if isinstance(a, dict) and a.get('k') == 'ref' and \
                        a.get('t') in ('int', 'unsigned int', 'short', 'unsigned short', 'char'):
                    if (c.get('fn') or {}).get('targs') in ([a['t']], None):
                        out.append((c, a['n']))
    return out


@rule('P25', 'texts', 'Numbers of 64 bits are read from texts in 64 bits.')
def texts(ck):
    n = 0
    for f in library(ck):
        reads = narrow_reads(f)
        body = list(sub(f['body'])) + list(sub(f.get('inits')))
        for c in body:
            if c.get('k') == 'call' and callee(c).rsplit('::', 1)[-1] in OUT + tuple(TEXT):
                n += 1
                if not any(c is r for r, _ in reads):
                    ck.good('%s: %s' % (f['q'].replace(V, ''), callee(c).rsplit('::', 1)[-1]))
        if not reads:
            continue
        ids = [id(r) for r, _ in reads]
        names = {v for _, v in reads if v}
        for s in body:              # variables that are set to it
            if s.get('s') == 'decl' or 'init' in s:
                for v in s.get('vars', [s]):
                    if isinstance(v, dict) and isinstance(v.get('init'), dict) and v.get('n') and \
                            any(id(x) in ids for x in sub(v['init'])):
                        names.add(v['n'])
            if s.get('k') == 'asg' and isinstance(s.get('l'), dict):
                if s['l'].get('k') == 'ref' and any(id(x) in ids for x in sub(s.get('r'))):
                    names.add(s['l']['n'])

        def tainted(e):
            while isinstance(e, dict) and e.get('k') in ('cast', 'un', 'cond') and \
                    isinstance(e.get('e'), dict):
                e = e['e']
            return isinstance(e, dict) and (id(e) in ids or
                                            e.get('k') == 'ref' and e.get('n') in names)
        what = '%s: number' % f['q'].replace(V, '')
        hit = None
        for c in body:
            if c.get('k') == 'cast' and c.get('ck') == 'IntegralCast':
                fb, tb = bits(c)
                if abs(fb) < 64 and tb == -64 and tainted(c.get('e')):
                    hit = c
            elif c.get('k') in ('call', 'ctor') and any(tainted(a) for a in c.get('a', ())):
                t = ' '.join(x or '' for x in (c.get('t'), c.get('ot')))
                if 'wide' in elements(c.get('t')) or 'wide' in elements(c.get('ot')):
                    hit = c
                m = re.search(r'unique_ptr<(vara::[\w:]+)', t)
                if m and callee(c).startswith('std::make_'):
                    r = ck.fx.recs.get(m.group(1), {})
                    if any('long' in p for x in r.get('methods', ())
                           if x['n'] == m.group(1).rsplit('::', 1)[-1] for p in x['p']):
                        hit = c
        ck.req(hit is None, what, 'a number is read from its text in less than 64 bits and then '
               'used as 64-bit value', site(f, hit or f))
    ck.need(n, 'no numbers are read from texts')


DECLARED = [
    (V + 'NumericFeature::getValues', 'rt'),
    (V + 'PrimaryIntegerConstraint::getValue', 'rt'),
    (V + 'ConfigurationOption::intValue', 'rt'),
    (V + 'ConstraintBuilder::constant', 'p'),
    (V + 'ConstraintBuilder::operator()', 'p'),
    (V + 'parseInteger', 'rt'),
    ('vara::solver::Solver::addFeature', 'p'),
    ('vara::solver::Z3Solver::addFeature', 'p'),
]


@rule('P25', 'types', 'Values of features, constants and options are kept, passed on and returned '
      'in 64 bits with sign.')
def types(ck):
    n = 0

    def decide(what, t, where):
        bare = re.sub(r'\bconst\b|&', '', t).strip()
        # names of texts are no numbers
        x = re.sub(r'std::basic_string<[^<>]*(<[^<>]*>[^<>]*)*>', '', bare)
        if not re.search(r'(?<![\w:])(int|short|unsigned int|long|unsigned long|float|double)(?!\w)', x):
            return False
        ok = not re.search(r'(?<![\w:])(int|short|float|unsigned int)(?!\w)', x) and \
            'unsigned long' not in x
        ck.req(ok, what, '%s is of type %s' % (what, bare[:120]), where)
        return True
    for q, part in DECLARED:
        for f in ck.fx.by_q.get(q, ()):
            ts = [f['rt']] if part == 'rt' else [p['t'] for p in f['params']]
            for t in ts:
                n += decide('%s%s' % (q.replace('vara::', ''), '' if part == 'rt' else
                                      ': parameter'), t, f)
    for q, r in sorted(ck.fx.recs.items()):
        if q in (V + 'NumericFeature', V + 'PrimaryIntegerConstraint', V + 'ConfigurationOption'):
            for x in r['fields']:
                n += decide('%s::%s' % (last(q), x['n']), x['t'],
                            '%s:%s' % (r['file'], x.get('l') or r['l']))
    ck.need(n, 'no types of values found')


@rule('P25', 'parse-integer', 'Reading an integer yields the number that the text denotes in the '
      'decimal system, or the limit on the side of its sign if it is none.')
def parse_integer(ck):
    f = ck.fn(V + 'parseInteger')
    ok = 0
    text = None
    for p in ck.paths(f):
        where = '%s:%s' % (f['file'], f['l'])
        won = None
        for a, v in p.facts.items():
            for t in walk(a):
                if t and t[0] == 'call' and last(t[1]) == 'getAsInteger':
                    won = (t, a, v)
        if won:
            t, a, v = won
            text = t[2]
            if v is False:
                ok += 1
                if t[3][0][0] == 'int' or t[3][0][0] == 'const':
                    ck.req(t[3][0][1] in (10, '10'), 'parseInteger: base',
                           'integers are read in base %s' % show(t[3][0]), where)
                ck.req(unk(p.ret) == unk(t[3][1]) or p.ret == t[3][1],
                       'parseInteger: value',
                       'the text was read but %s is returned' % show(p.ret), where)
                continue
        if p.ret and p.ret[0] == 'call' and last(p.ret[1]) in ('min', 'max', 'lowest'):
            neg = [v for a, v in p.facts.items()
                   if any(t and t[0] == 'call' and last(t[1]) in
                          ('startswith', 'starts_with', 'consume_front') and t[3] and
                          t[3][0] == ('str', '-') for t in walk(a))]
            if len(neg) == 1:
                ck.req((last(p.ret[1]) != 'max') == neg[0], 'parseInteger: limits',
                       'a text %s is turned into the %s' % (
                           'with a sign' if neg[0] else 'without sign',
                           'maximum' if last(p.ret[1]) == 'max' else 'minimum'), where)
    ck.need(ok, 'getAsInteger is not used')
    where = '%s:%s' % (f['file'], f['l'])
    dbl = 0
    for p in ck.paths(f, join=False):
        for a, v in p.facts.items():
            if a[0] != 'nn' or a[1][0] != 'call' or last(a[1][1]) != 'getAsDouble':
                continue
            dbl += 1
            lim = p.ret and p.ret[0] == 'call' and last(p.ret[1]) in ('min', 'max', 'lowest')
            if p.kind == 'ret':
                ck.req(bool(lim) == v, 'parseInteger: scientific notation', 'a limit is returned '
                       'for a number' if lim else 'the text is no number', where)
            got, both = exponent_marks([x for x, y in p.facts.items() if y])
            ck.req(not got or both or got == {'e', 'E'}, 'parseInteger: scientific notation',
                   'is only recognised by %s' % '/'.join(got), where)
    if dbl:
        for n in sub(f['body']):
            if n.get('k') == 'call' and callee(n).endswith('formatv'):
                x = next((m for m in sub(n.get('a')) if m.get('k') == 'str'), None)
                m = x and re.match(r'^\{0(?::([^}]*))?\}$', x.get('v') or '')
                if m:
                    ck.req(re.match(r'^[fF]?0$', m.group(1) or ''), 'parseInteger: scientific '
                           'notation', 'is read with format %s' % x['v'], site(f, n))


SPEC = re.compile(r'%[-+ #0]*(?:\d+|\*)?(?:\.(?:\d+|\*))?(hh|h|ll|l|z|j|t|L)?([diouxXcsfgGeEpn%])')
SIZE = {'hh': 8, 'h': 16, None: 32, 'l': 64, 'll': 64, 'z': 64, 'j': 64, 't': 64}
WIDTH = {'int': -32, 'unsigned int': 32, 'long': -64, 'unsigned long': 64, 'long long': -64,
         'unsigned long long': 64, 'short': -16, 'bool': 8, 'char': -8}


@rule('P25', 'formats', 'Format strings print numbers with the width and sign of their type.')
def formats(ck):
    n = 0
    for f in library(ck):
        for c in sub(f['body']):
            if c.get('k') != 'call' or not re.search(
                    r'(WriteFormat\w*|printf|format)$', callee(c)):
                continue
            args = c.get('a', ())
            for i, a in enumerate(args):
                fm = next((x['v'] for x in sub(a) if x.get('k') == 'str'), None) \
                    if isinstance(a, dict) else None
                if fm is None or '%' not in fm:
                    continue
                specs = [s for s in SPEC.findall(fm) if s[1] != '%']
                rest = args[i + 1:]
                if len(specs) != len(rest):
                    continue
                for (ln, cv), x in zip(specs, rest):
                    w = WIDTH.get(re.sub(r'\bconst\b|&', '', x.get('t') or '').strip())
                    if w is None or cv in 'sp':
                        continue
                    n += 1
                    ok = cv in 'diouxXc' and abs(w) <= SIZE.get(ln or None, 32) and \
                        (abs(w) < SIZE.get(ln or None, 32) or (w < 0) == (cv in 'di'))
                    ck.req(ok, '%s: format' % f['q'].replace(V, ''),
                           '%s is printed with "%%%s%s"' % (x.get('t'), ln, cv), site(f, c))
            for s in (x for x in sub(args) if x.get('k') == 'call'):
                pass
    ck.good('formats', '%d numbers in format strings' % n)


@rule('P25', 'solver-values', 'Values of the solver are taken over in full width.')
def solver_values(ck):
    n = 0
    for f in library(ck):
        if not f['q'].startswith('vara::solver'):
            continue
        for c in sub(f['body']):
            if c.get('k') == 'call':
                nm = callee(c)
                if nm.startswith('z3::'):
                    n += 1
                    ck.req(last(nm) not in ('get_numeral_int', 'get_numeral_uint',
                                            'get_numeral_uint64', 'as_double'),
                           '%s: %s' % (f['q'].replace('vara::', ''), last(nm)),
                           'the value of the solver is read with %s, which does not hold all '
                           '64-bit values' % last(nm), site(f, c))
    ck.need(n, 'no use of the solver found')
