"""Features, groups, results and errors are what they were created as (P32)."""
import re
from ..core import rule, Undecided
from ..engine import *
from ..engine import last, short
from ..model import *
from ..model import V
from .order import clean
from .location import plain, stored
from .bindings import ast
from .constraints import bases, field_of, CONS

NODE = V + 'FeatureTreeNode'
FEA = V + 'Feature'
REL = V + 'Relationship'
# class -> kind as a tree node, kind as a feature
CLASSES = {
    FEA: ('NK_FEATURE', None),
    V + 'BinaryFeature': ('NK_FEATURE', 'FK_BINARY'),
    V + 'NumericFeature': ('NK_FEATURE', 'FK_NUMERIC'),
    V + 'RootFeature': ('NK_FEATURE', 'FK_ROOT'),
    REL: ('NK_RELATIONSHIP', None),
}


def accepted(ck, fn, kt):
    """(kinds a classof accepts, whether it accepts others); None: not derived"""
    acc, other = set(), False
    for p in ck.paths(fn, join=False):
        if p.kind != 'ret':
            continue
        r = p.ret
        eqs = {a: v for a, v in p.facts.items() if a[0] == 'eq' and kt in a[1:]}
        if r == TRUE:
            pos = [a for a, v in eqs.items() if v]
            other |= not pos
            for a in pos:
                acc.add(a[2] if a[1] == kt else a[1])
        elif r == FALSE:
            pass
        elif r[0] in ('op', 'eq') and kt in r:
            if '==' in r or r[0] == 'eq':
                acc |= {x for x in r[1:] if isinstance(x, tuple) and x != kt}
            else:
                other = True
        else:
            return None, other
    return acc, other


@rule('P32', 'created-kind', 'Each class of features and groups passes its own kind on when '
      'it is created, and keeps it.')
def created_kind(ck):
    nk, fk = field_of(ck, NODE + '::getKind'), field_of(ck, FEA + '::getKind')
    for cls, (n, f) in CLASSES.items():
        for c in ck.fns(cls + '::' + last(cls)):
            if len(c['params']) == 1 and last(cls) in c['params'][0]['t']:
                continue
            w = stored(ck, c, (nk, fk))
            ck.req(w[nk] is not None and w[nk][0] == 'enum' and last(w[nk][1]) == n,
                   '%s is created as %s' % (last(cls), n),
                   'created as %s' % (w[nk] and show(w[nk])), c)
            if f:
                ck.req(w[fk] is not None and w[fk][0] == 'enum' and last(w[fk][1]) == f,
                       '%s is created as %s' % (last(cls), f),
                       'created as %s' % (w[fk] and show(w[fk])), c)
    rk = field_of(ck, REL + '::getKind')
    for c in ck.fns(REL + '::Relationship'):
        if 'Kind' not in (c['params'] or [{'t': ''}])[0]['t']:
            continue
        w = stored(ck, c, (rk,))
        ck.req(w[rk] == ('param', 0, c['params'][0]['n']), 'a group has the kind it is created '
               'with', 'has %s' % (w[rk] and show(w[rk])), c)


@rule('P32', 'recognised', 'Each class of features and groups is recognised by exactly the '
      'kind that its objects are created with.')
def recognised(ck):
    nk, fk = field_of(ck, NODE + '::getKind'), field_of(ck, FEA + '::getKind')
    for cls, (n, f) in CLASSES.items():
        want, field = (f, fk) if f else (n, nk)
        for c in ck.fns(cls + '::classof'):
            kt = ('fld', ('param', 0, c['params'][0]['n']), field)
            acc, other = accepted(ck, c, kt)
            if acc is None:
                ck.undec('classof of %s' % last(cls), 'not derived')
                continue
            ck.req({last(a[1]) for a in acc if a[0] == 'enum'} == {want} and not other,
                   '%s is recognised by %s' % (last(cls), want), 'by %s' % (
                       sorted(last(show(a)) for a in acc) or 'other kinds'), c)
    for cls in CLASSES:
        if not any(b.endswith('classof') for b in ck.fx.by_q if b.startswith(cls + '::')):
            ck.undec('classof of %s' % last(cls), 'not found')


# accessor -> type of the constructor's parameter it yields, number among those of this
# type, value without such a parameter
PARTS = {
    'getName': (r'^std::basic_string<', 0, None),
    'isOptional': (r'^bool$', 0, FALSE),
    'getOutputString': (r'^std::basic_string<', 1, ('str', '')),
    'getValues': (r'^std::variant<', 0, None),
    'getStepFunction': (r'^std::unique_ptr<.*StepFunction', 0, NULL),
}


def value(t):
    t = plain(t)
    while t[0] == 'new' and len(t[2]) == 1 and 'unique_ptr' not in t[1]:
        t = plain(t[2][0])
    if t[0] == 'new' and not t[2] and 'string' in t[1]:
        return ('str', '')
    return t


@rule('P32', 'created-values', 'A feature has the name, optionality, output string, values '
      'and step function it is created with, and none of those it is created without.')
def created_values(ck):
    for cls in CLASSES:
        if cls == REL:
            continue
        fields = {}
        for g in PARTS:
            for b in [cls] + bases(ck.fx, cls):
                if ck.fns(b + '::' + g):
                    try:
                        fields[g] = field_of(ck, b + '::' + g)
                        for a in ck.fns(b + '::' + g):
                            for p in clean(ck, a):
                                ck.req(plain(p.ret) == ('fld', THIS, fields[g]), '%s yields '
                                       'what the feature has' % g, 'yields %s' % show(p.ret), a)
                    except Undecided as e:
                        ck.undec('%s::%s' % (last(cls), g), str(e))
                    break
        dup = [g for g in fields if list(fields.values()).count(fields[g]) > 1]
        ck.req(not dup, 'accessors of %s yield different parts' % last(cls),
               '%s yield the same' % ', '.join(dup), ck.fx.recs.get(cls) or cls)
        for c in ck.fns(cls + '::' + last(cls)):
            ps = [(i, p) for i, p in enumerate(c['params'])]
            if len(ps) == 1 and last(cls) in ps[0][1]['t']:
                continue
            w = stored(ck, c, tuple(fields.values()))
            for g, F in fields.items():
                pat, n, dflt = PARTS[g]
                own = [(i, p) for i, p in ps if re.search(pat, p['t'].replace('const ', ''))]
                want = ('param', own[n][0], own[n][1]['n']) if n < len(own) else dflt
                got = w[F] is not None and value(w[F])
                if want is None:
                    continue
                if got is None and dflt is None:
                    ck.undec('%s of %s' % (g, last(cls)), 'not stored on all paths')
                    continue
                ok = got == want or n >= len(own) and got in (
                    False, NULL, FALSE, ('str', ''), ('int', 0))
                ck.req(ok, '%s of a new %s with %d arguments' % (g, last(cls), len(ps)),
                       'is %s' % (show(got) if got else got), c)


@rule('P32', 'hash', 'The hash of a feature depends on nothing but what makes features equal.')
def hashes(ck):
    name = field_of(ck, FEA + '::getName')
    me = ('fld', THIS, name)
    f = ck.fn(FEA + '::hash')
    parts = set()
    for p in clean(ck, f):
        parts |= {t for t in walk(p.ret) if t and t[0] == 'fld' and t[1] == THIS}
        lower = any(t and t[0] in ('call', 'lower') and last(str(t[1] if t[0] == 'call' else
                                                                'lower')) == 'lower'
                    for t in walk(p.ret))
    eq = set()
    ops = [g for g in ck.fns(FEA + '::operator==')]
    low = False
    for g in ops:
        for p in clean(ck, g):
            for t in list(walk(p.ret)) + [x for a in p.facts for x in walk(a)]:
                if t and t[0] == 'fld' and t[1] == THIS:
                    eq.add(t)
                low |= bool(t) and t[0] == 'call' and last(t[1]) in ('lower', 'equals_insensitive',
                                                                     'equals_lower',
                                                                     'compare_insensitive')
    ck.need(eq, 'equality of features')
    ck.req(parts <= eq and parts, 'equal features have equal hashes', 'the hash depends on %s' %
           ', '.join(map(show, parts)), f)
    if low and eq == {me}:
        ck.req(lower, 'features that are equal but for case have equal hashes',
               'the hash depends on the case of the name', f)


# ------------------------------------------------------------------ results

def targs_of(q):
    m = re.match(r'^vara::(Result|Ok|Error)<(.*)>::[^:]*$', q)
    return (m.group(1), m.group(2)) if m else (None, None)


def split(s):
    out, d, cur = [], 0, ''
    for c in s:
        d += c in '<('
        d -= c in '>)'
        if c == ',' and not d:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    return out + [cur.strip()]


def alternative(ck, f):
    """which alternative ('Ok' or 'Error') a constructor of a result creates"""
    got = set()
    for i in f.get('inits', ()):
        for n in ast(i.get('e')):
            for k in ('t', 'cls'):
                m = re.search(r'in_place_type_t<vara::(Ok|Error)<', str(n.get(k) or ''))
                if m:
                    got.add(m.group(1))
    if not got:
        for i in f.get('inits', ()):
            e = i.get('e')
            for n in ast(e):
                t = str(n.get('t') or '').replace('const ', '')
                m = re.match(r'vara::(Ok|Error)<', t)
                if m:
                    got.add(m.group(1))
    return got


@rule('P32', 'results', 'A result made of a value is true and yields this value; a result '
      'made of an error is false and yields this error.')
def results(ck):
    n = 0
    for f in list(ck.fx.fns.values()):
        if f.get('body') is None:
            continue
        kind, ta = targs_of(f['q'])
        if kind is None:
            continue
        name = f['q'][len('vara::%s<%s>::' % (kind, ta)):]
        site = '%s of %s<%s>' % (name if not f.get('ctor') else 'creation', kind,
                                 ', '.join(last(x.split('<')[0]) for x in split(ta)))
        try:
            one(ck, f, kind, split(ta), name, site)
            n += 1
        except Undecided as e:
            ck.undec(site, str(e))
    ck.need(n, 'no results')


def compared(ck, r):
    """whether a comparison with the index or the alternative of a variant being
    equal means that it holds the value"""
    a, b = r[2:4]
    if a[0] in ('int', 'null'):
        a, b = b, a
    if a[0] == 'get' and b == NULL:
        return 'Ok<' not in a[1]
    if a[0] == 'call' and last(a[1]) == 'index' and b[0] == 'int' and a[2][0] == 'fld':
        rec = ck.fx.recs.get(a[2][2].rsplit('::', 1)[0]) or {}
        for fl in rec.get('fields', ()):
            if fl['q'] == a[2][2]:
                first = 'Ok' if re.match(r'std::variant<vara::Ok<', fl['t']) else 'Error'
                return (b[1] == 0) == (first == 'Ok')
    return None


def one(ck, f, kind, ta, name, site):
    if kind == 'Result' and f.get('ctor'):
        ps = f['params']
        if len(ps) == 1 and re.match(r'(const )?vara::Result<', ps[0]['t']):
            return
        got = alternative(ck, f)
        if len(got) != 1:
            raise Undecided('alternative not recognised')
        ts = ' '.join(p['t'] for p in ps)
        err = ta[0] in ts or 'vara::Error<' in ts
        val = len(ta) > 1 and ta[1] != 'void' and ta[1] in ts or 'vara::Ok<' in ts
        if err and val:
            raise Undecided('both a value and an error')
        want = 'Error' if err else 'Ok'
        ck.req(got == {want}, site + ' (%s)' % want, 'creates %s' % got.pop(), f)
        for p in ck.paths(f):
            pars = [('param', i, q['n']) for i, q in enumerate(ps)]
            ts = [t for e in p.events if e.kind == 'init' for a in e.args for t in walk(a)]
            ck.req(all(q in ts for q in pars), site + ' keeps what it is created with',
                   'drops an argument', f)
        return
    paths = [p for p in ck.paths(f) if p.kind == 'ret']
    if kind == 'Result' and name == 'operator bool':
        for p in paths:
            r, pos = p.ret, True
            while r[0] == 'not':
                r, pos = r[1], not pos
            if r in (TRUE, FALSE):
                hs = [(a, v) for a, v in p.facts.items() if a[0] == 'holds']
                if not hs:
                    ck.bad(site, 'always %s' % show(r), f)
                    continue
                a, v = hs[0]
                val = (r == TRUE) == pos
                ok = (('Ok<' in a[1]) == v) == val
            elif r[0] == 'holds':
                ok = ('Ok<' in r[1]) == pos
            elif r[0] == 'op' and r[1] in ('==', '!='):
                alt = compared(ck, r)
                if alt is None:
                    raise Undecided('compares %s' % show(r))
                ok = (alt == (r[1] == '==')) == pos
            else:
                raise Undecided('yields %s' % show(r)[:80])
            ck.req(ok, site, 'yields %s' % show(p.ret), f)
        return
    if kind == 'Result' and name in ('operator*', 'extractValue', 'getError', 'extractError'):
        want = 'Ok<' if name in ('operator*', 'extractValue') else 'Error<'
        for p in paths:
            got = [t for t in walk(p.ret) if t and t[0] == 'get']
            if not got:
                raise Undecided('yields %s' % show(p.ret)[:80])
            ck.req(all(want in t[1] for t in got), site, 'yields %s' % show(p.ret)[:120], f)
        return
    if kind in ('Ok', 'Error'):
        if f.get('ctor'):
            ps = f['params']
            if len(ps) == 1 and re.match(r'(const )?vara::%s<' % kind, ps[0]['t']) or not ps:
                return
            for p in paths:
                ts = [t for e in p.events if e.kind == 'init' for a in e.args for t in walk(a)]
                ck.req(all(('param', i, q['n']) in ts for i, q in enumerate(ps)), site,
                       'drops an argument', f)
        elif name == 'operator bool':
            for p in paths:
                ck.req(p.ret == (TRUE if kind == 'Ok' else FALSE), site,
                       'yields %s' % show(p.ret), f)
        elif name in ('operator*', 'extractValue', 'extractError'):
            for p in paths:
                r = plain(p.ret)
                ck.req(r[0] == 'fld' and r[1] == THIS, site, 'yields %s' % show(p.ret)[:120], f)


ERRORS = (V + 'FTErrorCode', 'vara::solver::SolverErrorCode')


@rule('P32', 'error-texts', 'Each error prints a text of its own.')
def error_texts(ck):
    for q in ERRORS:
        en = ck.fx.enums.get(q)
        if not en:
            ck.undec(last(q), 'not found')
            continue
        names = [v['n'] for v in en['vals']]
        fs = [f for f in ck.fx.fns.values() if f.get('body') is not None and
              last(f['q']).startswith('operator<<') and len(f['params']) == 2 and
              re.search(r'vara::Error<%s>' % re.escape(q), f['params'][1]['t'])]
        if not fs:
            ck.undec('text of ' + last(q), 'not found')
        for f in fs:
            texts = {}
            for p in ck.paths(f, join=False):
                if p.kind != 'ret':
                    continue
                left = set(names)
                for a, v in p.facts.items():
                    if a[0] == 'eq':
                        k = [last(x[1]) for x in a[1:] if x[0] == 'enum']
                        if k:
                            left = left & set(k) if v else left - set(k)
                txt = tuple(t for e in p.events if e.kind == 'call' for a in e.args
                            for t in walk(a) if t and t[0] == 'str')
                for k in left:
                    texts.setdefault(k, set()).add(txt)
            for k in names:
                t = texts.get(k) or set()
                if len(t) > 1:
                    ck.undec('text of %s' % k, 'not derived')
                    continue
                t = next(iter(t), ())
                text = ''.join(x[1] for x in t)
                ck.req(text.strip(), '%s has a text' % k, 'prints nothing', f)
                twins = [o for o in names if o != k and texts.get(o) == texts.get(k)]
                ck.req(not twins or not text.strip(), 'the text of %s is its own' % k,
                       'also printed for %s' % ', '.join(twins), f)
                more = [o for o in names for u in texts.get(o) or () if u and
                        len(u) < len(t) and (t[-len(u):] == u or t[:len(u)] == u)]
                ck.req(not more, 'only the text of %s is printed' % k,
                       'the text of %s is printed too' % ', '.join(more), f)


@rule('P32', 'switches', 'Every switch over kinds handles each kind or has a default.')
def switches(ck):
    n = 0
    seen = set()
    for f in list(ck.fx.fns.values()):
        if f.get('body') is None or '/tool/' in f['file']:
            continue
        for s in ast(f['body']):
            if s.get('s') != 'switch':
                continue
            key = (f['file'], s.get('l'))
            if key in seen:
                continue
            seen.add(key)
            t = (s.get('ct') or '').replace('const ', '').replace('enum ', '').strip(' &')
            en = ck.fx.enums.get(t)
            if not en:
                continue
            n += 1
            ck.analysed.add(f['key'])
            has, dflt = set(), False
            for c in own_cases(s):
                if c['s'] == 'default':
                    dflt = True
                else:
                    v = c.get('v')
                    while isinstance(v, dict) and v.get('k') != 'ref' and \
                            isinstance(v.get('e'), dict):
                        v = v['e']
                    has.add((v or {}).get('n') if isinstance(v, dict) else v)
            missing = [v['n'] for v in en['vals'] if v['n'] not in has]
            if dflt or s.get('all'):
                ck.good('switch over %s in %s' % (last(t), last(f['q'])))
            elif None in has:
                ck.undec('switch over %s in %s' % (last(t), last(f['q'])), 'cases')
            else:
                ck.req(not missing, 'switch over %s in %s' % (last(t), last(f['q'])),
                       'does not handle %s' % ', '.join(missing), f)
    ck.need(n, 'no switches')


def own_cases(s):
    """case labels of a switch, without those of switches within it"""
    todo = [v for k, v in s.items() if isinstance(v, (dict, list))]
    while todo:
        n = todo.pop()
        if isinstance(n, list):
            todo += [x for x in n if isinstance(x, (dict, list))]
            continue
        if n.get('s') == 'switch':
            continue
        if n.get('s') in ('case', 'default'):
            yield n
        todo += [v for v in n.values() if isinstance(v, (dict, list))]
