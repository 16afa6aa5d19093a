"""Source locations of features (P28)."""
from ..core import rule, Undecided
from ..engine import *
from ..engine import last, short
from ..model import *
from ..model import V
from .order import clean
from .writer import text_of, unv

FS = V + 'FeatureSourceRange'
LOC = FS + '::FeatureSourceLocation'
REV = FS + '::FeatureRevisionRange'
OFF = FS + '::FeatureMemberOffset'
STREAM = 'operator<<'

# class -> accessors of its parts, in the order of the constructor's parameters
PARTS = {
    FS: ('getPath', 'getStart', 'getEnd', 'getCategory', 'getMemberOffset', 'revisionRange'),
    LOC: ('getLineNumber', 'getColumnOffset'),
    REV: ('introducingCommit', 'removingCommit'),
}
HAS = {FS: {'hasStart': 'getStart', 'hasEnd': 'getEnd', 'hasMemberOffset': 'getMemberOffset',
            'hasRevisionRange': 'revisionRange'},
       REV: {'hasRemovingCommit': 'removingCommit'}}
SET = {FS: {'setPath': 'getPath', 'setCategory': 'getCategory'},
       LOC: {'setLineNumber': 'getLineNumber', 'setColumnOffset': 'getColumnOffset'}}
LOSSY = {'filename', 'stem', 'parent_path', 'extension', 'lexically_normal', 'lower', 'upper',
         'substr', 'size', 'length', 'relative_path', 'root_path', 'lexically_relative'}


def plain(t):
    """the value without optional and text wrappers"""
    while True:
        u = unv(t)
        if u[0] in ('some', 'val'):
            u = u[1]
        u = unv(text_of(u))
        if u == t:
            return t
        t = u


def part(ck, cls, getter):
    """(field the accessor returns, paths of the accessor)"""
    out = set()
    for f in ck.fns(cls + '::' + getter):
        for p in clean(ck, f):
            if p.ret in (NULL, ('str', '')):
                continue
            r = plain(p.ret)
            if r[0] == 'fld' and r[1] == THIS:
                out.add(r[2])
            else:
                out.add(None)
    if len(out) != 1 or None in out:
        raise Undecided('the part returned by %s::%s' % (last(cls), getter))
    return out.pop()


def parts(ck, cls):
    return [part(ck, cls, g) for g in PARTS[cls]]


@rule('P28', 'accessors', 'Every accessor of a source location returns a part of its own, '
      'and nothing exactly if that part is not there.')
def accessors(ck):
    for cls, gs in PARTS.items():
        seen = {}
        for g in gs:
            try:
                F = part(ck, cls, g)
            except Undecided as e:
                ck.undec(g, str(e))
                continue
            ck.req(F not in seen, '%s::%s' % (last(cls), g), 'returns the same part as %s' %
                   seen.get(F), ck.fns(cls + '::' + g)[0])
            seen[F] = g
            me = ('fld', THIS, F)
            for f in ck.fns(cls + '::' + g):
                for p in clean(ck, f):
                    has = p.facts.get(('nn', me))
                    if has is not None:
                        ck.req((plain(p.ret) == me) == has, '%s::%s' % (last(cls), g),
                               'returns %s if the part is %s' % (
                                   show(p.ret), 'there' if has else 'not there'), f)
                    else:
                        ck.req(plain(p.ret) == me, '%s::%s' % (last(cls), g),
                               'returns %s' % show(p.ret), f)
        for h, g in HAS.get(cls, {}).items():
            me = ('fld', THIS, part(ck, cls, g))
            for f in ck.fns(cls + '::' + h):
                for p in clean(ck, f):
                    has = p.facts.get(('nn', me))
                    if p.ret in (TRUE, FALSE) and has is not None:
                        ck.req((p.ret == TRUE) == has, h, 'says %s if the part is %s' % (
                            show(p.ret), 'there' if has else 'not there'), f)
                    elif p.ret[0] == 'fld' or p.ret in (TRUE, FALSE) or p.ret[0] in ('nn', 'not'):
                        ck.req(p.ret in (me, ('nn', me)), h, 'says %s' % show(p.ret), f)
                    else:
                        ck.undec(h, 'returns %s' % show(p.ret))


def stored(ck, f, fields):
    """field -> value of the last write on every path of f (None if differing)"""
    out = {}
    for n, p in enumerate(clean(ck, f)):
        w = {}
        for e in p.events:
            if e.kind == 'init' and e.q in fields:
                w[e.q] = plain(e.args[0]) if e.args else NULL
            elif e.kind == 'write' and e.q in fields and e.obj and e.obj[0] == 'fld' and \
                    e.obj[1] == THIS:
                w[e.q] = plain(e.args[0]) if e.args else NULL
            elif e.kind == 'call' and e.obj is not None and plain(e.obj)[0] == 'fld' and \
                    plain(e.obj)[1] == THIS and plain(e.obj)[2] in fields and \
                    last(e.q) in ('operator=', 'assign', 'emplace') and len(e.args) == 1:
                w[plain(e.obj)[2]] = plain(e.args[0])
        for F in fields:
            if n and out.get(F) != w.get(F):
                out[F] = ('differs',)
            else:
                out[F] = w.get(F)
    return out


@rule('P28', 'creation', 'A source location keeps every value it is created with as the '
      'part of the same meaning.')
def creation(ck):
    n = 0
    for cls, gs in PARTS.items():
        try:
            fl = parts(ck, cls)
        except Undecided as e:
            ck.undec(last(cls), str(e))
            continue
        for f in ck.fx.fns.values():
            if not f.get('ctor') or f.get('body') is None or short(f.get('cls') or '') != cls:
                continue
            ps = f['params']
            if len(ps) == 1 and last(cls) in ps[0]['t']:
                continue
            if len(ps) > len(fl):
                ck.undec(f['q'], 'constructor with %d parameters' % len(ps))
                continue
            got = stored(ck, f, fl)
            n += 1
            for i, F in enumerate(fl):
                want = ('param', i, ps[i]['n']) if i < len(ps) else NULL
                v = got.get(F)
                site = '%s is created with %s' % (last(cls), gs[i])
                if i >= len(ps):
                    ck.req(v in (None, NULL), site, 'is %s without being given' % show(
                        v or NULL), f)
                elif v == want:
                    ck.good(site)
                elif v is None or v == NULL or v[0] in ('param', 'int', 'str', 'enum', 'fld'):
                    ck.bad(site, 'the part becomes %s, not %s' % (
                        show(v) if v else 'nothing', ps[i]['n']), f)
                elif v[0] == 'call' and v[2] and last(v[1]) in LOSSY:
                    ck.bad(site, 'the part becomes %s' % show(v), f)
                elif not any(s == want for s in walk(v) if s):
                    ck.bad(site, 'the part becomes %s' % show(v), f)
                else:
                    ck.undec(site, 'the part becomes %s' % show(v))
    ck.need(n, 'constructors of source locations')


@rule('P28', 'setters', 'Changing a part of a source location changes this part to the '
      'given value and no other part.')
def setters(ck):
    for cls, ss in SET.items():
        fl = parts(ck, cls)
        for s, g in ss.items():
            F = part(ck, cls, g)
            for f in ck.fns(cls + '::' + s):
                got = stored(ck, f, fl)
                want = ('param', 0, f['params'][0]['n'])
                for x, y in got.items():
                    if x != F:
                        ck.req(y is None, s, 'also changes %s' % last(x), f)
                    elif y is not None and y != want and any(z == want for z in walk(y) if z) \
                            and y[0] not in ('op', 'not') and not (
                            y[0] == 'call' and last(y[1]) in LOSSY):
                        ck.undec(s, 'sets %s' % show(y))
                    else:
                        ck.req(y == want, s, 'sets %s' % (show(y) if y else 'nothing'), f)


@rule('P28', 'copies', 'A copy of a source location has the same parts.')
def copies(ck):
    n = 0
    for cls in list(PARTS) + [OFF]:
        rec = ck.fx.recs.get(cls)
        if not rec:
            continue
        fields = [x['q'] for x in rec['fields']]
        for f in ck.fx.fns.values():
            if f.get('body') is None or short(f.get('cls') or '') != cls:
                continue
            if not (f.get('ctor') or last(f['q']) == 'operator=') or len(f['params']) != 1 or \
                    last(cls) not in f['params'][0]['t']:
                continue
            got = stored(ck, f, fields)
            me = ('param', 0, f['params'][0]['n'])
            for F in fields:
                n += 1
                ck.req(got.get(F) == ('fld', me, F), 'copy of %s' % last(cls),
                       'the copy has %s as %s' % (show(got[F]) if got.get(F) else 'nothing',
                                                  last(F)), f)
    if not n:
        ck.good('copies', 'all generated by the compiler, part by part')


def operands(a):
    """(x, y, equal) of an atom or term comparing two values"""
    if a[0] == 'eq':
        return a[1], a[2], True
    if a[0] == 'op' and a[1] in ('==', '!='):
        return a[2], a[3], a[1] == '=='
    if a[0] == 'call' and last(a[1]) in ('operator==', 'operator!='):
        xs = ((a[2],) if a[2] else ()) + tuple(a[3])
        if len(xs) == 2:
            return xs[0], xs[1], last(a[1]) == 'operator=='
    if a[0] == 'call' and last(a[1]) == 'compare' and a[2] and len(a[3]) == 1:
        return a[2], a[3][0], False           # truth means a difference
    if a[0] == 'nn':
        return operands(a[1])
    if a[0] == 'not':
        x = operands(a[1])
        return x and (x[0], x[1], not x[2])
    return None


def split(p):
    """(facts, truth) of a path that returns a condition"""
    r, neg = p.ret, False
    while r[0] == 'not':
        r, neg = r[1], not neg
    if r in (TRUE, FALSE):
        return [(dict(p.facts), (r == TRUE) != neg)]
    return [(dict(p.facts, **{}) | {r: True}, not neg), (dict(p.facts) | {r: False}, neg)]


def compared(fs, other, fields):
    """field -> True (equal), False (different); 'odd' comparisons, 'lossy' fields"""
    got, odd, lossy = {}, [], []
    for a, v in fs.items():
        o = operands(a)
        if not o:
            if any(s == other for s in walk(a) if s):
                odd.append(a)
            continue
        x, y, same = plain(o[0]), plain(o[1]), o[2]
        if x[0] == 'fld' and y[0] == 'fld' and x[2] == y[2] and x[2] in fields and \
                {x[1], y[1]} == {THIS, other}:
            got[x[2]] = (v == same)
        elif x[0] == 'call' and y[0] == 'call' and x[1] == y[1] and last(x[1]) in LOSSY or \
                x[0] == y[0] == 'size':
            lossy.append(a)
        else:
            odd.append(a)
    return got, odd, lossy


def equality(ck, cls, fields, f, negated=False):
    other = ('param', 0, f['params'][0]['n'])
    site = '%s::%s' % (last(cls), last(f['q']))
    for p in clean(ck, f):
        for fs, truth in split(p):
            if negated:
                truth = not truth
            got, odd, lossy = compared(fs, other, fields)
            if truth:
                diff = [x for x in fields if got.get(x) is False]
                miss = [x for x in fields if x not in got]
                if diff:
                    ck.bad(site, 'locations that differ in %s are equal' % last(diff[0]), f)
                elif miss and odd:
                    ck.undec(site, 'comparison %s' % show(odd[0]))
                elif miss:
                    ck.bad(site, 'equality does not depend on %s' % last(miss[0]), f)
                else:
                    ck.good(site)
            else:
                if any(got.get(x) is False for x in fields):
                    ck.good(site)
                elif odd or lossy:
                    ck.undec(site, 'comparison %s' % show((odd + lossy)[0]))
                else:
                    ck.bad(site, 'locations with equal parts are unequal: %s' % ', '.join(
                        '%s%s' % ('' if v else 'not ', show(a)) for a, v in fs.items()), f)


@rule('P28', 'equality', 'Two source locations are equal exactly if category, path, both '
      'positions and member offset are; member '
      'offsets exactly if the member and all classes are.')
def equals(ck):
    sets = {FS: [part(ck, FS, g) for g in PARTS[FS][:5]],
            OFF: [x['q'] for x in ck.fx.recs[OFF]['fields']]}
    for cls, fields in sets.items():
        fs = [f for f in ck.fx.fns.values() if f.get('body') is not None and
              last(f['q']) in ('operator==', 'operator!=') and len(f['params']) == 1 and
              short(f.get('cls') or '') == cls]
        ck.need(any(last(f['q']) == 'operator==' for f in fs), 'equality of ' + last(cls))
        for f in fs:
            equality(ck, cls, fields, f, last(f['q']) == 'operator!=')


@rule('P28', 'positions', 'Positions are ordered by line and, within a line, by column; they are equal '
      'exactly if both are.')
def positions(ck):
    l, c = parts(ck, LOC)
    fs = [f for f in ck.fx.fns.values() if f.get('body') is not None and
          last(f['q']) in ('operator<', 'operator>', 'operator<=', 'operator>=', 'operator==',
                           'operator!=') and
          short(f.get('cls') or '') == LOC and len(f['params']) == 1]
    ck.need(fs, 'comparison of positions')
    for f in fs:
        other = ('param', 0, f['params'][0]['n'])
        op = last(f['q'])[len('operator'):]
        bad = und = None
        paths = list(clean(ck, f))
        for x in (-1, 0, 1):
            for y in (-1, 0, 1):
                # sign of this minus other
                def val(a):
                    if a[0] == 'not':
                        v = val(a[1])
                        return v if v is None else not v
                    if a[0] == 'nn':
                        return val(a[1])
                    if a[0] == 'lt':
                        k, u, w = '<', a[1], a[2]
                    elif a[0] == 'eq':
                        k, u, w = '==', a[1], a[2]
                    elif a[0] == 'op' and a[1] in ('<', '>', '<=', '>=', '==', '!='):
                        k, u, w = a[1], a[2], a[3]
                    else:
                        return None
                    u, w = plain(u), plain(w)
                    if u[0] != 'fld' or w[0] != 'fld':
                        return None
                    if u[2] != w[2] or u[2] not in (l, c):
                        return 'odd'
                    s = x if u[2] == l else y
                    if (u[1], w[1]) == (other, THIS):
                        s = -s
                    elif (u[1], w[1]) != (THIS, other):
                        s = 0
                    return {'<': s < 0, '>': s > 0, '<=': s <= 0, '>=': s >= 0,
                            '==': s == 0, '!=': s != 0}[k]
                s = x or y
                want = {'<': s < 0, '>': s > 0, '<=': s <= 0, '>=': s >= 0, '==': s == 0,
                        '!=': s != 0}[op]
                res = set()
                for p in paths:
                    vs = [(val(a), v) for a, v in p.facts.items()]
                    if any(a == 'odd' for a, v in vs):
                        bad = 'compares a line with a column'
                    elif any(a is None for a, v in vs):
                        und = 'condition'
                    elif all(a == v for a, v in vs):
                        r = p.ret == TRUE if p.ret in (TRUE, FALSE) else val(p.ret)
                        if r is None:
                            und = show(p.ret)
                        res.add(r)
                if not und and not bad and res != {want}:
                    bad = 'a position %s is %s the other' % (
                        {-1: 'on an earlier line', 0: 'on the same line', 1: 'on a later line'}[x]
                        + {-1: ', at a smaller column,', 0: ', at the same column,',
                           1: ', at a larger column,'}[y],
                        ('' if not want else 'not ') + op)
        site = 'position ' + op
        if bad:
            ck.bad(site, bad, f)
        elif und:
            ck.undec(site, und)
        else:
            ck.good(site)


def pieces(p):
    """literal texts and values written on a path, in order"""
    out = []

    def add(t):
        t = plain(t)
        if t[0] == 'cat':
            for x in t[1]:
                add(x)
        elif t == ('str', ''):
            pass
        else:
            out.append(t)
    for e in p.events:
        if e.kind == 'call' and last(e.q) in (STREAM, 'append', 'operator+='):
            if last(e.q) == STREAM:
                if e.args:
                    add(e.args[-1])
            elif e.args:
                add(e.args[0])
    add(p.ret)
    return out


@rule('P28', 'text', 'The text of a source location shows its path, the line and column of '
      'the start and of the end and the member offset, each exactly if it is there, in this '
      'order and separated.')
def text(ck):
    path, st, en, cat, off, rev = parts(ck, FS)
    l, c = parts(ck, LOC)
    of = [x['q'] for x in ck.fx.recs[OFF]['fields']]

    def fld(b, F):
        return ('fld', b, F)

    def judge(f, p, want, site, allowed=()):
        ps = [t for t in pieces(p) if not any(s in allowed for s in walk(t) if s)]
        if any(t[0] == 'call' and not (t[2] and t[2][0] == 'fld') for t in ps):
            ck.undec(site, 'text %s' % [show(t) for t in ps][:4])
            return
        vals = [t for t in ps if t[0] != 'str']
        ck.req(vals == want, site, 'shows %s instead of %s' % (
            [show(t) for t in vals], [show(t) for t in want]), f)
        if vals == want:
            for i in range(len(ps) - 1):
                if ps[i][0] != 'str' and ps[i + 1][0] != 'str':
                    ck.bad(site, 'nothing between %s and %s' % (show(ps[i]), show(ps[i + 1])), f)
    for f in ck.fns(LOC + '::toString'):
        for p in clean(ck, f):
            judge(f, p, [fld(THIS, l), fld(THIS, c)], 'text of positions')
    for f in ck.fns(FS + '::toString'):
        for p in clean(ck, f):
            want = [fld(THIS, path)]
            skip = False
            for F, sub in ((st, (l, c)), (en, (l, c)), (off, None)):
                has = p.facts.get(('nn', fld(THIS, F)))
                if has is None:
                    ck.bad('text of locations', 'does not depend on whether %s is there' %
                           last(F), f)
                    skip = True
                elif has and sub:
                    want += [fld(fld(THIS, F), s) for s in sub]
                elif has:
                    want += [fld(fld(THIS, F), member(ck))]
            if not skip:
                judge(f, p, want, 'text of locations',
                      [fld(fld(THIS, off), x) for x in of if x != member(ck)])


def member(ck):
    return part(ck, OFF, 'memberName')


@rule('P28', 'member-offset', 'A member offset is made of a text exactly if it has the form '
      'class::member; the member is what follows the last "::", the classes are the parts '
      'before it; its text is made of all classes and the member again.')
def offset(ck):
    m = member(ck)
    of = [x['q'] for x in ck.fx.recs[OFF]['fields']]
    cl = [x for x in of if x != m]
    ck.need(len(cl) == 1, 'the classes of a member offset')
    cl = cl[0]
    fs = ck.fns(OFF + '::createFeatureMemberOffset')
    ck.need(fs, 'creation of member offsets')
    sep = ('str', '::')

    def form(p, arg):
        """(True if the text has the form, its halves)"""
        for a, v in p.facts.items():
            t = a[1] if a[0] in ('empty', 'nn') else None
            if t and t[0] == 'fld' and last(t[2]) == 'second' and t[1][0] == 'call':
                s = t[1]
                if s[2] == arg and last(s[1]) in ('rsplit', 'split') and sep in s[3]:
                    return (v != (a[0] == 'empty'), s, t[2])
        return None
    for f in fs:
        arg = ('param', 0, f['params'][0]['n'])
        for p in ck.paths(f, join=False):
            fc = form(p, arg)
            if not fc:
                ck.undec('form', 'condition %s' % [show(a) for a in p.facts])
                continue
            ok, s, second = fc
            ck.req(last(s[1]) == 'rsplit', 'member', 'the member is not what follows the last '
                   '"::"', f)
            ck.req((p.ret != NULL) == ok, 'form', 'a text %s the form yields %s' % (
                'of' if ok else 'without', show(p.ret)), f)
            if p.ret == NULL or not ok:
                continue
            new = p.ret
            while new[0] in ('some', 'val'):
                new = new[1]
            if new[0] != 'new' or len(new[2]) != 2:
                ck.undec('form', 'returns %s' % show(p.ret))
                continue
            ctor = ck.fx.fns.get(new[4])
            vals = [plain(x) for x in new[2]]
            got = {}
            if ctor is not None:
                got = stored(ck, ctor, of)
            inv = {v[1]: k for k, v in got.items() if v and v[0] == 'param'}
            lost = [last(k) for k in (m, cl) if got.get(k) in (('list', ()), ('str', ''))]
            if lost:
                ck.bad('form', 'the %s of the offset is always empty' % lost[0], ctor or f)
                continue
            if set(inv.values()) != {m, cl}:
                ck.undec('form', 'constructor of member offsets')
                continue
            by = {inv[i]: v for i, v in enumerate(vals)}
            ck.req(by[m] == ('fld', s, second), 'member', 'the member becomes %s' % show(by[m]), f)
            C = by[cl]
            first = second[:-len('second')] + 'first'
            fst = ('fld', s, first)
            sp = [e for e in p.events if e.kind == 'call' and last(e.q) == 'split' and
                  e.args and plain(e.args[0]) == C]
            em = p.facts.get(('empty', fst))
            if C[0] != 'new':
                ck.undec('classes', 'classes %s' % show(C))
                continue
            put = [e for e in p.events if e.kind == 'call' and e.obj == C]
            if em is True:
                ck.req(not [e for e in put if last(e.q) in ADD | {'push_back'}], 'classes',
                       'a text without classes gets classes', f)
                continue
            if len(sp) != 1 or put:
                ck.req(bool(sp or put), 'classes', 'the classes are dropped', f)
                if sp or put:
                    ck.undec('classes', 'how the classes are split')
                continue
            e = sp[0]
            ck.req(plain(e.obj) == fst, 'classes', 'the classes are taken from %s' %
                   show(e.obj), f)
            ck.req(sep in e.args, 'classes', 'the classes are separated by %s' % (
                [show(a) for a in e.args[1:2]]), f)
            mx = [a for a in e.args[2:] if a[0] == 'int']
            ck.req(not mx or mx[0] == ('int', -1), 'classes', 'the classes are split %s times '
                   'at most' % (mx and show(mx[0])), f)
    for f in ck.fns(OFF + '::isMemberOffsetFormat'):
        arg = ('param', 0, f['params'][0]['n'])
        for p in ck.paths(f, join=False):
            fc = form(p, arg)
            if not fc:
                ck.undec('form test', 'condition')
                continue
            if p.ret in (TRUE, FALSE):
                ck.req((p.ret == TRUE) == fc[0], 'form test', 'says %s for a text %s the form' % (
                    show(p.ret), 'of' if fc[0] else 'without'), f)
                ck.req(last(fc[1][1]) == 'rsplit', 'form test', 'looks at the first "::"', f)
    # texts of member offsets
    K = ('fld', THIS, cl)
    for f in ck.fns(OFF + '::className'):
        n = ('param', 0, f['params'][0]['n'])
        ps = list(clean(ck, f, mark_loops='ret'))
        for c, e in once_only(ps):
            ck.bad('class names', 'not all classes are shown', f)
        for p in ps:
            has = p.facts.get(('nn', n))
            if has is None:
                ck.undec('class names', 'no condition on the nesting')
                continue
            if has:
                want = ('at', K, ('op', '-', ('op', '-', ('size', K), n), ('int', 1)))
                alt = ('at', K, ('op', '-', ('op', '-', ('size', K), ('int', 1)), n))
                r = plain(p.ret)
                if r[0] == 'at' and r[1] == K:
                    ck.req(r in (want, alt) or lin(r[2], K, n) == (1, -1, -1), 'class names',
                           'the class at a nesting is %s' % show(r), f)
                else:
                    ck.undec('class names', 'returns %s' % show(r))
                continue
            ps = pieces(p)
            em = p.facts.get(('empty', K))
            if em:
                ck.req(not ps, 'class names', 'no classes are shown as %s' % [
                    show(x) for x in ps], f)
                continue
            vals = [t for t in ps if t[0] != 'str']
            if any(t[0] not in ('at', 'elem', 'kid') for t in vals) or not vals:
                ck.undec('class names', 'text %s' % [show(t) for t in vals])
                continue
            if vals[0][0] == 'at':
                ck.req(vals[0] == ('at', K, ('int', 0)), 'class names', 'starts with %s' %
                       show(vals[0]), f)
                more = p.facts.get(('lt', ('int', 1), ('size', K)))
                if more:
                    ck.req(len(vals) == 2 and vals[1] == ('at', K, ('int', 1)) and
                           sep in ps, 'class names', 'continues with %s' % [
                               show(t) for t in ps[1:]], f)
                    st = [e for e in p.events if e.kind == 'set' and e.args]
                    ck.req(not st or any(e.args[-1] == ('int', 2) for e in st), 'class names',
                           'classes are skipped', f)
                elif more is False:
                    ck.req(len(vals) == 1, 'class names', 'shows %s' % [show(t) for t in ps], f)
                else:
                    ck.bad('class names', 'does not depend on the number of classes', f)
    for f in ck.fns(OFF + '::toString'):
        for p in clean(ck, f):
            ps = pieces(p)
            ck.req(len(ps) >= 2 and ps[-1] == ('fld', THIS, m) and ps[-2] == sep and
                   not any(t == ('fld', THIS, m) for t in ps[:-1]), 'text of member offsets',
                   'ends with %s' % [show(t) for t in ps[-2:]], f)
            if p.facts.get(('empty', K)) is False:
                ck.req(any(s == K for t in ps for s in walk(t) if s), 'text of member offsets',
                       'shows no classes', f)
    for f in ck.fns(OFF + '::nestingDepth'):
        for p in clean(ck, f):
            ck.req(plain(p.ret) == ('size', K), 'nesting depth', 'is %s' % show(p.ret), f)


def lin(t, K, n):
    """coefficients (size, n, const) of a linear term"""
    if t == ('size', K):
        return (1, 0, 0)
    if t == n or t[0] == 'val' and t[1] == n:
        return (0, 1, 0)
    if t[0] == 'int':
        return (0, 0, t[1])
    if t[0] == 'op' and t[1] in '+-':
        a, b = lin(t[2], K, n), lin(t[3], K, n)
        if a and b:
            s = 1 if t[1] == '+' else -1
            return tuple(x + s * y for x, y in zip(a, b))
    return None


@rule('P28', 'of-features', 'A feature has the locations that were added to it, in order; '
      'removing takes out one equal location, updating replaces one equal location, and '
      'both do nothing if there is none.')
def of_features(ck):
    fs = ck.fns(V + 'Feature::getLocations')
    ck.need(fs, 'locations of features')
    P = list(clean(ck, fs[0]))[0].ret
    if P[0] != 'fld' or P[1] != THIS:
        raise Undecided('locations of features')
    for g in ('getLocationsBegin', 'getLocationsEnd'):
        for f in ck.fns(V + 'Feature::' + g):
            for p in clean(ck, f):
                ck.req(p.ret == (('iter' if 'Begin' in g else 'end'), P) or
                       p.ret[0] not in ('iter', 'end'), g, 'is %s' % show(p.ret), f)
    for f in ck.fns(V + 'Feature::hasLocations'):
        for p in clean(ck, f):
            e = p.facts.get(('empty', P))
            if p.ret in (TRUE, FALSE) and e is not None:
                ck.req((p.ret == TRUE) != e, 'has locations', 'says %s' % show(p.ret), f)
            elif p.ret[0] in ('not', 'empty'):
                ck.req(p.ret == ('not', ('empty', P)), 'has locations', 'says %s' %
                       show(p.ret), f)

    def changes(p):
        return [e for e in p.events if e.kind == 'call' and (
            e.obj == P and last(e.q) in ADD | {'push_back', 'erase', 'clear', 'pop_back',
                                               'resize', 'insert', 'emplace_back'} or
            last(e.q) == 'operator=') or e.kind == 'write']
    for f in ck.fns(V + 'Feature::addLocation'):
        a = ('param', 0, f['params'][0]['n'])
        for p in clean(ck, f):
            ch = changes(p)
            ck.req(len(ch) == 1 and last(ch[0].q) in ('push_back', 'emplace_back') and
                   ch[0].obj == P and plain(ch[0].args[0]) == a, 'added location',
                   'changes %s' % [(last(e.q), [show(x) for x in e.args]) for e in ch], f)
    for name, n in (('removeLocation', 1), ('updateLocation', 2)):
        for f in ck.fns(V + 'Feature::' + name):
            a = ('param', 0, f['params'][0]['n'])
            for p in clean(ck, f):
                has = p.facts.get(('contains', P, a))
                ch = changes(p)
                if has is None:
                    if ch and not p.facts:
                        ck.bad(name, 'changes locations without looking for the given one', f)
                    else:
                        ck.undec(name, 'conditions %s' % [show(x) for x in p.facts])
                    continue
                if not has:
                    ck.req(not ch, name, 'changes other locations', f)
                    if p.ret in (TRUE, FALSE):
                        ck.req(p.ret == FALSE, name, 'reports success', f)
                elif n == 1:
                    ck.req(len(ch) == 1 and last(ch[0].q) == 'erase' and len(ch[0].args) == 1
                           and ch[0].args[0] == ('found', P, a), name,
                           'the given location is not removed: %s' % [
                               (last(e.q), [show(x) for x in e.args]) for e in ch], f)
                else:
                    b = ('param', 1, f['params'][1]['n'])
                    ck.req(len(ch) == 1 and plain(ch[0].args[-1]) == b, name,
                           'the given location is not replaced: %s' % [
                               (last(e.q), [show(x) for x in e.args]) for e in ch], f)
                    if p.ret in (TRUE, FALSE):
                        ck.req(p.ret == TRUE, name, 'reports failure', f)
