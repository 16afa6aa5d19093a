"""Reading SXFM files (P19)."""
import re
from ..core import rule, Undecided
from ..engine import *
from ..engine import last, short
from ..model import *
from ..model import V

SX = V + 'FeatureModelSxfmParser::'
TREE, CONS = SX + 'parseFeatureTree', SX + 'parseConstraints'
CARD, ONE = SX + 'extractCardinality', SX + 'parseCardinality'
BLD = V + 'FeatureModelBuilder::'
MARK = {114: 'r', 109: 'm', 111: 'o', 103: 'g', 32: ' '}
WHAT = {114: 'root (:r)', 109: 'mandatory feature (:m)', 111: 'optional feature (:o)',
        103: 'group (:g)', 32: 'member of a group (: )'}
STORE = {'insert', 'emplace', 'insert_or_assign', 'try_emplace', 'operator='}
CUTS = {'substr', 'split', 'slice', 'rsplit', 'take_front', 'drop_front', 'drop_while',
        'take_while', 'str', 'trim', 'ltrim', 'rtrim', 'consume_front'}


def fns(ck, q):
    f = [g for g in ck.fns(q) if g.get('body') is not None]
    if len(f) != 1:
        raise Undecided('function %s' % last(q))
    return f[0]


def wild(ck):
    for k, v in getattr(ck.fx, 'consts', {}).items():
        if k.endswith('SxfmConstants::WILDCARD') and isinstance(v, int):
            return ('int', v)
    return ('int', -1)


def cut(t):
    return mentions(t, lambda x: x[0] == 'call' and last(x[1]) in CUTS)


def part(v):
    """names cut out of a line are not told apart"""
    if v and v[0] == 'call' and last(v[1]) in CUTS or cut(v) and not mentions(
            v, lambda x: x[0] == 'call' and last(x[1]) in ('count', 'at', 'operator[]', 'size',
                                                           'length')):
        return ('part',)
    return v


def linear(t):
    """{monomial: coefficient} of an arithmetic term"""
    t = unk(t)
    while t and t[0] in ('trunc', 'cast') and len(t) == 3:
        t = unk(t[2])
    if t[0] == 'int':
        return {(): t[1]} if t[1] else {}
    if t[0] == 'op' and len(t) == 4 and t[1] in ('+', '-', '*'):
        a, b = linear(t[2]), linear(t[3])
        out = {}
        if t[1] == '*':
            for x, c in a.items():
                for y, d in b.items():
                    k = tuple(sorted(x + y, key=str))
                    out[k] = out.get(k, 0) + c * d
        else:
            out = dict(a)
            for y, d in b.items():
                out[y] = out.get(y, 0) + (d if t[1] == '+' else -d)
        return {k: v for k, v in out.items() if v}
    return {(t,): 1}


def indent(t):
    return t[0] == 'fld' and last(str(t[2])) == 'Indentation'


def builder_ops(ck):
    return [q for q in ck.fx.by_q if q.startswith(BLD)]


def tree_paths(ck):
    if hasattr(ck.fx, 'p19'):
        ps, en, a, n = ck.fx.p19
        ck.analysed |= a
        ck.npaths += n
        return ps, en
    f = fns(ck, TREE)
    a0, n0 = set(ck.analysed), ck.npaths

    def keep(a):
        return mentions(a, lambda t: t[0] == 'call' and (
            t[1] == CARD or last(t[1]) in ('at', 'operator[]', 'front', 'getline'))) or \
            a[0] in ('contains', 'empty') and a[1][0] in ('new', 'mu') and 'map' in str(a[1]) or \
            a[0] in ('eq', 'lt', 'le') and mentions(a, lambda t: t[0] == 'mu')

    def rec(e):
        return e.kind in ('iter', 'brk', 'lret', 'write') or e.kind == 'call' and (
            e.q.startswith(BLD) or last(e.q) in STORE | {'erase', 'clear', 'push_back',
                                                         'emplace_back'})
    en = Engine(ck.fx, record=rec, join=keep, havoc='all', mark_loops='ret',
                opaque=[CARD] + builder_ops(ck), max_paths=60000)
    en.absval = part
    en.again_exits = True
    ps = []
    for p in ck.paths(f, eng=en):
        if p.kind != 'ret':
            continue
        fs = ufacts(p)
        if fs is not None:
            ps.append((p, fs))
    ck.fx.p19 = ps, en, set(ck.analysed) - a0, ck.npaths - n0
    return ps, en


def marker(fs):
    """(marker the line has, markers it does not have) of a path"""
    yes, no = set(), set()
    for a, v in fs.items():
        if a[0] == 'eq':
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if y[0] in ('int', 'char') and y[1] in MARK and mentions(
                        x, lambda t: t[0] in ('call', 'at') and (
                            t[0] == 'at' or last(t[1]) in ('at', 'operator[]', 'front'))):
                    (yes if v else no).add(y[1])
    return (yes.pop() if len(yes) == 1 else None), no


def created(p):
    return [e for e in p.events if e.kind == 'call' and e.q.startswith(BLD) and
            last(e.q.split('<')[0]) in ('makeRoot', 'makeFeature')]


def calls(p, name):
    return [e for e in p.events if e.kind == 'call' and e.q.startswith(BLD) and
            last(e.q.split('<')[0]) == name]


def is_group_map(t):
    return 'tuple' in str(t) or 'RelationshipKind' in str(t)


def stores(p):
    """[(map, key, value, event)] written on a path"""
    out = []
    for e in p.events:
        o = unk(e.obj) if e.obj is not None else None
        if o is None or not e.args:
            continue
        if e.kind == 'write' or last(e.q) == 'operator=':
            if o[0] == 'fld' and last(str(o[2])) == 'second' and o[1][0] in ('mapent', 'found'):
                o = o[1]
            if o[0] == 'found':
                out.append((o[1], VOID, unk(e.args[-1]), e))
            if o[0] in ('at', 'mapval', 'mapent'):
                out.append((o[1], o[2], unk(e.args[-1]), e))
        elif last(e.q) in STORE and len(e.args) >= 2 and 'map' in str(o):
            out.append((o, unk(e.args[0]), unk(e.args[-1]), e))
    return [s for s in out if s[0][0] != 'fld']


def accepted(p):
    return p.ret in (TRUE, ('lit', True))


def is_read(e):
    return e.kind == 'call' and (e.q in (TREE, CONS) or e.q.startswith(BLD) and last(
        e.q.split('<')[0]) in ('makeRoot', 'makeFeature', 'addConstraint'))


def got_line(fs):
    for a, v in fs.items():
        if a[0] in ('nn', 'eq') and mentions(a, lambda t: t[0] == 'call' and
                                             last(t[1]) == 'getline'):
            flip = mentions(a, lambda t: t[0] == 'call' and last(t[1]) in ('operator!', 'eof',
                                                                          'fail'))
            if v != flip:
                return True
    return False


def stopped(ps):
    """breaks that end the loop over the lines after one was read"""
    outer = {}
    for p, fs in ps:
        seen = False
        for e in p.events:
            seen = seen or is_read(e)
            if seen and e.kind in ('iter', 'brk') and e.args:
                outer[unk(e.args[0])] = e.line
    if not outer:
        return []
    top = min(outer, key=lambda t: outer[t])
    out = []
    for p, fs in ps:
        if not accepted(p):
            continue
        for i, e in enumerate(p.events):
            if e.kind == 'brk' and e.args and unk(e.args[0]) == top and not any(
                    x.kind == 'iter' and x.args and unk(x.args[0]) == top for x in p.events[:i]):
                if any(is_read(x) for x in p.events[:i]) or got_line(fs):
                    out.append(e)
    return out[:1]


@rule('P19', 'lines', 'Each line of the tree creates exactly the feature its marker stands for, '
      'optional exactly for :o; a line without a known marker makes the file invalid.')
def lines(ck):
    f = fns(ck, TREE)
    ps, en = tree_paths(ck)
    seen = {}
    some = False
    for p, fs in ps:
        k, no = marker(fs)
        cr = created(p)
        if k is None:
            if cr and set(MARK) <= no:
                ck.bad('other lines', 'a line without a known marker becomes a feature', cr[0])
            elif not cr and set(MARK) <= no and not accepted(p):
                ck.good('other lines')
            elif not cr and set(MARK) <= no:
                ck.bad('other lines', 'a line without a known marker is ignored', f)
            continue
        some = True
        site = WHAT[k]
        if not accepted(p):
            continue
        seen.setdefault(k, False)
        if not cr:
            ck.bad(site, 'no feature is created', f)
            continue
        if len(cr) > 1:
            ck.bad(site, 'becomes %d features' % len(cr), cr[1])
            continue
        seen[k] = True
        e = cr[0]
        root = last(e.q.split('<')[0]) == 'makeRoot'
        ck.req(root == (k == 114), site, 'becomes %s' % ('the root' if root else 'an ordinary '
                                                        'feature'), e)
        nm = unk(e.args[0])
        if not mentions(nm, lambda t: t == ('part',)):
            # an artificial name
            cnt = [t for t in walk(nm) if t and t[0] == 'mu']
            grows = any(mentions(nm, lambda t: t[0] == 'op' and t[1] in '+-' and
                                 mentions(t, lambda y: y == m)) for m in cnt)
            for m in cnt:
                try:
                    d, now = en.lookup(p.st, m[1])
                except Exception:
                    continue
                grows = grows or now is not None and unk(now) != m
            if cnt or nm[0] in ('str', 'cat'):
                ck.req(grows, 'artificial names', 'are the same for several lines', e)
        if root or k == 114:
            continue
        ck.req('BinaryFeature' in e.q, site, 'becomes a feature of another kind', e)
        opt = e.args[1] if len(e.args) > 1 else FALSE
        if opt in (TRUE, FALSE):
            ck.req((opt == TRUE) == (k == 111), site, 'becomes %s' % (
                'optional' if opt == TRUE else 'mandatory'), e)
        elif opt[0] in ('mu', 'undef'):
            ck.bad(site, 'is optional if the line before was', e)
        else:
            ck.undec(site, 'optional if %s' % show(opt))
    if not some:
        raise Undecided('markers of the lines')
    for k in MARK:
        if k not in seen:
            ck.bad(WHAT[k], 'is never accepted', f)
    for e in stopped(ps):
        ck.bad('all lines', 'reading ends before the last', e)
    for c, e in once_only([p for p, _ in ps]):
        ck.bad('all lines', 'reading ends after the first', e)


def level_of(p):
    """(map, level, name) under which a feature is remembered"""
    s = [(m, k, v, e) for m, k, v, e in stores(p) if not is_group_map(m)]
    return s[-1] if s else None


@rule('P19', 'tree', 'Each line but the first is put below the latest line that is indented by '
      'one step less; a line that is indented by more than one further step makes the file '
      'invalid.')
def tree(ck):
    f = fns(ck, TREE)
    ps, en = tree_paths(ck)
    n = 0
    firsts = set()
    for p, fs in ps:
        for a, v in fs.items():
            if a[0] == 'eq':
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if x[0] == 'mu' and y == ('int', -1):
                        firsts.add(x)
    for p, fs in ps:
        cr = created(p)
        if not cr or not accepted(p):
            continue
        nm = unk(cr[0].args[0])
        lv = level_of(p)
        if lv is None:
            if any(level_of(q) for q, _ in ps):
                ck.bad('levels', 'the line is not remembered if there was one on its level', f)
            else:
                ck.undec('levels', 'how the features of the levels are remembered')
            continue
        m, L, v, ev = lv
        if L == VOID:
            ck.undec('levels', 'level of a line')
            continue
        ck.req(v == nm, 'levels', 'the line is remembered as %s' % show(v), ev)
        cnt = [t for t in walk(L) if t and t[0] == 'call' and last(t[1]) == 'count']
        for t in cnt:
            ck.req(mentions(t[3], indent), 'indentation', 'counted are %s' % [
                show(x) for x in t[3]], ev)
        at = [t for a in fs if a[0] == 'eq' for t in walk(a) if t and t[0] == 'call' and last(
            t[1]) in ('at', 'operator[]') and any(x[0] in ('int', 'char') and x[1] in MARK
                                                  for x in a[1:])]
        for t in at:
            if not t[3] or t[2] is None:
                continue
            i = linear(t[3][0])
            i.pop((), None)
            c = linear(t[3][0]).get((), 0)
            atoms = [set(k) for k in i]
            if len(i) == 1 and list(i.values()) == [1] and cnt and len(atoms[0]) == 2 and \
                    any(mentions(x, indent) and last(x[1]) in ('length', 'size')
                        for x in atoms[0] if x[0] == 'call'):
                ck.req(c == 1, 'markers', 'character %d after the indentation is read' % c, f)
            elif len(i) == 1 and cnt and all(len(x) == 1 and mentions(tuple(x), lambda y: y in cnt)
                                             for x in atoms):
                ck.bad('markers', 'the length of an indentation step is not considered', f)
        first = None
        for x in firsts:
            w = fs.get(('eq', x, ('int', -1)), fs.get(('eq', ('int', -1), x)))
            if w is not None:
                first = w
        edges = calls(p, 'addEdge')
        if first:
            ck.req(not edges, 'first line', 'is put below %s' % [show(x) for e in edges
                                                                for x in e.args[:1]], f)
            continue
        if first is None:
            ck.undec('tree', 'whether a line is the first')
            continue
        n += 1
        if len(edges) != 1:
            ck.bad('tree', 'a line is put below %d others' % len(edges), f)
            continue
        e = edges[0]
        a, b = unk(e.args[0]), unk(e.args[1])
        ck.req(b == nm, 'tree', '%s is put below the parent' % show(b), e)
        want = ('op', '-', L, ('int', 1))
        if a[0] in ('mapval', 'at', 'mapent') and a[1] == m:
            ck.req(a[2] == want, 'parent', 'the feature at level %s is the parent' % show(a[2]), e)
            ck.req(a[2] != want or any(
                c[0] == 'contains' and c[2] == want and v and (c[1] == m or c[1][0] == 'ver' and c[1][1] == m)
                for c, v in fs.items()), 'parent',
                   'a line without a parent is accepted', e)
        else:
            ck.undec('parent', 'parent %s' % show(a))
        # not deeper than one step
        rel = [(t, w) for t, w in fs.items() if t[0] in ('lt', 'le') and mentions(
            t, lambda x: x == L) and mentions(t, lambda x: x in firsts)]
        if not rel:
            ck.bad('steps', 'a line may be indented by several further steps', f)
        for t, w in rel:
            d = [('op', '-', L, x) for x in firsts]
            lim = [('op', '+', x, ('int', 1)) for x in firsts]
            if t[0] == 'lt' and t[1] == ('int', 1) and t[2] in d or \
                    t[0] == 'lt' and t[2] == L and t[1] in lim:
                ck.req(w is False, 'steps', 'further steps are refused or required', f)
            elif t[0] == 'lt' and t[1][0] == 'int' and t[2] in d:
                ck.bad('steps', 'a line may be indented by %s further steps' % t[1][1], f)
        # the level is remembered
        mu = [x for x in firsts if any(mentions(t, lambda s: s == x) for t, _ in rel)]
        for x in mu:
            try:
                d, now = en.lookup(p.st, x[1])
            except Exception:
                now = None
            if now is not None and unk(now) != L:
                if unk(now) == x:
                    ck.bad('steps', 'the level of a line is not remembered', f)
                else:
                    ck.undec('steps', 'level remembered as %s' % show(now))
    if not any(calls(p, 'addEdge') for p, _ in ps):
        ck.bad('tree', 'lines are never put below others', f)
        n += 1
    ck.need(n, 'lines below others')


@rule('P19', 'groups', 'The children of a :g line form a group of its feature, an or group for '
      '[1,*] and an alternative group for [1,1]; no other line has a group, and every group is '
      'created.')
def groups(ck):
    f = fns(ck, TREE)
    ps, en = tree_paths(ck)
    W = wild(ck)
    n = 0
    kinds = set()
    for p, fs in ps:
        k, no = marker(fs)
        card = fs.get(('nn', [t for a in fs for t in walk(a) if t and t[0] == 'call' and
                              t[1] == CARD][0])) if any(
            t and t[0] == 'call' and t[1] == CARD for a in fs for t in walk(a)) else None
        if card is False and accepted(p):
            ck.bad('cardinality', 'a group without a valid cardinality is accepted', f)
        if not accepted(p) or k is None:
            continue
        cr = created(p)
        g = [s for s in stores(p) if is_group_map(s[0])]
        rels = calls(p, 'emplaceRelationship')
        if k != 103:
            ck.req(not g, 'other lines', 'a group is made of a line that is none', f)
        if not g and not rels and k == 103:
            ck.bad('groups', 'are not created', f)
            continue
        # every recorded group
        maps = {a[1] for _, fs2 in ps for a in fs2 if a[0] in ('empty', 'contains') and
                is_group_map(a[1])} | {s[0] for s in g}
        direct = [e for e in rels if cr and unk(e.args[1]) == unk(cr[0].args[0])]
        if k == 103 and not g and not direct:
            if maps:
                ck.bad('groups', 'the group of a line is not recorded', f)
            else:
                ck.undec('groups', 'how they are recorded')
            continue
        if k == 103:
            pairs = [(s[2], s[3]) for s in g] or [
                (('new', '', (unk(direct[0].args[1]), unk(direct[0].args[0]))), direct[0])]
            val, ev = pairs[-1]
            sub = val[2] if val[0] == 'new' else val[1] if val[0] == 'tuple' and len(val) == 2 else \
                val[1:] if val[0] in ('tuple', 'pair') else ()
            own = [x for x in sub if x == unk(cr[0].args[0])] if cr else []
            kd = [last(x[1]) for x in sub if x[0] == 'enum' and last(x[1]).startswith('RK_')]
            if not kd:
                ck.undec('groups', 'recorded as %s' % show(val))
            else:
                n += 1
                ck.req(own, 'groups', 'the group is one of %s' % [show(x) for x in sub], ev)
                star = None
                for a, v in fs.items():
                    if a[0] == 'eq' and mentions(a, lambda t: t[0] == 'call' and t[1] == CARD):
                        for x, y in ((a[1], a[2]), (a[2], a[1])):
                            if x[0] in ('tupget', 'fld') and x[1] == 1 or x[0] == 'fld' and \
                                    last(x[2]) == 'second':
                                if y == W:
                                    star = v
                                elif y == ('int', 1):
                                    star = not v
                            elif x[0] == 'tupget' and x[1] == 0 and y[0] == 'int':
                                ck.bad('groups', 'the kind depends on the lower bound', ev)
                if star is None:
                    ck.bad('groups', 'the kind %s does not depend on the upper bound' % kd[0], ev)
                else:
                    kinds.add(star)
                    ck.req(kd[0] == ('RK_OR' if star else 'RK_ALTERNATIVE'),
                           'groups [1,%s]' % ('*' if star else '1'), 'become %s' % kd[0], ev)
        # groups recorded before
        for e in rels:
            a, b = unk(e.args[0]), unk(e.args[1])
            src = [t for t in walk(e.args) if t and t[0] in ('mapval', 'elem', 'at', 'mapent')
                   and len(t) > 1 and isinstance(t[1], tuple) and is_group_map(t[1])]
            if not src:
                continue
            ck.req(a[0] == 'tupget' and b[0] == 'tupget' and (a[1], b[1]) == (1, 0) and
                   a[2] == b[2] or a[0] != 'tupget', 'recorded groups',
                   'are created as %s of %s' % (show(a), show(b)), e)
        for m in maps:
            for mm, key, v, ev in g:
                if mm != m:
                    continue
                before = [e for e in rels if p.events.index(e) < p.events.index(ev) and
                          mentions(tuple(unk(x) for x in e.args),
                                   lambda t: t[0] in ('mapval', 'at', 'mapent') and t[1] == m)]
                if fs.get(('contains', m, key)) is not False and not before:
                    ck.bad('recorded groups', 'a group is overwritten by the next on its level', ev)
            # removed without being created
            for e in p.events:
                if e.kind == 'call' and last(e.q) in ('erase', 'clear') and unk(e.obj) == m:
                    before = [x for x in rels if p.events.index(x) < p.events.index(e)]
                    if fs.get(('contains', m, unk(e.args[0]) if e.args else VOID)) is True:
                        ck.req(before, 'recorded groups', 'a group is dropped', e)
            for e in rels:
                k2 = [t[2] for x in e.args for t in walk(unk(x)) if t and t[0] in (
                    'mapval', 'at', 'mapent') and t[1] == m]
                i = p.events.index(e)
                if k2 and not any(x.kind == 'call' and last(x.q) in ('erase', 'clear') and
                                  mentions(unk(x.obj), lambda t: t == m)
                                  for x in p.events if x.obj is not None) and not any(
                        mm == m and key == k2[0] and p.events.index(ev) > i
                        for mm, key, v, ev in g):
                    ck.bad('recorded groups', 'are created again', e)
            em = fs.get(('empty', m))
            if em is False:
                fin = [e for e in rels if mentions(
                    tuple(unk(x) for x in e.args), lambda t: t[0] == 'elem' and t[1] == m)]
                ck.req(fin, 'last groups', 'are not created', f)
            elif em is None:
                ck.bad('last groups', 'are not created', f)
    ck.need(n, 'recorded groups')
    if kinds != {True, False}:
        ck.bad('groups', 'all groups are of one kind', f)


@rule('P19', 'cardinality', 'The cardinality [1,1] or [1,*] is read as written, "*" as no upper '
      'bound, and any other makes the file invalid.')
def cardinality(ck):
    W = wild(ck)
    f = fns(ck, ONE)
    star = num = 0
    for p in ck.paths(f, join=False):
        if p.kind != 'ret':
            continue
        r = p.ret
        st = [v for a, v in p.facts.items() if a[0] == 'eq' and any(
            x[0] == 'str' and x[1] == '*' for x in a[1:] if isinstance(x, tuple))]
        if not st:
            ck.undec('bounds', 'test for "*"')
            continue
        val = r[1] if r[0] in ('some', 'ok', 'opt') and len(r) == 2 else r
        none = r in (('none',), NULL) or r[0] == 'new' and not r[2]
        if st[0]:
            star += 1
            ck.req(val == W or val[0] == 'new' and val[2] == (W,), '"*"', 'is read as %s' % show(r), f)
        else:
            conv = [(a, v) for a, v in p.facts.items() if mentions(
                a, lambda t: t[0] == 'call' and last(t[1].split('<')[0]) in (
                    'to_integer', 'getAsInteger', 'consumeInteger'))]
            if not conv:
                ck.undec('bounds', 'conversion of numbers')
                continue
            num += 1
            for a, v in conv:
                c = [t for t in walk(a) if t and t[0] == 'call' and last(t[1].split('<')[0]) in (
                    'to_integer', 'getAsInteger', 'consumeInteger')][0]
                okv = v if last(c[1].split('<')[0]) == 'to_integer' else not v
                if okv is False:
                    ck.req(none or val == VOID, 'numbers', 'text that is none is read as %s' %
                           show(r), f)
                else:
                    ck.req(not none and val != W and val[0] != 'int', 'numbers', 'are read as %s' %
                           show(r), f)
    g = fns(ck, CARD)
    seen = set()
    k = empty = 0
    for p in ck.paths(g, join=False, opaque=[ONE]):
        if p.kind != 'ret':
            continue
        r = p.ret
        lo_hi = [t for t in walk(r) if t and t[0] == 'call' and t[1] == ONE]
        if r[0] == 'new' and not r[2] or r in (('none',), NULL, VOID):
            empty += 1
            continue
        if not lo_hi:
            ck.undec('cardinality', 'read as %s' % show(r)[:80])
            continue
        k += 1
        ev = [e for e in p.events if e.kind == 'call' and e.q == ONE]
        if len(ev) != 2:
            ck.undec('cardinality', '%d bounds' % len(ev))
            continue
        A, B = (unk(e.res) for e in ev)
        fs = ufacts(p)
        if fs is None:
            continue

        def val(t):
            t = unk(t)
            return 0 if mentions(t, lambda x: x == A) or t == A else \
                1 if mentions(t, lambda x: x == B) or t == B else None
        for t in (A, B):
            ck.req(fs.get(('nn', t)) is True, 'cardinality', 'one without a bound is accepted', g)
        got = {0: {}, 1: {}}
        for a, v in fs.items():
            if a[0] == 'eq':
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if y[0] == 'int' and val(x) is not None and x[0] != 'nn':
                        got[val(x)][y] = v
        ck.req(got[0].get(('int', 1)) is True, 'lower bound', 'other than 1 is accepted', g)
        up = [y for y, v in got[1].items() if v]
        ck.req(len(up) == 1 and up[0] in (('int', 1), W), 'upper bound',
               'other than 1 and "*" is accepted', g)
        seen |= set(up)
        tup = [t for t in walk(r) if t and t[0] == 'new' and 'tuple' in t[1] and len(t[2]) == 2]
        if tup:
            o = [val(x) for x in tup[0][2]]
            ck.req(o == [0, 1], 'cardinality', 'the bounds are passed on as %s' % [
                show(x)[:40] for x in tup[0][2]], g)
    if not k and empty:
        ck.bad('cardinality', 'none is ever accepted', g)
    ck.need(star and num and k, 'cardinalities')
    for y, n in ((('int', 1), '[1,1]'), (W, '[1,*]')):
        ck.req(y in seen, n, 'is never accepted', g)


TEXT = {'or': '|', 'and': '&', '~': '!'}
BUILDC = V + 'ConstraintParser::buildConstraint'


def lit(t):
    t = unk(t)
    while t and t[0] == 'new' and len(t[2]) >= 1 and 'string' in t[1]:
        t = t[2][0]
    if t and t[0] == 'str':
        return t[1].strip()
    if t and t[0] in ('int', 'char') and isinstance(t[1], int) and 32 < t[1] < 127:
        return chr(t[1])
    return None


def substitutions(p):
    """[(text, replacement, event)] between literals on a path"""
    out = []
    for e in p.events:
        if e.kind not in ('call', 'write') or not e.args:
            continue
        n = last(e.q.split('<')[0])
        o = unk(e.obj) if e.obj is not None else None
        if (e.kind == 'write' or n == 'operator=') and o is not None and \
                o[0] in ('at', 'mapval', 'mapent'):
            out.append((lit(o[2]), lit(e.args[-1]), e))
        elif n in STORE and len(e.args) >= 2:
            out.append((lit(e.args[0]), lit(e.args[-1]), e))
        elif n == 'replace' and e.q.startswith('std::') and o is None and len(e.args) >= 4:
            out.append((lit(e.args[2]), lit(e.args[3]), e))
        elif n == 'replace' and o is not None and len(e.args) >= 3:
            k = [lit(t) for t in walk(unk(e.args[0])) if t and t[0] == 'str']
            out += [(x, lit(e.args[-1]), e) for x in k]
        elif n == 'regex_replace' and len(e.args) >= 3:
            out += [(lit(t), lit(e.args[2]), e) for t in walk(unk(e.args[1]))
                    if t and t[0] == 'str']
    return [(a, b, e) for a, b, e in out if a]


@rule('P19', 'identifiers', 'The identifier of a line stands for the feature the line becomes.')
def identifiers(ck):
    f = fns(ck, TREE)
    ps, en = tree_paths(ck)
    n = 0
    for p, fs in ps:
        cr = created(p)
        if len(cr) != 1 or not accepted(p):
            continue
        nm = unk(cr[0].args[0])
        for e in p.events:
            o = unk(e.obj) if e.obj is not None else None
            if o is None or not e.args or not mentions(o, is_ident) or not (
                    e.kind == 'write' or last(e.q) in STORE):
                continue
            v = unk(e.args[-1])
            if last(e.q) in ('clear', 'erase'):
                continue
            n += 1
            if v == nm:
                ck.good('identifiers')
            elif v == ('part',) or nm == ('part',):
                ck.bad('identifiers', 'stand for %s, but the feature is %s' % tuple(
                    'a part of the line' if x == ('part',) else show(x) for x in (v, nm)), e)
            else:
                ck.undec('identifiers', 'stand for %s' % show(v))
    ck.need(n, 'identifiers')


@rule('P19', 'formulas', 'Each non-blank line of the constraints becomes exactly one constraint, '
      'with ~, or and and as operators and whole identifiers as their features; a line that is '
      'no constraint makes the file invalid.')
def formulas(ck):
    f = fns(ck, CONS)
    en = Engine(ck.fx, join=False, havoc='all', mark_loops='ret', max_paths=60000,
                opaque=builder_ops(ck) + [BUILDC, V + 'trim'])
    en.again_exits = True
    ps = []
    for p in ck.paths(f, eng=en):
        fs = ufacts(p)
        if p.kind == 'ret' and fs is not None:
            ps.append((p, fs))
    n = 0
    subs = {}
    names = False
    for p, fs in ps:
        read = [e for e in p.events if e.kind == 'call' and e.q.startswith(BLD) and
                last(e.q.split('<')[0]) == 'addConstraint']
        for e in read:
            n += 1
            a = unk(e.args[0])
            ck.req('BooleanConstraint' in str(a) or 'BooleanConstraint' in e.q, 'constraints',
                   'become others', e)
            ck.req('NonBooleanConstraint' not in str(a) + e.q and 'MixedConstraint' not in
                   str(a) + e.q, 'constraints', 'become constraints of another kind', e)
            b = [t for t in walk(a) if t and t[0] == 'call' and t[1] == BUILDC]
            if not b:
                ck.undec('constraints', 'read as %s' % show(a)[:80])
            else:
                w = fs.get(('nn', b[0]))
                ck.req(w is not False, 'invalid lines', 'are accepted', e)
        for t in {t for e in p.events for x in e.args + ((e.obj,) if e.obj is not None else ())
                  for t in walk(unk(x)) if t and t[0] == 'call' and last(t[1]) in (
                      'substr', 'drop_front') and t[3] and mentions(
                          t[3][0], lambda y: y[0] == 'found' and y[1] == ('int', 58))}:
            i = linear(t[3][0])
            pos = [k for k in i if k and k[0][0] == 'found']
            if len(pos) != 1 or set(i) - {pos[0], ()}:
                continue
            ck.req(i[pos[0]] == 1 and i.get((), 0) == 1, 'formulas',
                   'start %d characters after the colon' % i.get((), 0), f)
            if len(t[3]) > 1 and last(t[1]) == 'substr':
                j = linear(t[3][1])
                sz = [k for k in j if k and k[0][0] == 'call' and last(k[0][1]) in ('size', 'length')]
                if len(sz) == 1 and j[sz[0]] == 1 and j.get(pos[0]) == -1:
                    ck.req(j.get((), 0) >= -1, 'formulas', 'lack their last %d characters' % (
                        -1 - j.get((), 0)), f)
        for e in p.events:
            names = names or any(
                mentions(unk(x), of_ident) for x in e.args + ((e.obj,) if e.obj is not None
                                                              else ()))
            if e.kind == 'call' and last(e.q.split('<')[0]) == 'replace' and e.obj is not None and \
                    len(e.args) >= 2 and mentions(unk(e.args[-1]), is_ident) and \
                    mentions(unk(e.args[0]), lambda t: t[0] == 'found' or t[0] == 'call' and
                             last(t[1]) == 'find') and not mentions(unk(e.args[0]), regex):
                if any(mentions(a, lambda t: t[0] == 'call' and last(t[1]).startswith('isal') or
                                t[0] in ('char', 'int') and t[1] == 95) for a in fs):
                    ck.undec('identifiers', 'whether whole names are replaced')
                    continue
                ck.bad('identifiers', 'parts of other names are taken for identifiers', e)
        for a, b, e in substitutions(p):
            if a in TEXT and b is not None:
                subs.setdefault(a, []).append((b, e))
        null = [a for a, v in fs.items() if a[0] == 'nn' and a[1][0] == 'call' and
                a[1][1] == BUILDC and v is False]
        if null:
            ck.req(not accepted(p), 'invalid lines', 'are accepted', f)
        if not accepted(p):
            continue
        if len(read) > 1:
            ck.bad('constraints', 'a line becomes %d constraints' % len(read), read[1])
        for e in p.events:
            if e.kind == 'lret':
                ck.bad('all lines', 'reading ends with success before the last', e)
        got = got_line(fs)
        blank = any(v and (a[0] == 'empty' or a[0] == 'nn' and mentions(
            a, lambda t: t[0] == 'call' and last(t[1].split('<')[0]) == 'all_of')) or
            not v and mentions(a, lambda t: t[0] == 'call' and last(t[1].split('<')[0]) in (
                'any_of', 'find_if_not')) or
            a[0] == 'eq' and v and mentions(a, lambda t: t[0] == 'npos' or t[0] == 'call' and
                                            last(t[1]).startswith('find'))
            for a, v in fs.items())
        it = [e for e in p.events if e.kind == 'iter']
        if not read and (got or it) and not blank:
            ck.bad('constraints', 'a line is ignored', f)
    for e in stopped(ps):
        ck.bad('all lines', 'reading ends before the last', e)
    for c, e in once_only([p for p, _ in ps]):
        ck.bad('all lines', 'reading ends after the first', e)
    ck.need(n, 'constraints of the lines')
    for a, want in TEXT.items():
        got = subs.get(a)
        if not got:
            if not str_mentioned(ck, f, a):
                ck.bad('operators', '"%s" is not read' % a, f)
            else:
                ck.undec('operators', '"%s"' % a)
            continue
        for b, e in got:
            ck.req(b == want, 'operators', '"%s" is read as "%s"' % (a, b), e)
    cls = {}
    for q, g in (('lines', fns(ck, TREE)), ('constraints', f)):
        cls[q] = set(patterns(g['body']))
    if len(cls['lines']) == 1 and len(cls['constraints']) == 1:
        ck.req(cls['lines'] == cls['constraints'], 'identifiers',
               'consist of %s in lines, but %s in constraints' % (
                   cls['lines'].copy().pop(), cls['constraints'].copy().pop()), f)
    if not any(mentions_cut(e) for p, _ in ps for e in p.events):
        ck.bad('formulas', 'the part before the colon is not cut off', f)
    ck.req(names, 'identifiers', 'are not replaced by their features', f)


def mentions_cut(e):
    if last(e.q) in ('erase', 'remove_prefix', 'consume_front', 'assign', 'copy') or \
            last(e.q) == 'getline' and len(e.args) > 2:
        return True
    return any(mentions(unk(x), lambda t: t[0] == 'call' and t[3] and last(t[1]) in (
        'substr', 'split', 'rsplit', 'slice', 'drop_front', 'drop_until', 'drop_while',
        'take_back', 'ltrim') or t[0] == 'split')
               for x in e.args + ((e.obj,) if e.obj is not None else ()))


def regex(t):
    return t[0] == 'call' and 'regex' in t[1] or t[0] == 'new' and 'regex' in t[1]


def of_ident(t):
    return t[0] in ('at', 'mapval', 'mapent', 'elem') and is_ident(t[1])


def is_ident(t):
    return t[0] == 'fld' and last(str(t[2])) == 'IdentifierMap'


def patterns(n):
    """the character classes of the regular expressions in a body"""
    if isinstance(n, dict):
        if n.get('k') == 'str' and isinstance(n.get('v'), str):
            m = re.match(r'^(?:\\\()?\[([^\]^]+)\][*+](?:\\\))?$', n['v'].strip('"'))
            if m:
                c = m.group(1).replace('\\d', '0-9')
                if '\\w' in c:
                    c = c.replace('\\w', 'a-zA-Z0-9_')
                yield ''.join(sorted(set(re.findall(r'.-.|.', c))))
        for v in n.values():
            yield from patterns(v)
    elif isinstance(n, (list, tuple)):
        for x in n:
            yield from patterns(x)


def str_mentioned(ck, f, a):
    def go(n):
        if isinstance(n, dict):
            for v in n.values():
                if go(v):
                    return True
            return False
        if isinstance(n, (list, tuple)):
            return any(go(x) for x in n)
        if isinstance(n, str):
            return n.strip() == a or n.strip('"').strip() == a or a == '~' and n == '126'
        return a == '~' and n == 126
    return go(f['body'])


@rule('P19', 'sections', 'The file has its name, the indentation given for its tree, and its tree '
      'and constraints are read; if one of them is invalid, so is the file.')
def sections(ck):
    f = fns(ck, SX + 'parseVm')
    en = Engine(ck.fx, join=False, havoc='all', mark_loops='ret',
                opaque=builder_ops(ck) + [TREE, CONS])
    en.again_exits = True
    ps = []
    for p in ck.paths(f, eng=en):
        fs = ufacts(p)
        if p.kind == 'ret' and fs is not None:
            ps.append((p, fs))
    seen = set()
    for p, fs in ps:
        es = [e for e in p.events if e.kind == 'call' and e.q in (TREE, CONS)]
        for e in es:
            what = 'tree' if e.q == TREE else 'constraints'
            seen.add(what)
            v = fs.get(('nn', unk(e.res)))
            if v is False:
                ck.req(not accepted(p), what, 'an invalid one is accepted', e)
            elif v is None and accepted(p):
                ck.bad(what, 'an invalid one is accepted', e)
            n = unk(e.args[0])
            tag = 'feature_tree' if what == 'tree' else 'constraints'
            cmp = [(a, w) for a, w in fs.items() if mentions(a, lambda t: t == n) and mentions(
                a, lambda t: t[0] == 'str')]
            for a, w in cmp:
                s = [t[1] for t in walk(a) if t and t[0] == 'str']
                eq = w if a[0] == 'eq' and not mentions(
                    a, lambda t: t[0] == 'call' and last(t[1]) == 'xmlStrcmp') or mentions(
                    a, lambda t: t[0] == 'call' and last(t[1]) == 'xmlStrEqual') else not w
                if a[0] == 'eq' and ('int', 0) in a[1:]:
                    eq = w
                if s and s[0] in ('feature_tree', 'constraints') and eq:
                    ck.req(s[0] == tag, what, 'is read from <%s>' % s[0], e)
        if accepted(p) and any(e.kind == 'lret' for e in p.events):
            ck.bad('sections', 'reading ends with success before the last', f)
        nm = [e for e in p.events if e.kind == 'call' and e.q == BLD + 'setVmName']
        for e in nm:
            s = [t[1] for t in walk(unk(e.args[0])) if t and t[0] == 'str' and t[1]]
            if s:
                ck.req(s == ['name'], 'name', 'is read from %s' % s, e)
                seen.add('name')
        if any(v and a[0] == 'nn' and a[1][0] == 'call' and last(a[1][1]) == 'xmlGetProp' and
               ('str', 'name') in a[1][2:][0] for a, v in fs.items() if len(a[1]) > 2 and
               isinstance(a[1][2], tuple)) and accepted(p):
            ck.req(nm, 'name', 'is not read', f)
        ind = [e for e in p.events if e.kind == 'write' and last(e.q) == 'Indentation' or
               e.kind == 'call' and last(e.q) in ('operator=', 'assign') and e.obj is not None and
               mentions(unk(e.obj), lambda t: t[0] == 'fld' and last(str(t[2])) == 'Indentation')]
        for e in ind:
            s = [t[1] for t in walk(tuple(unk(x) for x in e.args)) if t and t[0] == 'str' and t[1]]
            if s:
                ck.req(s == ['indentation_string'], 'indentation', 'is read from %s' % s, e)
                seen.add('indentation')
    for e in stopped(ps):
        ck.bad('sections', 'reading ends before the last', e)
    for c, e in once_only([p for p, _ in ps]):
        ck.bad('sections', 'reading ends after the first', e)
    for w in ('tree', 'constraints', 'name', 'indentation'):
        ck.req(w in seen, w, 'is never read', f)
