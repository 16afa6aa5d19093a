"""Writing model files: every element and attribute (P16), failures (P17)."""
from ..core import rule, Undecided
from ..engine import *
from ..engine import last, short
from ..model import *
from ..model import V
from .constraints import field_of, classes, unv, bases
from .config import entry_facts as text_facts
from .solver import is_call, acc_field, is_feature_range
from .config import str_of, opt, CHANGED

WRI = V + 'FeatureModelXmlWriter'
FSR = V + 'FeatureSourceRange'
PFC = V + 'PrimaryFeatureConstraint'
MIXED = V + 'FeatureModel::MixedConstraint'
CHILDREN = V + 'FeatureTreeNode::getChildren'
PARENTF = V + 'Feature::getParentFeature'
TOSTR = (V + 'Constraint::toString', V + 'StepFunction::toString')
SECTIONS = ['binaryOptions', 'numericOptions', 'booleanConstraints',
            'nonBooleanConstraints', 'mixedConstraints']
ORDER = ['name', 'outputString', 'parent', 'children', 'impliedOptions',
         'excludedOptions', 'optional', 'minValue', 'maxValue', 'values',
         'stepFunction', 'locations']
RORDER = ['revisionRange', 'path', 'start', 'end', 'memberOffset']


def nodes(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from nodes(v)


def in_writer(f):
    return 'FeatureModelWriter' in (f.get('file') or '')


class Writer:
    """the functions of the writer and what they write"""

    def __init__(self, ck):
        fx = self.fx = ck.fx
        self.fns = {f['id']: f for f in fx.fns.values() if in_writer(f) and f.get('body')}
        direct, calls = {}, {}
        for i, f in self.fns.items():
            direct[i], calls[i] = set(), set()
            for n in nodes(f['body']):
                if n.get('k') == 'ref' and 'XmlConstants::' in n.get('q', ''):
                    direct[i].add(last(n['q']))
                if 'fn' in n and isinstance(n['fn'], dict) and n['fn'].get('id') in self.fns:
                    calls[i].add(n['fn']['id'])
        self.consts = {}
        for i in self.fns:
            seen, todo = set(), [i]
            while todo:
                j = todo.pop()
                if j in seen:
                    continue
                seen.add(j)
                todo.extend(calls[j])
            self.consts[i] = set().union(*(direct[j] for j in seen))
        self.direct, self.calls = direct, calls

    def unit(self, has, not_has, what):
        """the outermost functions that write some element but not another"""
        c = [i for i in self.fns if has in self.consts[i] and not self.consts[i] & set(not_has)]
        top = [i for i in c if not any(i in self.calls[j] for j in c if j != i)]
        top = [i for i in top if has in self.consts[i]]
        if len(top) != 1:
            raise Undecided('function that writes %s' % what)
        return self.fns[top[0]]


_W = {}


def writer(ck):
    k = id(ck.fx)
    if k not in _W:
        _W[k] = Writer(ck)
    return _W[k]


def feature_unit(ck):
    return writer(ck).unit('CONFIGURATIONOPTION', ['BINARYOPTIONS', 'NUMERICOPTIONS'],
                           'a feature')


def range_unit(ck):
    return writer(ck).unit('SOURCERANGE', ['CONFIGURATIONOPTION', 'BINARYOPTIONS', 'LOCATIONS'],
                           'a location')


def entry(ck):
    c = [f for f in ck.fns(WRI + '::writeFeatureModel') if not f['params']]
    if len(c) != 1:
        raise Undecided('writer entry')
    return c[0]


def xml(e):
    """what an event writes: start/end/elem/attr/text/doc, or None"""
    if e.kind != 'call' or not e.q.startswith('xmlTextWriter'):
        return None
    n = e.q[len('xmlTextWriter'):]
    return {'StartElement': 'start', 'EndElement': 'end', 'FullEndElement': 'end',
            'WriteElement': 'elem', 'WriteAttribute': 'attr', 'WriteString': 'text',
            'WriteRaw': 'raw', 'EndDocument': 'doc', 'StartDocument': 'sdoc',
            'SetIndent': 'cfg', 'SetIndentString': 'cfg', 'WriteDTD': 'dtd'}.get(n, 'other')


def name(e):
    a = e.args[1] if len(e.args) > 1 else None
    if a is not None and a[0] == 'str':
        return a[1]
    return None


def val(e):
    return e.args[2] if len(e.args) > 2 else None


def param(fn, cls):
    for i, p in enumerate(fn['params']):
        if cls in p['t'].replace('const ', '').rstrip(' &*').split('::'):
            return ('param', i, p['n'])
    raise Undecided('%s parameter of %s' % (cls, fn['q']))


def text_of(t):
    t = unv(opt(t))
    while True:
        u = unv(str_of(t))
        if u[0] == 'call' and last(u[1]) in ('string', 'native', 'c_str', 'data', 'u8string',
                                             'generic_string') and u[2]:
            u = u[2]
        if u == t:
            return t
        t = u


def run(ck, fn, names=(), facts=(), extra=None, opaque=(), keep=None, **kw):
    """paths of a writer function with the events of some elements only; all
    library calls succeed; branches on other things are joined"""
    opq = set(opaque) | {CHILDREN, PARENTF} | set(TOSTR)
    try:
        opq |= {range_unit(ck)['q']} - {fn['q']}
    except Undecided:
        pass
    if 'CONFIGURATIONOPTION' not in writer(ck).consts.get(fn['id'], ()) or \
            fn['q'] != feature_unit(ck)['q']:
        opq.add(feature_unit(ck)['q'])
    opq.discard(fn['q'])
    own = {feature_unit(ck)['q'], range_unit(ck)['q']}

    def rec(e):
        if e.kind != 'call':
            return False
        if extra and extra(e):
            return True
        x = xml(e)
        if x is None:
            return False
        if x in ('start', 'elem', 'attr'):
            n = name(e)
            return n is None or n in names
        if x in ('raw', 'other'):
            return True
        return False

    def jn(a):
        return any(mentions(a, m) if callable(m) else mentions(a, lambda y: y == m)
                   for m in facts)

    def ret(q):
        if q.startswith('xmlTextWriter') or q in own:
            return ('int', 0)
        return None
    ps = ck.paths(fn, record=keep or rec, join=jn if facts else True, depth=14,
                  max_paths=8000, opaque=list(opq), returns=ret, **kw)
    ps = [p for p in ps if p.kind == 'ret' and p.ret != NULL and p.ret != ('int', -1)]
    if any(xml(e) in ('raw', 'other') for p in ps for e in p.events):
        raise Undecided('unknown writing function')
    return ps


def holds(p, t):
    """facts of the path, without counters"""
    return {unk(a): v for a, v in p.facts.items()}.get(unk(t))


def mentions_fld(f):
    return lambda y: y and y[0] == 'fld' and y[2] == f


def same(a, b):
    return unk(a) == unk(b)


def once(ck, ps, what, nm, good, absent, fn, required=True):
    """each path writes the element once with a good value, or may omit it"""
    n = 0
    for p in ps:
        es = [e for e in p.events if xml(e) in ('elem', 'attr') and name(e) == nm]
        if not es:
            ck.req(absent(p), what, 'is not written', fn)
            continue
        n += 1
        ck.req(len(es) == 1, what, 'is written %d times' % len(es), fn)
        for e in es:
            v = text_of(val(e))
            ck.req(good(p, v), what, 'is written as %s' % show(v)[:120], e_pos(e))
    if required:
        ck.req(n, what, 'is never written', fn)


def e_pos(e):
    return '%s:%s' % (e.file, e.line)


def never(p):
    return False


def is_empty(p, t):
    """the path knows that a text, list or optional is empty"""
    for a, v in p.facts.items():
        a = unk(a)
        if a == ('empty', unk(t)) and v:
            return True
        if a == ('nn', unk(t)) and not v:
            return True
        if a[0] in ('eq', 'lt', 'gt') and is_call(a[1], 'size', 'length') and \
                a[1][2] is not None and same(a[1][2], t):
            return (a[0] == 'eq') == v
    return False


# ------------------------------------------------------------------ P16
@rule('P16', 'feature', 'Name, output string, parent, optionality, values and step '
      'function of a feature are written exactly if it has them, with their value.')
def feature(ck):
    R = roles(ck)
    fn = feature_unit(ck)
    F = param(fn, 'Feature')
    nm, out, op = R.f('fname', F), R.f('fout', F), R.f('fopt', F)
    once(ck, run(ck, fn, ['name']), 'name', 'name', lambda p, v: same(v, nm), never, fn)
    once(ck, run(ck, fn, ['outputString'], [out]), 'output string', 'outputString',
         lambda p, v: same(v, out), lambda p: is_empty(p, out), fn)

    def is_parent(t):
        return is_call(t, 'getParentFeature') and t[2] == F
    once(ck, run(ck, fn, ['parent'], [is_parent]), 'parent', 'parent',
         lambda p, v: v[0] == 'fld' and v[2] == R.of['fname'] and is_parent(unk(unv(v[1]))),
         lambda p: any(a[0] == 'nn' and is_parent(a[1]) and not v for a, v in p.facts.items()),
         fn)

    def optional(p, v):
        x = holds(p, ('nn', op))
        return v[0] == 'str' and (v[1] == 'True') == x and x is not None or \
            v[0] == 'str' and x is None and False
    once(ck, run(ck, fn, ['optional'], [op]), 'optionality', 'optional', optional, never, fn)
    numeric(ck, R, fn, F)
    step(ck, R, fn, F)


def is_numeric(p, F):
    for a, v in p.facts.items():
        if a[0] == 'isa' and last(a[1]) == 'NumericFeature' and same(a[2], F):
            return v
        if a[0] == 'eq' and any(x and x[0] == 'enum' and last(x[1]) == 'FK_NUMERIC'
                                for x in a[1:]):
            return v
    return None


def kindy(t):
    return t and t[0] == 'isa' or t and t[0] == 'enum' and 'FK_' in t[1]


def num(t):
    """the number a decimal text shows"""
    t = text_of(t)
    if is_call(t, 'to_string', 'itostr') and len(t[3]) == 1:
        return unv(t[3][0])
    return None


def numeric(ck, R, fn, F):
    vals = R.f('values', F)
    seps = []
    ps = run(ck, fn, ['minValue', 'maxValue', 'values'], [vals, kindy])
    got = set()
    for p in ps:
        w = [(name(e), val(e), e) for e in p.events]
        isnum = is_numeric(p, F)
        if isnum is False:
            ck.req(not w, 'non-numeric features', 'get %s' % (w and w[0][0]), fn)
            continue
        h = [(a, v) for a, v in p.facts.items() if a[0] == 'holds' and same(a[2], vals)]
        rng = None
        for a, v in h:
            rng = v if 'pair' in a[1] or 'tuple' in a[1] else not v
        if rng is None:
            ck.bad('numeric values', 'are written without asking for their kind' if w else
                   'are not written', fn)
            continue
        ns = [x[0] for x in w]
        if rng:
            if not ck.req(ns == ['minValue', 'maxValue'], 'value range',
                          'is written as %s' % (ns or 'nothing'), fn):
                continue
            for i, x in enumerate(w):
                t = num(x[1])
                side = t and (t[1] if t[0] == 'tupget' else
                              {'first': 0, 'second': 1}.get(last(t[2])) if t[0] == 'fld' else None)
                if t is not None and side is None:
                    ck.undec('bounds', show(t)[:80])
                    continue
                ck.req(t is not None and side == i and mentions(t, lambda y: same(y, vals)
                                                                if y else False),
                       x[0], 'is written as %s' % show(x[1])[:120], e_pos(x[2]))
            got.add('range')
        else:
            if not ck.req(ns == ['values'], 'value list', 'is written as %s' % (
                    ns or 'nothing'), fn):
                continue
            t = text_of(w[0][1])
            emp = any(a[0] == 'empty' and v and mentions(a, lambda y: y and same(y, vals))
                      for a, v in p.facts.items())
            if emp:
                continue
            nums = [y for y in walk(t) if is_call(y, 'to_string', 'itostr')]
            el = [y for y in nums for z in walk(y[3]) if z and z[0] in ('elem', 'at') and
                  mentions(z[1], lambda q: q and same(q, vals))]
            ck.req(el, 'value list', 'is written as %s' % show(t)[:120], e_pos(w[0][2]))
            if any(is_call(y, 'elem') for y in el):
                pass
            bad = [y for y in nums if not (unv(y[3][0])[0] in ('elem', 'at'))]
            ck.req(not bad, 'values', 'are written as %s' % (bad and show(bad[0])[:100]),
                   e_pos(w[0][2]))
            got.add('list')
    ck.req('range' in got, 'value range', 'is never written', fn)
    ck.req('list' in got, 'value list', 'is never written', fn)
    # the values of a list have to be separated: a separator before every one but the first
    for hv in (False, 'text'):
        for p in run(ck, fn, ['values'], [vals, kindy], havoc=hv):
            for e in p.events:
                t = text_of(val(e)) if name(e) == 'values' else None
                ps_ = list(t[1]) if t and t[0] == 'cat' else []
                at = [i for i, x in enumerate(ps_) if num(x) is not None]
                if t is None or not at:
                    continue
                v = unv(num(ps_[at[0]]))
                ck.req(hv is False or v[0] != 'at' or v[2][0] != 'int', 'values', 'of a list '
                       'are not all written', e_pos(e))
                pre = ps_[:at[0]]
                has = any(x[0] == 'str' and x[1].strip(' ') in SEPS for x in pre)
                fs = [f for f in text_facts(p) if f[0] == 0] if hv is False else \
                    [(0, 0, v) for a, v in p.facts.items() if a[0] == 'empty' and
                     a[1][0] == 'mu']
                if fs:
                    ck.req(all(k == 0 and has != first for _, k, first in fs), 'value list',
                           'starts with a separator' if has else 'is written without a '
                           'separator', e_pos(e))
                elif hv is False:
                    ck.req(not has, 'value list', 'starts with a separator', e_pos(e))
                else:
                    seps.append(has)
    if seps and True not in seps:
        W = writer(ck)
        lits, todo, seen = [], [fn['id']], set()
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            todo.extend(W.calls[i])
            for n in nodes(W.fns[i]['body']):
                if n.get('k') == 'str' and n.get('v') in SEPS or \
                        n.get('k') == 'char' and str(n.get('v')) in [str(ord(x[0])) for x in SEPS]:
                    lits.append(n)
        if ck.req(lits, 'value list', 'is written without a separator', fn):
            ck.undec('value list', 'separator not recognised')


SEPS = (';', '; ', ',', ', ', ' ')


def step(ck, R, fn, F):
    st = R.f('step', F)
    ps = run(ck, fn, ['stepFunction'], [st, kindy])
    n = 0
    for p in ps:
        w = [e for e in p.events if name(e) == 'stepFunction']
        if not w:
            ck.req(is_numeric(p, F) is False or is_empty(p, st), 'step function',
                   'is not written', fn)
            continue
        n += 1
        t = text_of(val(w[0]))
        ck.req(len(w) == 1, 'step function', 'is written %d times' % len(w), fn)
        ck.req(is_call(t, 'toString') and mentions(t[2], lambda y: y and same(y, st)),
               'step function', 'is written as %s' % show(t)[:120], e_pos(w[0]))
    ck.req(n, 'step function', 'is never written', fn)


def cont_key(t):
    t = unv(t)
    if t[0] == 'new':
        return (t[1], t[3][-1] if isinstance(t[3], tuple) else t[3])
    return unk(t)


OFV = V + 'deprecated::OrderedFeatureVector'
LISTF = tuple(OFV + '::' + m for m in ('insert', 'empty', 'size'))


def options(R, p):
    """(group, container or feature, event) of the options written on a path"""
    g = None
    for e in p.events:
        x = xml(e)
        if x == 'start':
            g = name(e)
        elif x == 'elem' and name(e) == 'options':
            v = text_of(val(e))
            f = unv(v[1]) if v[0] == 'fld' and v[2] == R.of['fname'] else None
            if f is not None and f[0] == 'elem':
                yield g, unv(f[1]), e
            else:
                yield g, None, e


def containers(ck, R, fn):
    """the lists whose members are written as options, by group"""
    ps = run(ck, fn, ['children', 'impliedOptions', 'excludedOptions', 'options'],
             opaque=LISTF)
    out = {}
    for p in ps:
        for g, c, e in options(R, p):
            if c is None:
                ck.bad('options of %s' % g, 'are written as %s' % show(val(e))[:100], e_pos(e))
            else:
                out.setdefault(g, {})[cont_key(c)] = c
    return out


ADDING = ('insert', 'push_back', 'emplace_back', 'emplace', 'append', 'push_front')


def base_key(t):
    """the container a field or element list belongs to"""
    t = unv(t)
    while t[0] == 'fld':
        t = unv(t[1])
    return cont_key(t)


def members(ck, R, fn, group, facts):
    """paths with (list started, options, elements inserted, list empty?)"""
    cs = containers(ck, R, fn).get(group)
    if not cs:
        ck.bad(group, 'are not written', fn)
        return None

    def mine(t):
        return isinstance(t, tuple) and t and t[0] in ('new', 'fld', 'ver', 'rng') and \
            base_key(t) in cs

    def extra(e):
        return last(e.q) in ADDING and e.obj is not None and base_key(e.obj) in cs

    def of_list(y):
        return y and (y[0] == 'empty' and base_key(y[1]) in cs or y[0] == 'call' and
                      last(y[1]) in ('empty', 'size') and y[2] is not None and
                      base_key(y[2]) in cs)
    ps = run(ck, fn, [group, 'options'], list(facts) + [of_list], extra, opaque=LISTF)
    res = []
    for p in ps:
        st = [e for e in p.events if xml(e) == 'start' and name(e) == group]
        op = [(c, e, g) for g, c, e in options(R, p) if c is not None and cont_key(c) in cs]
        ins = [e for e in p.events if last(e.q) in ADDING]
        emp = None
        for a, v in p.facts.items():
            if not mentions(a, of_list):
                continue
            y = a
            if y[0] == 'nn':
                y = y[1]
            if y[0] == 'empty' or y[0] == 'call' and last(y[1]) == 'empty':
                emp = v
            elif y[0] == 'call' and last(y[1]) == 'size':
                emp = not v
            elif y[0] == 'eq' and ('int', 0) in y[1:]:
                emp = v
            elif y[0] == 'lt' and ('int', 0) in y[1:2]:
                emp = not v
            elif y[0] == 'gt' and ('int', 0) in y[2:3]:
                emp = not v
        res.append((p, st, op, ins, emp))
    return res


def check_group(ck, R, fn, group, facts, source, what):
    """the group is written with all members iff there are members"""
    res = members(ck, R, fn, group, facts)
    for p, st, op, ins, emp in res or ():
        ck.req(len(st) <= 1, what, 'are written in %d lists' % len(st), fn)
        for c, e, g in op:
            ck.req(g == group, what, 'are written as %s' % g, e_pos(e))
        if not op:
            # no members are written: the list is known to be empty
            no = emp is True or any(a[0] == 'empty' and v and source(a[1])
                                    for a, v in p.facts.items())
            ck.req(no, what, 'are not written', fn)
    return res


@rule('P16', 'links', 'The children of a feature and the features it implies or excludes '
      'are written in their list, all of them and no others.')
def links(ck):
    R = roles(ck)
    C = classes(ck)
    fn = feature_unit(ck)
    F = param(fn, 'Feature')

    def kids(t):
        return mentions(t, lambda y: is_call(unk(y) if y else y, 'getChildren') and
                        last(y[1]).startswith('getChildren') and y[2] == F) \
            if isinstance(t, tuple) else False

    def call_kids(y):
        return y and y[0] == 'call' and 'getChildren' in y[1] and y[2] is not None and \
            unk(y[2]) == unk(F)
    n = 0
    for p, st, op, ins, emp in check_group(ck, R, fn, 'children', [call_kids],
                                           lambda t: mentions(t, call_kids),
                                           'children') or ():
        for c, e, g in op:
            all_ = [y for t in [c] + [a for i in ins for a in i.args] for y in walk(t)
                    if y and y[0] == 'call' and 'getChildren' in y[1]]
            src = [y for y in all_ if call_kids(y)]
            if not ck.req(len(src) == len(all_), 'children', 'are those of another node',
                          e_pos(e)):
                continue
            if not ck.req(src, 'children', 'are taken from %s' % show(c)[:100], e_pos(e)):
                continue
            n += 1
            for y in src:
                ck.req(y[3] in ((), (('int', -1),)), 'children',
                       'are searched to depth %s' % show(y[3]), e_pos(e))
    ck.req(n, 'children', 'are never written', fn)
    def operand(t):
        """a reference that may be missing: an operand or its feature"""
        t = unv(t)
        while t[0] in ('get', 'as', 'cast') or t[0] == 'call' and last(t[1]) in ('get', 'release'):
            u = t[2] if t[0] != 'call' else t[2] or t[3][0]
            if not isinstance(u, tuple) or u == t:
                break
            t = unv(u)
        return t[0] == 'fld' and t[2] in (C.left, C.right, R.of['cfeature'])

    for group, role, acc, what in (
            ('impliedOptions', 'fimpl', 'implications', 'implied features'),
            ('excludedOptions', 'fexcl', 'excludes', 'excluded features')):
        src = R.f(role, F)
        res = check_group(ck, R, fn, group, [src] + ([mentions_fld(R.of['parent'])]
                                                     if role == 'fexcl' else []),
                          lambda t: same(t, src), what)
        n = sib = 0
        for p, st, op, ins, emp in res or ():
            it = any(same(a, ('empty', src)) and not v for a, v in p.facts.items())
            vals = [(unv(a), i) for i in ins for a in i.args]
            mine, rest = [], []
            for v, i in vals:
                (mine if mentions(v, lambda y: y and same(y, src)) else rest).append((v, i))
            for v, i in mine:
                fv = [y for y in walk(v) if y and y[0] == 'fld' and y[2] == R.of['cfeature']]
                ok = len(fv) == 1 and unv(fv[0][1])[0] == 'fld' and \
                    unv(fv[0][1])[2] == C.right and unv(unv(fv[0][1])[1])[0] == 'elem'
                if ok:
                    own = any(a[0] == 'eq' and w and
                              any(mentions(x, mentions_fld(C.left)) for x in a[1:]) and
                              any(not mentions(x, mentions_fld(C.left)) and
                                  mentions(x, lambda y: y == F) for x in a[1:])
                              for a, w in p.facts.items())
                    ck.req(own, what, 'also those of other features are written', e_pos(i))
                    n += 1
                ck.req(ok, what, 'are %s' % show(v)[:120], e_pos(i))
            if it and not mine:
                why = [a for a, v in p.facts.items() if mentions(
                    a, lambda y: y and y[0] == 'elem' and same(y[1], src)) and (
                        not v and (a[0] == 'isa' or a[0] == 'nn' and operand(a[1]) or
                                   a[0] == 'eq' and mentions(a, mentions_fld(C.left))) or
                        v and (a[0] in ('contains', 'found', 'has') or
                               a[0] == 'eq' and mentions(a, lambda y: is_call(y, 'find'))))]
                direct = any(mentions(c, lambda y: y and same(y, src)) for c, e, g in op)
                if not why and direct:
                    n += 1
                    continue
                # known to be in the list already
                why = why or any(v is False and mentions(a, lambda y: y and y[0] == 'end')
                                 for a, v in p.facts.items())
                ck.req(why, what, 'are skipped for no reason', fn)
                for a in why if isinstance(why, list) else ():
                    if a[0] == 'isa':
                        ck.req(last(a[1]) == 'PrimaryFeatureConstraint', what,
                               'are skipped unless %s' % show(a)[:80], fn)
            for v, i in rest:
                ok = role == 'fexcl' and mentions(v, lambda y: y and y[0] == 'call' and
                                                  'getChildren' in y[1] and y[2] is not None and
                                                  mentions(y[2], mentions_fld(R.of['parent'])))
                ck.req(ok, what, 'are also %s' % show(v)[:100], e_pos(i))
                if ok:
                    sib += 1
            if role == 'fexcl':
                grp = [v for a, v in p.facts.items() if a[0] == 'isa' and
                       last(a[1]) == 'Relationship' and
                       mentions(a[2], mentions_fld(R.of['parent']))]
                alt = [v for a, v in p.facts.items() if a[0] == 'eq' and
                       any(x and x[0] == 'enum' and 'RK_' in x[1] for x in a[1:])]
                if grp and grp[0] and not (alt and not all(alt)):
                    ck.req(rest, 'members of the same group', 'are not excluded', fn)
                elif not grp or not grp[0]:
                    ck.req(not rest, 'siblings outside groups', 'are excluded', fn)
        ck.req(n, what, 'are never written', fn)
        if role == 'fexcl':
            ck.req(sib, 'members of the same group', 'are never excluded', fn)


@rule('P16', 'locations', 'Every location of a feature is written with category, path, '
      'positions, member offset and revisions exactly if it has them.')
def locations(ck):
    R = roles(ck)
    fn, rf = feature_unit(ck), range_unit(ck)
    F = param(fn, 'Feature')
    locs = R.f('flocs', F)
    ps = run(ck, fn, ['locations'], [locs], lambda e: e.q == rf['q'])
    n = 0
    ri = param(rf, 'FeatureSourceRange')[1]
    for p in ps:
        cs = [e for e in p.events if e.q == rf['q']]
        st = [e for e in p.events if xml(e) == 'start']
        for e in cs:
            a = unv(e.args[ri])
            ck.req(a[0] == 'elem' and same(a[1], locs), 'locations',
                   'are written as %s' % show(a)[:100], e_pos(e))
            ck.req(st and p.events.index(st[0]) < p.events.index(e), 'locations',
                   'are written outside their list', e_pos(e))
            n += 1
        if not cs:
            ck.req(is_empty(p, locs), 'locations', 'are not written', fn)
        else:
            ck.req(len(cs) == 1, 'locations', 'are written %d times' % len(cs), fn)
    ck.req(n, 'locations', 'are never written', fn)
    L = param(rf, 'FeatureSourceRange')

    def acc(cls, m, obj):
        return ('fld', obj, acc_field2(ck, cls + '::' + m))
    path = acc(FSR, 'getPath', L)
    once(ck, run(ck, rf, ['path']), 'path', 'path', lambda p, v: same(v, path), never, rf)
    cat = acc(FSR, 'getCategory', L)
    kinds = [x['n'] for x in ck.fx.enums[FSR + '::Category']['vals']]

    def category(p, v):
        ks = set(kinds)
        for a, w in p.facts.items():
            if a[0] == 'eq' and any(x and same(x, cat) for x in a[1:]):
                k = [last(x[1]) for x in a[1:] if x[0] == 'enum']
                if k:
                    ks = ks & {k[0]} if w else ks - {k[0]}
        return v[0] == 'str' and ks <= {v[1]}

    def nocat(p):
        ks = set(kinds)
        for a, w in p.facts.items():
            if a[0] == 'eq' and any(x and same(x, cat) for x in a[1:]) and not w:
                ks -= {last(x[1]) for x in a[1:] if x[0] == 'enum'}
        return not ks
    once(ck, run(ck, rf, ['category'], [cat]), 'category', 'category', category, nocat, rf)
    # optional parts: role accessor, elements
    LOC, REV, MO = FSR + '::FeatureSourceLocation', FSR + '::FeatureRevisionRange', \
        FSR + '::FeatureMemberOffset'
    for el, m in (('start', 'getStart'), ('end', 'getEnd')):
        f = acc(FSR, m, L)
        ps = run(ck, rf, [el, 'start', 'end', 'line', 'column'], [f])
        n = 0
        for p in ps:
            g, got = None, []
            for e in p.events:
                if xml(e) == 'start':
                    g = name(e)
                    if g == el:
                        got.append(('', None, e))
                elif g == el:
                    got.append((name(e), val(e), e))
            ns = [x[0] for x in got]
            if not got:
                ck.req(is_empty(p, f), el, 'is not written', rf)
                continue
            n += 1
            ck.req(ns == ['', 'line', 'column'], el, 'is written with %s' % ns[1:], rf)
            for x in got[1:]:
                t = num(x[1])
                want = acc_field2(ck, LOC + ('::getLineNumber' if x[0] == 'line'
                                             else '::getColumnOffset'))
                ck.req(t is not None and t[0] == 'fld' and t[2] == want and
                       mentions(t[1], lambda y: y and same(y, f)), '%s of %s' % (x[0], el),
                       'is written as %s' % show(x[1])[:120], e_pos(x[2]))
        ck.req(n, el, 'is never written', rf)
    mo = acc(FSR, 'getMemberOffset', L)
    once(ck, run(ck, rf, ['memberOffset'], [mo], opaque=[MO + '::toString']), 'member offset',
         'memberOffset', lambda p, v: is_call(v, 'toString') and mentions(
             v[2], lambda y: y and same(y, mo)), lambda p: is_empty(p, mo), rf)
    rv = acc(FSR, 'revisionRange', L)
    intro = acc_field2(ck, REV + '::introducingCommit')
    rem = acc_field2(ck, REV + '::removingCommit')
    once(ck, run(ck, rf, ['introduced'], [rv]), 'introducing commit', 'introduced',
         lambda p, v: v[0] == 'fld' and v[2] == intro and mentions(v, lambda y: y and same(y, rv)),
         lambda p: is_empty(p, rv), rf)
    once(ck, run(ck, rf, ['removed'], [rv]), 'removing commit', 'removed',
         lambda p, v: mentions(v, mentions_fld(rem)) and mentions(v, lambda y: y and same(y, rv))
         and not mentions(v, lambda y: is_call(y, *CHANGED)),
         lambda p: is_empty(p, rv) or any(
             a[0] in ('nn', 'empty') and mentions(a[1], mentions_fld(rem)) and v == (a[0] == 'empty')
             for a, v in p.facts.items()), rf)


def acc_field2(ck, q):
    """the field an accessor refers to on any path"""
    out = set()
    for f in ck.fns(q):
        for p in ck.paths(f):
            for t in walk(p.ret):
                if t and t[0] == 'fld' and t[1] == THIS:
                    out.add(t[2])
    if len(out) != 1:
        raise Undecided('accessor %s' % q)
    return out.pop()


def model_term(ck):
    """the model a writer writes: its only field of that type"""
    fs = [f['q'] for f in ck.fx.recs.get(WRI, {}).get('fields', ())
          if f['t'].replace('const ', '').rstrip(' &*').endswith('FeatureModel')]
    if len(fs) != 1:
        raise Undecided('model of the writer')
    return ('fld', THIS, fs[0])


@rule('P16', 'model', 'Name, path and commit of the model are written, and every feature '
      'in the section of its kind.')
def model(ck):
    R = roles(ck)
    fn, fu = entry(ck), feature_unit(ck)
    M = model_term(ck)
    for nm, role, what in (('name', 'mname', 'name of the model'),
                           ('root', 'mpath', 'path of the model'),
                           ('commit', 'mcommit', 'commit of the model')):
        f = R.f(role, M)
        once(ck, run(ck, fn, [nm], [f]), what, nm, lambda p, v: same(v, f),
             lambda p: role == 'mcommit' and is_empty(p, f), fn)
    fi = param(fu, 'Feature')[1]
    KIND = {'binaryOptions': {'RootFeature', 'BinaryFeature'},
            'numericOptions': {'NumericFeature'}}
    ps = run(ck, fn, SECTIONS, [kindy, lambda y: y and y[0] == 'empty' and
                                is_feature_range(R, y[1], M)], lambda e: e.q == fu['q'])
    n = {s: set() for s in KIND}
    for p in ps:
        sec, seen = None, {}
        order = []
        for e in p.events:
            if xml(e) == 'start':
                sec = name(e)
                order.append(sec)
            elif e.q == fu['q']:
                a = unv(e.args[fi])
                ok = a[0] == 'elem' and is_feature_range(R, unv(a[1]), M)
                if a[0] == 'elem' and not ok:
                    ck.undec('features written', show(a)[:80])
                    continue
                if not ck.req(ok, 'written features', 'are %s' % show(a)[:80], e_pos(e)):
                    continue
                ck.req(sec in KIND, 'features', 'are written in %s' % sec, e_pos(e))
                if sec not in KIND:
                    continue
                ks = {last(x[1]) for x, v in p.facts.items() if x[0] == 'isa' and v and
                      unk(x[2]) == unk(a)}
                seen.setdefault(sec, []).append(a)
                if ks:
                    ck.req(ks & KIND[sec], 'features in %s' % sec, 'are %s' % '/'.join(sorted(ks)),
                           e_pos(e))
                    n[sec] |= ks
        ck.req(order == [s for s in SECTIONS if s in order], 'sections',
               'are written as %s' % ', '.join(map(str, order)), fn)
        for s in KIND:
            if order:
                pass
            if s == 'binaryOptions':
                ck.req(s in order, s, 'is not written', fn)
        nonempty = any(a[0] == 'empty' and not v and is_feature_range(R, unv(a[1]), M)
                       for a, v in p.facts.items())
        if not nonempty:
            continue
        for s, ks in KIND.items():
            c = len(seen.get(s, ()))
            ck.req(c <= 1, 'features in %s' % s, 'are written %d times' % c, fn)
            if c:
                continue
            neg = {last(a[1]) for a, v in p.facts.items() if a[0] == 'isa' and not v}
            pos = {last(a[1]) for a, v in p.facts.items() if a[0] == 'isa' and v}
            ck.req(ks <= neg or pos and not pos & ks, 'features in %s' % s,
                   '%s is not written' % '/'.join(sorted(ks - neg)), fn)
    for s, ks in KIND.items():
        ck.req(ks <= n[s], 'features in %s' % s, '%s is never written' % '/'.join(
            sorted(ks - n[s])), fn)


@rule('P16', 'constraints', 'Every constraint of the model is written with its text in '
      'the section of its kind, a mixed one with its requirement and kind; only '
      'implications and exclusions between two features are left to their options.')
def constraints(ck):
    R = roles(ck)
    C = classes(ck)
    fn = entry(ck)
    M = model_term(ck)
    mreq, mkind = field_of(ck, MIXED + '::req'), field_of(ck, MIXED + '::exprKind')
    for sec, role in (('booleanConstraints', 'bcons'), ('nonBooleanConstraints', 'ncons'),
                      ('mixedConstraints', 'mcons')):
        coll = R.f(role, M)

        def keep(e, coll=coll):
            x = xml(e)
            if x in ('raw', 'other'):
                return True
            if x == 'start' and name(e) in SECTIONS:
                return True
            return x in ('start', 'end', 'text', 'attr') and any(
                unk(unv(l)) == unk(coll) for l in e.loops)
        ps = run(ck, fn, facts=[coll], keep=keep)
        n = 0
        for p in ps:
            it = any(same(a, ('empty', coll)) and not v for a, v in p.facts.items())
            cur, stack, texts = None, [], []
            for e in p.events:
                x = xml(e)
                if x == 'start' and name(e) in SECTIONS:
                    cur = name(e)
                    continue
                if x == 'start':
                    stack.append(name(e))
                elif x == 'end' and stack:
                    stack.pop()
                elif x == 'text':
                    t = text_of(val2(e))
                    ok = is_call(t, 'toString') and mentions(
                        t[2], lambda y: y and y[0] == 'elem' and same(y[1], coll))
                    ck.req(ok, 'text in %s' % sec, 'is %s' % show(t)[:100], e_pos(e))
                    ck.req(cur == sec, 'constraints of %s' % sec, 'are written in %s' % cur,
                           e_pos(e))
                    ck.req(stack == ['constraint'], 'constraints of %s' % sec,
                           'are written inside %s' % '/'.join(map(str, stack)), e_pos(e))
                    texts.append(t)
                elif x == 'attr' and role == 'mcons':
                    f, pre = (mreq, None) if name(e) == 'req' else (mkind, None) \
                        if name(e) == 'exprKind' else (None, None)
                    if f is None:
                        ck.undec('attributes of constraints', show(val(e))[:60])
                        continue
                    ks = set(ENUM[name(e)])
                    for a, w in p.facts.items():
                        if a[0] == 'eq' and any(mentions(y, mentions_fld(f)) for y in a[1:]):
                            k = {last(y[1]) for y in a[1:] if y[0] == 'enum'}
                            ks = ks & k if w else ks - k
                    v = text_of(val(e))
                    ck.req(v[0] == 'str' and {k.lower() for k in ks} <= {v[1]},
                           '%s of a mixed constraint' % name(e), 'is written as %s for %s' % (
                               show(v)[:30], '/'.join(sorted(ks))), e_pos(e))
            if texts:
                n += 1
                ck.req(len(texts) == 1, 'constraints of %s' % sec, 'are written %d times' %
                       len(texts), fn)
                if role == 'bcons':
                    covered_not_written(ck, p, C, sec, fn)
                if role == 'mcons':
                    at = [name(e) for e in p.events if xml(e) == 'attr']
                    for a in ENUM:
                        ck.req(at.count(a) == 1, '%s of a mixed constraint' % a,
                               'is written %d times' % at.count(a), fn)
            elif it:
                ok = False
                if role == 'bcons':
                    for cls in ('ImpliesConstraint', 'ExcludesConstraint'):
                        f = {(a[0], last(a[1]), side(a[2], C)): v for a, v in p.facts.items()
                             if a[0] == 'isa'}
                        if f.get(('isa', cls, None)) and all(
                                f.get(('isa', 'PrimaryFeatureConstraint', s))
                                for s in ('l', 'r')):
                            ok = True
                ck.req(ok, 'constraints of %s' % sec, 'are skipped', fn)
            else:
                ck.req(is_empty(p, coll), 'constraints of %s' % sec, 'are not written', fn)
        ck.req(n, 'constraints of %s' % sec, 'are never written', fn)


def covered_not_written(ck, p, C, sec, fn):
    """what is written as options of the features is not a constraint as well"""
    f = {(a[0], last(a[1]), side(a[2], C)): v for a, v in p.facts.items() if a[0] == 'isa'}
    nul = {side(a[1], C) for a, v in p.facts.items() if a[0] == 'nn' and not v}
    PAIR = ('ImpliesConstraint', 'ExcludesConstraint')
    for cls in PAIR:
        other = [k for (_, k, s), v in f.items() if s is None and v and k != cls and
                 k.endswith('Constraint') and k not in ('Constraint', 'BinaryConstraint',
                                                        'BooleanConstraint')]
        up = {last(q) for q in bases(ck.fx, V + cls)} | {cls}
        no = any(f.get(('isa', k, None)) is False for k in up) or other or any(
            f.get(('isa', 'PrimaryFeatureConstraint', s)) is False or s in nul for s in 'lr')
        ck.req(no, 'constraints of %s' % sec, 'are written though they are also written as '
               'options of a feature', fn)


ENUM = {'req': ('ALL', 'NONE'), 'exprKind': ('POS', 'NEG')}


def side(t, C):
    t = unv(t)
    if t[0] == 'fld' and t[2] == C.left:
        return 'l'
    if t[0] == 'fld' and t[2] == C.right:
        return 'r'
    return None


def val2(e):
    return e.args[1] if len(e.args) > 1 else VOID


@rule('P16', 'structure', 'Elements are closed as often as opened, and written in the '
      'order the document type demands.')
def structure(ck):
    fn, fu, rf = entry(ck), feature_unit(ck), range_unit(ck)
    for f, what in ((fn, 'document'), (fu, 'feature'), (rf, 'location')):
        def keep(e):
            return xml(e) in ('start', 'end', 'doc', 'raw', 'other')
        for p in run(ck, f, keep=keep):
            st, bad = [], None
            for e in p.events:
                x = xml(e)
                if x == 'start':
                    st.append(name(e))
                elif x == 'end':
                    if not st:
                        bad = 'more elements are closed than opened'
                        break
                    st.pop()
                elif x == 'doc':
                    st = []
            if st and f is not fn:
                bad = '%s is not closed' % st[-1]
            if f is fn and not any(xml(e) == 'doc' for e in p.events) and st:
                bad = '%s is not closed' % st[-1]
            ck.req(not bad, 'elements of a %s' % what, bad or '', f)
            if bad:
                break
    for f, order in ((fu, ORDER), (rf, RORDER)):
        for a, b in zip(order, order[1:] + order[:0]):
            for p in run(ck, f, [a, b]):
                ns = [name(e) for e in p.events if name(e) in (a, b)]
                ck.req(ns == sorted(ns, key=order.index), 'order of %s and %s' % (a, b),
                       'is reversed', f)
        outer = 'configurationOption' if f is fu else 'sourceRange'
        for p in run(ck, f, [outer, order[0], order[-1]]):
            ns = [name(e) for e in p.events if name(e)]
            ck.req(ns[:1] == [outer] and ns.count(outer) == 1, outer,
                   'is not the outer element', f)


@rule('P16', 'loops', 'No loop that writes ends before all members are written.')
def loops(ck):
    fn, fu, rf = entry(ck), feature_unit(ck), range_unit(ck)
    own = {fu['q'], rf['q']}
    for f, what in ((fn, 'document'), (fu, 'feature'), (rf, 'location')):
        def keep(e):
            return e.kind in ('iter', 'brk') or bool(e.loops) and (
                xml(e) in ('start', 'elem', 'text', 'raw', 'other') or e.q in own)
        seen = set()
        ps = run(ck, f, keep=keep, mark_loops=True)
        for c, e in once_only(ps):
            ck.bad('loop of a %s' % what, 'ends after the first member (%s)' % show(c)[:80], f)
        for p in ps:
            for i, e in enumerate(p.events):
                if e.kind in ('iter', 'brk'):
                    continue
                for l in e.loops:
                    l = unk(l)
                    after = [x for x in p.events[i:] if x.kind in ('iter', 'brk') and
                             any(unk(y) == l for y in x.loops)]
                    ok = after and after[0].kind == 'iter'
                    if not ok:
                        ck.bad('loop of a %s' % what, 'ends after the first member', e_pos(e))
                    elif (what, e.file, e.line) not in seen:
                        seen.add((what, e.file, e.line))
                        ck.good('loop of a %s' % what, e_pos(e))


# ------------------------------------------------------------------ P17
RC = ('rc',)


def failed(t):
    """a result that reports failure"""
    return t == NULL or t == RC or t[0] == 'int' and t[1] < 0 or t[0] == 'none' or \
        t[0] == 'bool' and not t[1]


def sites(W, f):
    """calls with an error code as result, in one function of the writer"""
    for n in nodes(f['body']):
        if n.get('k') == 'call' and isinstance(n.get('fn'), dict) and n.get('t') == 'int':
            q = n['fn']['q']
            if q.startswith('xmlTextWriter') or n['fn'].get('id') in W.fns and \
                    n['fn'].get('rt') == 'int' and writes(W, n['fn']['id']):
                yield n, q


def writes(W, i, seen=()):
    f = W.fns[i]
    return any(n.get('k') == 'call' and isinstance(n.get('fn'), dict) and
               (n['fn']['q'].startswith('xmlTextWriter') or
                n['fn'].get('id') in W.fns and n['fn']['id'] not in seen and
                writes(W, n['fn']['id'], seen + (i,))) for n in nodes(f['body']))


@rule('P17', 'codes', 'A negative result of any library function or part of the writer is '
      'returned as failure.')
def codes(ck):
    W = writer(ck)
    total = 0
    for i, f in sorted(W.fns.items()):
        if not writes(W, i):
            continue
        own = [g['q'] for j, g in W.fns.items() if j != i and writes(W, j)]
        if f['q'] in own:
            # overloads: the part with the same name is looked into
            own = [q for q in own if q != f['q']]
        ids = {W.fns[j]['q'] for j in W.fns if writes(W, j)}

        def keep(e):
            return e.res == RC
        for n, q in sites(W, f):
            total += 1
            el = [m['n'] for a in n['a'] for m in nodes(a)
                  if m.get('k') == 'ref' and 'XmlConstants::' in m.get('q', '')]
            what = 'result of %s' % ' '.join([last(q)] + el[:1])
            where = '%s:%s' % (f['file'], n['l'])
            ps = ck.paths(f, join=lambda a: mentions(a, lambda y: y == RC), depth=14,
                          max_paths=8000, opaque=list(ids - {f['q']}) + [CHILDREN, PARENTF] +
                          list(TOSTR) + list(LISTF), record=keep, returns_at={id(n): RC},
                          returns=lambda q: ('int', 0) if q.startswith('xmlTextWriter') or
                          q in ids else None)
            hit = False
            for p in ps:
                if p.kind != 'ret' or not any(e.res == RC for e in p.events):
                    continue
                hit = True
                v = [(a, v) for a, v in p.facts.items() if mentions(a, lambda y: y == RC)]
                neg = None
                for a, w in v:
                    if a == ('lt', RC, ('int', 0)):
                        neg = w
                    elif a[0] == 'eq' and RC in a[1:]:
                        o = a[2] if a[1] == RC else a[1]
                        if o[0] == 'int' and o[1] >= 0 and w:
                            neg = False
                    elif a in (('lt', ('int', -1), RC), ('lt', ('int', 0), RC)):
                        neg = False if w else True if a[1] == ('int', -1) else neg
                if neg is False:
                    continue
                ck.req(failed(p.ret), what, 'is dropped (%s is returned)' % show(p.ret)[:60],
                       where)
            if not hit:
                ck.undec(what, 'no path found', where)
    ck.need(total, 'results of the XML library')


ACQUIRE = (('xmlNewTextWriter', 'xmlFreeTextWriter', 'the writer'),
           ('xmlNewTextWriterDoc', 'xmlFreeDoc', 'the document'),
           ('xmlDocDump', 'xmlFree', 'the buffer'))


def mention_fn(ck, x, names, depth=4):
    """does the code or anything it calls use one of the functions"""
    for n in nodes(x):
        for k in ('n', 'q'):
            if n.get(k) in names:
                return True
        g = n.get('fn')
        if isinstance(g, dict):
            if g.get('q') in names:
                return True
            h = ck.fx.fns.get(g.get('id'))
            if depth and h and h.get('body') and g['q'].startswith(V) and \
                    mention_fn(ck, h['body'], names, depth - 1):
                return True
    return False


@rule('P17', 'resources', 'Writers, documents and buffers of the library are released by '
      'their owner, and without them nothing is reported as success.')
def resources(ck):
    W = writer(ck)
    n = 0
    for i, f in sorted(W.fns.items()):
        acq = [x for x in nodes(f['body']) if x.get('k') == 'call' and
               isinstance(x.get('fn'), dict) and
               x['fn']['q'].startswith(('xmlNewTextWriter', 'xmlDocDump'))]
        for x in acq:
            q = x['fn']['q']
            for pre, rel, what in ACQUIRE:
                if not q.startswith(pre):
                    continue
                n += 1
                names = (rel, 'xmlFreeFunc' if rel == 'xmlFree' else rel)
                ok = mention_fn(ck, f['body'], names)
                # a deleter class of this file
                ok = ok or any(mention_fn(ck, g['body'], names) for g in W.fns.values()
                               if last(g['q']) == 'operator()' or
                               last(g['q']).startswith('~'))
                ck.req(ok, what, 'of %s is not released by %s' % (short(q), rel),
                       '%s:%s' % (f['file'], x['l']))
    ck.need(n, 'resources of the writer')
    # nothing built, nothing reported
    ids = {g['q'] for j, g in W.fns.items() if writes(W, j)}
    for f in ck.fns(WRI + '::writeFeatureModel'):
        if any('xmlTextWriter' in p['t'] for p in f['params']):
            continue

        def keep(e):
            return e.kind == 'call' and (e.q.startswith(('xmlNewTextWriter', 'xmlTextWriter', 'xmlDocDump')) or
                                         e.q in ids)
        ps = ck.paths(f, join=lambda a: a[0] in ('nn', 'lt', 'eq', 'empty'), record=keep, depth=6,
                      max_paths=8000, opaque=[q for q in ids if q != f['q']])
        k = 0
        for p in ps:
            if p.kind != 'ret':
                continue
            ok = not failed(p.ret)
            new = [e for e in p.events if e.q.startswith('xmlNewTextWriter')]
            if not new and ok:
                ck.bad('success', 'is reported without a writer', f)
                continue
            null = any(a[0] == 'nn' and not v and mentions(
                a[1], lambda y: y and y[0] == 'call' and y[1].startswith('xmlNewTextWriter'))
                and unk(a[1]) == unk(new[0].res) for a, v in p.facts.items()) if new else False
            if null:
                ck.req(not ok, 'a writer that cannot be created', 'is no failure', f)
                k += 1
            if ok and not null:
                ck.req(p.ret[0] != 'undef' and any(e.q in ids or e.q.startswith(
                    'xmlTextWriter') for e in p.events), 'success',
                    'is reported though nothing was written', f)
            dump = [e for e in p.events if e.q.startswith('xmlDocDump')]
            if dump and ok:
                known = [a for a, v in p.facts.items() if v and a[0] == 'nn' and
                         not mentions(a[1], lambda y: y and y[0] == 'call')]
                size = [a for a, v in p.facts.items() if a[0] in ('lt', 'eq') and
                        not mentions(a, lambda y: y and y[0] == 'call')]
                ck.req(known or size, 'a document that cannot be dumped', 'is no failure', f)
        ck.good('entry %s' % len(f['params']), '%d paths' % len(ps))
