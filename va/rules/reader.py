"""Reading model documents: every element is kept (P14), invalid documents are
rejected (P15), alternatives are detected (P18)."""
import re
from ..core import rule, Undecided
from ..engine import *
from ..engine import last, short
from ..model import *
from ..model import V
from .constraints import field_of, classes, unv
from .solver import is_call
from .config import str_of, opt
from .writer import nodes, cont_key, same, is_empty, acc_field2, FSR, MIXED

XMLP = V + 'FeatureModelXmlParser'
SXFM = V + 'FeatureModelSxfmParser'
TRANS = V + 'FeatureModelTransaction'
CB = V + 'ConstraintBuilder'
NODE = '_xmlNode::'
LIB = (V + 'parseInteger', V + 'StepFunctionParser::buildStepFunction',
       V + 'ConstraintParser::buildConstraint', V + 'trim',
       FSR + '::FeatureMemberOffset::createFeatureMemberOffset',
       'xmlStrcmp', 'xmlStrEqual')
TEXTFN = {'trim', 'ltrim', 'rtrim', 'str', 'c_str', 'data', 'get', 'string', 'basic_string',
          'StringRef', 'path', 'begin', 'end', 'xmlNodeGetContent', 'xmlGetProp', 'string_view',
          'basic_string_view'}


def in_reader(f):
    return 'FeatureModelParser' in (f.get('file') or '')


class Units:
    """functions of the reader and the document constants they mention"""

    def __init__(self, ck):
        fx = ck.fx
        self.fns = {f['key']: f for f in fx.fns.values() if in_reader(f) and f.get('body')}
        ids = {}
        for k, f in self.fns.items():
            ids.setdefault(f['id'], k)
        self.direct, self.calls = {}, {}
        for k, f in self.fns.items():
            self.direct[k], self.calls[k] = set(), set()
            for n in nodes(f['body']):
                q = n.get('q', '')
                if n.get('k') == 'ref' and ('XmlConstants::' in q or 'SxfmConstants::' in q):
                    self.direct[k].add(last(q))
                g = n.get('fn')
                if isinstance(g, dict) and g.get('id') in ids:
                    self.calls[k].add(ids[g['id']])
        self.consts = {}
        for k in self.fns:
            self.consts[k] = set().union(*(self.direct[j] for j in self.closure(k)))

    def closure(self, k):
        seen, todo = set(), [k]
        while todo:
            j = todo.pop()
            if j not in seen:
                seen.add(j)
                todo.extend(self.calls[j])
        return seen

    def unit(self, has, not_has, what, also=lambda f: True):
        c = [k for k in self.fns if has in self.consts[k] and
             not self.consts[k] & set(not_has) and also(self.fns[k])]
        top = [k for k in c if not any(k in self.calls[j] for j in c if j != k)]
        if len(top) != 1:
            raise Undecided('function that reads %s' % what)
        return self.fns[top[0]]


_U = {}


def units(ck):
    k = id(ck.fx)
    if k not in _U:
        _U[k] = Units(ck)
    return _U[k]


def feature_unit(ck):
    return units(ck).unit('OUTPUTSTRING', ['CONFIGURATIONOPTION', 'BINARYOPTIONS'], 'a feature')


def range_unit(ck):
    return units(ck).unit('MEMBEROFFSET', ['SOURCERANGE', 'LOCATIONS'], 'a location')


def vm_unit(ck):
    return units(ck).unit('BINARYOPTIONS', ['DtdRaw'], 'the document')


def xmlish(y):
    return y and (y[0] == 'fld' and y[2].startswith(NODE) or
                  y[0] == 'call' and y[1] in ('xmlGetProp', 'xmlNodeGetContent') or
                  y[0] in ('mu', 'param'))


def run(ck, fn, opaque=(), keep=None, join=None, **kw):
    fx = ck.fx
    opq = set(LIB) | set(opaque) | {q for q in fx.by_q if short(q).startswith((TRANS + '::', CB + '::'))}
    opq -= {fn['q']}

    def rec(e):
        return e.kind == 'call' and (
            e.q.startswith((TRANS, CB)) or e.q.split('<')[0] in opq and
            e.q not in ('xmlStrcmp', 'xmlStrEqual', V + 'trim') or
            last(e.q) in ADD and e.obj is not None)
    return ck.paths(fn, record=keep or rec, opaque=list(opq), havoc='all',
                    join=join or (lambda a: mentions(a, xmlish)), max_paths=20000, depth=14,
                    **kw)


def name_atom(a, v):
    """(node, element name) if the fact says that a node has a name, plus
    whether it has it"""
    neg = False
    if a[0] == 'nn':
        a = a[1]
        neg = is_call(a, 'xmlStrcmp', 'strcmp')
    elif a[0] == 'eq' and ('int', 0) in a[1:]:
        a = a[1] if a[2] == ('int', 0) else a[2]
        neg = not is_call(a, 'xmlStrcmp', 'strcmp')
    if is_call(a, 'xmlStrcmp', 'xmlStrEqual', 'strcmp'):
        args = a[3]
    elif a[0] == 'eq':
        args = a[1:3]
        neg = False
    else:
        return None
    s = [x[1] for x in args if x[0] == 'str']
    t = [x for x in args if x[0] != 'str']
    if len(s) != 1 or len(t) != 1:
        return None
    n = [y for y in walk(t[0]) if y and y[0] == 'fld' and y[2] == NODE + 'name']
    if len(n) != 1:
        return None
    return unk(n[0][1]), s[0], v != neg


def matched(p):
    """names of the nodes of a path"""
    out = {}
    for a, v in p.facts.items():
        m = name_atom(a, v)
        if m and m[2]:
            out[m[0]] = m[1]
    return out


def excluded_names(p):
    out = {}
    for a, v in p.facts.items():
        m = name_atom(a, v)
        if m and not m[2]:
            out.setdefault(m[0], set()).add(m[1])
    return out


def up(n):
    """the node a child node belongs to, None if n is no child"""
    if n[0] == 'mu' and n[2][0] == 'fld' and n[2][2] == NODE + 'children':
        return unk(n[2][1])
    if n[0] == 'fld' and n[2] == NODE + 'children':
        return unk(n[1])
    return None


def source(t):
    """('content', node) or ('attr', node, name) a text is taken from; second
    value is whether blanks around it are removed"""
    cs = [y for y in walk(t) if y and y[0] == 'call' and
          y[1] in ('xmlNodeGetContent', 'xmlGetProp')]
    if len({unk(c) for c in cs}) != 1:
        return None, False
    bad = [y for y in walk(t) if y and y[0] == 'call' and last(y[1]) not in TEXTFN and
           not any(y is z for z in cs)]
    if bad:
        return None, False
    trimmed = any(y and y[0] == 'call' and last(y[1]) in ('trim', 'ltrim', 'rtrim')
                  for y in walk(t))
    c = cs[0]
    if c[1] == 'xmlGetProp':
        a = c[3][1] if len(c[3]) > 1 else VOID
        return ('attr', unk(c[3][0]), a[1] if a[0] == 'str' else None), trimmed
    return ('content', unk(c[3][0])), trimmed


def is_text(t, node):
    return source(t)[0] == ('content', node)


def ok_ret(p):
    """the path reports success"""
    r = p.ret
    if p.kind != 'ret':
        return False
    if r[0] in ('Err', 'Error', 'err') or r[0] == 'new' and last(short(r[1])) == 'Error' or \
            r == NULL or r in (('bool', False), ('none',), ('int', 0)):
        return False
    if mentions(r, lambda y: y and (y[0] in ('err', 'Err', 'Error') or y[0] == 'new' and
                                    last(short(y[1])) == 'Error')):
        return False
    return True


def nonempty(p, node):
    """False if the path knows that the text of a node is empty"""
    for a, v in p.facts.items():
        if a[0] == 'empty' and v and is_text(a[1], node):
            return False
    return True


def features_of(p):
    return [e for e in p.events if e.q.startswith(TRANS) and
            last(short(e.q)) in ('addFeature', 'setRoot')]


def tcall(p, nm):
    return [e for e in p.events if e.q.startswith(TRANS) and last(short(e.q)) == nm]


def strip(t):
    """the value behind copies and moves"""
    while True:
        u = unv(opt(t))
        if u[0] in ('var', 'agg') and len(u) > 2 and isinstance(u[2], tuple):
            u = u[2] if u[0] == 'var' else u
        if u == t:
            return t
        t = u


def mus(t):
    return {y[1] for y in walk(t) if y and y[0] == 'mu' and up(y) is None}


OPTION = ('name', 'outputString', 'optional', 'parent', 'children', 'impliedOptions',
          'excludedOptions', 'locations')
NUMBERS = ('minValue', 'maxValue', 'values', 'stepFunction')
LISTS = {'children': ('options',), 'impliedOptions': ('options',),
         'excludedOptions': ('options',), 'locations': ('sourceRange',)}
ROLES = {'name': 'fname', 'outputString': 'fout', 'optional': 'fopt', 'minValue': 'values',
         'maxValue': 'values', 'values': 'values', 'stepFunction': 'step'}


@rule('P14', 'features', 'Every element of an option becomes the attribute of its feature, '
      'and no other element changes it.')
def features(ck):
    R = roles(ck)
    fn, ru = feature_unit(ck), range_unit(ck)
    ps = run(ck, fn, [ru['q']])
    en = ck.last_engine
    flag = [('param', i, p['n']) for i, p in enumerate(fn['params']) if p['t'] == 'bool']
    if len(flag) != 1:
        raise Undecided('kind of the options')
    flag = flag[0]
    seen, carried = {}, {}

    def value(new, role):
        if new[0] != 'new':
            return None
        if role in ('values', 'step') and last(short(new[1])) != 'NumericFeature':
            return None
        return en.field_of_new(new, R.of[role])

    def carry(role, what, t, e):
        """a value no element of this path has set"""
        t = strip(t)
        if t[0] == 'pair' or t[0] == 'new' and last(short(t[1])) == 'pair':
            parts = [x for x in (t[1] if t[0] == 'pair' and isinstance(t[1], tuple) and t[1] and
                                 isinstance(t[1][0], tuple) else t[2] if t[0] == 'new' else t[1:])]
            for i, x in enumerate(parts):
                carry(role, '%s %d' % (what, i), x, e)
            return
        if t[0] == 'new' and 'vector' in t[1]:
            carried.setdefault(what + ' list', set()).add(cont_key(t))
            return
        if t[0] != 'mu':
            ck.bad(what, 'is %s without an element that says so' % show(t)[:100], e_pos(e))
            return
        carried.setdefault(what, set()).add((t[1], t[2]))

    for p in ps:
        if not ok_ret(p):
            continue
        top = [(n, k) for n, k in matched(p).items() if up(n) == ('param', 0, fn['params'][0]['n'])]
        if len(top) > 1:
            ck.bad('element', 'is treated as several kinds: %s' % [k for n, k in top], fn)
            continue
        node, kind = top[0] if top else (None, None)
        num = next((v for a, v in p.facts.items() if a == ('nn', flag)), None)
        missed(ck, p, ('param', 0, fn['params'][0]['n']), OPTION + (NUMBERS if num else ()),
               'element of an option', fn)
        if kind in LISTS:
            missed(ck, p, node, LISTS[kind], 'element of ' + kind, fn)
        if node is not None and not nonempty(p, node):
            kind = None
        mk = features_of(p)
        if not ck.req(len(mk) == 1, 'option', 'becomes %d features' % len(mk), fn):
            continue
        e = mk[0]
        new = strip(e.args[0])
        if new[0] != 'new':
            ck.undec('feature', show(new)[:80])
            continue
        raw = next((y for y in walk(e.args[0]) if y and y[0] == 'new' and
                    last(short(y[1])) == last(short(new[1]))), new)
        cls = last(short(new[1]))
        # the kind of the feature
        rootn = [v for a, v in p.facts.items() if a[0] == 'eq' and
                 any(x in (('str', 'root'), ('str', 'base')) for x in a[1:])]
        if any(rootn):
            ck.req(cls == 'RootFeature', 'root', 'becomes a %s' % cls, e_pos(e))
        elif len(rootn) == 2:
            ck.req(cls != 'RootFeature', 'other features', 'become roots', e_pos(e))
            if num is None:
                ck.undec('kind of features', cls)
            else:
                ck.req(cls == ('NumericFeature' if num else 'BinaryFeature'), '%s option' % (
                    'numeric' if num else 'binary'), 'becomes a %s' % cls, e_pos(e))
        else:
            ck.undec('names of roots', str(len(rootn)))
        # its attributes
        for role in ('fname', 'fout', 'fopt', 'values', 'step'):
            if cls == 'RootFeature' and role != 'fname':
                continue
            if role in ('values', 'step') and cls != 'NumericFeature':
                continue
            t = value(raw, role)
            if t is None:
                ck.undec('%s of a %s' % (role, cls), 'constructor')
                continue
            set_by = [k for k, r in ROLES.items() if r == role]
            what = {'fname': 'name', 'fout': 'output string', 'fopt': 'optionality',
                    'values': 'values', 'step': 'step function'}[role]
            if kind in set_by and (num is not False or role not in ('values', 'step')):
                r = good_value(ck, p, kind, strip(t), node)
                if r is None:
                    ck.undec(what, show(t)[:80])
                elif r == 'other':
                    # the other form of the values
                    carry(role, what, t, e)
                else:
                    if ck.req(r is True, '%s of %s' % (what, cls), 'is %s' % show(t)[:140],
                              e_pos(e)):
                        seen[kind, cls] = True
            else:
                carry(role, what, t, e)
        events_of(ck, R, p, fn, kind, node, en, raw, seen, ru, e)
    for k in ('name', 'outputString', 'optional', 'minValue', 'maxValue', 'values',
              'stepFunction'):
        cl = ('NumericFeature',) if ROLES[k] in ('values', 'step') else \
            ('BinaryFeature', 'NumericFeature') + (('RootFeature',) if k == 'name' else ())
        for c in cl:
            ck.req(seen.get((k, c)), '%s of %s' % (k, c), 'is never read', fn)
    for k in ('parent', 'children', 'impliedOptions', 'excludedOptions', 'locations'):
        ck.req(seen.get(k), k, 'are never read', fn)
    # different attributes come from different variables
    one = {}
    for what, vs in carried.items():
        ck.req(len(vs) == 1, what, 'is kept in several variables', fn)
        v = next(iter(vs))
        if isinstance(v[0], str) and what not in ('values list', 'locations list'):
            one.setdefault(v[0], set()).add(what)
    for v, ws in one.items():
        ck.req(len(ws) == 1, '/'.join(sorted(ws)), 'share a variable', fn)
    init = {'optionality': ('bool', False), 'output string': ('str', ''), 'step function': NULL}
    for what, t in init.items():
        for v in carried.get(what, ()):
            got = v[1]
            while got[0] in ('new', 'some') and len(got) > 2 and not got[2] and \
                    t == ('str', ''):
                got = ('str', '')
            ck.req(got == t, what + ' without element', 'is %s' % show(v[1])[:60], fn)


def e_pos(e):
    return '%s:%s' % (e.file, e.line)


def good_value(ck, p, kind, t, node):
    """is a value the one an element sets? None: not understood"""
    if kind in ('name', 'outputString'):
        return is_text(t, node)
    if kind == 'optional':
        if t[0] == 'op' and t[1] == '==':
            t = ('eq',) + t[2:4]
        if t[0] == 'eq' and ('str', 'True') in t[1:]:
            return is_text(next(x for x in t[1:] if x != ('str', 'True')), node)
        if t[0] == 'bool':
            for a, v in p.facts.items():
                if a[0] == 'eq' and ('str', 'True') in a[1:] and \
                        is_text(next(x for x in a[1:] if x != ('str', 'True')), node):
                    return v == t[1]
                if a[0] == 'eq' and ('str', 'False') in a[1:] and \
                        is_text(next(x for x in a[1:] if x != ('str', 'False')), node):
                    return None
        return False
    if kind in ('minValue', 'maxValue'):
        if t[0] == 'new' and 'vector' in t[1]:
            return 'other'
        parts = t[1:] if t[0] == 'pair' else t[2] if t[0] == 'new' else None
        if t[0] == 'pair' and len(t) == 2:
            parts = t[1]
        if not parts or len(parts) != 2:
            return None
        x = strip(parts[0 if kind == 'minValue' else 1])
        y = strip(parts[1 if kind == 'minValue' else 0])
        return is_call(x, 'parseInteger') and is_text(x[3][0], node) and y[0] == 'mu'
    if kind == 'values':
        if t[0] == 'pair' or t[0] == 'new' and 'pair' in t[1]:
            return 'other'
        if t[0] != 'new' or 'vector' not in t[1]:
            return None
        adds = [e for e in p.events if last(e.q) in ADD and e.obj is not None and
                cont_key(e.obj) == cont_key(t)]
        if not adds and any(v and a[0] == 'nn' and is_call(a[1], 'regex_search')
                            for a, v in p.facts.items()):
            return False
        if not adds:
            # no number has been found in the text
            return 'other'
        for e in adds:
            x = strip(e.args[-1])
            if not (is_call(x, 'parseInteger') and len(e.args) == 1 and len(e.loops) > 1):
                return False
            # a token of the text: found by a search in it
            srch = [a for a, v in p.facts.items() if v and a[0] == 'nn' and
                    is_call(a[1], 'regex_search')]
            if is_text(x[3][0], node):
                continue
            if not srch:
                return None
            for a in srch:
                txt = a[1][3][0]
                txt = txt[2] if txt[0] == 'mu' else txt
                if not mentions(txt, lambda y: y and y[0] == 'call' and
                                y[1] == 'xmlNodeGetContent' and unk(y[3][0]) == node):
                    return False
                rx = [y[1] for y in walk(a[1][3]) if y and y[0] == 'str' and y[1]]
                for r in rx:
                    if not integer_regex(r):
                        return False
        return True
    if kind == 'stepFunction':
        if not is_call(t, 'buildStepFunction'):
            return False
        return mentions(t, lambda y: y and y[0] == 'call' and y[1] == 'xmlNodeGetContent' and
                        unk(y[3][0]) == node)
    return None


def integer_regex(r):
    """does a regular expression find exactly the integers of a list"""
    try:
        x = re.compile(r)
    except re.error:
        return True
    for text in ('1;2;3', '-5', '10;-20;300', '9223372036854775807;-9223372036854775808', '0',
                 '-1;0;1', '1 2', '7,-8'):
        want = re.findall(r'-?[0-9]+', text)
        got = [m.group(0) for m in x.finditer(text)]
        if want != got:
            return False
    return True


def chain(p, t):
    """names and texts of the calls of a constraint builder"""
    t = strip(t)
    root = t
    while root[0] == 'call' and root[2] is not None:
        root = unv(root[2])
    out = []
    for e in p.events:
        if not e.q.startswith(CB + '::') or e.obj is None:
            continue
        o = unv(e.obj)
        while o[0] == 'call' and o[2] is not None:
            o = unv(o[2])
        if unk(o) == unk(root):
            out.append((last(e.q), e.args))
    return out


def events_of(ck, R, p, fn, kind, node, en, raw, seen, ru, mk):
    """edges, constraints and locations of one element"""
    nm = strip(mk.args[0])
    nm = strip(en.field_of_new(raw, R.of['fname']) or nm)
    edges, cons, locs = tcall(p, 'addChild'), tcall(p, 'addConstraint'), tcall(p, 'addLocation')
    inner = [(n, k) for n, k in matched(p).items() if node is not None and up(n) == node]

    def is_name(t):
        t = strip(t)
        return t == nm or unk(t) == unk(nm)
    c = inner[0][0] if inner else None
    if kind == 'parent':
        ok = ck.req(len(edges) >= 1 or parent_known(p, node), 'parent', 'is not added', fn)
        for e in edges:
            ok &= ck.req(is_text(e.args[0], node) and is_name(e.args[1]), 'parent',
                         'is added as %s below %s' % (show(e.args[1])[:60],
                                                      show(e.args[0])[:80]), e_pos(e))
        seen['parent'] = seen.get('parent') or ok and edges
    elif kind == 'children' and c is not None and inner[0][1] == 'options':
        ok = ck.req(len(edges) >= 1 or parent_known(p, c), 'children', 'are not added', fn)
        for e in edges:
            ok &= ck.req(is_name(e.args[0]) and is_text(e.args[1], c), 'children',
                         'are added as %s below %s' % (show(e.args[1])[:80],
                                                       show(e.args[0])[:60]), e_pos(e))
        seen['children'] = seen.get('children') or ok and edges
    else:
        for e in edges:
            ck.bad('edges', 'are added for %s' % kind, e_pos(e))
    if kind in ('excludedOptions', 'impliedOptions') and c is not None and \
            inner[0][1] == 'options':
        op = {'excludedOptions': 'excludes', 'impliedOptions': 'implies'}[kind]
        ok = ck.req(len(cons) == 1, kind, 'become %d constraints' % len(cons), fn)
        for e in cons:
            t = strip(e.args[0])
            cls = last(short(t[1])) if t[0] == 'new' else '?'
            ok &= ck.req(cls == 'BooleanConstraint', kind, 'become a %s' % cls, e_pos(e))
            seq = chain(p, t[2][0]) if t[0] == 'new' and t[2] else []
            names = [x[0] for x in seq]
            if names:
                ok &= ck.req(names == ['feature', op, 'feature', 'build'] and
                             is_name(seq[0][1][0]) and is_text(seq[2][1][0], c), kind,
                             'become %s of %s' % (' '.join(names), ', '.join(
                                 show(x[1][0])[:60] for x in seq if x[1])), e_pos(e))
            else:
                want = {'excludes': 'ExcludesConstraint', 'implies': 'ImpliesConstraint'}[op]
                got = [y for y in walk(t) if y and y[0] == 'new' and
                       last(short(y[1])) == want]
                ok &= ck.req(got, kind, 'become %s' % show(t)[:100], e_pos(e))
        seen[kind] = seen.get(kind) or ok
    else:
        for e in cons:
            ck.bad('constraints', 'are added for %s' % kind, e_pos(e))
    # locations
    cls = last(short(raw[1]))
    lst = en.field_of_new(raw, R.of['flocs']) if cls != 'RootFeature' else None
    key = cont_key(strip(lst)) if lst is not None and strip(lst)[0] == 'new' else None
    adds = [e for e in p.events if last(e.q) in ADD and e.obj is not None and e.args and
            is_call(strip(e.args[-1]), last(ru['q'].split('<')[0]))]
    if kind == 'locations' and c is not None and inner[0][1] == 'sourceRange':
        ok = ck.req(len(adds) == 1, 'locations', 'are read %d times' % len(adds), fn)
        for e in adds:
            x = strip(e.args[-1])
            ok &= ck.req(unk(x[3][0]) == c, 'locations', 'are read from %s' % show(x)[:80],
                         e_pos(e))
            k = cont_key(e.obj)
            if cls != 'RootFeature':
                ok &= ck.req(key is None or key == k, 'locations', 'are not those of the feature',
                             e_pos(e))
                if key is None:
                    ck.undec('list of locations', show(lst)[:80] if lst else '?')
            else:
                emp = any(a[0] == 'empty' and v and cont_key(a[1]) == k
                          for a, v in p.facts.items())
                if not emp:
                    ok &= ck.req(len(locs) == 1 and mentions(locs[0].args[1], lambda y: y and
                                 y[0] == 'elem' and cont_key(y[1]) == k) and
                                 is_name(locs[0].args[0]), 'locations of the root',
                                 'are not added', fn)
        seen['locations'] = seen.get('locations') or ok
    else:
        for e in adds:
            ck.bad('locations', 'are read from %s' % kind, e_pos(e))


def parent_known(p, node):
    """the edge is there already"""
    return any(a[0] == 'contains' and v for a, v in p.facts.items()) and any(
        a[0] == 'eq' and v and any(x[0] in ('mapent', 'mapval') for x in a[1:])
        for a, v in p.facts.items())


ELEM = 'XML_ELEMENT_NODE'


def missed(ck, p, parent, names, what, fn):
    """an element below a node that no case of a successful path handles has
    none of the names"""
    n = None
    for a, v in p.facts.items():
        if a[0] == 'nn' and v and up(a[1]) == parent and a[1][0] == 'mu':
            n = unk(a[1])
    if n is None or n in matched(p) or not nonempty(p, n):
        return True
    for a, v in p.facts.items():
        if a[0] == 'eq' and not v and any(x[0] == 'fld' and x[2] == NODE + 'type' and
                                          unk(x[1]) == n for x in a[1:]):
            return True
    gone = set(names) - excluded_names(p).get(n, set())
    return ck.req(not gone, what, '%s: skipped under some condition' % ', '.join(sorted(gone)),
                  fn)


def number_of(t, node):
    """is a term the number in the text of a node"""
    t = strip(t)
    return is_call(t, 'atoi', 'atol', 'atoll', 'strtol', 'strtoul', 'strtoll', 'strtoull', 'stoi',
                   'stol', 'stoul', 'stoull', 'stoll', 'parseInteger') and t[3] and \
        is_text(t[3][0], node)


def default_of(t):
    """the value of a variable no element has set"""
    t = strip(t)
    if t[0] == 'mu':
        t = strip(t[2])
    while t[0] == 'new' and len(t[2]) == 1 and last(short(t[1])) in ('path', 'basic_string'):
        t = strip(t[2][0])
    if t[0] == 'new' and not t[2] and ('string' in t[1] or last(short(t[1])) == 'path'):
        return ('str', '')
    if t[0] in ('none',) or t == ('new',):
        return NULL
    return t


FSL = FSR + '::FeatureSourceLocation'
FRR = FSR + '::FeatureRevisionRange'
FMO = FSR + '::FeatureMemberOffset'


@rule('P14', 'locations', 'Every element of a location becomes the part of the location with '
      'its meaning.')
def locations(ck):
    fn = range_unit(ck)
    node0 = ('param', 0, fn['params'][0]['n'])
    ps = run(ck, fn)
    en = ck.last_engine
    part = {k: acc_field2(ck, FSR + '::' + g) for k, g in
            (('path', 'getPath'), ('start', 'getStart'), ('end', 'getEnd'),
             ('category', 'getCategory'), ('memberOffset', 'getMemberOffset'),
             ('revisionRange', 'revisionRange'))}
    inner = {'line': acc_field2(ck, FSL + '::getLineNumber'),
             'column': acc_field2(ck, FSL + '::getColumnOffset'),
             'introduced': acc_field2(ck, FRR + '::introducingCommit'),
             'removed': acc_field2(ck, FRR + '::removingCommit')}
    seen, one = set(), {}
    ALL = ('path', 'start', 'end', 'memberOffset', 'revisionRange')
    for p in ps:
        if p.kind != 'ret':
            continue
        raw = p.ret
        while raw[0] != 'new' and unv(raw) != raw:
            raw = unv(raw)
        if not (raw[0] == 'new' and last(short(raw[1])) == 'FeatureSourceRange'):
            ck.undec('location', show(raw)[:80])
            continue
        m = matched(p)
        top = [(n, k) for n, k in m.items() if up(n) == node0]
        node, kind = top[0] if top else (None, None)
        missed(ck, p, node0, ALL, 'element of a location', fn)
        val = {k: en.field_of_new(raw, q) for k, q in part.items()}
        if any(v is None for v in val.values()):
            ck.undec('parts of a location', 'constructor')
            continue
        for k in ALL:
            t = strip(val[k])
            if k != kind:
                if t[0] == 'mu':
                    one.setdefault(k, set()).add(t[1])
                want = ('str', '') if k == 'path' else NULL
                ck.req(default_of(t) == want, k, 'is %s without an element that says so' %
                       show(t)[:80], fn)
                continue
            sub = [(n, j) for n, j in m.items() if up(n) == node]
            if k == 'path':
                while t[0] == 'new' and last(short(t[1])) == 'path' and t[2]:
                    t = strip(t[2][0])
                ok = ck.req(is_text(t, node), k, 'is %s' % show(t)[:100], fn)
            elif k == 'memberOffset':
                ok = ck.req(is_call(t, 'createFeatureMemberOffset') and
                            is_text(t[3][0], node) or
                            t[0] == 'mu' and not nonempty(p, node), k, 'is %s' % show(t)[:100], fn)
            elif k in ('start', 'end'):
                if not ck.req(t[0] == 'new' and last(short(t[1])) == 'FeatureSourceLocation', k,
                              'is %s' % show(t)[:100], fn):
                    continue
                missed(ck, p, node, ('line', 'column'), 'element of a position', fn)
                ok = True
                for j in ('line', 'column'):
                    x = strip(en.field_of_new(t, inner[j]) or VOID)
                    if sub and sub[0][1] == j:
                        if ck.req(number_of(x, sub[0][0]), j, 'is %s' % show(x)[:100], fn):
                            seen.add((k, j))
                    else:
                        ck.req(x[0] == 'mu' and x[2] == ('int', 0) or x == ('int', 0), j,
                               'is %s without an element that says so' % show(x)[:80], fn)
                        if x[0] == 'mu':
                            one.setdefault(j, set()).add(x[1])
            else:
                if not ck.req(t[0] == 'new' and last(short(t[1])) == 'FeatureRevisionRange', k,
                              'is %s' % show(t)[:100], fn):
                    continue
                missed(ck, p, node, ('introduced', 'removed'), 'element of a revision range', fn)
                ok = True
                for j in ('introduced', 'removed'):
                    x = strip(en.field_of_new(t, inner[j]) or VOID)
                    if sub and sub[0][1] == j:
                        if ck.req(is_text(x, sub[0][0]) or not nonempty(p, sub[0][0]) and
                                  default_of(x) in (NULL, ('str', '')), j,
                                  'is %s' % show(x)[:100], fn) and is_text(x, sub[0][0]):
                            seen.add((k, j))
                    else:
                        ck.req(default_of(x) in (NULL, ('str', '')), j,
                               'is %s without an element that says so' % show(x)[:80], fn)
                        if x[0] == 'mu':
                            one.setdefault(j, set()).add(x[1])
            if ok:
                seen.add(k)
        # the category is an attribute
        c = strip(val['category'])
        known = {}
        for a, v in p.facts.items():
            for y in walk(a):
                if is_call(y, 'xmlGetProp') and source(y)[0] == ('attr', node0, 'category'):
                    if a[0] == 'nn' and unk(a[1]) == unk(y):
                        known['set'] = v
                    else:
                        lit = [z[1] for z in walk(a) if z and z[0] == 'str' and
                               z[1] in ('necessary', 'inessential')]
                        neg = a[0] == 'nn' or a[0] == 'eq' and ('int', 0) not in a[1:] and \
                            is_call(a[1], 'xmlStrcmp', 'strcmp')
                        if len(lit) == 1:
                            known[lit[0]] = v != neg
        names = [k for k in ('necessary', 'inessential') if known.get(k)]
        if known.get('set') is False:
            names = ['necessary']
        elif not names and len([k for k in ('necessary', 'inessential')
                                if known.get(k) is False]) == 1:
            # the schema knows two values only
            names = ['inessential' if known.get('necessary') is False else 'necessary']
        if len(names) != 1 or c[0] != 'enum':
            if c[0] == 'enum' and 'set' not in known and not names:
                ck.bad('category', 'does not depend on the attribute', fn)
            elif c[0] == 'undef':
                ck.bad('category', 'is not defined for some values of the attribute', fn)
            else:
                ck.undec('category', show(c)[:60])
            continue
        if ck.req(last(c[1]) == names[0], 'category ' + names[0], 'is %s' % show(c), fn):
            seen.add(names[0])
    for k in ALL + ('necessary', 'inessential', ('start', 'line'), ('start', 'column'),
                    ('end', 'line'), ('end', 'column'), ('revisionRange', 'introduced'),
                    ('revisionRange', 'removed')):
        ck.req(k in seen, '%s' % (k if isinstance(k, str) else ' '.join(k)), 'is never read', fn)
    mine = {}
    for k in ALL:
        for v in one.get(k, ()):
            mine.setdefault(v, set()).add(k)
    for a, b in (('line', 'column'), ('introduced', 'removed')):
        ck.req(not one.get(a, set()) & one.get(b, set()), a + '/' + b, 'share a variable', fn)
    for v, ks in mine.items():
        ck.req(len(ks) == 1, '/'.join(sorted(ks)), 'share a variable', fn)


SECTION = {'booleanConstraints': 'BooleanConstraint', 'mixedConstraints': 'MixedConstraint',
           'nonBooleanConstraints': 'NonBooleanConstraint'}


def doc_paths(ck):
    fn, fu = vm_unit(ck), feature_unit(ck)

    def keep(a):
        if name_atom(a, True) or a[0] == 'nn' and up(a[1]):
            return True
        return mentions(a, lambda y: y and (
            y[0] == 'fld' and y[2] == NODE + 'type' or
            is_call(y, 'xmlGetProp') and source(y)[0] is not None or
            is_call(y, 'buildConstraint', 'xmlNodeGetContent')))
    return fn, fu, run(ck, fn, [fu['q']], join=keep)


def attr_value(p, node, name, lits):
    """the literal an optional attribute has on a path: a literal, 'other' or
    None if the path does not know"""
    res, neg = None, set()
    for a, v in p.facts.items():
        for y in walk(a):
            if not (is_call(y, 'xmlGetProp') and source(y)[0] == ('attr', node, name)):
                continue
            if a[0] == 'nn' and unk(a[1]) == unk(y):
                if not v:
                    return 'other'
                continue
            lit = [z[1] for z in walk(a) if z and z[0] == 'str' and z[1] in lits]
            if len(lit) != 1:
                continue
            cmp = any(is_call(z, 'xmlStrcmp', 'strcmp', 'compare') for z in walk(a))
            eq = v if not cmp else v != (a[0] == 'nn')
            if eq:
                res = lit[0]
            else:
                neg.add(lit[0])
    if res is None and neg:
        return 'other' if neg >= set(lits[:1]) else None
    return res


@rule('P14', 'constraints', 'Every constraint of the document becomes a constraint of the kind of '
      'its section with its text and attributes.')
def constraints(ck):
    fn, fu, ps = doc_paths(ck)
    en = ck.last_engine
    node0 = ('param', 0, fn['params'][0]['n'])
    mixed = {'req': field_of_getter(ck, MIXED + '::req'),
             'exprKind': field_of_getter(ck, MIXED + '::exprKind')}
    seen = set()
    for p in ps:
        if not ok_ret(p):
            continue
        m = matched(p)
        top = [(n, k) for n, k in m.items() if up(n) == node0]
        node, kind = top[0] if top else (None, None)
        cons = tcall_any(p, 'addConstraint')
        if kind not in SECTION:
            for e in cons:
                ck.bad('constraints', 'are added for %s' % kind, e_pos(e))
            continue
        missed(ck, p, node, ('constraint',), 'element of ' + kind, fn)
        sub = [n for n, k in m.items() if up(n) == node and k == 'constraint']
        if not sub:
            ck.req(not cons, kind, 'are invented', fn)
            continue
        if not ck.req(len(cons) == 1, kind, 'become %d constraints' % len(cons), fn):
            continue
        e = cons[0]
        t = strip(e.args[0])
        cls = last(short(t[1])) if t[0] == 'new' else '?'
        if not ck.req(cls == SECTION[kind], kind, 'become a %s' % cls, e_pos(e)):
            continue
        c = [y for y in walk(t) if y and y[0] == 'call' and last(y[1]) == 'buildConstraint']
        if not c or c[0][2] is None:
            ck.undec('text of constraints', show(t)[:80])
            continue
        o = c[0][2]
        while o[0] != 'new' and unv(o) != o:
            o = unv(o)
        txt = o[2][0] if o[0] == 'new' and o[2] else o
        ok = ck.req(is_text(txt, sub[0]), 'text of ' + kind, 'is %s' % show(txt)[:100], e_pos(e))
        if cls == 'MixedConstraint':
            for at, special, yes, no in (('req', 'none', 'NONE', 'ALL'),
                                         ('exprKind', 'neg', 'NEG', 'POS')):
                x = strip(en.field_of_new(t, mixed[at]) or VOID)
                other = {'req': 'all', 'exprKind': 'pos'}[at]
                is_ = attr_value(p, sub[0], at, (special, other))
                if x[0] != 'enum':
                    ck.undec(at, show(x)[:80])
                elif is_ is None:
                    ck.bad(at, 'does not depend on the attribute', e_pos(e))
                else:
                    want = yes if is_ == special else no
                    ok &= ck.req(last(x[1]) == want, at, 'is %s for %s' % (
                        show(x), is_ if is_ != 'other' else 'a missing or other value'), e_pos(e))
                    if last(x[1]) == want:
                        seen.add(want)
        if ok:
            seen.add(kind)
    for k in list(SECTION) + ['NONE', 'ALL', 'NEG', 'POS']:
        ck.req(k in seen, k, 'never read', fn)


def field_of_getter(ck, q):
    return acc_field2(ck, q)


def tcall_any(p, nm):
    """calls of a method of the builder or of its transactions"""
    return [e for e in p.events if e.kind == 'call' and
            last(short(e.q.split('<')[0])) == nm]


@rule('P14', 'model', 'Name, path and commit of the document become those of the model; every '
      'section is read with its kind of features.')
def model(ck):
    fn, fu, ps = doc_paths(ck)
    node0 = ('param', 0, fn['params'][0]['n'])
    flag = [i for i, x in enumerate(fu['params']) if x['t'] == 'bool']
    if len(flag) != 1:
        raise Undecided('kind of the options')
    seen = set()
    SECT = ('binaryOptions', 'numericOptions') + tuple(SECTION)
    for p in ps:
        if not ok_ret(p):
            continue
        m = matched(p)
        missed(ck, p, node0, SECT, 'section of the document', fn)
        for nm, at in (('setName', 'name'), ('setPath', 'root'), ('setCommit', 'commit')):
            es = tcall(p, nm)
            if not ck.req(len(es) == 1, at, 'is set %d times' % len(es), fn):
                continue
            x = strip(es[0].args[0])
            while x[0] == 'new' and last(short(x[1])) == 'path' and x[2]:
                x = strip(x[2][0])
            got = source(x)[0]
            there = attr_value(p, node0, at, ())
            known = next((v for a, v in p.facts.items() if a[0] == 'nn' and
                          source(a[1])[0] == ('attr', node0, at)), None)
            if got is not None:
                if ck.req(got == ('attr', node0, at), at, 'is taken from %s' % show(x)[:80],
                          e_pos(es[0])) and known is not False:
                    seen.add(at)
            elif known is False:
                if at == 'commit':
                    ck.req(default_of(x) == ('str', '') or x == ('str', ''), at,
                           'is %s without attribute' % show(x)[:60], e_pos(es[0]))
            else:
                ck.bad(at, 'is %s' % show(x)[:80], e_pos(es[0]))
        top = [(n, k) for n, k in m.items() if up(n) == node0]
        node, kind = top[0] if top else (None, None)
        calls = [e for e in p.events if e.q == fu['q']]
        if kind not in ('binaryOptions', 'numericOptions'):
            for e in calls:
                ck.bad('features', 'are read from %s' % kind, e_pos(e))
            continue
        missed(ck, p, node, ('configurationOption',), 'element of ' + kind, fn)
        sub = [n for n, k in m.items() if up(n) == node and k == 'configurationOption']
        if not sub:
            ck.req(not calls, kind, 'are invented', fn)
            continue
        if ck.req(len(calls) == 1, kind, 'are read %d times' % len(calls), fn):
            e = calls[0]
            ok = ck.req(unk(e.args[0]) == sub[0], kind, 'are read from %s' % show(e.args[0])[:80],
                        e_pos(e))
            x = e.args[flag[0]] if len(e.args) > flag[0] else None
            if x is None or x[0] != 'bool':
                ck.undec('kind of ' + kind, show(x)[:60] if x else '?')
            else:
                ok &= ck.req(x[1] == (kind == 'numericOptions'), kind,
                             'are read as features of the other kind', e_pos(e))
            if ok:
                seen.add(kind)
    for k in ('name', 'root', 'commit', 'binaryOptions', 'numericOptions'):
        ck.req(k in seen, k, 'is never read', fn)


def bare(x):
    while x.get('k') in ('cast', 'paren') and x.get('e'):
        x = x['e']
    return x


def steps(x):
    """the variable that an assignment moves to a next node"""
    if x.get('k') == 'asg' and x.get('op') == '=' and bare(x['a']).get('k') == 'ref':
        b = bare(x['b'])
        if b.get('k') == 'mem' and b.get('q') == NODE + 'next':
            return bare(x['a']).get('d')
    return None


def chain_of_next(x):
    """does an expression go further than one node"""
    return any(y.get('q') == NODE + 'next' and bare(y['b']).get('q') == NODE + 'next'
               for y in nodes(x) if y.get('k') == 'mem' and y.get('b'))


def node_loops(f):
    for x in nodes(f['body']):
        if x.get('s') in ('for', 'while', 'do') and \
                any(steps(y) for y in nodes(x)):
            own = [y for y in nodes(x.get('inc') or {}) if steps(y)]
            if own or not any(z is not x and z.get('s') in ('for', 'while', 'do') and steps_in(z)
                              for z in nodes(x)):
                yield x


def steps_in(x):
    return any(steps(y) for y in nodes(x))


@rule('P14', 'loops', 'Every loop over the nodes of the document visits all of them.')
def loops(ck):
    U = units(ck)
    top = vm_unit(ck)
    n, lines = 0, {}
    for k in sorted(U.closure(top['key'])):
        f = U.fns[k]
        for x in nodes(f['body']):
            if x.get('k') == 'asg' and bare(x['a']).get('k') == 'ref' and \
                    chain_of_next(x['b']):
                ck.bad('step to the next node', 'skips a node', '%s:%s' % (f['file'], x.get('l')))
            v = steps(x)
            if v is None:
                continue
            n += 1
            o = bare(bare(x['b'])['b'])
            if o.get('k') == 'ref' and o.get('d') == v:
                ck.good('step to the next node', '%s:%s' % (f['file'], x.get('l')))
        for x in node_loops(f):
            lines[x['l']] = f
            vs = {tuple(steps(y)) for y in nodes(x.get('inc') or {}) if steps(y)}
            for y in nodes(x['b']):
                if steps(y) and tuple(steps(y)) in vs:
                    ck.bad('step to the next node', 'skips a node',
                           '%s:%s' % (f['file'], y.get('l')))
    for f, opq in ((feature_unit(ck), [range_unit(ck)['q']]), (range_unit(ck), []),
                   (top, [feature_unit(ck)['q']])):
        def keep(a):
            return name_atom(a, True) or a[0] == 'nn' and up(a[1])
        ps = run(ck, f, opq, join=keep, mark_loops='ret',
                 keep=lambda e: e.kind in ('brk', 'lret', 'iter'))
        for c, e in once_only(ps):
            ck.bad('loop of %s' % last(f['q']), 'ends after the first member (%s)' % show(c), f)
        for p in ps:
            if p.kind != 'ret' or f is not range_unit(ck) and not ok_ret(p):
                continue
            for e in p.events:
                l = e.args[0][1] if e.args and e.args[0][0] == 'while' else None
                if l not in lines or e.kind == 'iter':
                    continue
                rt = lines[l].get('rt') or ''
                if e.kind == 'brk' or 'Result' in rt or 'Feature' in rt:
                    ck.bad('loop over the nodes of the document',
                           'ends before all of them are read', '%s:%s' % (lines[l]['file'], l))
    ck.req(n, 'loops', 'over the document are missing', top)


# ------------------------------------------------------------------ P15
FAIL = ('Err', ('failed',))
BUILDQ = (V + 'ConstraintParser::buildConstraint', V + 'FeatureModelBuilder::buildFeatureModel')


def fx_reach(ck, f):
    """keys of the functions a function calls, directly or not"""
    ids = {}
    for g in ck.fx.fns.values():
        ids.setdefault(g['id'], g)
    seen, todo = {}, [f]
    while todo:
        g = todo.pop()
        if g['key'] in seen:
            continue
        seen[g['key']] = g
        for n in nodes(g.get('body') or {}):
            h = n.get('fn')
            if isinstance(h, dict) and h.get('id') in ids:
                todo.append(ids[h['id']])
    return seen


def fallible(ck, q, rt, f):
    """result that reports the failure of a step of reading, None if the step
    cannot fail"""
    rt = rt.replace('class ', '')
    if short(q) in BUILDQ or 'unique_ptr' in rt and ('FeatureModel>' in rt or 'FeatureModel,' in rt):
        return NULL
    if 'Result<' in rt:
        if f is None and not short(q).startswith(TRANS):
            return None
        return FAIL
    if f is None or not in_reader(f):
        return None
    if 'optional<' in rt:
        return NULL
    if 'xmlDoc' in rt or '_xmlDoc' in rt or 'UniqueXmlDoc' in rt:
        return NULL
    if rt == 'bool' and not f.get('const'):
        for g in fx_reach(ck, f).values():
            if short(g['q']).startswith((TRANS + '::', V + 'FeatureModelBuilder::')):
                return ('bool', False)
    return None


def steps_of(ck, U, f):
    ids = {g['id']: g for g in ck.fx.fns.values()}
    for n in nodes(f['body']):
        h = n.get('fn')
        if n.get('k') in ('call', 'mcall') and isinstance(h, dict):
            g = ids.get(h.get('id'))
            v = fallible(ck, h['q'], h.get('rt') or (g or {}).get('rt') or '', g)
            if v is not None:
                yield n, h['q'], v


def base(q):
    return last(short(q).split('<')[0])


def entries(ck):
    out = []
    for c in (XMLP, SXFM):
        for m in ('buildFeatureModel', 'verifyFeatureModel'):
            f = ck.fx.by_q.get(c + '::' + m)
            if f and f[0].get('body'):
                out.append(f[0])
    ck.need(out, 'entry points of the readers')
    return out


@rule('P15', 'steps', 'If any step of reading a document fails, reading it fails.')
def steps_rule(ck):
    U = units(ck)
    keys = set()
    for f in entries(ck):
        keys |= {k for k in fx_reach(ck, f) if k in U.fns}
    total = 0
    for k in sorted(keys):
        f = U.fns[k]
        own = set()
        for j in keys:
            g = U.fns[j]
            if j != k and fallible(ck, g['q'], g.get('rt') or '', g) is not None:
                own.add(g['q'])
        own.discard(f['q'])
        for n, q, v in steps_of(ck, U, f):
            total += 1
            what = '%s: failure of %s' % (last(f['q'].split('<')[0]), last(short(q)))
            where = '%s:%s' % (f['file'], n['l'])
            opq = own | set(LIB) | {x for x in ck.fx.by_q if short(x) in BUILDQ or
                                    short(x).startswith((TRANS + '::', CB + '::'))} | {q}
            opq.discard(f['q'])
            ps = ck.paths(f, opaque=list(opq), returns_at={id(n): v}, max_paths=20000, depth=10,
                          join=lambda a: False,
                          record=lambda e: base(e.q) == base(q) and e.line == n['l'])
            hit = False
            for p in ps:
                if p.kind != 'ret' or not any(e.res == v for e in p.events):
                    continue
                hit = True
                r = p.ret
                bad = r in (NULL, ('bool', False), ('none',), FAIL) or not ok_ret(p) or \
                    r[0] == 'new' and ('unique_ptr' in r[1] or 'optional' in r[1]) and \
                    (not r[2] or r[2][0] == NULL)
                ck.req(bad, what, 'is dropped (%s is returned)' % show(r)[:60], where)
            if not hit:
                ck.undec(what, 'no path found', where)
    ck.need(total, 'steps of reading')


@rule('P15', 'document', 'Only documents that are well-formed and follow their schema are read.')
def document(ck):
    U = units(ck)
    for f in entries(ck):
        cls = f['q'].rsplit('::', 1)[0]
        vm = [g['q'] for g in U.fns.values() if g['q'].startswith(cls + '::') and g is not f and
              any(short(h['q']).startswith(TRANS + '::') for h in fx_reach(ck, g).values())]
        ps = ck.paths(f, opaque=vm + [V + 'FeatureModelBuilder::buildFeatureModel'], depth=14,
                      join=lambda a: mentions(a, lambda y: y and y[0] == 'call' and
                                              y[1].startswith('xml')),
                      record=lambda e: e.kind == 'call' and e.q.startswith('xml'))
        what = last(f['q'])
        where = f
        root = 'vm' if cls == XMLP else 'feature_model'
        n = 0
        for p in ps:
            if not ok_ret(p) or p.ret == NULL:
                continue
            n += 1
            docs = {unk(a[1]) for a, v in p.facts.items() if v and a[0] == 'nn' and
                    is_call(a[1], 'xmlCtxtReadMemory', 'xmlReadMemory', 'xmlParseMemory',
                            'xmlCtxtReadDoc', 'xmlReadDoc', 'xmlParseDoc')}
            if not ck.req(len(docs) == 1, what, 'goes on without a well-formed document', where):
                continue
            doc = docs.pop()
            ck.req(not mentions(doc, lambda y: y and y[0] == 'enum' and
                                last(y[1]) == 'XML_PARSE_RECOVER'), what,
                   'repairs documents', where)
            ck.req(mentions(doc, lambda y: y and y[0] == 'fld' and y[1] == THIS), what,
                   'reads another text', where)
            val = [e for e in p.events if e.q == 'xmlValidateDtd']
            if not ck.req(val, what, 'does not check the schema', where):
                continue
            e = val[-1]
            ck.req(unk(e.args[1]) == doc, what, 'checks another document', e_pos(e))
            ck.req(mentions(e.args[2], lambda y: y and y[0] == 'str' and
                            re.search(r'<!ELEMENT\s+%s\s' % root, y[1])), what,
                   'checks another schema', e_pos(e))
            ok = False
            for a, v in p.facts.items():
                pos = v
                if a[0] == 'eq' and ('int', 0) in a[1:]:
                    pos = not v
                elif a[0] == 'eq' and ('int', 1) in a[1:]:
                    pos = v
                elif a[0] != 'nn':
                    continue
                for t in a[1:]:
                    if is_call(t, 'xmlValidateDtd') or t[0] == 'fld' and \
                            last(t[2]) == 'valid' and mentions(t[1], lambda y: y and (
                                y[0] == 'fld' and last(y[2]) == 'vctxt' or
                                is_call(y, 'xmlNewValidCtxt'))):
                        ok |= pos
            ck.req(ok, what, 'ignores the result of the check', e_pos(e))
        ck.req(n, what, 'never succeeds', where)


def dtds(ck, cls):
    """texts of the schemas a reader checks"""
    out = {}
    for f in entries(ck):
        if not f['q'].startswith(cls + '::'):
            continue
        for p in ck.paths(f, depth=14, join=lambda a: False, opaque=[
                g['q'] for g in units(ck).fns.values() if any(
                    short(h['q']).startswith(TRANS + '::') for h in fx_reach(ck, g).values())
                and g is not f], record=lambda e: e.q == 'xmlValidateDtd'):
            for e in p.events:
                for y in walk(e.args[2]):
                    if y and y[0] == 'str' and '<!ELEMENT' in y[1]:
                        out[y[1]] = True
    return list(out)


def optional_attrs(ck, cls):
    req, opt_ = set(), set()
    for text in dtds(ck, cls):
        for m in re.finditer(r'<!ATTLIST\s+(\w+)((?:[^>"\']|"[^"]*"|\'[^\']*\')*)>', text):
            for a in re.finditer(r'([\w:.-]+)\s+(CDATA|ID|IDREF|NMTOKENS?|\([^)]*\))\s+'
                                 r'(#REQUIRED|#IMPLIED|#FIXED\s*"[^"]*"|"[^"]*"|\'[^\']*\')',
                                 m.group(2)):
                if a.group(3) == '#IMPLIED':
                    opt_.add(a.group(1))
                else:
                    req.add(a.group(1))
    return req, opt_


@rule('P15', 'attributes', 'Attributes a valid document may lack are only used where they are '
      'there.')
def attributes(ck):
    U = units(ck)
    schema = {c: optional_attrs(ck, c) for c in (XMLP, SXFM)}
    ck.need(all(a | b for a, b in schema.values()), 'attributes of the schemas')
    done = set()
    for k, f in sorted(U.fns.items()):
        if not any(n.get('k') == 'call' and isinstance(n.get('fn'), dict) and
                   n['fn']['q'] == 'xmlGetProp' for n in nodes(f['body'])):
            continue
        req, opt_ = schema[SXFM if f['q'].startswith(SXFM + '::') else XMLP]
        calls = [U.fns[j]['q'] for j in U.calls[k] if j != k and (
            'Result<' in (U.fns[j].get('rt') or '') or U.fns[j].get('rt') == 'bool')]
        ps = ck.paths(f, depth=6, havoc='all', max_paths=20000,
                      opaque=list(set(LIB) | set(calls) - {f['q']} | {
                          q for q in ck.fx.by_q if short(q).startswith((TRANS + '::', CB + '::',
                                                                       V + 'FeatureModelBuilder'))}),
                      join=lambda a: mentions(a, lambda y: is_call(y, 'xmlGetProp')),
                      record=lambda e: any(mentions(x, lambda y: is_call(y, 'xmlGetProp'))
                                           for x in e.args) or
                      e.obj is not None and mentions(e.obj, lambda y: is_call(y, 'xmlGetProp')))
        for p in ps:
            uses = []
            known = {}
            for a, v in p.facts.items():
                if a[0] == 'nn' and is_call(a[1], 'xmlGetProp'):
                    known[unk(a[1])] = v
                    continue
                if mentions(a, lambda y: is_call(y, 'xmlStrcmp', 'xmlStrEqual')):
                    continue
                uses += [(y, dict(known), f) for y in walk(a) if is_call(y, 'xmlGetProp')]
            for e in p.events:
                if e.q in ('xmlStrcmp', 'xmlStrEqual', 'xmlFree', 'xmlGetProp') or \
                        e.kind != 'call':
                    continue
                for x in e.args:
                    uses += [(y, known, e) for y in walk(x) if is_call(y, 'xmlGetProp')]
            for t in walk(p.ret):
                if is_call(t, 'xmlGetProp'):
                    uses.append((t, known, f))
            for y, kn, e in uses:
                s = source(y)[0]
                if s is None or s[2] is None:
                    continue
                if s[2] in opt_:
                    ck.req(kn.get(unk(y)) is True, 'attribute %s' % s[2],
                           'is used without a check that it is there',
                           e_pos(e) if not isinstance(e, dict) else e)
                    done.add(s[2])
                else:
                    ck.good('attribute %s' % s[2], '%s:%s' % (f['file'], f['l']))
                    done.add(s[2])
    ck.need(done, 'uses of attributes')


@rule('P15', 'parents', 'A feature that already has another parent makes reading fail.')
def parents(ck):
    fn = feature_unit(ck)
    n = 0
    for p in run(ck, fn, [range_unit(ck)['q']]):
        if not ok_ret(p):
            continue
        for e in tcall(p, 'addChild'):
            par, child = strip(e.args[0]), strip(e.args[1])
            n += 1
            good = False
            for a, v in p.facts.items():
                if a[0] == 'contains' and unk(strip(a[2])) == unk(child) and not v:
                    good = True
                if a[0] == 'eq' and v:
                    for x, y in (a[1:3], a[2:0:-1]):
                        if x[0] in ('mapent', 'mapval') and unk(strip(x[2])) == unk(child) and \
                                unk(strip(y)) == unk(par):
                            good = True
                if a == ('eq', child, par) and v:
                    good = True
            ck.req(good, 'parent of a feature', 'is replaced by another one', e_pos(e))
    ck.req(n, 'parents', 'are never set', fn)


DIES = ('exit', 'abort', '_exit', '_Exit', 'quick_exit', 'std::exit', 'std::abort', 'std::terminate',
        'std::quick_exit', 'std::_Exit', 'llvm::report_fatal_error', 'raise', 'kill',
        'std::stoi', 'std::stol', 'std::stoll', 'std::stoul', 'std::stoull', 'std::stof',
        'std::stod', 'std::stold', '__assert_fail')


@rule('P15', 'survives', 'No step of reading a document ends the program.')
def survives(ck):
    seen = {}
    for f in entries(ck):
        seen.update(fx_reach(ck, f))
    n = 0
    for k, g in sorted(seen.items()):
        n += 1
        tries = [x for x in nodes(g.get('body') or {}) if x.get('s') == 'try']
        inside = {id(y) for t in tries for y in nodes(t)}
        for x in nodes(g.get('body') or {}):
            h = x.get('fn')
            q = h['q'].split('<')[0] if isinstance(h, dict) else None
            where = '%s:%s' % (g['file'], x.get('l'))
            if q in DIES and id(x) not in inside:
                ck.bad(last(g['q'].split('<')[0]), 'calls %s' % q, where)
            elif (x.get('k') == 'throw' or x.get('s') == 'throw') and id(x) not in inside:
                ck.bad(last(g['q'].split('<')[0]), 'throws an exception', where)
    ck.req(n > 10, 'functions that take part in reading', 'not found', entries(ck)[0])


# ------------------------------------------------------------------ P18
GROUPS = ('addRelationship', 'emplaceRelationship')


def calls_direct(f, names):
    return any(isinstance(n.get('fn'), dict) and base(n['fn']['q']) in names
               for n in nodes(f['body']))


def alt_paths(ck, **kw):
    """paths of the public reader with the reading of the document left out"""
    U = units(ck)
    fn = ck.fx.by_q[XMLP + '::buildFeatureModel'][0]
    vm = vm_unit(ck)
    opq = {vm['q']} | {x for x in ck.fx.by_q if short(x).startswith((
        TRANS + '::', V + 'FeatureModelBuilder::'))}
    for f in U.fns.values():
        if f is fn:
            continue
        r = fx_reach(ck, f).values()
        if any(isinstance(n.get('fn'), dict) and n['fn']['q'].startswith('xmlCtxtRead')
               for g in r for n in nodes(g.get('body') or {})):
            opq.add(f['q'])

    def keep(a):
        return mentions(a, lambda y: y and y[0] in ('elem', 'kids', 'size'))
    return fn, vm, ck.paths(fn, opaque=list(opq), join=keep, max_paths=20000, depth=14,
                            record=lambda e: e.kind in ('brk', 'lret') or e.kind == 'call' and
                            (base(e.q) in GROUPS + ('commit', 'abort', 'openTransaction')),
                            **kw)


def kid_of(t):
    """the feature a term is a child of"""
    t = strip(t)
    if t[0] == 'elem':
        c = t[1]
        while c[0] in ('var', 'range', 'iter') and len(c) > 1 and isinstance(c[-1], tuple):
            c = c[-1] if c[0] == 'var' else c[1]
        if c[0] == 'kids':
            return c[2] if len(c) > 2 else None
    return None


def name_side(t):
    """the feature whose name or identity a term is"""
    t = strip(str_of(t))
    if t[0] == 'fld' and last(t[2]) == 'Name' or t[0] == 'call' and last(t[1]) == 'getName':
        return strip(t[1] if t[0] == 'fld' else t[2])
    return t


def operand(t):
    """(owner of the exclude, side) of the feature of an operand"""
    t = strip(t)
    while t[0] in ('get', 'fld', 'val', 'cast', 'deref', 'call'):
        if t[0] == 'fld' and last(t[2]) in ('LeftOperand', 'RightOperand'):
            e = strip(t[1])
            if e[0] == 'elem':
                c = strip(e[1])
                if c[0] == 'fld' and last(c[2]) == 'Excludes':
                    return strip(c[1]), last(t[2]), e
            return None
        t = strip(t[2]) if t[0] == 'get' else strip(t[1]) if t[0] == 'fld' else \
            strip(t[2] if t[0] == 'call' and t[2] else t[1] if t[0] != 'call' else VOID)
    return None


def excluded(p, a, b):
    """does a path know that feature a excludes feature b"""
    got = {}
    for f, v in p.facts.items():
        if f[0] != 'eq' or not v:
            continue
        for x, y in (f[1:3], f[2:0:-1]):
            o = operand(name_side(x))
            if o and o[0] == a:
                got.setdefault(o[2], {}).setdefault(o[1], []).append(name_side(y))
    for e, s in got.items():
        if a in s.get('LeftOperand', ()) and b in s.get('RightOperand', ()):
            return True
    return False


@rule('P18', 'alternatives', 'A feature becomes an alternative group exactly if it has several '
      'children, all mandatory, each of which excludes each other.')
def alternatives(ck):
    fn, vm, ps = alt_paths(ck, mark_loops='ret')
    added = refused = 0
    for p in ps:
        if p.kind != 'ret':
            continue
        rel = [e for e in p.events if base(e.q) in GROUPS]
        opened = any(base(e.q) == 'openTransaction' for e in p.events)
        if not opened:
            for e in rel:
                ck.bad('groups', 'are added', e_pos(e))
            continue
        many = None
        kids = set()
        for a, v in p.facts.items():
            for y in walk(a):
                if y and y[0] == 'size' and strip(y[1])[0] == 'kids':
                    kids.add(strip(y[1]))
            n = [x[1] for x in a[1:] if isinstance(x, tuple) and x[0] == 'int']
            s = [i for i, x in enumerate(a[1:]) if isinstance(x, tuple) and x[0] == 'size']
            if n and s and len(a) == 3:
                if a[0] == 'lt':
                    # 1 < size, size < 2
                    if s[0] == 1 and n[0] == 1:
                        many = v
                    elif s[0] == 0 and n[0] == 2:
                        many = not v
                    elif s[0] == 1:
                        many = many if v and n[0] < 1 else 'other'
                    else:
                        many = 'other'
                elif a[0] == 'eq' and n[0] in (0, 1):
                    many = False if v else many
        els = []
        for a in p.facts:
            for y in walk(a):
                if y and y[0] == 'elem' and kid_of(y) is not None and y not in els:
                    els.append(y)
        F = els[0] if els else None
        opts = {}
        for a, v in p.facts.items():
            if a[0] == 'nn' and a[1][0] == 'fld' and last(a[1][2]) == 'Opt' and \
                    kid_of(a[1][1]) is not None:
                opts[a[1][1]] = v
        if rel:
            e = rel[0]
            ck.req(len(rel) == 1, 'group', 'is added %d times' % len(rel), e_pos(e))
            k = strip(e.args[0])
            ck.req(k[0] == 'enum' and last(k[1]) == 'RK_ALTERNATIVE', 'group', 'is %s' % show(k),
                   e_pos(e))
            t = strip(e.args[1])
            while t[0] == 'new' and t[2]:
                t = strip(t[2][0])
            ok = any(same(kid_of(x), t) for x in els) or not els and any(
                same(y[2], t) for y in kids if len(y) > 2)
            ck.req(ok, 'group', 'is added to %s' % show(t)[:80], e_pos(e))
            if not ck.req(many is True, 'group', 'is added without several children', e_pos(e)):
                continue
            if F is None:
                # the path on which the list of children is empty
                continue
            added += 1
            early = [e for e in p.events if e.kind in ('lret', 'brk') and e.args and
                     strip(e.args[0])[0] == 'kids']
            ck.req(not early, 'group', 'is added before all children are considered', e_pos(e))
            ck.req(opts and not any(opts.values()), 'group', 'is added with optional children',
                   e_pos(e))
            pairs = [(x, y) for x in els for y in els if x != y]
            equal = any(a[0] == 'eq' and v and {unv(a[1]), unv(a[2])} == {x, y}
                        for x, y in pairs for a, v in p.facts.items())
            ck.req(equal or pairs and all(excluded(p, x, y) for x, y in pairs),
                   'group', 'is added without mutual exclusion', e_pos(e))
        else:
            if many is False or not any(kid_of(x) for x in els) and many is None:
                refused += 1
                continue
            why = any(opts.values())
            for a, v in p.facts.items():
                if a[0] == 'empty' and v:
                    c = strip(a[1])
                    why |= c[0] == 'fld' and last(c[2]) == 'Excludes' and \
                        kid_of(c[1]) is not None
                elif not v and a[0] in ('isa', 'nn') and any(
                        operand(x) for x in a[1:] if isinstance(x, tuple)):
                    why = True
                elif not v and a[0] == 'eq' and any(operand(name_side(x)) for x in a[1:]):
                    why = True
            refused += 1
            ck.req(why, 'children that exclude each other', 'may get no group', fn)
    ck.req(added, 'alternative groups', 'are never added', fn)
    ck.req(refused, 'alternative groups', 'are always added', fn)


@rule('P18', 'groups', 'No other step of reading adds groups, and every feature is considered.')
def groups(ck):
    fn, vm, ps = alt_paths(ck, mark_loops='ret')
    for g in fx_reach(ck, vm).values():
        if in_reader(g) and calls_direct(g, GROUPS):
            ck.bad('reading of the document', 'adds groups', '%s:%s' % (g['file'], g['l']))
    ck.good('reading of the document', '%s:%s' % (vm['file'], vm['l']))
    for p in ps:
        if p.kind != 'ret' or not any(base(e.q) == 'openTransaction' for e in p.events):
            continue
        for e in p.events:
            if e.kind in ('brk', 'lret') and e.args and p.ret != NULL and not mentions(
                    e.args[0], lambda y: y and y[0] in ('kids', 'elem')):
                ck.bad('search for alternatives', 'ends before all features are considered',
                       '%s:%s' % (e.file, e.line))
        ok = p.ret == NULL or any(base(e.q) == 'commit' for e in p.events)
        ck.req(ok, 'alternative groups', 'are not committed', fn)
        com = [i for i, e in enumerate(p.events) if base(e.q) == 'commit']
        rel = [i for i, e in enumerate(p.events) if base(e.q) in GROUPS]
        if com and rel:
            ck.req(com[-1] > rel[-1], 'alternative groups', 'are added after the commit', fn)
