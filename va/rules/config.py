"""Configurations (P24) and sample sets (P35)."""
from ..core import rule, Undecided
from ..engine import *
from ..engine import last, short
from ..model import *
from ..model import V
from .solver import is_call, acc_field, feature_of_name

CONF, OPT = V + 'Configuration', V + 'ConfigurationOption'
OPTMAP = 'map of options'


def conf_map(ck):
    fs = [f['q'] for f in ck.fx.recs.get(CONF, {}).get('fields', ()) if 'Map' in f['t']
          or 'map' in f['t']]
    if len(fs) != 1:
        raise Undecided(OPTMAP)
    return fs[0]


def opt_fields(ck):
    fs = ck.fx.recs.get(OPT, {}).get('fields', ())
    nm = [f['q'] for f in fs if 'variant' not in f['t'] and 'string' in f['t']]
    vl = [f['q'] for f in fs if 'variant' in f['t']]
    if len(nm) != 1 or len(vl) != 1:
        raise Undecided('fields of an option')
    return nm[0], vl[0]


CHANGED = ('trim', 'ltrim', 'rtrim', 'lower', 'upper', 'substr', 'drop_front', 'drop_back',
           'take_front', 'take_back', 'split', 'slice', 'to_lower', 'tolower')


def changed(t):
    """the text went through an operation that changes it"""
    return mentions(t, lambda x: is_call(x, *CHANGED))


def opt(t):
    return t[1] if t[0] == 'some' else t


def str_of(t):
    while t[0] == 'new' and t[2] and ('string' in t[1] or 'StringRef' in t[1]):
        t = t[2][0]
    while t[0] == 'call' and last(t[1]) in ('str', 'operator basic_string') and t[2]:
        t = t[2]
    return t


@rule('P24', 'option-value', 'An option has the name and value it is created with; '
      '"true" and "false" become booleans, integers integers, all else stays text; '
      'the value is returned by the accessor of its type only and as text.')
def option_value(ck):
    nmf, vlf = opt_fields(ck)
    seen = set()
    for fn in ck.fns(OPT + '::ConfigurationOption'):
        if len(fn['params']) != 2:
            continue
        a, b = [('param', i, q['n']) for i, q in enumerate(fn['params'])]
        for p in ck.paths(fn, join=False, outs={'getAsInteger': [1]}):
            if p.kind != 'ret':
                continue
            init = {e.q: e.args[0] for e in p.events if e.kind == 'init' and e.args}
            ck.req(nmf in init and str_of(init[nmf]) == a, 'name of an option',
                   'is %s' % show(init.get(nmf, VOID))[:80], fn)
            v = init.get(vlf)
            if v is None or v[0] != 'var':
                ck.undec('value of an option', show(v)[:80] if v else '')
                continue
            T, x = v[1], v[2]
            isT = [r for f, r in p.facts.items() if f[0] == 'eq' and ('str', 'true') in f[1:]]
            isF = [r for f, r in p.facts.items() if f[0] == 'eq' and ('str', 'false') in f[1:]]
            gi = [(f[1], r) for f, r in p.facts.items() if f[0] == 'nn' and
                  is_call(f[1], 'getAsInteger')]
            seen.add(T.rsplit('::', 1)[-1][:6])
            if T == 'bool':
                if x == TRUE:
                    ck.req(isT and isT[0], 'boolean options', 'text other than "true" is true', fn)
                elif x == FALSE:
                    ck.req(True in isF and not (isT and isT[0]), 'boolean options',
                           'text other than "false" is false', fn)
                elif mentions(x, lambda y: y == b) and mentions(
                        x, lambda y: y[0] == 'str') and not changed(x) and (True in isT or True in isF):
                    ck.bad('boolean options', 'the value is %s' % show(x)[:80], fn)
                else:
                    ck.undec('boolean options', show(x)[:80])
            elif T in ('long', 'int64_t', 'long long'):
                ok = [c for c, r in gi if r is False]
                ck.req(ok, 'integer options', 'text that is no integer is one', fn)
                if ok:
                    ck.req(x == ('out', 1, ok[0]) and ok[0][2] == b, 'integer options',
                           'the value is %s' % show(x)[:80], fn)
            elif 'string' in T:
                ck.req(str_of(x) == b, 'textual options', 'the value is %s' % show(x)[:80], fn)
                ck.req(True not in isT and True not in isF and not any(
                    r is False for c, r in gi), 'textual options',
                       'a boolean or integer becomes text', fn)
            else:
                ck.undec('value of an option', 'of type ' + T)
    if seen:
        ck.req('bool' in seen, 'boolean options', 'no text becomes a boolean')
        ck.req(seen & {'long', 'int64_'}, 'integer options', 'no text becomes an integer')
    vl = ('fld', THIS, vlf)
    for meth, typ in (('stringValue', 'string'), ('boolValue', 'bool'), ('intValue', 'long')):
        fn = ck.fn(OPT + '::' + meth)
        for p in ck.paths(fn, join=False):
            if p.kind != 'ret':
                continue
            h = [(f[1], r) for f, r in p.facts.items() if f[0] == 'holds' and f[2] == vl]
            mine = [r for t, r in h if typ in t]
            r = opt(p.ret)
            none = r == NULL or r[0] == 'global'
            if none:
                ck.req(not mine or mine[0] is not True, meth, 'nothing is returned although '
                       'the option has this type', fn)
            elif r[0] == 'get':
                ck.req(typ in r[1] and r[2] == vl and mine and mine[0], meth,
                       'returns %s' % show(p.ret)[:80], fn)
            else:
                ck.undec(meth, 'returns %s' % show(p.ret)[:80])
    for meth, typ in (('isString', 'string'), ('isBool', 'bool'), ('isInt', 'long')):
        fn = ck.fn(OPT + '::' + meth)
        for p in ck.paths(fn, join=False):
            if p.kind == 'ret' and p.ret[0] == 'holds':
                ck.req(typ in p.ret[1] and p.ret[2] == vl, meth, 'tests %s' % show(p.ret)[:80], fn)
    fn = ck.fn(OPT + '::asString')
    for p in ck.paths(fn, join=False):
        if p.kind != 'ret':
            continue
        h = {}
        for f, r in p.facts.items():
            if f[0] == 'holds' and f[2] == vl:
                h['string' if 'string' in f[1] else f[1]] = r
        if len(h) == 3 and True not in h.values():
            continue                       # no further alternative
        ty = [t for t, r in h.items() if r]
        if not ty:
            left = {'string', 'bool', 'long'} - set(h)
            if len(left) != 1:
                continue
            ty = list(left)
        t = opt(p.ret)
        if ty[0] == 'string':
            ok = str_of(t)[0] == 'get' and 'string' in str_of(t)[1]
        elif ty[0] == 'bool':
            b = [r for f, r in p.facts.items() if f[0] == 'nn' and f[1][0] == 'get' and
                 f[1][1] == 'bool']
            ok = bool(b) and t == ('str', 'true' if b[0] else 'false')
        else:
            ok = is_call(t, 'to_string') and t[3][0][0] == 'get' and t[3][0][1] == 'long'
            if not ok and not mentions(t, lambda x: x[0] == 'get' and x[1] == 'long') and \
                    t[0] == 'call':
                ok = None
        if ok is None:
            ck.undec('text of a %s option' % ty[0], show(t)[:80])
        else:
            ck.req(ok, 'text of a %s option' % ty[0], 'is %s' % show(t)[:80], fn)


@rule('P24', 'last-value', 'Setting an option always stores the option under its name, '
      'replacing an earlier one; looking it up yields its text or nothing.')
def last_value(ck):
    mf = conf_map(ck)
    m = ('fld', THIS, mf)
    nmf, vlf = opt_fields(ck)
    fn = ck.fn(CONF + '::setConfigurationOption')
    N, X = [('param', i, q['n']) for i, q in enumerate(fn['params'])]
    for p in ck.paths(fn, join=False):
        if p.kind != 'ret':
            continue
        w = stores(p, m)
        if not w:
            ck.bad('setting an option', 'the option is not stored', fn)
            continue
        k, v, repl = w[-1]
        ck.req(repl, 'setting an option', 'an earlier value is kept', fn)
        ck.req(str_of(k) == N or opt_name(ck, k, v), 'setting an option',
               'stored under %s' % show(k)[:80], fn)
        ok = v[0] == 'new' and last(v[1]) == 'ConfigurationOption' and \
            tuple(str_of(x) for x in v[2]) == (N, X)
        ck.req(ok, 'setting an option', 'stores %s' % show(v)[:120], fn)
    fn = ck.fn(CONF + '::addConfigurationOption')
    O = ('param', 0, fn['params'][0]['n'])
    for p in ck.paths(fn, join=False):
        if p.kind != 'ret':
            continue
        w = stores(p, m)
        if not w:
            ck.bad('adding an option', 'the option is not stored', fn)
            continue
        k, v, repl = w[-1]
        ck.req(repl, 'adding an option', 'an earlier value is kept', fn)
        ck.req(v == O, 'adding an option', 'stores %s' % show(v)[:80], fn)
        ck.req(mentions(k, lambda x: x == ('fld', O, nmf)) or
               is_call(str_of(k), 'name') and str_of(k)[2] == O, 'adding an option',
               'stored under %s' % show(k)[:80], fn)
    fn = ck.fn(CONF + '::configurationOptionValue')
    N = ('param', 0, fn['params'][0]['n'])
    AS = OPT + '::asString'
    for p in ck.paths(fn, join=False, opaque=[AS]):
        if p.kind != 'ret':
            continue
        has = [v for a, v in p.facts.items() if a[0] == 'contains' and a[1] == m and
               str_of(a[2]) == N]
        none = p.ret == NULL or p.ret[0] == 'global' or p.ret == VOID
        if not has:
            ck.undec('looking up an option', 'test not recognised')
        elif has[0]:
            t = opt(p.ret)
            ok = is_call(t, 'asString') and mentions(t[2], lambda x: x == m) and \
                mentions(t[2], lambda x: x == N)
            ck.req(ok, 'looking up an option', 'returns %s' % show(t)[:100], fn)
        else:
            ck.req(none, 'looking up a missing option', 'returns %s' % show(p.ret)[:80], fn)
    for meth, tag in (('begin', 'iter'), ('end', 'end')):
        for fn in ck.fns(CONF + '::' + meth):
            for p in ck.paths(fn):
                if p.kind == 'ret':
                    ck.req(p.ret[:2] == (tag, m), 'iteration over options: ' + meth,
                           'is %s' % show(p.ret)[:80], fn)


def opt_name(ck, k, v):
    nmf, _ = opt_fields(ck)
    return k == ('fld', v, nmf) or is_call(k, 'name') and k[2] == v


def stores(p, m):
    """(key, value, replaces) stored in a map"""
    out = []
    for e in p.events:
        if e.kind == 'write' and e.obj and e.obj[0] in ('at', 'mapent') and e.obj[1] == m:
            out.append((e.obj[2], e.args[0], True))
        if e.kind == 'call' and e.obj == m and e.args:
            n = last(e.q)
            if n == 'insert_or_assign' and len(e.args) == 2:
                out.append((e.args[0], e.args[1], True))
            elif n in ('insert', 'emplace', 'try_emplace'):
                a = e.args
                if len(a) == 1:
                    x = a[0]
                    while x[0] == 'new' and len(x[2]) == 1:
                        x = x[2][0]
                    a = x[1:3] if x[0] == 'pair' else (x, x)
                out.append((a[0], a[-1], False))
    return out


@rule('P24', 'json', 'The JSON form has exactly one entry per option with its text; '
      'reading it stores every entry and rejects everything that is not an object '
      'of strings.')
def json(ck):
    mf = conf_map(ck)
    nmf, _ = opt_fields(ck)
    AS = OPT + '::asString'
    fn = ck.fn(CONF + '::dumpToString')
    m = ('fld', THIS, mf)
    n = 0
    for p in ck.paths(fn, join=False, opaque=[AS], mark_loops=True):
        if p.kind != 'ret':
            continue
        pr = [e for e in p.events if e.kind == 'call' and last(e.q) == 'operator<<' and
              len(e.args) == 2 and 'json' in short(e.q)]
        if not pr:
            ck.undec('JSON form', 'printing not recognised')
            continue
        obj = [x for x in walk(pr[-1].args[1]) if x and x[0] == 'new' and
               short(x[1]).endswith('json::Object')]
        if not obj:
            ck.undec('JSON form', 'object not recognised')
            continue
        if p.facts.get(('empty', m)) is not False:
            continue
        n += 1
        el = None
        key = val = None
        for e in p.events:
            if e.kind == 'write' and e.obj and e.obj[0] in ('at', 'mapent') and \
                    unk(e.obj[1]) == unk(obj[0]):
                key, val = e.obj[2], e.args[0]
            if e.kind == 'call' and last(e.q) == 'operator=' and e.obj and \
                    is_call(e.obj, 'operator[]') and unk(e.obj[2]) == unk(obj[0]):
                key, val = e.obj[3][0], e.args[0]
            if e.kind == 'call' and e.obj is not None and unk(e.obj) == unk(obj[0]) and \
                    last(e.q) in ('insert', 'try_emplace', 'insert_or_assign') and e.args:
                key, val = ('x', *e.args), ('x', *e.args)
        if key is None:
            ck.bad('JSON form', 'an option is left out', fn)
            continue
        isel = lambda x: x[:2] == ('elem', m)
        ck.req(mentions(key, isel) and (mentions(
            key, lambda x: is_call(x, 'first', 'getKey', 'name') or x[0] == 'fld' and
            (x[2] == nmf or last(x[2]) == 'first'))), 'JSON form: names',
            'the key is %s' % show(key)[:100], fn)
        ck.req(mentions(val, lambda x: is_call(x, 'asString') and mentions(x, isel)),
               'JSON form: values', 'the value is %s' % show(val)[:100], fn)
        ck.req(not any(e.kind == 'brk' for e in p.events), 'JSON form', 'stops early', fn)
    ck.need(n, 'JSON form')
    fn = ck.fn(CONF + '::createConfigurationFromString')
    par = ('param', 0, fn['params'][0]['n'])
    m = 0
    for p in ck.paths(fn, join=False, mark_loops=True,
                      opaque=[CONF + '::addConfigurationOption',
                              CONF + '::setConfigurationOption']):
        if p.kind != 'ret':
            continue
        err = kobj = kstr = None
        for a, v in p.facts.items():
            if a[0] == 'nn' and mentions(a[1], lambda x: is_call(x, 'takeError')):
                err = v
            if a[0] == 'nn' and is_call(a[1], 'operator bool') and \
                    mentions(a[1], lambda x: is_call(x, 'parse')) and err is None and \
                    not mentions(a[1], lambda x: is_call(x, 'takeError')):
                err = not v
            if a[0] == 'eq':
                en = [x for x in a[1:] if x[0] == 'enum']
                if en and last(en[0][1]) == 'Object':
                    kobj = v
                if en and last(en[0][1]) == 'String':
                    kstr = v
            if a[0] == 'nn' and is_call(a[1], 'getAsObject'):
                kobj = v
            if a[0] == 'nn' and is_call(a[1], 'getAsString') or \
                    a[0] == 'nn' and mentions(a[1], lambda x: is_call(x, 'getAsString')):
                kstr = v
        invalid = err is True or kobj is False or kstr is False
        if p.ret == NULL:
            ck.req(invalid, 'valid documents are accepted', 'no configuration is returned '
                   'for a valid document', fn)
            continue
        ck.req(err is False, 'malformed JSON is rejected', 'a configuration is returned', fn)
        ck.req(kobj is True, 'JSON that is no object is rejected',
               'a configuration is returned', fn)
        if any(e.kind in ('iter', 'brk') for e in p.events):
            m += 1
            ck.req(kstr is True, 'values that are no strings are rejected',
                   'a configuration is returned', fn)
            ck.req(not any(e.kind == 'brk' for e in p.events), 'reading of JSON',
                   'stops early', fn)
            ad = [e for e in p.events if e.kind == 'call' and
                  last(e.q) in ('addConfigurationOption', 'setConfigurationOption') and
                  e.loops]
            if kstr is False:
                continue
            if not ad:
                ck.bad('reading of JSON', 'an entry is not stored', fn)
                continue
            e = ad[-1]
            ck.req(unk(e.obj) == unk(p.ret), 'reading of JSON', 'the entry is stored in '
                   'another configuration', fn)
            a = e.args[0][2] if len(e.args) == 1 and e.args[0][0] == 'new' else e.args
            if len(a) == 2:
                k, v = a
                fst = lambda x: is_call(x, 'getFirst') or x[0] == 'fld' and last(x[2]) in (
                    'first', 'FirstT')
                snd = lambda x: is_call(x, 'getSecond') or x[0] == 'fld' and last(x[2]) == 'second'
                ck.req(mentions(k, fst) and not mentions(k, snd) and not changed(k),
                       'reading of JSON: names',
                       'the name is %s' % show(k)[:100], fn)
                ck.req(mentions(v, snd) and not mentions(v, fst) and not changed(v),
                       'reading of JSON: values',
                       'the value is %s' % show(v)[:100], fn)
    ck.need(m, 'reading of JSON')


# ------------------------------------------------------------------ P35
@rule('P35', 'sample-set', 'The written sample set has an entry for every configuration '
      'that lists the output string of every selected option with one, followed by '
      'its value for numeric features.')
def sample_set(ck):
    R = roles(ck)
    fn = ck.fn('vara::sampling::SampleSetWriter::writeConfigurations')
    M, C = [('param', i, q['n']) for i, q in enumerate(fn['params'])]
    CV = CONF + '::configurationOptionValue'
    R.need('fout', 'fname')
    n, seps = 0, []
    for p in ck.paths(fn, join=False, opaque=[CV], mark_loops=True, max_paths=20000):
        if p.kind != 'ret':
            continue
        if any(e.kind == 'brk' for e in p.events):
            ck.bad('entries of a sample set', 'the list stops early', fn)
            continue
        its = [e for e in p.events if e.kind == 'iter']
        fr = [e.args[0] for e in its if e.args[0][0] in ('rng', 'call', 'fld')
              and mentions(e.args[0], lambda x: x == M)]
        outer = [e for e in its if e.args[0] not in fr]
        if not its:
            continue
        # the entry of the configuration
        w = [e for e in p.events if e.kind == 'write' and e.obj and
             e.obj[0] in ('at', 'mapent') and e.loops]
        w += [e for e in p.events if e.kind == 'call' and last(e.q) in ADD and e.loops and
              e.obj is not None and e.obj[0] == 'new' and 'map' in e.obj[1]]
        if not outer:
            continue
        if any(v and a[0] == 'contains' and a[1][0] == 'new' and 'map' in a[1][1]
               for a, v in p.facts.items()):
            continue                             # the key is new
        if not w:
            ck.bad('entries of a sample set', 'a configuration has no entry', fn)
            continue
        val = w[-1].args[-1]
        js = [x for x in walk(val) if is_call(x, 'join')]
        if js:                                   # parts collected first
            ts = ([js[0][2]] if js[0][2] else []) + list(js[0][3])
            add = [e for e in p.events if e.kind == 'call' and e.obj in ts and
                   last(e.q) in ADD and e.args]
            ck.req(any(x[0] == 'str' and ',' in x[1] for x in ts if x), 'separators',
                   'the options of an entry are not separated', fn)
            val = add[-1].args[-1] if add else ('str', '')
        parts = list(val[1]) if val[0] == 'cat' and isinstance(val[1], tuple) and \
            val[1] and isinstance(val[1][0], tuple) else list(val[1:]) if val[0] == 'cat' else [val]
        if not fr:
            continue
        cs = [a for a in p.facts if a[0] == 'nn' and is_call(a[1], 'configurationOptionValue')]
        if not cs:
            other = [a for a in p.facts if mentions(a, lambda x: x[0] == 'elem') and not
                     mentions(a, lambda x: x[0] == 'fld' and x[2] == R.of['fout'])]
            outs_ = [v for a, v in p.facts.items() if a[0] == 'empty' and
                     a[1][0] == 'fld' and a[1][2] == R.of['fout']]
            if True in outs_:
                continue
            if other and all(mentions(a, lambda x: x[0] == 'elem' and any(
                    y == M for y in walk(x))) for a in other):
                n += 1
                ck.bad('selected options', 'an option is skipped without looking at its '
                       'value', fn)
            else:
                ck.undec('options of a sample', 'selection not recognised')
            continue
        call = cs[0][1]
        f = feature_of_name(ck, call[3][0])
        if f is None or f[0] != 'elem':
            ck.bad('options of a sample', 'the value of %s is looked up' % show(call[3][0])[:80], fn)
            continue
        has = p.facts[cs[0]]
        off = [v for a, v in p.facts.items() if a[0] == 'eq' and ('str', 'false') in a[1:]
               and mentions(a, lambda x: is_call(x, 'configurationOptionValue'))]
        emp = p.facts.get(('empty', R.f('fout', f)))
        num = [v for a, v in p.facts.items() if a[0] == 'eq' and any(
            x[0] == 'enum' and last(x[1]) == 'FK_NUMERIC' for x in a[1:])]
        num += [v for a, v in p.facts.items() if a[0] == 'isa' and
                last(a[1]) == 'NumericFeature']
        listed = any(mentions(x, lambda y: y == R.f('fout', f)) for x in parts)
        n += 1
        sel = has and not (off and off[0])
        if has is False or off and off[0]:
            ck.req(not listed, 'deselected options', 'are listed', fn)
        elif emp is True:
            continue
        elif has and off == [False]:
            ck.req(listed, 'selected options', 'an option with an output string is left '
                   'out', fn)
            if listed and num:
                i = [i for i, x in enumerate(parts) if mentions(x, lambda y: y == R.f('fout', f))]
                vals = [j for j, x in enumerate(parts) if mentions(
                    x, lambda y: is_call(y, 'configurationOptionValue'))]
                if num[0]:
                    ck.req(vals == [i[0] + 1], 'numeric options', 'the value does not '
                           'follow the output string', fn)
                else:
                    ck.req(not vals, 'binary options', 'a value is appended', fn)
            elif listed:
                ck.bad('numeric options', 'numeric features are not distinguished', fn)
        elif has and listed:
            ck.bad('deselected options', 'are listed', fn)
        if has and off == [False] and listed:
            i = [i for i, x in enumerate(parts) if mentions(x, lambda y: y == R.f('fout', f))][0]
            pre = ''.join(x[1] if x[0] == 'str' else '?' for x in parts[:i])
            seps.append((',' in pre, entry_facts(p)))
    separated(ck, fn, seps)
    # each configuration has an entry of its own
    for p in ck.paths(fn, join=False, opaque=[CV], mark_loops='ret', havoc='all',
                      max_paths=20000):
        for e in p.events:
            if e.kind != 'write' or not e.obj or e.obj[0] not in ('at', 'mapent') or not e.loops:
                continue
            ix = {x[2] for v in (list(p.facts) + [e.args[-1]]) for x in walk(v)
                  if x and x[0] == 'at' and len(x) > 2 and x[1] == C}
            ix = {x for x in ix if x[0] == 'mu'}
            if ix:
                ck.req(all(mentions(e.obj[2], lambda y: y == x) for x in ix), 'entries of a '
                       'sample set', 'the entries of different configurations have the same '
                       'key', fn)
    ck.need(n, 'options of samples')


def entry_facts(p):
    """what is known about the length of the text so far: (is it compared, length of the
    text, compared with, outcome)"""
    out = []
    for a, v in p.facts.items():
        if a[0] == 'empty' and a[1][0] == 'str':
            out.append((len(a[1][1]), 0, v))
        if a[0] in ('eq', 'lt'):
            x = [len(t[2][1]) for t in a[1:] if is_call(t, 'size', 'length') and t[2] and
                 t[2][0] == 'str']
            k = [t[1] for t in a[1:] if t[0] in ('int', 'num') and isinstance(t[1], int)]
            if len(x) == 1 and len(k) == 1:
                if a[0] == 'lt':                # n < size: (size > n)
                    n = k[0] if a[1][0] in ('int', 'num') else k[0] - 1
                    v = not v if a[1][0] in ('int', 'num') else v
                    out.append((x[0], n, v))
                else:
                    out.append((x[0], k[0], v))
    return out


def separated(ck, fn, seps):
    for has, fs in seps:
        for n, k, first in fs:
            ck.req(n == k, 'separators', 'the options of an entry are separated when the text '
                   'has a length of %d, but it starts with %d' % (k, n), fn)
        if fs:
            ck.req(has != any(first for _, _, first in fs), 'separators', 'a separator before '
                   'the first option or none between others', fn)
        else:
            ck.req(not has, 'separators', 'a separator before the first option', fn)
