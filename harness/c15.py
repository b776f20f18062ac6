"""C15: an option means the same at the top level and inside its section."""
import json

from cmakelang import configuration
from cmakelang.format import __main__ as fmt_main
from harness import lib, vfs
from harness.c14 import OPTS, STRUCT, ENCODINGS, Conf, capture, norm
from symex import rt

FUNCTIONS = ['config_util.ConfigObject.consume_known',
             'config_util.ConfigObject.legacy_consume', 'config_util.warn_unused',
             'config_util.SubtreeDescriptor', 'config_util.FieldDescriptor',
             'configuration.Configuration', 'configuration.ParseConfig._update_derived',
             'configuration.FormattingConfig._update_derived',
             'configuration.MiscConfig._update_derived',
             'parse.util.CommandSpec', 'format.__main__.get_configdict']
BOUNDS = ('every option, alone, twice (both styles, both key orders) and in pairs; '
          'unknown values: integers 0..300, texts of two characters, every choice; '
          'unknown option names next to every option')
ASSUMPTIONS = ['when both styles are present either value may win']
BUDGET = {'quick': 80.0, 'thorough': 400.0}

UNKNOWN = ['line_widht', 'LINE_WIDTH', 'linewidth', 'endl', 'per_command_',
           'fn_spec', 'vartags_', 'additional_command', 'parse_', 'name', 'dangle-parens',
           'get_field_names', 'clone']
SPECS = {
    'additional_commands': [
        {'foo': {'pargs': 1}}, {'bar': {'pargs': 2, 'flags': ['X']}}, {},
        {'foo': {'kwargs': {'A': 1}}, 'Bar': {'pargs': '*'}}],
    'per_command': [{'foo': {'command_case': 'upper'}},
                    {'FOO': {'command_case': 'lower'}, 'bar': {'command_case': 'upper'}},
                    {}],
    'override_spec': [{'foo.max_subgroups_hwrap': 5}, {'foo.always_wrap': True}, {}],
    'layout_passes': [{'X': [[0, True]]}, {'X': [[1, False]]}],
    'vartags': [[['A', ['x']]], [['B', ['y']], ['C', ['z']]], []],
    'proptags': [[['A', ['x']]], [['B', ['y']]], []]}


def tasks(tier):
    T = []

    def add(name, **kw):
        T.append({'name': name, 'weight': 1.0, 'params': kw,
                  'bounds': '; '.join('%s %s' % kv for kv in sorted(kw.items()))})
    n = len(OPTS)
    for i, o in enumerate(OPTS):
        add('same-' + o[1], kind='same', idx=[i])
        add('both-' + o[1], kind='both', idx=[i])
    for i in range(n):
        for d in ((1, 17) if tier == 'quick' else range(1, n)):
            j = (i + d) % n
            add('mix-%s-%s' % (OPTS[i][1], OPTS[j][1]), kind='mix', idx=[i, j])
    for k in range(len(UNKNOWN)):
        add('unknown-' + UNKNOWN[k], kind='unknown', idx=[
            (k * 7) % n, (k * 7 + 11) % n], unk=UNKNOWN[k])
    names = [o[1] for o in OPTS]
    A, B = names.index('line_width'), names.index('dangle_parens')
    C, D = names.index('additional_commands'), names.index('bullet_char')
    for i in (A, B, C, D):
        for ext in ('json', 'py', 'yaml'):
            add('file-%s-%s' % (names[i], ext), kind='file', idx=[i], ext=ext)
    return T


def value(S, name, o):
    s, n, d, c = o
    if n in SPECS:
        return S.pick(name, [json.dumps(v) for v in SPECS[n]])
    if c:
        return S.pick(name, list(c))
    if n.endswith('_encoding'):
        return S.pick(name, ENCODINGS)
    if isinstance(d, bool):
        return S.bool(name)
    if isinstance(d, int):
        return S.int(name, 0, 300)
    if isinstance(d, (list, tuple)):
        return [S.text(name, 1, 'aB_-é')]
    return S.text(name, 2, 'aB_-.*é')


def inputs(S, p):
    opts = [OPTS[i] for i in p['idx']]
    d = {'v': [value(S, 'v%d' % k, o) for k, o in enumerate(opts)]}
    if p['kind'] == 'both':
        d['w'] = [value(S, 'w', opts[0])]
    if p['kind'] == 'mix':
        d['style'] = [S.pick('style', ['flat section', 'section flat', 'flat flat',
                                       'flat flat reversed'])]
    if p['kind'] == 'unknown':
        d['where'] = [S.pick('where', ['top first', 'top last', 'section first',
                                       'section last'])]
    return d


def real(o, v):
    return json.loads(v) if o[1] in SPECS else v


def tree(spec):
    return [spec.name, spec.spelling, spec.max_subgroups_hwrap, spec.always_wrap,
            [[x if not hasattr(x, 'pattern') else x.pattern for x in q]
             for q in spec.pargs],
            [[k, tree(v)] for k, v in sorted(spec.kwargs.items())]]


def derived(cfg):
    return {'endl': cfg.format.endl, 'linewidth': cfg.format.linewidth,
            'per_command': cfg.misc.per_command_,
            'vartags': [[r.pattern, t] for r, t in cfg.parse.vartags_],
            'proptags': [[r.pattern, t] for r, t in cfg.parse.proptags_],
            'spec': tree(cfg.parse.fn_spec)}


def equal(a, b):
    a, b = norm(a), norm(b)
    if isinstance(a, list) and isinstance(b, list):
        return rt.conj([len(a) == len(b)] + [equal(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(a) != sorted(b):
            return False
        return rt.conj([equal(a[k], b[k]) for k in a])
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (list, dict)) or isinstance(b, (list, dict)):
        return False
    return a == b


def same(a, b, what):
    for s, n, d, c in OPTS:
        x, y = getattr(getattr(a, s), n), getattr(getattr(b, s), n)
        rt.check(equal(x, y), lambda: '%s: %s.%s is %r and %r' % (what, s, n, x, y))
    da, db = derived(a), derived(b)
    for k in da:
        rt.check(equal(da[k], db[k]), lambda: '%s: derived %s differs: %r and %r' % (
            what, k, da[k], db[k]))


def make(pairs):
    """pairs: (option, style, value) in key order"""
    d = {}
    for (s, n, _, _), style, v in pairs:
        if style == 'flat':
            d[n] = v
        else:
            d.setdefault(s, {})[n] = v
    return configuration.Configuration(**d)


def warm():
    configuration.Configuration()


def run(p, inp):
    opts = [OPTS[i] for i in p['idx']]
    vals = inp['v']
    kind = p['kind']
    o = opts[0]

    def cfg(*pairs):
        return make([(o, st, real(o, v)) for o, st, v in pairs])
    # override_spec addresses the demonstration command; keep it declared
    if 'override_spec' in [x[1] for x in opts] and 'additional_commands' in [
            x[1] for x in opts]:
        i = [x[1] for x in opts].index('additional_commands')
        rt.assume('"foo"' in vals[i])
    with lib.Recorder() as rec:
        if kind == 'same':
            a = cfg((o, 'flat', vals[0]))
            b = cfg((o, 'section', vals[0]))
            x = getattr(getattr(b, o[0]), o[1])
            rt.check(equal(x, real(o, vals[0])), lambda: 'value %r' % x)
            same(a, b, 'flat and sectioned')
            follow(b)
            res = getattr(getattr(a, o[0]), o[1])
        elif kind == 'both':
            v, w = vals[0], inp['w'][0]
            a = cfg((o, 'flat', v), (o, 'section', w))
            b = cfg((o, 'section', w), (o, 'flat', v))
            same(a, b, 'order of the keys')
            x = getattr(getattr(a, o[0]), o[1])
            rt.check(rt.disj([equal(x, real(o, v)), equal(x, real(o, w))]),
                     lambda: 'value %r' % x)
            follow(a)
            res = x
        elif kind == 'mix':
            st = inp['style'][0].split(' ')
            b = cfg((opts[0], 'section', vals[0]), (opts[1], 'section', vals[1]))
            pairs = [(opts[0], st[0], vals[0]), (opts[1], st[1], vals[1])]
            if len(st) > 2:
                pairs.reverse()
            a = cfg(*pairs)
            same(a, b, 'mixed styles')
            for o, v in zip(opts, vals):
                x = getattr(getattr(a, o[0]), o[1])
                rt.check(equal(x, real(o, v)), lambda: 'value %r' % x)
            for q in OPTS:
                if q not in opts:
                    x = getattr(getattr(a, q[0]), q[1])
                    rt.check(equal(x, q[2]), lambda: '%s changed to %r' % (q[1], x))
            res = 1
        elif kind == 'unknown':
            where, pos = inp['where'][0].split(' ')
            known = {}
            for o, v in zip(opts, vals):
                known.setdefault(o[0], {})[o[1]] = real(o, v)
            b = configuration.Configuration(**copyd(known))
            rt.check(not rec.messages, lambda: 'reported %r' % rec.messages)
            junk = {'x': 1} if where == 'top' else 7
            d = copyd(known)
            if where == 'top':
                if pos == 'first':
                    d = {p['unk']: junk}
                    d.update(copyd(known))
                else:
                    d[p['unk']] = junk
            else:
                sec = opts[0][0]
                if pos == 'first':
                    d[sec] = {p['unk']: junk}
                    d[sec].update(copyd(known)[sec])
                else:
                    d[sec][p['unk']] = junk
            a = configuration.Configuration(**d)
            same(a, b, 'unknown option')
            rt.check(any([lev in ('WARNING', 'ERROR', 'CRITICAL') and p['unk'] in t
                          for lev, t in rec.messages]),
                     lambda: 'unknown option %s is not reported' % p['unk'])
            res = 2
        else:
            cfgs = []
            for st in ('flat', 'section'):
                conf = Conf()
                fs = vfs.VFS(cwd='/v/w')
                fs.add('/v/w/f', 'foo()\n')
                fs.add('/v/w/.cmake-format.' + p['ext'], conf.text(
                    p['ext'], [(o, st, vals[0])]))
                seen, r = capture('fmt', ['-i', 'f'], fs, conf.values)
                rt.check(len(seen) == 1, 'not processed')
                cfgs.append(seen[0])
            same(cfgs[0], cfgs[1], 'file')
            x = getattr(getattr(cfgs[0], o[0]), o[1])
            rt.check(equal(x, real(o, vals[0])), lambda: 'value %r' % x)
            res = 3
    return res


def copyd(d):
    return {k: copyd(v) if isinstance(v, dict) else v for k, v in d.items()}


def follow(cfg):
    """derived settings agree with a configuration that never held another
    value"""
    d = {}
    for s, n, _, _ in OPTS:
        d.setdefault(s, {})[n] = getattr(getattr(cfg, s), n)
    fresh = configuration.Configuration(**copyd(d))
    same(cfg, fresh, 'derived settings')
    rt.check(cfg.format.endl == ('\r\n' if cfg.format.line_ending == 'windows' else
                                 '\n'), 'endl')
    rt.check(cfg.format.linewidth == cfg.format.line_width, 'linewidth')
    names = sorted([k.lower() for k in cfg.parse.additional_commands])
    rt.check(names == sorted(cfg.parse.fn_spec.kwargs), lambda:
             'commands in effect: %r' % sorted(cfg.parse.fn_spec.kwargs))
    for k, v in cfg.misc.per_command.items():
        have = cfg.misc.per_command_.get(k.lower(), {})
        rt.check(all([have.get(x) == v[x] for x in v]), 'per_command')
    pats = [r.pattern for r, _ in cfg.parse.vartags_]
    rt.check([q[0] for q in cfg.parse.vartags] == pats[len(pats) - len(
        cfg.parse.vartags):], 'vartags')
    pats = [r.pattern for r, _ in cfg.parse.proptags_]
    rt.check([q[0] for q in cfg.parse.proptags] == pats[len(pats) - len(
        cfg.parse.proptags):], 'proptags')
