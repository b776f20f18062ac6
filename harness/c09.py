# -*- coding: utf-8 -*-
"""C09: case options change only command names and keywords."""
import re

from cmakelang import configuration
from harness import lib, ref, corpus, fmtbase, c11
from harness.corpus import task
from harness.fmtbase import inputs, show, FUNCTIONS
from symex import rt

BOUNDS = ''
ASSUMPTIONS = ['which words of the built-in commands are keywords is taken from '
               'the command forms listed in the templates; every one of them has '
               'every letter in unknown case',
               'words that the documentation does not know are ordinary arguments']
BUDGET = {'quick': 120.0, 'thorough': 840.0}
CASES = {'format.keyword_case': ['lower', 'upper', 'unchanged'],
         'format.command_case': ['lower', 'upper', 'canonical', 'unchanged']}
CANON = {'fetchcontent_declare': 'FetchContent_Declare',
         'fetchcontent_populate': 'FetchContent_Populate',
         'fetchcontent_makeavailable': 'FetchContent_MakeAvailable',
         'fetchcontent_getproperties': 'FetchContent_GetProperties',
         'externalproject_add': 'ExternalProject_Add',
         'externalproject_add_step': 'ExternalProject_Add_Step',
         'externalproject_add_steptargets': 'ExternalProject_Add_StepTargets',
         'externalproject_add_stepdependencies': 'ExternalProject_Add_StepDependencies',
         'externalproject_get_property': 'ExternalProject_Get_Property',
         'bar': 'bAr'}
# (command, word): upper-case words that are ordinary arguments
PLAIN = {('install', 'BIN'), ('option', 'ON'),
         ('set', 'STRING'), ('string', 'EQUAL'),
         ('try_compile', 'LIBRARIES')}
WORD = re.compile(r'(?<![\w@])@?[A-Z][A-Z0-9_]+\b')


def tasks(tier):
    T = []
    q = tier == 'quick'

    def add(name, tpl, opts=None, **params):
        o = dict(CASES)
        o['format.line_width'] = 200
        o.update(opts or {})
        t = task(name, tpl, o, **params)
        t['params']['kw'] = marks(t['params']['parts'])
        T.append(t)
    for i, line in enumerate(c11.FORMS.strip().split('\n')):
        cmd = line.split('(')[0]
        s = line.replace(')~', ')\n').replace('~', ' ')
        n = [0]

        def hole(m):
            if (cmd, m.group(0)) in PLAIN:
                return m.group(0)
            n[0] += 1
            return '‹k%d~%s›' % (n[0], m.group(0))
        s = WORD.sub(hole, s)
        s = re.sub(r'(?m)^([a-z]\w*)(?=\()', lambda m: '‹c%d~%s›' % (m.start(), m.group(1)), s)
        add('F.%s%d' % (cmd, i), s + ' # COMMENT Aa\n')
    # words that look like keywords where none is expected
    add('quoted', 'foo(a "HEADERS" [[Sources]] # HEADERS\n ‹k1~SOURCES› Headers.c -HEADERS ${HEADERS} headers_a)\n')
    add('values', 'set(HEADERS Sources "aB")\nset(CACHE_A Parent_Scope_B FORCED)\n')
    add('pos', 'add_library(Shared1 ‹k1~SHARED› Static.c Static_ "STATIC" Object-)\n')
    add('pos2', 'add_custom_command(‹k1~OUTPUT› "OUTPUT" ‹k2~COMMAND› Command1 -OUTPUT "COMMAND" a"COMMAND"b)\n')
    add('pos3', 'install(‹k1~TARGETS› Targets1 ${DESTINATION} ‹k2~DESTINATION› "Destination")\n')
    add('pos4', 'if(‹k1~NOT› "NOT" ‹k2~AND› Not1 ‹k3~STREQUAL› "Strequal")\nendif()\n')
    add('pos5', 'message(‹k1~STATUS› "STATUS" [=[STATUS]=] ${STATUS})\n')
    add('unknown', '‹c1~foo›(‹a:n4›)\n', {'format.line_width': 80})
    add('unknown2', 'foo("‹a:s›" [[‹b:s›]] # ‹c:c›\n)\n', {'format.line_width': 80})
    add('unknown3', 'qux(‹b:n2› DEPENDS1 ‹a:n2› # ‹c:w2›\n ‹d:w2›)\n')
    add('unknown6', 'set_property(‹k1~TARGET› ‹b:n› ‹k2~PROPERTY› ‹a:n2›)\n')
    add('unknown4', '‹c1~add_executable›(‹b:w2› ‹k1~WIN32› ‹a:n2›)\n')
    add('ident', '‹a:w›a_‹b:w›o()\n‹p1:_foo|FOO_|f_O1›()\n')
    add('nest', 'foo((DEPENDS a) (Headers Depends1))\n')
    add('off', 'Foo(a)\n# cmake-format: off\nFoo( DEPENDS a)\n# cmake-format: on\n‹c1~foo›()\n', keep='Foo( DEPENDS a)')
    # canonical spellings
    for i, cn in enumerate(sorted(CANON.values())):
        add('canon%d' % i, '‹c1~%s›(a)\n' % cn, conf='decl')
    # per-command settings, the name in any case
    for i, k in enumerate(['foo', 'Foo', 'FOO']):
        for j, opt in enumerate(['command_case', 'format.command_case']):
            if q and (i + j) % 2 and i:
                continue
            add('percmd%d%d' % (i, j), '‹c1~foo›(a ‹k1~DEPENDS› b)\n‹c2~message›(‹k2~STATUS› a)\n',
                per={k: {opt: None}})
    add('perspell2', '‹c1~externalproject_add›(a)\n‹c2~message›(a)\n',
        per={'ExternalProject_Add': {'command_case': None}})
    add('pertwo', '‹c1~foo›(a)\n‹c2~message›(‹k2~STATUS› a)\n‹c3~baz›()\n',
        per={'foo': {'command_case': None}, 'MESSAGE': {'command_case': 'upper'}})
    # declared keywords
    add('decl', '‹c1~bar›(a ‹k1~SRC› b ‹k2~FLAG› ‹k3~OTHER› c src.c "SRC" ‹d:n›)\n', conf='decl')
    add('declflag', '‹c1~baz›(‹k1~FLAG› a ‹k2~SUB› B ‹k3~Deep› c # FLAG\n Flag1)\n', conf='decl')
    if not q:
        for i, line in enumerate(c11.FORMS.strip().split('\n')):
            cmd = line.split('(')[0]
            n = [0]
            s = line.replace(')~', ')\n').replace('~', ' # Kk KK\n ')
            s = WORD.sub(lambda m: m.group(0) if m.group(0) == 'KK' else hole(m), s)
            s = re.sub(r'(?m)^([a-z]\w*)(?=\()', lambda m: '‹c%d~%s›' % (m.start(), m.group(1)), s)
            add('G.%s%d' % (cmd, i), s + '\n', {'format.line_width': ('i', 30, 80)})
        add('unknown5', 'qux(‹a:n3› "‹b:s2›" Sources ‹d:n2› # ‹c:c›\n)\n')
        add('ident2', '‹a:w3›o(‹b:n2›)\n')
    return T


def marks(parts):
    """index of every keyword among the items of the text"""
    s = ''
    for x in parts:
        if isinstance(x, str):
            s += x
        elif x[0] == 'k':
            s += x[2] if x[1][0] == 'c' else 'qq' + x[1] + 'qq'
        elif x[0] == 'p':
            s += x[2][0]
        elif x[0] in 'cw':
            s += 'x'
        else:
            s += 'x' * x[2]
    words = {x[1]: x[2] for x in parts if not isinstance(x, str) and x[0] == 'k'}
    out = {}
    for i, x in enumerate(ref.read(s)):
        m = re.match(r'qq(k\d+)qq', x[1]) if x[0] == 'arg' else None
        if m:
            out[i] = words[m.group(1)]
    return out


def decl():
    return configuration.Configuration(additional_commands={
        'Bar': {'pargs': '*', 'flags': ['FLAG'], 'spelling': 'bAr',
                'kwargs': {'SRC': '*', 'OTHER': '*'}},
        'baz': {'pargs': {'nargs': '*', 'flags': ['FLAG']},
                'kwargs': {'SUB': {'pargs': 1, 'kwargs': {'DEEP': 1}}}}})


def warm():
    lib.base('')
    lib.base('decl', decl)


def run(p, inp):
    src = inp['src']
    items = ref.read(src, lower=False)
    if items is None:
        raise rt.Skip()
    kw = {int(k): v for k, v in p['kw'].items()}
    for i, word in kw.items():
        if i >= len(items) or items[i][0] != 'arg' or items[i][1].upper() != word.upper():
            raise rt.Skip()
    fmt = dict(inp['opts']['format'])
    glob = fmt['command_case']
    per = {}
    opts = {'format': fmt}
    if p.get('per'):
        # an override with value None takes the unknown value of the option
        # and the global setting is the opposite
        conf = {}
        for k, v in p['per'].items():
            conf[k] = {}
            for o, x in v.items():
                if x is None:
                    x = glob
                conf[k][o] = x
                per.setdefault(k.lower(), {})[o.split('.')[-1]] = x
        if any(None in v.values() for v in p['per'].values()):
            glob = {'upper': 'lower', 'lower': 'upper', 'canonical': 'unchanged',
                    'unchanged': 'canonical'}[glob]
            fmt['command_case'] = glob
        opts['misc'] = {'per_command': conf}
    if p.get('conf'):
        cfg = lib.config(p['conf'], decl, **opts)
    else:
        cfg = lib.config(**opts)
    r = lib.process(cfg, src)
    if r is None:
        raise rt.Skip()
    out = ref.read(r[0], lower=False)
    rt.check(out is not None, lambda: 'output cannot be read: %r' % r[0])
    want = []
    for i, x in enumerate(items):
        if x[0] == 'cmd' and not (p.get('keep') and i == 5):
            name = x[1].lower()
            mine = per.get(name, {})
            case = mine.get('command_case', glob)
            if case == 'lower':
                s = name
            elif case == 'upper':
                s = x[1].upper()
            elif case == 'unchanged':
                s = x[1]
            else:
                if name == 'bar' and p.get('conf') != 'decl':
                    s = name
                else:
                    s = mine.get('spelling', CANON.get(name, name))
            want.append(['cmd', s])
        elif x[0] == 'arg' and i in kw:
            kc = fmt['keyword_case']
            s = x[1]
            if kc == 'lower':
                s = s.lower()
            elif kc == 'upper':
                s = s.upper()
            want.append(['arg', s])
        else:
            want.append(x)
    rt.check(ref.same(ref.with_comments(want), ref.with_comments(out)),
             lambda: 'wrong spelling: %r' % r[0])
    if p.get('keep'):
        rt.check(p['keep'] in r[0], lambda: 'region changed: %r' % r[0])
    return r[0]
