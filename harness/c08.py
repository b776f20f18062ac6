# -*- coding: utf-8 -*-
"""C08: argument sorting is an opt-in stable permutation that keeps comments
attached."""
import re

from cmakelang import configuration
from harness import lib, ref, corpus, fmtbase
from harness.corpus import task
from harness.fmtbase import inputs, show, FUNCTIONS
from symex import rt

BOUNDS = ''
ASSUMPTIONS = ['an argument list with an embedded format-off region is not '
               'sorted (the region is kept verbatim, C04)',
               'a comment on a line of its own after the last argument may stay '
               'at the end of the list',
               'a comment before the first argument of a list stays in front']
BUDGET = {'quick': 120.0, 'thorough': 840.0}
SORT = {'format.autosort': 'b', 'format.enable_sort': 'b', 'format.line_width': 60}
ON = {'format.autosort': True, 'format.line_width': 60}


def tasks(tier):
    T = []
    q = tier == 'quick'

    def add(name, tpl, first, kw='', opts=SORT, **params):
        # first: number of leading arguments that are not sorted (None: nothing
        # is sorted); kw: a keyword after which the list ends
        T.append(task('S.' + name, tpl, opts, first=first, stop=kw, **params))
    n2 = 'n' if q else 'n2'
    add('lib', 'add_library(x ‹a:n› ‹b:n› ‹c:n›)\n', 1)
    add('libtype', 'add_library(x ‹p1:STATIC|SHARED|MODULE|static› ‹a:n› ‹b:%s› ‹c:n›)\n' % n2, 2)
    add('libflag', 'add_library(x SHARED EXCLUDE_FROM_ALL ‹a:n› ‹b:n› ‹c:n›)\n', 3)
    add('libflag2', 'add_library(x EXCLUDE_FROM_ALL ‹a:n› ‹b:n›)\n', 2)
    add('libcase', 'add_library(x STATIC z‹a:w› Z‹b:w› z‹c:w› ‹d:n›)\n', 2)
    add('libword', 'add_library(x STATIC ‹Z› ‹a:w›‹Z› ‹J› z‹b:w›)\n', 2, hi=6)
    add('libquote', 'add_library(x STATIC "‹a:n›" ‹b:n› ${c} [[‹c:n›]] $<d:e>)\n', 2)
    add('exe', 'add_executable(x ‹a:n› ‹b:n› ‹c:n›)\n', 1)
    add('exeflag', 'add_executable(x ‹p1:WIN32|MACOSX_BUNDLE|EXCLUDE_FROM_ALL|win32› ‹a:n› ‹b:%s›)\n' % n2, 2)
    add('exeflag2', 'add_executable(x WIN32 EXCLUDE_FROM_ALL ‹a:n› ‹b:n›)\n', 3)
    # comments stay with the argument in front of them
    add('trail', 'add_library(x STATIC ‹a:n› # k\n ‹b:n› #[[m]] ‹c:n› # q\n # v\n)\n', 2, stay=1)
    add('own', 'add_library(x STATIC\n # k\n ‹a:n›\n # m\n # q\n ‹b:n›\n\n ‹c:n›)\n', 2)
    add('trail2', 'add_executable(x ‹a:n› # ‹d:c›\n ‹b:n›\n # ' + ('k' if q else '‹e:c›') + '\n ‹c:w›)\n', 1)
    add('last', 'add_executable(x ‹a:n› ‹b:n› # k\n # m\n)\n', 1, stay=1)
    add('close', 'add_executable(x ‹a:n› ‹b:n›) # k\nfoo(z a)\n', 1)
    add('lines', 'add_library(x STATIC ‹a:n›‹d:b›\n‹b:n› # k\n‹e:b›‹c:n› #< m\n #< q\n)\n', 2)
    # annotations
    add('unsort', 'add_library(x STATIC\n # ‹p1:cmake-format|cmf›: ‹p2:unsort|unsortable|sort|sortable|UNSORT|xsort›\n'
        ' ‹a:n› ‹b:n›)\n', 2, tag='p2')
    add('unsort2', 'add_executable(x\n #[[‹p1:cmake-format|cmf›:‹p2:unsort|unsortable|sort|sortable›]] ‹a:n› ‹b:n›)\n', 1,
        tag='p2')
    add('sortset', 'set(x # ‹p1:cmake-format|cmf›: ‹p2:sort|sortable|unsort|SORT|tag|sorted›\n ‹a:n› ‹b:n› ‹c:n›)\n', 1,
        tag='p2', default=False)
    add('sortset2', 'set(x\n  # cmake-format: sort\n ‹a:n› # k\n ‹b:n›\n # m\n ‹c:n›)\n', 1)
    add('sortfoo', 'foo(\n # cmake-format: sort\n ‹a:n› ‹b:n› ‹c:n›)\n', 0)
    add('sortkw', 'foo(z y HEADERS # cmake-format: ‹p2:sort|unsort|sortable›\n ‹a:n› ‹b:n› SOURCES z y)\n', 3,
        kw='SOURCES', tag='p2', default=False)
    add('sortkw2', 'foo(z y HEADERS z y SOURCES #[[cmf:sort]] ‹a:n› ‹b:n› BAR)\n', 6, kw='BAR')
    add('sortdefs', 'target_sources(x PRIVATE # cmake-format: sort\n ‹a:n› ‹b:n› PUBLIC z y)\n', 2, kw='PUBLIC')
    add('sortobj', 'add_library(x OBJECT # cmake-format: ‹p2:sort|unsort›\n ‹a:n› ‹b:n›)\n', 2, tag='p2', default=False)
    add('paren', 'foo(\n # cmake-format: sort\n ‹a:n› (z y) ‹b:n›)\n', None, free=True)
    # a form hidden behind a reference
    add('deref', 'add_library(x ‹p1:${t}|${${t}}|"${t}"|a${t}|$ENV{t}› ‹a:n› ‹b:n›)\n', None)
    add('deref2', 'add_library(x STATIC ‹p1:${t}|"${t}"|a${t}› ‹a:n› ‹b:n›)\n', None)
    add('deref3', 'add_executable(x ‹p1:${t}|"${t}"|a${t}› ‹a:n› ‹b:n›)\n', None)
    add('deref4', 'add_library(${x} STATIC ‹a:n› ‹b:n› ${c})\n', 2)
    add('deref5', 'add_executable(${x} WIN32 ‹a:n› ${c} ‹b:n›)\n', 2)
    # declared lists
    add('decl', 'bar(z ‹a:n› ‹b:n› ‹c:n›)\n', 1, conf='decl')
    add('declkw', 'bar(z SRC ‹a:n› ‹b:n› # k\n ‹c:n› OTHER z y x)\n', 2, kw='OTHER', conf='decl')
    add('declkw2', 'bar(z OTHER ‹a:n› ‹b:n›)\n', None, conf='decl')
    add('decluns', 'bar(z SRC # cmake-format: ‹p2:unsort|sort›\n ‹a:n› ‹b:n›)\n', 2, conf='decl', tag='p2')
    # everything else keeps its order whatever the options
    from harness import c11
    seen = []
    for i, line in enumerate(c11.FORMS.strip().split('\n')):
        cmd = line.split('(')[0]
        if cmd in ('add_library', 'add_executable'):
            if 'b c' not in line or 'OBJECT' in line:
                pass
            else:
                continue
        s = line.replace(')~', ')\n').replace('~', ' ')
        for a, b in zip('abcd', 'ZYXW'):
            s = re.sub(r'\b%s\b' % a, b, s)
        if i % 3 or not q:
            s = re.sub(r'\bX\b', 'X # k\n', s)
        T.append(task('N.%s%d' % (cmd, i), s + '\n', SORT, first=None, stop=''))
    for n, t in [('alias', 'add_library(z ALIAS b a)'), ('imp', 'add_library(z SHARED IMPORTED b a)'),
                 ('intf', 'add_library(z INTERFACE b a)'), ('obj', 'add_library(z OBJECT b a)'),
                 ('eimp', 'add_executable(z IMPORTED b a)'), ('ealias', 'add_executable(z ALIAS b a)')]:
        T.append(task('N.' + n, t.replace('b a', '‹a:n› ‹b:n›') + '\n', SORT, first=None, stop=''))
    if not q:
        add('four', 'add_library(x STATIC ‹a:n› ‹b:n› ‹c:n› ‹d:n›)\n', 2, opts=ON)
        add('commented', 'add_library(x STATIC ‹a:n› # ‹e:c2›\n ‹b:n› # k\n # m\n ‹c:n› #[[q]] ‹d:w›)\n', 2, opts=ON)
        add('five', 'set(x # cmake-format: sort\n ‹a:w› ‹b:w› ‹c:w› ‹d:w› ‹e:w›)\n', 1, opts=ON)
        add('dups', 'add_executable(x ‹a:w2› # k\n ‹b:w2› # m\n ‹c:w2› # q\n)\n', 1, opts=ON)
    return T


def decl():
    return configuration.Configuration(additional_commands={
        'bar': {'pargs': [1, {'nargs': '*', 'sortable': True}],
                'kwargs': {'SRC': {'pargs': [{'nargs': '*', 'sortable': True}]},
                           'OTHER': '*'}}})


def warm():
    lib.base('')
    lib.base('decl', decl)


def expected(items, p, sort, stay=0):
    """the items of the input in the order they have to appear in; stay: the
    number of comments at the end of the list that are not of its last
    argument"""
    if not sort or p['first'] is None:
        return items
    # the first statement of the template is the one to sort
    end = 0
    while items[end][0] != ')':
        end += 1
    head = []
    n = -1
    i = 0
    while n < p['first'] and i < end:
        if items[i][0] == 'arg':
            n += 1
            if n == p['first']:
                break
        head.append(items[i])
        i += 1
    groups = []
    while i < end:
        x = items[i]
        if x[0] == 'arg':
            if p['stop'] and x[1] == p['stop']:
                break
            groups.append([x])
        else:
            groups[-1].append(x)
        i += 1
    rest = items[i:]
    if stay:
        rest = groups[-1][-stay:] + rest
        groups[-1] = groups[-1][:-stay]
    # insertion sort: stable, by definition of the order only
    out = []
    for g in groups:
        k = len(out)
        while k > 0 and g[0][1].lower() < out[k - 1][0][1].lower():
            k -= 1
        out.insert(k, g)
    return head + [x for g in out for x in g] + rest


def run(p, inp):
    src = inp['src']
    items = ref.read(src)
    if items is None:
        raise rt.Skip()
    if p.get('conf'):
        cfg = lib.config(p['conf'], decl, **inp['opts'])
    else:
        cfg = fmtbase.cfg(inp)
    r = lib.process(cfg, src)
    if r is None:
        raise rt.Skip()
    out = ref.read(r[0])
    rt.check(out is not None, lambda: 'output cannot be read: %r' % r[0])
    fmt = inp['opts']['format']
    sort = p['first'] is not None and fmt['autosort'] and fmt.get('enable_sort', True)
    if sort and p.get('tag'):
        ann = [x[1] for x in items if x[0] in ('lc', 'bc')][0].lower()
        word = re.search(r': ?([a-z]+)', ann).group(1)
        if word in ('sort', 'sortable'):
            sort = True
        elif word in ('unsort', 'unsortable'):
            sort = False
        else:
            sort = p.get('default', True)
    want = expected(items, p, sort)
    if p.get('free'):
        # only the set of arguments matters
        rt.check(len(ref.code(want)) == len(ref.code(out)), lambda: 'arguments lost: %r' % r[0])
        return r[0]
    rt.check(ref.same(ref.code(want), ref.code(out)),
             lambda: 'wrong order: %r' % r[0])
    good = [ref.same(ref.with_comments(want), ref.with_comments(out))]
    if sort and p.get('stay'):
        good.append(ref.same(ref.with_comments(expected(items, p, sort, p['stay'])),
                             ref.with_comments(out)))
    rt.check(rt.disj(good),
             lambda: 'comments detached: %r' % r[0])
    return r[0]
