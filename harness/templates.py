# -*- coding: utf-8 -*-
"""Listfile templates for the formatting properties.

layout(): few words of unknown length under an unknown line width, one
template per syntactic situation; deep(): the same with more unknown words
(thorough tier); chars(): unknown characters."""
from harness.corpus import task

LW = {'format.line_width': ('i', 20, 100)}
W40 = {'format.line_width': 40}
DANGLE = {'format.dangle_parens': 'b',
          'format.dangle_align': ['prefix', 'prefix-indent', 'child']}


def layout(tier):
    T = []
    quick = tier == 'quick'

    def add(name, tpl, opts=None, base=LW, **kw):
        o = dict(base)
        o.update(opts or {})
        T.append(task('L.' + name, tpl, o, **kw))
    # --- plain statements
    add('call', 'foo(‹Z› ‹J› ‹Q›)\n')
    add('callopts', 'foo(‹Z› ‹J›)\n', dict(DANGLE, **{
        'format.tab_size': ('i', 1, 8),
        'format.separate_fn_name_with_space': 'b'}))
    add('hwrap', 'foo(‹Z› b ‹J› e)\n', {
        'format.max_pargs_hwrap': ('i', 0, 5),
        'format.max_lines_hwrap': ('i', 0, 4)})
    add('prefix', 'a_rather_long_name(‹Z› ‹J›)\n', {
        'format.min_prefix_chars': ('i', 0, 24),
        'format.max_prefix_chars': ('i', 0, 24)}, base=W40)
    add('alwayswrap', 'foo(‹Z› ‹J›)\n', {'format.always_wrap': [['foo']]})
    add('alwayswrap2', 'foo(‹Z› HEADERS ‹J› q SOURCES b)\n', {
        'format.always_wrap': [['foo'], ['foo/HEADERS/PargGroupNode[0]']]})
    # --- comments in every position
    add('trail', 'foo(‹Z›) # ‹Y› k\n')
    add('trail2', 'foo(‹Z› ‹J›) # ‹Y› ‹K›\nbar()\n', base=W40)
    add('inner', 'foo(‹Z› # ‹Y› ‹K›\n ‹J›)\n')
    add('lastc', 'foo(‹Z› ‹J› # ‹Y›\n)\n')
    add('firstc', 'foo( # ‹Y›\n ‹Z› ‹J›)\n')
    add('onlyc', 'foo( # ‹Y› ‹K›\n)\nbar(#\n)\n')
    add('ownc', 'foo(‹Z›\n # ‹Y›\n # k\n ‹J›)\nbar(a)\n')
    add('misal', 'foo(\n # ‹Y›\n ‹b:b›# k\n   #< x\n ‹J›)\n', base=W40)
    add('misalk', 'foo(BAR # ‹Y›\n ‹b:b›# k\n HEADERS\n # x\n  # v\n a)\n',
        base=W40)
    add('misalp', 'if(‹Z› AND # ‹Y›\n ‹b:b›# k\n (b # x\n  # v\n))\n'
        'endif()\n', base=W40)
    add('bracketc', 'foo(‹Z› #[[‹Y›]] ‹J›)\n')
    add('bracketc2', 'foo(a #[[‹Y›\n y]] ‹Z›) #[[k]]\n#[[‹K›]]\n')
    add('etrail', 'foo(‹Z›\n #< ‹Y› v\n #< x\n ‹J›)\n')
    add('etmix', 'foo(\n #‹p1:|<› ‹Y›\n #‹p2:|<› k\n ‹J› #‹p3:|<› k\n    #‹p4:|<› v\n)\n', base=W40)
    add('etmixf', '#‹p1:|<› ‹Y› k\n#‹p2:|<› k\nfoo() #‹p3:|<› ‹V› k\n      #‹p4:|<› v\n', base=W40)
    add('nestc', 'foo((‹Z› # ‹Y›\n ‹J›) q)\n')
    add('afterc', 'foo((‹Z›) # ‹Y›\n ‹J›)\n')
    # --- comments at file level
    add('comment', '# ‹Y› ‹V› ‹X›\nfoo(a)\n')
    add('comments', '# ‹Y›\n# ‹V› ‹X›\n\n# ‹K›\n')
    add('bullets', '# * ‹Y› ‹V›\n# * ‹X›\n#   * ‹K›\nfoo(a)\n')
    add('ruler', '###########\n# ‹Y› ‹V›\n# ---------\n# 1. ‹K›\n# 2. x\n')
    add('two', 'foo(‹Z›)\n\n\n# ‹Y›\nbar(a) # k\nbaz()\n')
    # --- statements with their own parsers
    add('set', 'set(‹Z› ‹J› ‹Q›)\n')
    add('setcache', 'set(z ‹J› CACHE STRING "‹Q› k" FORCE)\n')
    add('setcomment', 'set(z\n  # ‹Y›\n  ‹J› # ‹K›\n q\n)\n')
    add('setparent', 'set(‹Z› ‹J› PARENT_SCOPE)\n')
    add('library', 'add_library(z SHARED ‹J› # ‹Y›\n ‹K›)\n', base=W40)
    add('libalias', 'add_library(‹Z› ALIAS ‹J›)\nadd_library(z OBJECT a ‹Q›)\n'
        'add_library(z INTERFACE IMPORTED GLOBAL)\n', base=W40)
    add('executable', 'add_executable(‹Z› WIN32 ‹J›)\n')
    add('custom', 'add_custom_command(OUTPUT z COMMAND ‹J› -a ‹Q›)\n', base=W40)
    add('customc', 'add_custom_command(OUTPUT z COMMAND a # ‹Y›\n'
        ' DEPENDS ‹K›)\n', base=W40)
    add('customt', 'add_custom_target(‹Z› ALL COMMAND j ‹Q›)\n', base=W40)
    add('install', 'install(TARGETS ‹Z› DESTINATION ‹Q›)\n', base=W40)
    add('props', 'set_target_properties(‹Z› PROPERTIES ‹J› q)\n', base=W40)
    add('target', 'target_link_libraries(z PUBLIC ‹J› # ‹Y›\n'
        ' PRIVATE k)\n', base=W40)
    add('listcmd', 'list(APPEND ‹Z› ‹J› # ‹Y›\n q)\n')
    add('stringcmd', 'string(REGEX REPLACE "‹Z›" "j" ‹Q› k)\n', base=W40)
    add('filecmd', 'file(GLOB ‹Z› ‹J›)\n', base=W40)
    add('addtest', 'add_test(NAME z COMMAND ‹J› ‹Q›)\n', base=W40)
    add('kwargs', 'foo(z BAR HEADERS ‹J› SOURCES k # ‹Y›\n)\n', base=W40)
    add('foreach', 'foreach(‹Z› IN LISTS ‹J›)\nendforeach()\n')
    add('while', 'if(a)\nwhile(‹Z› LESS ‹J›)\nbreak()\nendwhile()\nelse()\n'
        'foo(q)\nendif()\n', base=W40)
    add('cond', 'if(‹Z› AND ‹J›)\nendif()\n')
    add('condp', 'if(NOT (‹Z› OR b))\nendif()\n', base=W40)
    add('condc', 'if(‹Z› # ‹Y›\n AND j)\nelse() # k\nendif()\n', base=W40)
    add('function', 'function(‹Z› j)\n# ‹Y›\nmacro(a)\nendmacro()\n'
        'endfunction()\n', {'format.separate_ctrl_name_with_space': 'b'},
        base=W40)
    # --- parentheses and multi-line arguments
    add('nest', 'foo((‹Z› j) ‹Q›)\n')
    add('nest2', 'foo(a ((‹Z›) ‹Q›))\n', base=W40)
    add('multiline', 'foo(‹Z› "‹J›\n‹Q›" k)\n')
    add('bracketarg', 'foo(‹Z› [[‹J›\n q]] k) # ‹Y›\n')
    if not quick:
        T.extend(deep())
    return T


def deep():
    T = []

    def add(name, tpl, opts=None, base=LW, **kw):
        o = dict(base)
        o.update(opts or {})
        T.append(task('D.' + name, tpl, o, **kw))
    add('hwrap', 'foo(‹Z› b c ‹J› e f g)\n', {
        'format.max_pargs_hwrap': ('i', 0, 8), 'format.max_lines_hwrap': ('i', 0, 4)})
    add('trail', 'foo(‹Z› ‹J›) # ‹Y› ‹K›\n', DANGLE)
    add('inner', 'foo(‹Z› # ‹Y› ‹K›\n ‹J›)\n', DANGLE)
    add('ownc', 'foo(‹Z›\n # ‹Y›\n # ‹K›\n ‹J›)\nbar(a)\n', DANGLE)
    add('setcache', 'set(‹Z› ‹J› CACHE STRING "‹Q› k" FORCE)\n')
    add('setcomment', 'set(‹Z›\n  # ‹Y›\n  ‹J› # ‹K›\n ‹Q›\n)\n')
    add('cond', 'if(‹Z› AND (‹J› OR NOT ‹Q›))\n  foo(k)\nendif()\n')
    add('condc', 'if(‹Z› # ‹Y›\n AND ‹J›)\nelseif(‹Q›)\nelse() # ‹K›\nendif()\n')
    add('foreach', 'foreach(‹Z› IN LISTS ‹J› ITEMS ‹Q›)\nwhile(‹K›)\n'
        'set(a ‹K›)\nendwhile()\nendforeach()\n')
    add('function', 'function(‹Z› ‹J›)\n# ‹Y›\nmacro(a ‹Q›)\nendmacro()\n'
        'return()\nendfunction(‹K›)\n')
    add('library', 'add_library(‹Z› SHARED ‹J› ‹Q› # ‹Y›\n ‹K›)\n')
    add('executable', 'add_executable(‹Z› WIN32 ‹J› ‹Q›)\n', DANGLE)
    add('custom', 'add_custom_command(OUTPUT ‹Z› COMMAND ‹J› -a ‹Q› # ‹Y›\n'
        ' DEPENDS ‹K› VERBATIM)\n')
    add('customt', 'add_custom_target(‹Z› ALL COMMAND ‹J› ‹Q› DEPENDS ‹K›)\n')
    add('install', 'install(TARGETS ‹Z› ‹J› RUNTIME DESTINATION ‹Q› '
        'COMPONENT ‹K›)\n')
    add('props', 'set_target_properties(‹Z› PROPERTIES ‹J› ‹Q› ‹K› v)\n')
    add('target', 'target_link_libraries(‹Z› PUBLIC ‹J› ‹Q› # ‹Y›\n'
        ' PRIVATE ‹K›)\n')
    add('listcmd', 'list(APPEND ‹Z› ‹J› # ‹Y›\n ‹Q›)\n', DANGLE)
    add('stringcmd', 'string(REGEX REPLACE "‹Z›" "‹J›" ‹Q› ${‹K›})\n')
    add('filecmd', 'file(GLOB ‹Z› RELATIVE ‹J› ‹Q› ‹K›)\n')
    add('addtest', 'add_test(NAME ‹Z› COMMAND ‹J› ‹Q› WORKING_DIRECTORY ‹K›)\n')
    add('nest', 'foo((‹Z› ‹J›) ‹Q› ((‹K›)))\n')
    add('nestc', 'foo((‹Z› # ‹Y›\n ‹J›) ‹Q›)\n', DANGLE)
    add('kwargs', 'foo(‹Z› BAR HEADERS ‹J› ‹Q› SOURCES ‹K› # ‹Y›\n DEPENDS x)\n')
    add('export', 'export(TARGETS ‹Z› ‹J› NAMESPACE ‹Q› FILE ‹K›)\n')
    add('ext', 'externalproject_add(‹Z› PREFIX ‹J› GIT_TAG ‹Q› CMAKE_ARGS -D ‹K›)\n')
    add('fetch', 'fetchcontent_declare(‹Z› GIT_REPOSITORY ‹J› GIT_TAG ‹Q›)\n')
    add('compdef', 'target_compile_definitions(‹Z› PRIVATE ‹J› "‹Q›" INTERFACE ‹K›)\n')
    add('setprop', 'set_property(TARGET ‹Z› APPEND PROPERTY ‹J› ‹Q›)\n')
    add('exec', 'execute_process(COMMAND ‹Z› ‹J› COMMAND ‹Q› OUTPUT_VARIABLE ‹K›)\n')
    add('find', 'find_package(‹Z› 1.2 REQUIRED COMPONENTS ‹J› ‹Q›)\n')
    add('msg', 'message(STATUS "‹Z›" ‹J›)\n', DANGLE)
    return T


def chars(tier):
    """unknown characters"""
    T = []
    quick = tier == 'quick'

    def add(name, tpl, opts=None, **kw):
        T.append(task('C.' + name, tpl, opts, **kw))
    add('args', 'foo(‹a:a2› ‹b:a›)\n')
    add('free', '‹a:x5›' if not quick else '‹a:x4›')
    add('quoted', 'foo("‹a:S3›" ‹b:n›)\n')
    add('bracket', 'foo([=[‹a:S3›]=] ‹b:n›)\n')
    add('adjacent', 'foo(‹a:x›[[‹b:S2›]]‹c:x›)\n')
    add('comment', '#‹a:c3›\nfoo(a)‹b:b›\n')
    add('ruler', '#‹a:r2›#######‹b:r2›\n# k\nfoo()\n')
    add('ruler2', '# ‹a:r›--‹b:r›=‹c:r›--‹d:r›\nfoo()\n')
    add('trail', 'foo(a)‹b:b›#‹a:c2›\nbar(b)\n')
    add('inner', 'foo(a #‹a:c2›\n‹b:b›b)\n')
    add('own', 'foo(a\n‹b:b›#‹a:c2›\n b)\n')
    add('bracketc', 'foo(a #[[‹a:S2›]]‹b:b› b)\n')
    add('bracketc0', '#[=[‹a:S2›]=]\n‹b:b›foo(a)\n')
    add('deref', 'foo(${‹a:n›}‹b:a› x$ENV{‹c:n›})\n')
    add('escape', 'foo(a\\‹a:S›b "\\‹b:S›")\n')
    add('set', 'set(x ‹a:a2›)\n')
    add('if', 'if(‹a:a2› AND x)\nendif()\n')
    add('nest', 'foo(a (‹a:x3›) b)\n')
    add('strlit', 'foo(-D"‹a:S2›"=‹b:n› c)\n')
    add('multistr', 'foo("a‹a:B2›b\n c‹b:b›\n"‹c:b›d)\n')
    add('crlf', 'foo(a‹p1: |\n|\r\n› "b‹p2: |\n|\r\n›c")‹p3:\n|\r\n›#‹a:c›‹p4:\n|\r\n›',
        {'format.line_ending': ['unix', 'windows', 'auto']})
    # characters inside commands with their own parsers
    for n, t in [
            ('lib', 'add_library(x ‹a:x2› STATIC b)\n'),
            ('lib2', 'add_library(x STATIC‹a:x2›b)\n'),
            ('exe', 'add_executable(x‹a:x2› EXCLUDE_FROM_ALL b)\n'),
            ('foreach', 'foreach(x‹a:x2›RANGE 1‹b:b›2)\nendforeach()\n'),
            ('cmd', 'add_custom_command(OUTPUT a COMMAND‹a:x2›b\n DEPENDS c)\n'),
            ('target', 'add_custom_target(t‹a:x2›COMMAND b c)\n'),
            ('props', 'set_target_properties(t PROPERTIES a‹a:x2›b c)\n'),
            ('install', 'install(FILES a‹a:x2›DESTINATION b)\n'),
            ('file', 'file(WRITE a‹a:x2›b)\n'),
            ('list', 'list(APPEND a‹a:x2›b)\n'),
            ('string', 'string(TOUPPER a‹a:x2›b)\n'),
            ('test', 'add_test(NAME a‹a:x2›COMMAND b c)\n'),
            ('fn', 'foo(a HEADERS‹a:x2›BAR b)\n'),
            ('func', 'function(f‹a:x2›)\nendfunction(‹b:x›)\n')]:
        add('x_' + n, t, group=True)
    return T


def program(tier):
    return layout(tier) + chars(tier)


def commented(tier):
    return [t for t in layout(tier) + chars(tier) if '#' in t['bounds']]


TAB = dict(W40, **{'format.use_tabchars': True, 'format.tab_size': ('i', 1, 8)})
ROUND = {'format.fractional_tab_policy': ['use-space', 'round-up']}


def tabbed(tier):
    T = []

    def add(name, tpl, opts=None, **kw):
        kw.setdefault('hi', 24)
        T.append(task('T.' + name, tpl, dict(TAB, **(opts or {})), **kw))
    add('trail', 'foo(‹Z›) # ‹Y› k\n')
    add('trail2', 'if(a)\nfoo(‹Z›) # ‹Y› k k\n# x\nendif()\n')
    add('inner', 'if(a)\nfoo(‹Z› # ‹Y› k\n ‹J›)\nendif()\n')
    add('lastc', 'while(a)\nfoo(‹Z› ‹J› # ‹Y› k\n)\nendwhile()\n', DANGLE)
    add('own', 'if(a)\nfoo(‹Z›\n# ‹Y› k\n ‹J›)\nendif()\n', ROUND)
    add('kwargs', 'if(a)\nfoo(‹Z› HEADERS a # ‹Y› k\n SOURCES b)\nendif()\n')
    add('keyc', 'foo(HEADERS a\n# ‹Y› k\n)\n')
    add('keyc2', 'if(a)\nadd_custom_target(x COMMAND b\n  # ‹Y› k\n DEPENDS c # ‹K› k\n)\nendif()\n')
    add('string', 'if(a)\nfoo("a\n\tb" # ‹Y› k\n ‹J›)\nendif()\n')
    add('string2', 'foo("a\tb" ‹Z›) # ‹Y› k\n')
    add('block', 'if(a)\n# * ‹Y› k\n#   * ‹K› k\nfoo()\n# ‹Q›\nendif()\n', ROUND)
    add('nest', 'if(a)\nfoo((‹Z› # ‹Y› k\n ‹J›) q)\nendif()\n')
    if tier != 'quick':
        for t in layout('quick'):
            if t['name'].startswith('L.misal'):
                continue
            o = dict(t['params']['opts'])
            for k, v in TAB.items():
                o.setdefault(k, v)
            T.append({'name': 'T' + t['name'], 'params': dict(t['params'], opts=o),
                      'bounds': t['bounds'] + '; tabs'})
    return T


def idempotent(tier):
    return tabbed(tier) + [t for t in layout(tier) + chars(tier)
            if not t['name'].startswith('L.misal')] + [
        # recorded findings K01, K02, K07
        task('K.roundup', 'while(a)\nfoo(‹Z› ‹J› # ‹Y› k\n)\nendwhile()\n', dict(
            TAB, **{'format.fractional_tab_policy': 'round-up'}), hi=20),
        task('K.misaligned', '# ‹Y›\n # z\nfoo()\n', W40,
             misaligned=True),
        task('K.owncomment', 'foreach(‹Z›\n# ‹Y›\n2)\nendforeach()\n', W40,
             owncomment=True)]


def fitting(tier):
    return layout(tier)
