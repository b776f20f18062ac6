# -*- coding: utf-8 -*-
"""C30: the checks of words report exactly the misspelt variables, incomplete
references, hidden or unknown forms and missing keywords."""
from cmakelang.lint import __main__ as lint_main
from harness import lib, vfs
from harness.c19 import parse
from harness.c23 import commands, words
from harness.corpus import task
from symex import rt

FUNCTIONS = ['lint.basic_checker.LintChecker.check_varname',
             'lint.basic_checker.LintChecker.check_variable_assignments',
             'lint.basic_checker.LintChecker.check_variable_references',
             'lint.basic_checker.LintChecker.check_tokens', 'lint.basic_checker.mock_varrefs',
             'lint.basic_checker.find_statements_in_subtree',
             'parse.argument_nodes.StandardArgTree.check_required_kwargs',
             'parse.funs.add_xxx.parse_add_custom_command', 'parse.funs.list.parse_list',
             'parse.funs.file.parse_file', 'parse.funs.miscellaneous.parse_build_command']
BOUNDS = ('one file per run; up to four commands; names of up to 22 letters in unknown case, '
          'surrounding text, escapes, brackets and nesting unknown')
ASSUMPTIONS = ['names that match a built-in name with a variable part (<LANG>, <CONFIG>, '
               '<PROJECT-NAME>) are outside, as are references inside references and text in '
               'bracket arguments']
BUDGET = {'quick': 60.0, 'thorough': 500.0}
#: built-in variables without a variable part in their name
STATIC = ['UNIX', 'APPLE', 'WIN32', 'MSVC', 'XCODE', 'PROJECT_NAME', 'BUILD_SHARED_LIBS',
          'CMAKE_MODULE_PATH', 'CMAKE_BUILD_TYPE', 'CMAKE_CURRENT_LIST_DIR', 'EXECUTABLE_OUTPUT_PATH',
          'CMAKE_COMMAND', 'CMAKE_GENERATOR', 'LIBRARY_OUTPUT_PATH']
FORMS = {'list': 'LENGTH GET APPEND JOIN SORT REVERSE TRANSFORM FILTER INSERT'.split(),
         'file': 'READ WRITE GLOB COPY MD5 DOWNLOAD LOCK STRINGS'.split(),
         'add_custom_command': ['OUTPUT', 'TARGET']}
ALL = 'W0105 W0106 C0113 E1125 E1126 C0114 W0104'.split()


def tasks(tier):
    T = []

    def add(name, tpl, codes='', **kw):
        d = task(name, tpl, {}, **kw)
        d['params']['codes'] = codes.split() or ALL
        T.append(d)
    NM = '‹p9:UNIX|unix|Unix|uniX|apple_pie|apple|xunix|unixy|Msvc|CMAKE_module_PATH|' \
        'cmake_current_list_dir|cmake_current_list_dirs|foo›'
    for n, a, b in (('', '', ''), ('f', 'function(f)\n', 'endfunction()\n'),
                    ('i', 'if(a)\nforeach(b c)\n', 'endforeach()\nendif()\n'),
                    ('e', 'if(a)\nelseif(d)\n', 'else()\nset(win32 b)\nendif()\n')):
        add('set' + n, a + '‹p1:set|SET|set|unset›(‹p2:|# unix\n|#[[unix]] |\n›' + NM +
            ' ‹p3:unix|›)\n' + b, 'W0105')
        add('list' + n, a + 'list(‹p1:APPEND|append›‹p2:|#unix\n› ' + NM + ' b)\n' + b, 'W0105')
    for k in ('UNIX', 'APPLE', 'WIN32', 'XCODE', 'CMAKE_COMMAND', 'BUILD_SHARED_LIBS'):
        add('case' + k, 'set(‹k1~%s› a)\nfoo(‹p1:|"›${‹k2~%s›}‹p1:|"›)\n' % (k, k), 'W0105')
    add('fix', 'set(‹p1:|x|_|CMAKE_›‹k1~unix›‹p2:|y|_|32› a)\n', 'W0105')
    for n, l, r in (('q', '"', '"'), ('u', '', ''), ('b', '[[', ']]')):
        add('ref' + n, 'foo(' + l + '‹p1:|a|/|\\|\\\\|\\\\\\|${a}|$|;›${' + NM + '}‹p2:|a|/c|${a}|${unix}|\\${unix}|\\\\${unix}›' +
            r + ')\n', 'W0105')
    add('ref2', 'if("${‹k1~APPLE›}" STREQUAL ${‹k2~UNIX›})\nfoo(a # ${unix}\n #[[${unix}]] ${UNIX})\n'
        'endif() # ${unix}\n', 'W0105')
    add('ref3', 'foo((a ${unix}) "x\n${Apple}")\nfoo(AND NOT ‹p1:unix|$unix|{unix}|$ENV{unix}|$ENV{${unix}}|@unix@|${unix|$<unix>›)\n',
        'W0105')
    V = '‹p8:UNIX|unix|foo|MSVC|CMAKE_MODULE_PATH›'
    P = '‹p1:$|{|${|\\$|\\{|\\${|\\\\$|\\\\{|\\\\\\$|$ENV{|$CACHE{|@|$<|$$|›'
    for n, l, r in (('q', '"', '"'), ('u', '', '')):
        add('open' + n, 'foo(' + l + ('‹p3:|a|a/|${a}|\n|a\nb ›' if n == 'q' else '‹p3:|a|a/|${a}›') + P + V + '‹p2:|}|/x|.c|}/${UNIX}| ›' + r + ')\n', 'W0106')
        add('two' + n, 'foo(' + l + '‹p1:${foo}|${UNIX}|{foo}|$foo|$ENV{foo}|$ENV{UNIX}|\\$UNIX|\\{foo›/‹p2:$UNIX|{UNIX}|'
            '${UNIX|${UNIX}|\\$UNIX|unix|$ENV{UNIX}›' + r + ')\n', 'W0106')
    add('openc', 'foo(a # $UNIX\n #[[${UNIX]] ‹p1:UNIX|$UNIX|"${UNIX"›)# $UNIX\n# ${UNIX\nset(‹p2:$UNIX|UNIX|{UNIX}› c)\n',
        'W0106')
    # forms
    for c in ('list', 'file', 'add_custom_command'):
        add('form-' + c, c + '(‹p2:|# APPEND\n|\n›‹p1:' + '|'.join(FORMS[c]) + '|' + FORMS[c][0].lower() +
            '|' + FORMS[c][-1].title() + '|BOGUS|' + FORMS[c][0] + 'X|${A}|› ‹p3:a b c d|a›)\n', 'E1126 C0114')
    add('build', '‹p3:build_command|BUILD_COMMAND›(a‹p1:| |\n|# make\n› ‹p2:make|${make}|TARGET x|target x|'
        'CONFIGURATION a|›)\n', 'W0104')
    # required keywords
    KC = '‹p%d:|COMMENT "a"|comment a|"COMMENT"|# COMMENT a\n›'
    KM = '‹p%d:|COMMAND a|command a "b"|"COMMAND"|# COMMAND\n›'
    for n, head in (('o', 'OUTPUT a'), ('t', 'TARGET a ‹p7:PRE_BUILD|POST_BUILD›')):
        add('keys' + n, 'add_custom_command(‹p6:|# b\n›' + head + ' ' + KM % 1 + ' ' + KC % 2 +
            ' ‹p3:|VERBATIM|WORKING_DIRECTORY b› ' + KM % 4 + ')\n', 'C0113 E1125')
    add('target', 'add_custom_target(‹p6:|# b\n›a ‹p5:|ALL|ALL b› ' + KM % 1 + ' ' + KC % 2 +
        ' ‹p3:|VERBATIM|DEPENDS b› ' + KC % 4 + ')\n', 'C0113 E1125')
    add('targets', 'add_custom_target(a ' + KC % 1 + ')\nadd_custom_target(b ' + KC % 2 + ')\nif(a)\n'
        'add_custom_command(OUTPUT c ' + KC % 3 + ' COMMAND b)\nendif()\n', 'C0113 E1125')
    return T


def inputs(S, p):
    return {'src': lib.build(S, p['parts'])}


def warm():
    fs = vfs.VFS()
    fs.add('/v/a', 'set(unix $UNIX)\n')
    vfs.run_main(lint_main.main, ['/v/a'], fs)


def wordchar(c):
    return c == '_' or 'a' <= c <= 'z' or 'A' <= c <= 'Z' or '0' <= c <= '9'


def run_of(t, i):
    j = i
    while j < len(t) and wordchar(t[j]):
        j += 1
    return t[i:j], j


def references(t):
    """-> (names of complete references, kinds of incomplete ones)"""
    names, bad = [], []
    i = 0
    n = len(t)
    while i < n:
        c = t[i]
        if c == '\\':
            if t[i + 1:i + 3] == '${':
                # the brace belongs to the escaped dollar sign
                i += 1
            i += 2
            continue
        if c == '$' or c == '{':
            two = t[i:i + 2]
            if two == '${':
                name, j = run_of(t, i + 2)
                if t[j:j + 1] == '}':
                    if name:
                        names.append(name)
                    i = j + 1
                    continue
                if name in STATIC:
                    bad.append('closing')
                i = j
                continue
            skip = [k for k in ('$ENV{', '$CACHE{') if t[i:i + len(k)] == k]
            if skip:
                i += len(skip[0])
                continue
            name, j = run_of(t, i + 1)
            if name in STATIC:
                bad.append('open')
            i = max(j, i + 1)
            continue
        i += 1
    return names, bad


def misspelt(name):
    return name not in STATIC and name.upper() in STATIC


def expect(src):
    """-> [(code, line or None, (texts in the message))]"""
    want = []
    got = commands(src)
    rt.assume(got is not None)
    for c in got[0]:
        args = words(c)
        texts = [rt.conc(a[0]) for a in args]
        at = 0 if c.name == 'set' else \
            1 if c.name == 'list' and texts and texts[0].upper() == 'APPEND' else None
        if at is not None and len(args) > at and args[at][1] == 'un' and misspelt(texts[at]):
            want.append(('W0105', args[at][2], ['Assignment', texts[at]]))
        for a, t in zip(args, texts):
            if a[1] not in ('un', 'q'):
                continue
            names, bad = references(t)
            for name in names:
                if misspelt(name):
                    want.append(('W0105', a[2], ['Reference', name]))
            if bad:
                want.append(('W0106', a[2], bad[:1] if len(set(bad)) == 1 else []))
        if c.name in FORMS and args and args[0][1] == 'un':
            if texts[0][:2] == '${':
                want.append(('C0114', args[0][2], []))
            elif texts[0].upper() not in FORMS[c.name]:
                want.append(('E1126', args[0][2], []))
        if c.name == 'build_command' and len(args) > 1 and \
                texts[1].upper() not in ('TARGET', 'CONFIGURATION', 'PROJECT_NAME'):
            want.append(('W0104', None, []))
        need = {'add_custom_command': [('COMMAND', 'E1125'), ('COMMENT', 'C0113')],
                'add_custom_target': [('COMMENT', 'C0113')]}.get(c.name, [])
        for k, code in need:
            if args and k not in [t.upper() for t in texts]:
                want.append((code, args[0][2], [k]))
    return want


def run(p, inp):
    src = inp['src']
    fs = vfs.VFS('/v')
    fs.add('/v/d/f', src)
    if lib.process(lib.config('c30'), src) is None:
        raise rt.Skip()
    want = [w for w in expect(src) if w[0] in p['codes']]
    status, exc = vfs.run_main(lint_main.main, ['/v/d/f', '--suppress-decorations'], fs)
    rt.check(status in (0, 1), lambda: 'exit status %r (%r)' % (status, exc))
    out = ''.join([t for t, _ in fs.stdout])
    recs, _, _ = parse(out, ['/v/d/f'])
    got = [(r[3], r[1], rt.conc(r[4])) for r in recs if r[3] in p['codes']]
    left = list(got)
    for w in want:
        for g in left:
            if g[0] == w[0] and w[1] in (None, g[1]) and not [x for x in w[2] if x not in g[2]]:
                left.remove(g)
                break
        else:
            rt.check(False, lambda: 'not reported: %r (reported %r)' % (w, got))
    rt.check(not left, lambda: 'reported without cause: %r (expected %r)' % (left, want))
    return [status, got]
