# -*- coding: utf-8 -*-
"""C24: every well-formed listfile is accepted by the formatter and the linter."""
import json
import re
import signal

from cmakelang import configuration, lex
from cmakelang.format import __main__ as fmt_main
from cmakelang.lint import __main__ as lint_main
from cmakelang.lint import lint_util
from harness import lib, ref, corpus, templates, c11
from harness.c22 import fill
from harness.corpus import task
from symex import rt

FUNCTIONS = ['format.__main__.process_file', 'lint.__main__.process_file', 'lex.*', 'parse.*',
             'parse.funs.*', 'format.formatter.*', 'lint.basic_checker.*', 'markup.*']
BOUNDS = ''
ASSUMPTIONS = [
    'well-formed is decided by an independent reading of the grammar in cmake-language(7): '
    'a line holds one command, arguments are separated, blocks are closed in order',
    'make-style references $(..), escapes other than those CMake knows, unquoted arguments '
    'beginning like a bracket and arguments not separated are outside',
    'parentheses in the arguments of add_library and add_executable and in lists of '
    'properties are refused on purpose by the tool and outside; so are off/on switches that cut a statement or a block']
BUDGET = {'quick': 150.0, 'thorough': 840.0}
SECONDS = 20.0
OPEN = ('if', 'while', 'foreach', 'function', 'macro')
BAD_UN = re.compile(r'\[=*\[')
OPENB = re.compile(r'#\[=*\[')
UNWORD = re.compile(r'(?:[^"\\]|\\[^A-Za-z0-9]|\\[trn]|"(?:[^"\\]|\\.)*")*\Z')
#: commands whose arguments, or some of them, must not be parenthesised
NOPAREN = ('add_library', 'add_executable', 'set_target_properties',
           'set_source_files_properties', 'add_custom_command')
SWITCH = re.compile(r'#\s*(?:cmake-format|cmf):\s*(off|on)\s*\Z')
NAME = re.compile(r'[A-Za-z_][A-Za-z0-9_]*\Z')


def keywords():
    """command -> keywords, from the forms of C11"""
    out = {}
    for line in c11.FORMS.strip().split('\n'):
        for m in re.finditer(r'([a-z_]+)\(((?:[^()]|\([^()]*\))*)\)', line.replace('~', ' ')):
            kw = out.setdefault(m.group(1), [])
            for w in re.findall(r'\b[A-Z][A-Z_0-9]+\b', m.group(2)):
                if w not in kw:
                    kw.append(w)
    return out


MORE = {
    'foreach': ['RANGE', 'IN', 'LISTS', 'ITEMS'], 'build_command': ['TARGET', 'CONFIGURATION'],
    'set': ['CACHE', 'FORCE', 'PARENT_SCOPE'], 'cmake_policy': ['SET', 'PUSH', 'VERSION', 'GET'],
    'set_property': ['TARGET', 'APPEND', 'PROPERTY', 'GLOBAL'],
    'get_property': ['TARGET', 'PROPERTY', 'GLOBAL', 'DEFINED'],
    'add_custom_target': ['ALL', 'COMMAND', 'COMMENT', 'DEPENDS', 'VERBATIM'],
    'add_custom_command': ['OUTPUT', 'TARGET', 'PRE_BUILD', 'COMMAND', 'ARGS', 'COMMENT'],
    'source_group': ['TREE', 'FILES', 'PREFIX'], 'include_guard': ['GLOBAL'],
    'add_subdirectory': ['EXCLUDE_FROM_ALL'], 'add_dependencies': [], 'add_definitions': [],
    'aux_source_directory': [], 'cmake_host_system_information': ['RESULT', 'QUERY'],
    'create_test_sourcelist': ['EXTRA_INCLUDE', 'FUNCTION'],
    'ctest_build': ['BUILD', 'APPEND'], 'enable_language': ['OPTIONAL'], 'enable_testing': [],
    'find_file': ['NAMES', 'PATHS', 'HINTS'], 'find_library': ['NAMES', 'DOC'], 'find_path': [],
    'find_program': ['NAMES', 'NO_DEFAULT_PATH'], 'get_directory_property': ['DIRECTORY'],
    'get_target_property': [], 'include_directories': ['SYSTEM', 'BEFORE'],
    'link_libraries': ['debug'], 'mark_as_advanced': ['CLEAR'], 'return': [],
    'set_source_files_properties': ['PROPERTIES'], 'target_include_directories':
    ['SYSTEM', 'PUBLIC', 'PRIVATE'], 'target_link_options': ['PRIVATE'], 'target_compile_options':
    ['BEFORE', 'PUBLIC'], 'else': [], 'elseif': ['AND', 'NOT'],
    'if': ['NOT', 'AND', 'OR', 'STREQUAL'], 'while': ['NOT', 'AND', 'MATCHES'],
    'externalproject_add_steptargets': ['NO_DEPENDS'], 'cmake_parse_arguments': ['PARSE_ARGV'],
    'list': ['LENGTH', 'GET', 'APPEND', 'FILTER', 'SORT', 'TRANSFORM', 'REPLACE'],
    'string': ['REGEX', 'MATCH', 'REPLACE', 'FIND', 'LENGTH', 'SUBSTRING', 'TIMESTAMP', 'COMPARE'],
    'file': ['READ', 'STRINGS', 'GENERATE', 'GLOB', 'COPY', 'DOWNLOAD', 'LOCK', 'CREATE_LINK'],
    'install': ['TARGETS', 'FILES', 'DIRECTORY', 'DESTINATION', 'EXPORT', 'SCRIPT', 'RUNTIME'],
    'export': ['TARGETS', 'FILE', 'EXPORT', 'PACKAGE'], 'project': ['VERSION', 'LANGUAGES'],
    'add_library': ['SHARED', 'OBJECT', 'ALIAS', 'INTERFACE', 'IMPORTED', 'GLOBAL'],
    'add_executable': ['WIN32', 'ALIAS', 'IMPORTED', 'GLOBAL']}
SLOT = ['', 'a', '# c\n', '(b)', '"AND"', '${x}', '# cmake-format: sort\n']


def tasks(tier):
    T = []
    q = tier == 'quick'
    for t in templates.chars(tier):
        t['params']['lint'] = True
        T.append(t)
    for t in c11.tasks(tier):
        n = t['name']
        t['params']['lint'] = True
        if q and n in ('P.free2', 'P.names', 'P.free', 'P.escape', 'P.blocks', 'P.nestblocks',
                       'P.onoff2', 'P.onoff3', 'P.bracket'):
            continue
        T.append(t)
    for t in templates.layout(tier):
        t['params']['lint'] = False
        T.append(t)

    def add(name, tpl, opts=None, lint=True, decl=None, **kw):
        d = task(name, tpl, opts or {}, **kw)
        d['params'].update(lint=lint, decl=decl)
        T.append(d)
    kws = keywords()
    for k, v in MORE.items():
        kws[k] = v + [w for w in kws.get(k, []) if w not in v]
    for name in sorted(kws):
        slots = SLOT + kws[name]
        if name in NOPAREN:
            slots = [s for s in slots if s != '(b)']
        pre, post = '', ''
        if name in OPEN:
            post = 'end%s()\n' % name
        if name in ('else', 'elseif'):
            pre, post = 'if(a)\n', 'endif()\n'
        ns = 2 if q else 3
        holes = ['‹p%d:%s›' % (i, '|'.join(slots[:14] if i == 0 else slots[:10] if q else slots[:14]))
                 for i in range(ns)]
        add('K.' + name, pre + name + '(' + ' '.join(holes) + ')\n' + post)
        if kws[name]:
            kk = '|'.join(kws[name][:8])
            add('S.' + name, pre + name + '(‹p0:a|a b|› ‹p1:' + kk + '› ‹p2:c|c d|c d e|›'
                ' ‹p3:|' + kk + '›)\n' + post)
        if kws[name] and not q:
            add('K2.' + name, pre + name + '(‹p0:a|%s› ' % kws[name][0] +
                ' '.join('‹p%d:%s›' % (i, '|'.join(SLOT[:3] + kws[name][:7])) for i in (1, 2, 3)) +
                ')\n' + post)
    # declared commands of every shape
    P = ['$pick', 'p', [0, 1, 2, '?', '*', '+', '2', '2+']]
    W = ' '.join('‹p%d:|a|AA|Fl|(b)|# c\n' % i + ('›' if q else '|"AA"›')
                 for i in range(3 if q else 4))
    W2 = ' '.join('‹p%d:|a|AA|Fl|(b)|# c\n|"AA"›' % i for i in range(2))
    add('decl', 'foo(' + (W2 + ' ‹p3:|AA|fl c›' if q else W) + ')\n', decl={'foo': {'pargs': P, 'flags': ['FL'], 'kwargs': {
        'AA': ['$pick', 'r', [0, 1, '+'] if q else [0, 1, '?', '+']]}}})
    add('decl2', 'foo(' + W + ')\n', decl={'foo': {'pargs': ['?', {'nargs': P, 'flags': ['FL']}, 1],
                                                  'kwargs': {'AA': {'pargs': P, 'flags': ['FL']}}}})
    add('decl3', 'foo(' + (W2 if q else W) + ')\n', decl={'foo': {'pargs': {
        'nargs': ['$pick', 'p', [1, '+', '2']] if q else P, 'sortable': True}, 'kwargs': {'AA': {
            'kwargs': {'FL': ['$pick', 'r', [0, 1, '+']]}}}}},
        opts={'markup.enable_markup': 'b', 'format.line_width': ('i', 4, 20)})
    # what a file may hold around its commands
    B = '‹p%d:|\n| |# c\n|#[[c]]\n| #[[c]] # d\n|# cmake-format: off\n|# cmake-format: on\n|#\n›'
    add('around', B % 1 + B % 2 + 'foo()' + '‹p3:\n| # c\n|#[[c]]\n|\n\n\n|›' + B % 4)
    add('around2', 'if(a)' + '‹p3:\n| # c\n|#[[c]]\n|# cmake-format: off\n›' + B % 1 + B % 2 +
        'endif()\n')
    add('jumps', '‹p1:if(a)\n|foreach(a b)\n|function(f)\n|macro(f)\n|while(a)\n›‹p2:return()|break()|'
        'continue()|return(a)|break( # c\n)|foo()›\n‹p3:|\n\n|# c\n|#[[c]]\n›'
        '‹p4:|foo()\n|if(b)\nendif()\n›'
        'end‹p1:if()|foreach()|function()|macro()|while()›\n')
    add('defs', '‹p6:|# c\n' + ('' if q else '|#\n|#[[c]]\n|foo()\n') + '›‹p7:function|macro›(‹p1:|f|"f"|${f}|# c\nf› ‹p2:|a|A|"a"|${a}|a-b|# c\n›'
        ' ‹p3:|a|# c\n|(b)›)\n‹p4:|foreach(a ${ARGN})\nif(a STREQUAL b)\nendif()\nendforeach()\n|'
        'while(ARGN)\nif()\nendif()\nendwhile()\n›end‹p7:function|macro›(‹p8:|f|f g›)\n')
    BL = '‹p1:if|foreach|while|function|macro|IF|Foreach|WHILE›'
    add('blocks', BL + '‹p6:| |  ›(a b)‹p7: # c|›\n‹p2:else()\n|elseif(b)\n|bar()\n|'
        'foreach(c)\nENDFOREACH(d)\n|›END' + BL + '(‹p3:|a|# c\n|(a)|"a" b›)‹p4:\n|#c|›')
    add('nested', BL + '(a b)\n' + BL.replace('p1', 'p2') + '(c)\n‹p4:|bar()\n|# c\n›end' +
        BL.replace('p1', 'p2') + '()\n‹p3:|bar()\n|else()\n›END' + BL + '()\n')
    add('vars', '‹p1:set|list|SET|unset›(‹p2:|APPEND|get|"a"|CACHE|[[a]]|#[[c]]› ‹p3:|cmake_build_type|CMAKE_Build_type|${a}|'
        '"${a}"|${${a}}|# c\n› ‹p4:|CACHE|CACHE STRING|PARENT_SCOPE|CACHE STRING "d" FORCE|CACHE INTERNAL|CACHE x y z u v›)\n')
    add('pragmas', '# cmake-lint:‹p1:| disable=C0103| disable|=| disable=,| foo=a b=| =›\nfoo(a '
        '‹p2:#|# cmake-lint: disable=X| # cmake-lint:|#[[ cmake-lint: disable=a]]|# cmake-format:|# cmf: sort, tag›\n)\n')
    return T


def inputs(S, p):
    decl = p.get('decl')
    if decl:
        decl = fill(S, decl)
    return {'src': lib.build(S, p['parts']), 'opts': corpus.make_opts(S, p['opts']), 'decl': decl}


def show(p, inp):
    return [inp['src'], inp['opts'], inp['decl']]


def wellformed(text):
    """True only if the text certainly is a listfile"""
    if text[:1] == '\ufeff':
        text = text[1:]
    if '$(' in text or '\ufeff' in text or '\r' in text.replace('\r\n', ''):
        return False
    depth = 0
    stack = []
    fresh = True            # nothing but blanks on this line (file level)
    sep = True              # separated from the previous argument
    last = None
    name = None
    switch = None
    toks = ref.lex(text)
    n = len(toks)
    i = 0
    while i < n:
        k, t = toks[i]
        i += 1
        if k == 'bad':
            return False
        if k == 'ws':
            sep = True
            continue
        if k == 'nl':
            sep = fresh = True
            continue
        if k == 'bc':
            if depth == 0:
                fresh = False
            continue
        if k == 'lc':
            if OPENB.match(t):
                return False
            m = SWITCH.match(t)
            if m:
                state = (depth, list(stack))
                if m.group(1) == 'off':
                    switch = state
                else:
                    if switch is not None and switch != state:
                        return False
                    switch = None
            sep = True
            continue
        if depth == 0:
            if k != 'un' or not fresh or not NAME.match(t):
                return False
            while i < n and toks[i][0] == 'ws':
                i += 1
            if i >= n or toks[i][0] != 'lp':
                return False
            i += 1
            depth = 1
            sep = True
            fresh = False
            name = t.lower()
            for b in OPEN:
                if name == b:
                    stack.append(b)
                    break
                if name == 'end' + b:
                    if not stack or stack[-1] not in ((b, 'else') if b == 'if' else (b,)):
                        return False
                    stack.pop()
                    break
            else:
                if name == 'else' or name == 'elseif':
                    if not stack or stack[-1] != 'if':
                        return False
                    if name == 'else':
                        stack[-1] = 'else'
            continue
        if k == 'lp':
            for b in NOPAREN:
                if name == b:
                    return False
            depth += 1
            sep = True
            last = 'lp'
        elif k == 'rp':
            depth -= 1
            sep = False
            last = 'rp'
        else:
            if not sep:
                return False
            if k == 'un' and (BAD_UN.match(t) or not UNWORD.match(t)):
                return False
            sep = False
            last = k
    if switch is not None and switch != (0, []):
        return False
    return depth == 0 and not stack


_CFG = {}


def warm():
    lib.config()


def config(inp):
    opts = inp['opts']
    decl = inp['decl']
    if not decl:
        return lib.config(**opts)
    args = {'additional_commands': json.loads(json.dumps(decl))}
    for sec in opts.values():
        args.update(sec)
    return configuration.Configuration(**args)


def _alarm(signum, frame):
    raise rt.Bad('the tool does not come to an end')


def attempt(f):
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, SECONDS)
    try:
        f()
    except Exception as e:  # pylint: disable=broad-except
        if isinstance(e, (rt.Bad, rt.Skip)) or type(e).__module__.startswith('symex'):
            raise
        return '%s: %s' % (type(e).__name__, str(e)[:100])
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    return None


def run(p, inp):
    src = inp['src']
    cfg = config(inp)
    out = []
    err = attempt(lambda: out.append(fmt_main.process_file(cfg, src)))
    rt.check(err is None or not wellformed(src),
             lambda: 'formatter refuses a well-formed file: %s' % err)
    if p['lint']:
        ctx = lint_util.GlobalContext(None).get_file_ctx('CMakeLists.txt', cfg)
        err2 = attempt(lambda: lint_main.process_file(cfg, ctx, src))
        rt.check(err2 is None or not wellformed(src),
                 lambda: 'linter refuses a well-formed file: %s' % err2)
        if err2 is None:
            lines = src.count('\n') + 1
            for r in ctx.get_lint():
                rt.check(bool(r.location) and 1 <= r.location[0] <= lines,
                         lambda: 'finding %s at %r in a file of %d lines' % (
                             r.spec.idstr, r.location, lines))
    return err is None
