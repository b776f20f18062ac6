# -*- coding: utf-8 -*-
"""C11: parsing accounts for every token once; malformed files are refused."""
import re
import signal

from cmakelang import lex
from cmakelang import parse
from harness import lib, ref, corpus, fmtbase, templates
from harness.corpus import task
from harness.fmtbase import inputs, show
from symex import rt

FUNCTIONS = ['lex.*', 'parse.*', 'parse.funs.*']
BOUNDS = ''
ASSUMPTIONS = [
    'accepted = parse() returns; any exception counts as a refusal',
    'a command name and its argument list may be separated by blanks and line '
    'breaks; several commands on one line are left open']
BUDGET = {'quick': 120.0, 'thorough': 840.0}
SECONDS = 20.0
IDENT = re.compile(r'[A-Za-z_][A-Za-z0-9_]*\Z')
ATWORD = re.compile(r'@[^\s@]+@\Z')
BLOCKS = ('if', 'foreach', 'while', 'function', 'macro')

# one line per command form that has its own parser
FORMS = '''
add_custom_command(OUTPUT a~COMMAND b~DEPENDS c VERBATIM)
add_custom_command(TARGET a POST_BUILD~COMMAND b c~COMMENT "d")
add_custom_target(a ALL~COMMAND b~DEPENDS c)
add_custom_target(a~b c)
add_executable(a WIN32~b c)
add_executable(a IMPORTED~GLOBAL)
add_executable(a ALIAS~b)
add_executable(${a}~b)
add_library(a SHARED~b c)
add_library(a OBJECT~b c)
add_library(a INTERFACE~IMPORTED GLOBAL)
add_library(a SHARED IMPORTED~GLOBAL)
add_library(a ALIAS~b)
add_library(a EXCLUDE_FROM_ALL~b)
add_library(${a} ${b}~c)
add_test(NAME a~COMMAND b c~WORKING_DIRECTORY d)
add_test(a~b c)
break(~)
continue(~)
configure_file(a~b @ONLY)
define_property(GLOBAL PROPERTY~a BRIEF_DOCS b FULL_DOCS c)
execute_process(COMMAND a~b COMMAND c~OUTPUT_VARIABLE d)
export(TARGETS a~FILE b)
export(EXPORT a~NAMESPACE b)
export(PACKAGE~a)
exec_program(a ARGS~b OUTPUT_VARIABLE c)
externalproject_add(a~PREFIX b CMAKE_ARGS -D~c)
externalproject_add_step(a b~COMMAND c)
fetchcontent_declare(a~GIT_REPOSITORY b)
fetchcontent_populate(a~QUIET SUBBUILD_DIR b)
file(READ a~b OFFSET c)
file(STRINGS a~b REGEX c)
file(MD5 a~b)
file(WRITE a~b c)
file(APPEND a~b c)
file(GENERATE OUTPUT a~CONTENT b)
file(GLOB a~RELATIVE b c)
file(COPY a~DESTINATION b)
file(RENAME a~b)
file(DOWNLOAD a~b TIMEOUT c)
file(UPLOAD a~b)
file(LOCK a~GUARD FILE)
file(REMOVE a~b)
file(MAKE_DIRECTORY a~b)
file(SIZE a~b)
file(READ_SYMLINK a~b)
file(CREATE_LINK a~b SYMBOLIC)
file(RELATIVE_PATH a~b c)
file(TO_CMAKE_PATH a~b)
file(TIMESTAMP a~b UTC)
find_package(a 1.2~REQUIRED COMPONENTS b)
foreach(a RANGE~1 2)~endforeach(~)
foreach(a IN LISTS~b ITEMS c)~endforeach()
foreach(a~b c)~endforeach(a)
gtest_discover_tests(a~EXTRA_ARGS b)
if(a AND~NOT (b~OR c))~elseif(d)~else()~endif(a)
if(a STREQUAL~"b")~endif()
while(a~LESS b)~endwhile()
function(a~b)~endfunction()
macro(a~b)~endmacro()
include(a~OPTIONAL)
include_guard(~)
install(TARGETS a~RUNTIME DESTINATION b COMPONENT c)
install(FILES a~DESTINATION b)
install(PROGRAMS a~TYPE BIN)
install(DIRECTORY a~DESTINATION b PATTERN c~EXCLUDE)
install(SCRIPT~a)
install(CODE~"a")
install(EXPORT a~DESTINATION b)
list(APPEND a~b c)
list(GET a~0 b)
list(FILTER a~INCLUDE REGEX b)
list(TRANSFORM a~TOUPPER OUTPUT_VARIABLE b)
list(SORT a~COMPARE STRING)
message(STATUS~"a" b)
option(a~"b" ON)
project(a~VERSION 1.2 LANGUAGES C)
set(a~b c)
set(a b~CACHE STRING "c" FORCE)
set(a~b PARENT_SCOPE)
set_directory_properties(PROPERTIES~a b)
set_property(TARGET a~PROPERTY b c)
set_target_properties(a~PROPERTIES b c)
set_target_properties(a PROPERTIES~b~c d)
set_target_properties(a PROPERTIES b~c)
set_source_files_properties(a~PROPERTIES b c)
set_tests_properties(a~PROPERTIES b c)
string(REGEX REPLACE~"a" "b" c d)
string(JOIN a~b c)
string(TOUPPER a~b)
string(CONCAT a~b)
string(COMPARE EQUAL~a b c)
string(RANDOM LENGTH~1 a)
target_compile_definitions(a PRIVATE~b INTERFACE c)
target_link_libraries(a~PUBLIC b)
target_link_libraries(a~b debug c)
target_sources(a~PRIVATE b)
try_compile(a b~SOURCES c LIBRARIES d)
try_run(a b~c d ARGS e)
unset(a~CACHE)
foo(a~HEADERS b~BAR)
foo((a~b) (c~(d)))
math(EXPR a~"b")
get_filename_component(a~b PATH CACHE)
get_property(a~TARGET b PROPERTY c)
cmake_minimum_required(VERSION~3.5 FATAL_ERROR)
cmake_parse_arguments(a~"b" "c" "d" e)
load_cache(a~READ_WITH_PREFIX b c)
separate_arguments(a~UNIX_COMMAND "b")
source_group(a~FILES b)
variable_watch(a~b)
write_basic_package_version_file(a~VERSION b)
'''
# what may stand at a separator
SEP = ' |\n|# k\n|\n# k\n|\n\n# k\n# k\n|#[[k]]|[[q]]|"q"|(q)|()| # cmake-format: sort\n|\n#< k\n|q|${q}| q  |)|(| @q@ '


def tasks(tier):
    T = []
    q = tier == 'quick'

    def add(name, tpl, **kw):
        T.append(task('P.' + name, tpl, **kw))
    for i, line in enumerate(FORMS.strip().split('\n')):
        bits = line.split('~')
        name = re.sub('[^a-z_]+', '', line.split('(')[0]) + '%d' % i
        n = 0
        s = bits[0]
        for b in bits[1:]:
            n += 1
            near = b[:1] in ('(', ')', '"') or b[:3] in ('end', 'els')
            if q and n > 2:
                s += '\n' + b
            elif q and n > 1:
                s += '‹p%d:\n|# k\n| (q) |\n#[[k]]\n| # cmake-format: sort\n›' % n + b
            else:
                s += '‹p%d:%s›' % (n, SEP) + ('' if near else ' ') + b
        add(name, s + '\n')
    # every command of the table with unknown arguments
    names = sorted(x for x in ctx().parse_db if not x.startswith('_'))
    step = 1
    for i in range(0, len(names), 12 * step):
        add('names%d' % i, '‹p:' + '|'.join(names[i:i + 12 * step]) +
            '›(‹a:x%d›)\n' % (1 if q else 2))
    # unknown characters around the structure
    add('free', '‹a:x%d›' % (5 if q else 6))
    add('free2', 'foo(‹a:x%d›)\n' % (4 if q else 5))
    add('blocks', '‹p1:if|foreach|while|function|macro|foo|IF›(a)' + ('' if q else '‹a:x›') +
                '‹p2:\nelse()|\nelseif(b)|\nbar()|\nforeach(c)|›\n'
        '‹p3:endif|endforeach|endwhile|endfunction|endmacro|else|EndIf|foo›(‹b:x›)\n'
        '‹p4:endif()|endforeach()||foo|)|(›')
    add('nestblocks', 'if(a)\n‹p1:if|foreach|while|function|macro|else|elseif›(' + ('a' if q else '‹a:x›') + ')\nfoo()\n'
        '‹p2:endif|endforeach|endwhile|endfunction|endmacro|else|elseif|break›(‹b:x›)\n'
        '‹p3:endif|endforeach|endwhile|endfunction|endmacro|foo›()\n‹p4:endif()|endif|endif(|›\n')
    add('names', '‹a:x2›‹p1:foo|if|while|endif|set|break|f o|1f|f-o|"f"|[[f]]|@f@|#f|#[[f]]|${f}›'
        '‹p2:(| (|\n(||#(|"(|)(›a)‹b:x›\n')
    add('parens', 'foo(‹a:x›(‹b:x›(‹c:x›)‹d:x›)' + ('‹e:x›' if not q else '') + ')\n')
    add('string', 'foo("‹a:x3›" b)\n')
    add('escape', 'foo(\\‹a:x›"\\‹b:x›" \\‹c:x›)\n')
    add('bracket', 'foo([‹p1:|=|==›[‹a:x2›]‹p2:|=|==›])\n#[‹p1:|=|==›[‹b:x2›]‹p2:|=|==›]\nbar()\n')
    add('onoff', '# cmake-format: off\n‹a:x3›\n# cmake-format: on\nfoo(a)\n')
    add('onoff2', 'foo(a\n# cmake-format: off\n‹a:x2›)\n# cmake-format: on\n‹b:x2›\n')
    add('onoff3', 'foo(a HEADERS\n# cmake-format: off\n‹a:x2› BAR c\n# cmake-format: on\n‹b:x2›)\n')
    add('pragma', 'foo(a # cmake-format: ‹p1:sort|sortable|unsortable|sort: sort|xsort|tag›‹a:c›\n b # cmf: sort\n‹b:x› c)\n')
    add('tags', 'foo(a # [‹a:c3›]\n b #[‹b:c2›\n‹c:x› c)\n#[[‹d:c›]]\n')
    add('atword', '@a@‹a:b›@b‹b:x2›@ # k\n@c@(‹c:x›)\n')
    add('bom', '\ufefffoo(‹a:x2›)\n\ufeff‹b:x›')
    return T


_CTX = []


def ctx():
    if not _CTX:
        cfg = lib.config()
        from cmakelang.parse import funs
        db = funs.get_parse_db()
        db.update(funs.get_funtree(cfg.parse.fn_spec))
        _CTX.append((db, cfg))
    return parse.ParseContext(dict(_CTX[0][0]), config=_CTX[0][1])


def warm():
    ctx()


def shape(text):
    """'bad' when the text is certainly not a listfile, 'open' when a block is
    not terminated, 'ok' otherwise"""
    depth = 0
    stack = []
    if '$(' in text:
        # make-style references: what they may contain is not decided here
        return 'ok'
    toks = [t for t in ref.lex(text) if t[0] not in ('lc', 'bc')]
    i = 0
    n = len(toks)
    while i < n:
        k, t = toks[i]
        i += 1
        if k == 'bad':
            # an unterminated string: not decided here
            return 'ok'
        if k in ('ws', 'nl'):
            continue
        if depth:
            if k == 'lp':
                depth += 1
            elif k == 'rp':
                depth -= 1
            continue
        if k != 'un':
            return 'bad'
        if ATWORD.match(t):
            continue
        if not IDENT.match(t):
            return 'bad'
        while i < n and toks[i][0] in ('ws', 'nl'):
            i += 1
        if i >= n or toks[i][0] != 'lp':
            return 'bad'
        i += 1
        depth = 1
        low = t.lower()
        for b in BLOCKS:
            if low == b:
                stack.append(b)
                break
            if low == 'end' + b:
                # a terminator ends the innermost block if it matches; a stray
                # one is left to CMake
                if stack and stack[-1] == b:
                    stack.pop()
                break
    if depth:
        return 'bad'
    return 'open' if stack else 'ok'


class Stuck(Exception):
    pass


def _alarm(signum, frame):
    raise rt.Bad('parsing does not terminate')


def run(p, inp):
    src = inp['src']
    try:
        tokens = lex.tokenize(src)
    except Exception:  # pylint: disable=broad-except
        rt.check(True)
        return 'refused'
    want = [t for t in tokens if t.type is not lex.TokenType.BYTEORDER_MARK]
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, SECONDS)
    try:
        tree = parse.parse(tokens, ctx())
    except Exception as e:  # pylint: disable=broad-except
        if isinstance(e, rt.Bad) or type(e).__module__.startswith('symex'):
            raise
        rt.check(True)
        return 'refused'
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    s = shape(src)
    rt.check(s != 'bad', lambda: 'malformed file accepted: %r' % src)
    rt.check(s != 'open', lambda: 'file with an unterminated block accepted: %r' % src)
    got = tree.get_tokens()
    rt.check(len(got) == len(want), lambda: 'tree has %d tokens, input %d: %r' % (
        len(got), len(want), src))
    for a, b in zip(got, want):
        rt.check(a is b, lambda: 'tokens out of order or replaced: %r' % src)
    return len(got)
