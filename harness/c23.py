"""C23: the checks of structure and naming report exactly the constructs that
have the defect."""
import json
import re
from cmakelang.lint import __main__ as lint_main
from harness import lib, ref, vfs
from harness.c19 import parse
from harness.c22 import fill
from harness.corpus import task
from symex import rt

FUNCTIONS = ['lint.__main__.process_file', 'lint.basic_checker.LintChecker.check_defn',
             'lint.basic_checker.LintChecker.check_argument_names',
             'lint.basic_checker.LintChecker.check_name_against_pattern',
             'lint.basic_checker.LintChecker.check_foreach',
             'lint.basic_checker.LintChecker.check_body',
             'lint.basic_checker.LintChecker.check_arggroup',
             'lint.basic_checker.LintChecker.check_is_in_loop',
             'lint.basic_checker.LintChecker.check_assignment',
             'lint.basic_checker.LintChecker.check_token',
             'lint.basic_checker.LintChecker.check_for_custom_parse_logic',
             'lint.basic_checker.LintChecker.parse_pragmas_from_token',
             'lint.basic_checker.get_scope_of_assignment']
BOUNDS = ('one file per run; up to seven commands whose name, arguments, comments, blank '
          'lines and indentation are unknown, nested up to three levels; the limits of the '
          'configuration unknown in 0..6')
ASSUMPTIONS = ['definitions inside definitions, jumps in a definition inside a loop, and '
               'blocks on one line are outside',
               'a pattern describes the beginning of a name']
BUDGET = {'quick': 90.0, 'thorough': 700.0}
OPEN = ('if', 'while', 'foreach', 'function', 'macro')
MID = ('else', 'elseif')
JUMP = ('break', 'continue', 'return')
LIM = {'max-returns': 987002, 'max-branches': 987003, 'max-statements': 987004,
       'max-arguments': 987005, 'max-conditionals-custom-parser': 987006,
       'min-statement-spacing': 987007, 'max-statement-spacing': 987008,
       'tab-size': 987009}
DEF = {'max-returns': 6, 'max-branches': 12, 'max-statements': 50, 'max-arguments': 5,
       'max-conditionals-custom-parser': 2, 'min-statement-spacing': 1,
       'max-statement-spacing': 2, 'tab-size': 2}
PAT = {'function-pattern': '[0-9a-z_]+', 'macro-pattern': '[0-9A-Z_]+',
       'global-var-pattern': '[A-Z][0-9A-Z_]+', 'internal-var-pattern': '_[A-Z][0-9A-Z_]+',
       'local-var-pattern': '[a-z][a-z0-9_]+', 'private-var-pattern': '_[0-9a-z_]+',
       'public-var-pattern': '[A-Z][0-9A-Z_]+', 'argument-var-pattern': '[a-z][a-z0-9_]+'}
#: keywords of the commands used in the templates
KW = {'add_custom_command': ['OUTPUT', 'DEPENDS', 'BYPRODUCTS', 'COMMENT', 'WORKING_DIRECTORY',
                             'ARGS', 'MAIN_DEPENDENCY'],
      'foo': ['AA', 'BB']}
ALL = ('R0911 R0912 R0913 R0915 C0103 C0111 C0112 C0201 C0202 C0305 C0307 C0321 E0011 E0012 '
       'E0103 E0108 E0109 E1120 E1122 W0101').split()


def tasks(tier):
    T = []
    q = tier == 'quick'

    def add(name, tpl, codes='', opts=None, lims=None, args='', extra=None, decl=None, **kw):
        d = task(name, tpl, opts or {}, **kw)
        d['params'].update(codes=codes.split() or ALL, lims=lims or {}, args=args,
                           extra=extra or {}, decl=decl)
        d['bounds'] += '; limits %s; arguments %s; findings %s' % (
            lims or {}, args, codes or 'all')
        T.append(d)

    S = '‹p%d:foo()|RETURN()|break()|continue()|#x›\n'
    # jumps
    add('jumps', S % 1 + S % 2 + S % 3, 'W0101 E0103')
    add('loops', '‹p5:foreach(a b)|while(a)|if(a)|WHILE(a)|macro(x)›\n' + S % 1 + S % 2 +
        'end‹p5:foreach|while|if|WHILE|macro›()\n' + S % 3, 'W0101 E0103')
    add('nested', '‹p5:foreach(a b)|while(a)|if(a)›\nif(b)\n' + S % 1 + '‹p8:else()|elseif(c)›\n' +
        S % 2 + 'endif()\n‹p3:|foo()\n›' + 'end‹p5:foreach|while|if›()\n', 'W0101 E0103')
    add('jumps2', 'if(a)\n  return()\n‹p1:|# c\n|  if(b)\n  endif()\n|\n  foo()\n|  function(f)\n'
        '  endfunction()\n›' + 'endif()\nreturn() # z\n‹p2:|# c\n|#[[d]]\n|\n›‹p3:|foo()\n|if(b)\n'
        'endif()\n›', 'W0101 E0103')
    # counts
    C = '‹p%d:foo()|return()|if(a)\nelse()\nendif()|# c|if(a)\nelseif(b)\nreturn()\nendif()›\n'
    add('counts', '‹p9:function|macro›(f)\n' + C % 1 + C % 2 + 'end‹p9:function|macro›()\n',
        'R0911 R0912 R0915', lims={'max-returns': (0, 3), 'max-branches': (0, 5),
                                   'max-statements': (0, 9)})
    add('counts2', '# d\nfunction(f)\n  foreach(a b)\n    ' + C % 1 + '  endforeach()\n' + C % 2 +
        'endfunction()\nreturn()\nif(a)\nendif()\nmacro(g)\n' + C % 3 + 'endmacro()\n',
        'R0911 R0912 R0915', lims={'max-returns': (0, 3), 'max-branches': (0, 5),
                                   'max-statements': (0, 9)})
    add('argcount', '‹p9:function|macro›(f‹p1:| a›‹p2:| b›‹p3:| c\n#x\n›‹p4:| d›)\n'
        'end‹p9:function|macro›()\n', 'R0913', lims={'max-arguments': (0, 5)})
    # names
    A = '‹%s:w›'
    add('args', '‹p9:function|macro›(f ‹a:v2› ‹b:v2›)\nend‹p9:function|macro›()\n',
        'E0108 C0202 E0109 C0103')
    add('args3', 'function(f ‹p1:aa|AA|Aa|"aa"|${aa}|[[aa]]|a-b|é| # c\naa›'
        ' ‹p2:aa|AA|bb|"aa"|a-b› ‹p3:aA|aa|BB›)\nendfunction()\n', 'E0108 C0202 E0109 C0103')
    add('names', '‹p9:function|macro|FUNCTION›(‹a:v2›)\nend‹p9:function|macro|FUNCTION›()\n',
        'C0103')
    add('names2', 'function(‹a:v2› ‹p1:ab›)\nendfunction()\nmacro(‹b:v2›)\nendmacro()\n',
        'C0103', args='--function-pattern [A-Z]+$ --macro-pattern [a-z]+')
    add('loopvar', 'foreach(‹a:v2› b C)\nendforeach()\nFOREACH( # c\n ‹b:v2› b)\n'
        'endforeach()\n', 'C0103')
    for nm, a, b in (('dir', '', ''), ('fn', 'function(f)\n', 'endfunction()\n'),
                     ('mac', 'macro(F)\n', 'endmacro()\n'),
                     ('fnif', 'function(f)\nif(a)\n', 'endif()\nendfunction()\n'),
                     ('if', 'if(a)\n', 'endif()\n'),
                     ('macloop', 'macro(F)\nforeach(ab c)\n', 'endforeach()\nendmacro()\n')):
        add('set-' + nm, a + '‹p1:set|SET›(‹a:v3› ‹p2:x|›‹p3:| CACHE STRING "d"|'
            ' CACHE INTERNAL "d"| PARENT_SCOPE›)\n' + b, 'C0103')
        add('list-' + nm, a + 'list(‹p1:LENGTH Ab|GET Ab 0|get Ab 0 1|JOIN Ab "x"|SUBLIST Ab 0 1|APPEND Ab› ‹a:v2›)\n' + b,
            'C0103')
    add('set-ref', 'set(‹p1:${A}|${a}b|_${a}B|A${B}|"A"|"a"› ‹p2:x› ‹p3:|CACHE INTERNAL "d"›)\n',
        'C0103')
    add('set-pat', 'function(f)\nset(‹a:v2› x)\nendfunction()\nset(‹b:v2› x)\n', 'C0103',
        args='--local-var-pattern [A-Z] --public-var-pattern [0-9] '
        '--private-var-pattern [a-z][0-9]')
    # documentation of definitions
    add('doc', '‹p1:|foo()\n|foo() # a\n|foo() # a\n# b\n›‹p2:|# a\n|#\n|#  \n|# a\n#\n|#\n# a\n|'
        '#[[a]]\n|#[[ ]]\n›‹p3:|\n| \n|  ›‹p9:function|macro|FUNCTION|foreach›(f)\n'
        'end‹p9:function|macro|FUNCTION|foreach›()\n', 'C0111 C0112')
    add('doc2', 'if(a)\n  ‹p1:# a|#|foo()|›\n  ‹p3:|\n›  function(f)\n    ‹p4:# a\n|›  '
        'endfunction()\n  # x\n  macro(g)\n  endmacro()\n  function(h)\n  endfunction()\nendif()\n',
        'C0111 C0112')
    # spacing and indentation
    N = '‹p%d:\n|\n\n|\n\n\n|\n \n|\n\n\n\n| |›'
    add('spacing', 'foo()' + N % 1 + 'foo(\n)' + N % 2 + 'if(a)\n  foo()' + '‹p3:\n|\n\n|\n\n\n\n›' +
        'endif()' + '‹p4:\n|\n\n|\n\n\n\n| ›foo()\n\n\n\n', 'C0321 C0305',
        lims={'max-statement-spacing': (1, 4), 'min-statement-spacing': (1, 3)})
    add('spacing2', 'foo()‹p1: |›‹p2:# a|#[[a]]|›' + N % 3 + '‹p4:#[[b]]|# b\n|# b\n\n\n\n|›' +
        '‹p5:| ›bar()\n', 'C0321 C0305', lims={'max-statement-spacing': (1, 4)})
    add('spacing3', 'if(a)‹p1:\n| |\n\n|# a\n›foo()‹p2:\n\n|\n›else()‹p3:\n| |\n\n›foo()\nendif()\n',
        'C0321 C0305', lims={'max-statement-spacing': (2, 4)})
    I = '‹p%d:| |  |   |    |\t|\t | \t›'
    add('indent', 'if(a)\n' + I % 1 + '‹p2:foo()|# c|#[[c]]|\n›\n' + I % 3 + 'endif()\n', 'C0307',
        lims={'tab-size': (1, 4)})
    add('indent2', I % 1 + 'foreach(a b)\n  while(b)\n' + I % 3 + 'foo(a\n' + I % 4 + 'b\n'
        '      c)\n  endwhile()\nendforeach()\n', 'C0307', lims={'tab-size': (1, 4)})
    add('indent3', 'if(a)\n  foo([[\nx]] "\ny"‹p1:\n›' + I % 2 + 'c) # d‹p3:\n›' + I % 4 +
        '# e\n' + '  ‹p5:else()|elseif(b)|foo()›\n  foo()\nendif()\n', 'C0307')
    add('indent4', 'foo(a\n  ‹p1:# c|AA|AA b|(b|›\n' + I % 2 + '‹p3:b|# c\n|(x)|b # c\n|#[[c]] b›'
        '‹p4:|)›\n)\n', 'C0307', decl={'foo': {'kwargs': {'AA': 1, 'BB': 1}}})
    # keywords and counts of arguments
    K = '‹p%d:|DEPENDS b|depends b|OUTPUT b|# DEPENDS\n|COMMENT "DEPENDS"› '
    add('keywords', 'add_custom_command(OUTPUT a ' + K % 1 + K % 2 + K % 3 + 'VERBATIM)\n', 'E1122')
    add('keywords3', 'foo(‹k1~AA› ‹a:g› ‹k2~AA› b ‹p3:BB c|b|"AA"|› AA)\n', 'E1122',
        decl={'foo': {'kwargs': {'AA': 1, 'BB': '+'}}})
    add('pargs', 'foo(‹p1:|a›‹p2:| b|# c\n› ‹p3:|AA›‹p4:| c›‹p5:| "d"›)\n', 'E1120',
        decl={'foo': {'pargs': ['$pick', 'p', [0, 1, 2, '?', '*', '+', '2', '2+']],
                      'kwargs': {'AA': ['$pick', 'r', [0, 1, 2, '+']]}}})
    # hand-written parsing of arguments
    P = '‹p%d:if(a STREQUAL b)\nendif()|if(b STREQUAL a)\nendif()|if(a MATCHES b)\nendif()|' \
        'if(b)\nelseif(a STREQUAL c)\nendif()|if(a)\nendif()|if(NOT a MATCHES b)\nendif()›\n'
    add('parser', 'function(f)\nforeach(a ‹p5:${ARGN}|b ${ARGN}|${ARGV}|"${ARGN}"|›)\n' + P % 1 +
        P % 2 + '‹p6:|cmake_parse_arguments(x)\n›endforeach()\nendfunction()\n', 'C0201',
        lims={'max-conditionals-custom-parser': (0, 3)})
    # directives
    add('pragma', '# cmake-lint: ‹p1:disable=C0103|disable|enable=C0103|disable=|disable=C0103,C9|'
        'x disable=R0911|disable=c0103›‹p2:| y| disable=W9›\n‹p3:foo()|›\n', 'E0011 E0012')
    add('pragma2', 'foo(a # cmake-lint: ‹p1:disable=C0103|disable|enable=C0103|disable=C9|'
        'disable=C0103,C9›‹p2:| y›\n b)\n# cmake_lint: x\n', 'E0011 E0012')
    if not q:
        add('jumps4', S % 1 + S % 2 + 'foreach(a b)\n' + S % 3 + 'if(c)\n' + S % 4 + 'endif()\n' +
            S % 5 + 'endforeach()\n', 'W0101 E0103')
        add('counts4', 'function(f)\n' + C % 1 + C % 2 + C % 3 + C % 4 + 'endfunction()\n',
            'R0911 R0912 R0915', lims={'max-returns': (0, 5), 'max-branches': (0, 9),
                                       'max-statements': (0, 17)})
        add('args4', '‹p9:function|macro›(f ‹a:v2› ‹b:v2› ‹c:v2›)\nend‹p9:function|macro›()\n',
            'E0108 C0202 E0109 C0103')
        add('names4', 'function(‹a:v4›)\nset(‹b:v3› x)\nendfunction()\nmacro(‹c:v3›)\nendmacro()\n',
            'C0103')
        add('spacing4', 'foo()' + N % 1 + 'bar()' + N % 2 + 'foo()' + N % 3 + 'bar()\n',
            'C0321 C0305', lims={'max-statement-spacing': (1, 4), 'min-statement-spacing': (1, 3)})
        add('indent5', I % 1 + 'if(a)\n' + I % 2 + 'while(b)\n' + I % 3 + 'foo(a\n' + I % 4 +
            'b)\n  endwhile()\nendif()\n', 'C0307', lims={'tab-size': (1, 4)})
        add('keywords4', 'add_custom_command(OUTPUT a ' + K % 1 + K % 2 + K % 3 + K % 4 + K % 5 +
            'VERBATIM)\n', 'E1122')
        add('parser3', 'macro(f)\nwhile(${ARGN})\n' + P % 1 + P % 2 + P % 3 +
            'endwhile()\nendmacro()\n', 'C0201', lims={'max-conditionals-custom-parser': (0, 4)})
    return T


def inputs(S, p):
    lims = {k: S.int(k.replace('-', '_'), lo, hi) for k, (lo, hi) in sorted(p['lims'].items())}
    decl = p['decl']
    if decl:
        decl = fill(S, decl)
    return {'src': lib.build(S, p['parts']), 'lims': lims, 'decl': decl}


def warm():
    fs = vfs.VFS()
    fs.add('/v/a', 'foo( )\n')
    vfs.run_main(lint_main.main, ['/v/a'], fs)


class Cmd(object):
    pass


def commands(text, tab=2):
    """-> (commands, comments at file level), each with positions, nesting and
    what precedes it"""
    cmds, notes = [], []
    blocks = []
    depth = 0
    line, col = 1, 0
    cur = None
    gap = 0                 # line breaks since the last thing
    last = None             # last thing: command or comment
    start = True            # nothing but blanks on this line yet
    ind = ''
    lines = []      # (line, column, indentation, depth of blocks, inside, kind)
    trail = None    # column of the comment behind a command, while it may go on
    for kind, t in ref.lex(text):
        first = start and kind not in ('ws', 'nl')
        here = (line, col, ind)
        inside = depth > 0
        if kind not in ('ws', 'nl'):
            start = False
        if kind == 'bad':
            return None
        if kind == 'nl':
            gap += 1
            start = True
            ind = ''
        elif kind == 'ws':
            if start:
                ind = t
        elif kind in ('lc', 'bc'):
            c = Cmd()
            c.note, c.kind, c.line, c.col, c.gap, c.prev = t, kind, line, col, gap, last
            laid = col + ind.count('\t') * (tab - 1)
            if depth:
                cur.args.append((t, kind, line, col, depth))
            elif trail is not None and kind == 'lc' and gap == 1 and laid == trail:
                # further lines of it
                inside, gap = True, 0
            elif gap == 0 and last is not None and last.note is None and not last.trail:
                # a comment behind a command belongs to it
                last.trail = True
                trail = laid if kind == 'lc' else None
            else:
                last, gap, trail = c, 0, None
            notes.append(c)
        elif kind == 'lp':
            if depth:
                cur.args.append(('(', 'lp', line, col, depth))
            depth += 1
        elif kind == 'rp':
            depth -= 1
            if depth == 0:
                cur.end = (line, col)
                last, gap = cur, 0
            else:
                cur.args.append((')', 'rp', line, col, depth + 1))
        elif depth == 0:
            trail = None
            cur = Cmd()
            name = rt.conc(t.lower())
            cur.note = None
            cur.name, cur.line, cur.col, cur.args = name, line, col, []
            cur.gap, cur.prev, cur.trail = gap, last, False
            end = name.startswith('end') and name[3:] in OPEN
            cur.closes = end or name in MID
            if cur.closes:
                rt.assume(len(blocks) > 0)
                want = (name[3:],) if end else ('if', 'elseif')
                if name == 'endif':
                    want = ('if', 'elseif', 'else')
                rt.assume(blocks[-1].name in want)
                blocks.pop()
            cur.blocks = list(blocks)
            cur.parent = blocks[-1] if blocks else None
            if name in OPEN or name in MID:
                blocks.append(cur)
            cmds.append(cur)
        else:
            cur.args.append((t, kind, line, col, depth))
        if first:
            d = len(cur.blocks) if inside or (cur is not None and kind == 'un') \
                else len(blocks)
            lines.append(here + (d, inside, kind))
        k = t.count('\n')
        if k:
            line += k
            col = len(t) - t.rfind('\n') - 1
        else:
            col += len(t)
    if depth or blocks:
        return None
    return cmds, notes, lines


def words(c):
    return [a for a in c.args if a[1] not in ('lc', 'bc', 'lp', 'rp')]


def holds(pat, name):
    return re.match(pat, name) is not None


IDENT = re.compile(r'[A-Za-z_][A-Za-z0-9_]*\Z')
REF = re.compile(r'\$\{[A-Za-z0-9_./+-]+\}')


def body_of(cmds, c):
    """commands inside the block opened by c (and its further arms)"""
    i = cmds.index(c)
    out = []
    for d in cmds[i + 1:]:
        if d.closes and d.parent is c.parent and d.name not in MID:
            break
        out.append(d)
    return out


def expect(text, lim, pat, decl):
    """-> [(code, first line, last line, column or None)]"""
    r = commands(text, lim['tab-size'])
    rt.assume(r is not None)
    cmds, notes, lines = r
    out = []

    def at(code, x):
        out.append((code, x[2], x[2], x[3]))

    def atc(code, c):
        out.append((code, c.line, c.line, c.col))
    for i, c in enumerate(cmds):
        w = words(c)
        defs = [b for b in c.blocks if b.name in ('function', 'macro')]
        loops = [b for b in c.blocks if b.name in ('foreach', 'while')]
        if c.name in ('function', 'macro'):
            rt.assume(not defs and len(w) > 0)
            last = [d for d in cmds[i:] if d.closes and d.parent is c.parent][0].line
            body = body_of(cmds, c)
            for code, key, n in (
                    ('R0911', 'max-returns', sum(d.name == 'return' for d in body)),
                    ('R0912', 'max-branches',
                     sum(d.name in ('if', 'elseif', 'else') for d in body)),
                    ('R0915', 'max-statements', len(body)),
                    ('R0913', 'max-arguments', len(w) - 1)):
                if n > lim[key]:
                    out.append((code, c.line, last, None))
            if not holds(pat[c.name + '-pattern'], w[0][0]):
                at('C0103', w[0])
            seen = []
            for a in w[1:]:
                if not IDENT.match(a[0]):
                    at('E0109', a)
                    continue
                if a[0] in seen:
                    at('E0108', a)
                elif a[0].lower() in [s.lower() for s in seen]:
                    at('C0202', a)
                elif not holds(pat['argument-var-pattern'], a[0]):
                    at('C0103', a)
                seen.append(a[0])
            # documentation
            p = c.prev
            if p is None or p.note is None or c.gap > 1:
                atc('C0111', c)
            else:
                note = []
                while True:
                    note.append(p)
                    if p.kind == 'bc' or p.prev is None or p.prev.note is None or \
                            p.prev.kind == 'bc' or p.gap > 1:
                        break
                    p = p.prev
                if not any(content(x) for x in note):
                    atc('C0112', c)
            if not any(d.name == 'cmake_parse_arguments' for d in body):
                for d in body:
                    if d.name not in ('foreach', 'while') or not any(
                            a[0] == '${ARGN}' for a in words(d)):
                        continue
                    var = words(d)[0][0]
                    n = 0
                    for e in body_of(cmds, d):
                        v = words(e)
                        if e.name in ('if', 'elseif', 'while') and len(v) > 1 and \
                                v[0][0] == var and v[1][0] in ('STREQUAL', 'MATCHES'):
                            n += 1
                    if n > lim['max-conditionals-custom-parser']:
                        atc('C0201', d)
                        break
        elif c.name == 'foreach':
            rt.assume(len(w) > 0)
            if not holds(pat['argument-var-pattern'], w[0][0]):
                at('C0103', w[0])
        elif c.name in ('set', 'list'):
            rt.assume(len(w) > (0 if c.name == 'set' else 1))
            var = w[0]
            if c.name == 'list':
                var = w[-1] if w[0][0].upper() in ('LENGTH', 'GET', 'JOIN', 'SUBLIST') else None
            if var is not None:
                name = REF.sub('', var[0])
                ks = [rt.conc(a[0]) for a in w[1:]]
                if name == '':
                    ok = True
                elif 'CACHE' in ks and c.name == 'set':
                    kind = ks[ks.index('CACHE') + 1]
                    ok = holds(pat['internal-var-pattern' if kind == 'INTERNAL' else
                                   'global-var-pattern'], name)
                elif 'PARENT_SCOPE' in ks and c.name == 'set' or \
                        defs and defs[-1].name == 'macro':
                    ok = holds(pat['public-var-pattern'], name) or \
                        holds(pat['private-var-pattern'], name) or \
                        holds(pat['local-var-pattern'], name)
                elif defs:
                    ok = holds(pat['local-var-pattern'], name)
                else:
                    ok = holds(pat['public-var-pattern'], name) or \
                        holds(pat['private-var-pattern'], name)
                if not ok:
                    at('C0103', var)
        # jumps
        if c.name in JUMP:
            if c.name != 'return' and not loops:
                atc('E0103', c)
            rt.assume(not (loops and defs))
            for d in cmds[i + 1:]:
                if d.parent is not c.parent or d.closes:
                    break
                atc('W0101', c)
                break
        # spacing
        if not c.closes:
            p = c.prev
            if p is not None:
                end = p.end[0] if p.note is None else None
                k = p
                while k is not None and k.note is not None and k.kind == 'bc' and \
                        end is None and k.gap == 0 and '\n' not in k.note:
                    k = k.prev
                same = c.gap == 0 and k is not None and (k.note is None)
                if same:
                    atc('C0321', c)
                elif c.gap and lim['min-statement-spacing'] > c.gap:
                    atc('C0305', c)
                elif c.gap > lim['max-statement-spacing']:
                    atc('C0305', c)
            else:
                rt.assume(c.gap <= lim['max-statement-spacing'] and c.gap == 0 or
                          c.gap >= lim['min-statement-spacing'] and
                          c.gap <= lim['max-statement-spacing'])
        # keywords
        kws = KW.get(c.name)
        if kws and (c.name != 'foo' or decl):
            top = [a for a in w if a[4] == 1 and a[1] == 'un']
            seen = []
            for a in top:
                u = a[0].upper()
                if u in kws:
                    if u in seen:
                        at('E1122', a)
                    seen.append(u)
        if c.name == 'foo' and decl and 'pargs' in decl['foo']:
            n = [0]
            for a in w:
                if a[1] == 'un' and a[0].upper() == 'AA' and len(n) == 1:
                    n.append(0)
                else:
                    n[-1] += 1
            for k, spec in zip(n, (decl['foo']['pargs'], decl['foo']['kwargs']['AA'])):
                least, exact = least_of(spec)
                # a group of exactly n takes the next n words
                rt.assume(not exact or k <= least and (k == least or len(n) == 1))
                # a group begins with its first argument
                rt.assume(k > 0 or least == 0)
                if k < least:
                    out.append(('E1120', c.line, c.end[0], None))
    for ln, col, ind, d, inside, kind in lines:
        want = d * lim['tab-size']
        have = sum(lim['tab-size'] if ch == '\t' else 1 for ch in ind)
        if inside and kind == 'rp':
            rt.assume(have == want)
        if (have < want) if inside else (have != want):
            out.append(('C0307', ln, ln, col))
    for n in notes:
        t = n.note
        if n.kind != 'lc' or not t.startswith('# cmake-lint: '):
            continue
        for item in t[len('# cmake-lint: '):].split():
            k, eq, v = item.partition('=')
            if not eq or k != 'disable':
                out.append(('E0011', n.line, n.line, None))
            else:
                for x in v.split(','):
                    if not known(x):
                        out.append(('E0012', n.line, n.line, None))
    return out


def least_of(spec):
    if isinstance(spec, int):
        return spec, True
    return {'?': 0, '*': 0, '+': 1, '2': 2, '2+': 2}[spec], spec in ('?', '2')


def known(x):
    return rt.conc(x) in ('C0103', 'R0911')


def content(n):
    if n.kind == 'bc':
        return n.note.strip('#[]= \t\n') != ''
    return n.note.lstrip('#').strip() != ''


def run(p, inp):
    src = inp['src']
    lim = dict(DEF)
    args = []
    values = {}
    for k, v in inp['lims'].items():
        lim[k] = v
        args += ['--' + k, str(LIM[k])]
        values[LIM[k]] = v
    pat = dict(PAT)
    extra = p['args'].split()
    for k, v in zip(extra[::2], extra[1::2]):
        pat[k[2:]] = v
    fs = vfs.VFS('/v')
    fs.add('/v/d/f', src)
    decl = inp['decl']
    if decl:
        fs.add('/v/c.json', json.dumps({'additional_commands': decl}))
        args += ['-c', '/v/c.json']
    cfg = lib.config('c23')
    if lib.process(cfg, src) is None:
        raise rt.Skip()
    want = [w for w in expect(src, lim, pat, decl) if w[0] in p['codes']]
    status, exc = vfs.run_main(lint_main.main, ['/v/d/f'] + args + extra +
                               ['--suppress-decorations'], fs, values=values)
    rt.check(status in (0, 1), lambda: 'exit status %r (%r)' % (status, exc))
    out = ''.join([t for t, _ in fs.stdout])
    recs, _, _ = parse(out, ['/v/d/f'])
    got = [(r[3], r[1], r[2]) for r in recs if r[3] in p['codes']]
    left = list(got)
    for w in want:
        for g in left:
            if g[0] == w[0] and w[1] <= g[1] <= w[2] and (
                    w[3] is None or g[2] == w[3] or g[2] is None and w[3] == 0):
                left.remove(g)
                break
        else:
            rt.check(False, lambda: 'not reported: %r (reported %r)' % (w, got))
    rt.check(not left, lambda: 'reported without cause: %r (expected %r)' % (left, want))
    return [status, got]
