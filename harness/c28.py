"""C28: generated specifications describe the definitions."""
import json

from cmakelang import genparsers
from harness import c24, c27, corpus, lib, ref, vfs
from symex import rt

FUNCTIONS = ['genparsers.main', 'genparsers.process_file', 'genparsers.process_tree',
             'genparsers.process_defn', 'genparsers.process_defn_body',
             'genparsers.process_set_statement', 'genparsers.replace_varrefs',
             'genparsers.find_statements_in_subtree', 'lex.*', 'parse.*',
             'json.encoder', 'pprint', 'yaml']
BOUNDS = ''
ASSUMPTIONS = ['variables are set at the level of the definition by set() with '
               'unquoted and quoted words; list() and variables of other scopes are '
               'documented as unsupported']
BUDGET = {'quick': 100.0, 'thorough': 500.0}


def tasks(tier):
    T = []

    def add(name, *files, **kw):
        for form in kw.pop('forms', ['json', 'python']):
            T.append({'name': '%s-%s' % (name, form), 'weight': 1.0,
                      'params': dict(kw, files=[corpus.parts(f) for f in files], form=form),
                      'bounds': ' | '.join(files)})
    END = 'endfunction()\n'
    add('name', '‹p1:function|macro|FUNCTION|Macro›(‹a:v›‹b:v›x‹p2:| a|\na b| a # k\n›)\n'
        'foo(a)\nend‹p1:function|macro|FUNCTION|Macro›()\n')
    add('names', 'function(‹k1~ab›)\n' + END + 'macro(‹p1:_x|x_|__|X›)\nendmacro()\n',
        forms=['json', 'python', 'yaml'])
    add('nargs', 'function(f‹p1:| a| a b| A B C D E F›‹p2:| ${x}| "q"| [[b]]›)\n'
        '‹p3:|cmake_parse_arguments(p "" "" "" ${ARGN})\n›' + END)
    add('literal', 'function(f)\ncmake_parse_arguments(p "‹a:v2›;‹b:v›" "‹c:v›" "‹d:v›;E")\n' + END)
    add('flags', 'function(f)\ncmake_parse_arguments(_ "‹a:v›‹b:n›‹c:v›;‹d:n›" "" "" ${ARGN})\n' + END)
    add('separators', 'function(f)\ncmake_parse_arguments(_ "‹p1:|;›A‹p2:;|;;|\n;|; ›B‹p3:|;›"‹a:b›"‹p1:|;›"‹b:b›"C‹p2:;|;;|\n;|; ›d"'
        '‹p4:|\n# c\n| #[[c]] ›)\n' + END)
    add('vars', 'function(f x)\nset(o‹a:v› A ‹p1:b|"b;q"|›)\nset(s‹b:v› "C")\nset(m D;‹p2:E|F;G|${oa}›)\n'
        'cmake_parse_arguments(p "${oa}" "${sa}" "${m}" ${ARGN})\n' + END)
    add('vars2', 'macro(f x y)\nset(a ‹a:v›1)\nset(b ‹p1:${a} B|"${a}"|B|"B;${a}"›)\n'
        '‹p2:set(a)\n|set(a Q)\n|# set(a Q)\n|set(A Q)\n|foo(set a Q)\n›set(c ${a} ${b} "")\n'
        'cmake_parse_arguments(p "${a}" ${b} "x${c}")\nendmacro()\n')
    add('scope', '‹p1:|set(a Q)\n›function(f)\n‹p2:|set(a A)\n›cmake_parse_arguments(p "${a}" "" "")\n' + END
        + 'function(g)\n‹p3:|set(b A)\n›cmake_parse_arguments(p "${a}" "${b}" "")\n' + END)
    add('nested', 'function(f)\nset(i‹a:v› ‹p1:b|bc|""|x;y›)\nset(o_‹p2:b|bc|${ia}|› ‹b:v› P)\n'
        'set(‹p3:q|${ia}|o_${ia}› "R;${o_${ia}}")\n'
        'cmake_parse_arguments(p "${o_${ia}}" "A${o_‹p2:b|bc|${ia}|›}${${ia}};${q}" "${o_}")\n' + END)
    add('varnames', 'function(f)\nset(‹p1:a.b|a-b|a/b|a+b|_a|1|A|é› X)\n'
        'cmake_parse_arguments(p "${‹p2:a.b|a-b|a/b|a+b|_a|1|a|é›}" "" "")\n' + END)
    add('special', 'function(f)\nset(a A ‹p1:|PARENT_SCOPE|CACHE STRING "doc"|CACHE STRING "doc" FORCE›)\n'
        '‹p2:|set(a PARENT_SCOPE)\n|unset(a)\n|UNSET(a)\n|unset(b)\n|unset(a PARENT_SCOPE)\n|unset(ENV{a})\n'
        '|set(ENV{a} B)\n|unset(${a})\n›cmake_parse_arguments(p "${a}" "" "")\n' + END)
    add('quoted', 'function(‹p1:"f"|"F_g"|f|"_f"›‹p2:| a| "b"›)\n' + END)
    add('after', 'function(f)\n‹p1:|cmake_parse_arguments(p "A" "" "")\n›‹p2:|set(a A)\n›'
        'cmake_parse_arguments(p "B" "${a}" "")\nset(a C)\n' + END)
    add('argv', 'function(f ‹p3:|a›)\ncmake_parse_arguments(‹p1:PARSE_ARGV 0 _|PARSE_ARGV\n1 "_"|_|"_"|PARSE_ARG› "‹a:v›"'
        ' "B;C" "D"‹p2:| ${ARGN}| ${ARGV} a›)\n' + END)
    add('call', 'function(f)\n‹p1:if(a)|foreach(a b)|while(a)›\n‹k1~cmake_parse_arguments›(p "A" "" "")\n'
        '‹p1:endif|endforeach|endwhile›()\n' + END, forms=['json'])
    add('blocks', '‹p1:if(a)|foreach(a b)|while(a)›\nfunction(f)\ncmake_parse_arguments(p "A" "" "")\n' + END
        + '‹p2:|macro(g a)\nendmacro()\n|foo()\n›‹p1:endif|endforeach|endwhile›()\nfunction(h‹a:v›)\n' + END)
    add('two', 'function(‹p1:f|g|h›)\n' + END + 'function(f a)\n' + END,
        'macro(‹p2:f|g|F|_f›)\ncmake_parse_arguments(p "A" "" "")\nendmacro()\n',
        forms=['json', 'python', 'yaml'])
    add('missing', 'function(f)\n' + END, 'macro(g a)\nendmacro()\n', 'macro(h)\nendmacro()\n',
        exists=True)
    add('out', 'function(f)\n' + END, 'macro(g ‹p1:|a›)\nendmacro()\n', out=True,
        forms=['json', 'python', 'yaml'])
    add('stdin', 'function(f‹p1:| a›)\n' + END, stdin=True)
    add('comments', '# function(x)\n‹p1:#[[\nfunction(y)\nendfunction()\n]]\n|foo("function(z)\n")\n|›function(f # c\n'
        ' a # d\n #[[ e ]] b)\n# cmake_parse_arguments(p "A" "" "")\n'
        '‹p2:|cmake_parse_arguments(p # c\n "B" # d\n "" "")\n›' + END)
    add('crlf', 'function(f‹p1:\n|\r\n›a)‹p1:\n|\r\n›cmake_parse_arguments(p "A;‹p1:\n|\r\n›B" ""‹p2: |\n|\r\n›"")‹p3:\n|\r\n›'
        'endfunction()‹p4:\n|\r\n|›')
    add('empty', '‹p1:|# k|foo()\n|\ufeff|\ufefffunction(f)\nendfunction()\n›', forms=['json', 'python', 'yaml'])
    return T


def inputs(S, p):
    return {'files': [lib.build(S, parts) for parts in p['files']],
            'exists': [S.bool('e%d' % i) for i in range(len(p['files']))]
            if p.get('exists') else None}


def show(p, inp):
    return [inp['files'], inp['exists']]


def deref(t, env):
    """substitutes the references of the text"""
    j = 0
    while True:
        # the innermost reference first
        j = t.find('}', j)
        if j < 0:
            return t
        i = t.rfind('${', 0, j)
        if i < 0:
            j += 1
            continue
        name = t[i + 2:j]
        if not name or ';' in name:
            raise rt.Skip()
        v = ''
        for k in env:
            if k == name:
                v = env[k]
        t = t[:i] + v + t[j + 1:]
        j = i


def words(t):
    out = []
    for w in t.split(';'):
        w = w.strip().upper()
        if w:
            out.append(w)
    return out


def expected(text):
    """[[name, spec]] in the order of the definitions"""
    defs = []
    cur = None
    for name, args in c27.statements(text):
        if name in ('function', 'macro'):
            if not args:
                raise rt.Skip()
            if args[0][0] == '"':
                args[0] = args[0][1:-1]
            spec = {'pargs': {'nargs': len(args) - 1}}
            if args[0] != args[0].lower() and args[0] != args[0].upper():
                spec['spelling'] = args[0]
            cur = [args[0].lower(), spec, {}, False]
            if args[0][0] != '_':
                defs.append(cur)
        elif name in ('endfunction', 'endmacro'):
            cur = None
        elif cur is None or cur[3]:
            continue
        elif name == 'set':
            key = deref(args[0], cur[2])
            if args[-1] == 'PARENT_SCOPE':
                continue
            if 'CACHE' in args:
                args = args[:args.index('CACHE')]
            if len(args) == 1:
                cur[2].pop(key, None)
            else:
                cur[2][key] = deref(';'.join([
                    a[1:-1] if a[0] == '"' else a for a in args[1:]]), cur[2])
        elif name == 'unset':
            if len(args) == 1:
                cur[2].pop(deref(args[0], cur[2]), None)
        elif name == 'cmake_parse_arguments':
            if args[0] == 'PARSE_ARGV':
                args = args[2:]
            if len(args) < 4:
                raise rt.Skip()
            vals = [deref(a[1:-1] if a[0] == '"' else a, cur[2]) for a in args[1:4]]
            n = cur[1]['pargs']['nargs']
            cur[1]['pargs'] = {'nargs': '*' if n == 0 else '%d+' % n,
                               'flags': words(vals[0])}
            kw = {}
            for w in words(vals[1]):
                kw[w] = 1
            for w in words(vals[2]):
                kw[w] = '+'
            cur[1]['kwargs'] = kw
            cur[3] = True
    return [d[:2] for d in defs]


def load(form, text):
    if form == 'json':
        return json.loads(text)
    if form == 'yaml':
        import yaml
        return yaml.safe_load(text)
    env = {}
    exec('value = ' + text, env)
    return env['value']


def warm():
    try:
        run({'form': 'yaml'}, {'files': ['function(f)\nendfunction()\n'], 'exists': None})
    except rt.Bad:
        pass


def run(p, inp):
    fs = vfs.VFS(cwd='/v')
    argv = ['-f', p['form']]
    want = {}
    missing = False
    for i, text in enumerate(inp['files']):
        path = '/v/f%d.cmake' % i
        if p.get('stdin'):
            fs.stdin = vfs.File(text)
            path = '-'
        else:
            fs.add(path, text, exists=inp['exists'][i] if inp['exists'] else True)
        argv.append(path)
        if inp['exists'] and not inp['exists'][i]:
            missing = True
            continue
        for name, spec in expected(text[1:] if text[:1] == '\ufeff' else text):
            want[name] = spec
    if p.get('out'):
        argv += ['-o', '/v/out']
    status, exc = vfs.run_main(genparsers.main, argv, fs)
    rt.check(exc is None, lambda: 'failed: %s' % exc)
    rt.check((status != 0) == missing, lambda: 'exit status %r' % status)
    text = ''.join([t for t, _ in fs.stdout])
    if p.get('out'):
        rt.check(text == '', 'something written to the standard output')
        text = fs.files['/v/out'].text
    got = None
    try:
        got = load(p['form'], text)
    except Exception as ex:
        if type(ex).__module__.startswith('symex'):
            raise
    rt.check(isinstance(got, dict), lambda: 'not a table: %r' % text)
    rt.check(sorted(got) == sorted(want), lambda: 'definitions %r instead of %r' % (
        sorted(got), sorted(want)))
    for name in want:
        rt.check(same(got[name], want[name]), lambda: '%s: %r instead of %r' % (
            name, got[name], want[name]))
    return got


def same(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and sorted(a) == sorted(b) and rt.conj(
            [same(a[k], b[k]) for k in b])
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and rt.conj(
            [same(x, y) for x, y in zip(a, b)])
    return a == b
