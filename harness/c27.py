"""C27: ctest-to lists exactly the tests of a test tree."""
import json
import os
from xml.etree import ElementTree as ET

from cmakelang import ctest_to
from harness import c24, corpus, lib, ref, vfs
from symex import rt

FUNCTIONS = ['ctest_to.main', 'ctest_to.ParseContext', 'ctest_to.TestSpec',
             'ctest_to.get_statements', 'ctest_to.get_value', 'lex.*', 'parse.*']
BOUNDS = ''
ASSUMPTIONS = ['the serialisation of an element tree as text (xml.etree) is outside',
               'one definition per name and directory, each directory named once; unquoted arguments without ; '
               'and quotes']
BUDGET = {'quick': 60.0, 'thorough': 400.0}
TOP = '/v/t'


def tasks(tier):
    T = []
    q = tier == 'quick'

    def add(name, *files, **kw):
        """files: directory, template, directory, template, ..."""
        d = [[x, corpus.parts(t)] for x, t in zip(files[::2], files[1::2])]
        for form in kw.pop('forms', ['json', 'xml']):
            T.append({'name': '%s-%s' % (name, form), 'weight': 1.0,
                      'params': dict(kw, files=d, form=form),
                      'bounds': ' | '.join(files)})
    n = 2 if q else 3
    add('quoted', TOP, 'add_test(t "‹a:S%d›" "-x‹b:s›y")\n' % n)
    add('plain', TOP, 'add_test(t ‹a:n› -‹b:n%d› "" x)\n' % n)
    add('bracket', TOP, 'add_test(t [=[‹a:S%d›]=] [[‹b:b›x]] "[[y]]")\n' % n)
    add('escape', TOP, 'add_test(t "\\‹a:s›\\\\‹b:s›" a\\‹c:s› "x\\\ny")\n')
    add('keyword', TOP, 'add_test(t ‹p1:PROPERTIES|COMMAND|NAME|if|"LABELS"› ‹p2:add_test|subdirs|)›‹p3:\n|)\n›'
        'add_test(u x)\n')
    add('layout', TOP, 'add_test(‹a:b›t‹b:b›"a"‹c:b›b‹p1:|# k\n› ‹p2:|#[[k]] ›‹p3:c|"c"›)‹p4:\n|# k\n|\n\n›'
        '‹p5:add_test|ADD_TEST|Add_Test›(u‹p6: |\n›x)\n')
    add('names', TOP, 'add_test(‹a:v›1 x)\nadd_test(‹b:v›1 y)\n'
        'set_tests_properties(‹c:v›1 PROPERTIES COST "1")\n')
    add('names2', TOP, 'add_test(‹p1:t|9|-1|"t"|"t u"|[[t]]|[=[t u]=]|t.x/y+z|t\\ u|é› x)\n'
        'set_tests_properties(‹p2:t|9|-1|"t"|"t u"|[[t]]|[=[t u]=]|t.x/y+z|t\\ u|é› '
        'PROPERTIES COST "1")\n')
    add('props', TOP, 'add_test(t x)\nadd_test(u y)\n'
        'set_tests_properties(t‹p1: |\n›‹p2:|u |v ›PROPERTIES  '
        '‹p3:LABELS|WORKING_DIRECTORY|_BACKTRACE_TRIPLES|Mixed_Case|LABELS2› "‹a:s%d›" COST ‹b:n›)\n' % n)
    add('values', TOP, 'add_test(t x)\nset_tests_properties(t PROPERTIES A ‹p1:"a b"|[[a b]]|a|"a\\"b"|""|10›'
        ' ‹p2:TIMEOUT "10"|TIMEOUT 7|TIMEOUT "0.5"|TIMEOUT "1.0"|LABELS "a;b c"|LABELS a|_X y› C d)\n')
    add('later', TOP, 'add_test(t x)\nset_tests_properties(t PROPERTIES ‹p1:A|B› ‹a:n›)\n'
        'set_tests_properties(t PROPERTIES ‹p2:A|B› ‹b:n› ‹p3:A|C› z)\nadd_test(u x)\n')
    add('labels', TOP, 'add_test(t x)\nset_tests_properties(t PROPERTIES LABELS "‹a:n›‹p1:;|\\;|,›‹b:n›" X "‹p1:;|\\;|,›")\n')
    add('dirs', TOP, 'add_test(t x)\nsubdirs(‹p1:a|"a"|"%s/a"|a/b|"a/b"› ‹p2:|b|"c"|"c d"›)\n' % TOP,
        TOP + '/a', 'add_test(‹p3:t|u› y)\nset_tests_properties(t u PROPERTIES A 1)\n',
        TOP + '/a/b', 'add_test(t z)\n', TOP + '/b', 'subdirs("../e")\nadd_test(v "‹a:s›")\n', TOP + '/e', 'add_test(t u)\n',
        TOP + '/c d', 'add_test(t w)\n')
    add('deep', TOP, 'subdirs("a")\nsubdirs("b")\nadd_test(t x)\n', TOP + '/a',
        'subdirs(‹p1:a|b|c› a)\nadd_test(t x)\n', TOP + '/a/a', 'add_test(t ‹a:n›)\n',
        TOP + '/a/b', 'add_test(t ‹b:n›)\n', TOP + '/b', 'add_test(t y)\n')
    add('other', TOP, '# generated\n‹p1:|set(x "y")|foo(add_test(a b))|include("x.cmake")|# add_test(q r)\n'
        '|#[[add_test(q r)]]|message("add_test(q r)")›\nadd_test(t "‹a:s›")\n')
    add('blocks', TOP, '‹p1:if(EXISTS "x")|if(a)›\nadd_test(a x)\n‹p2:else()|elseif(b)|›\n'
        'if(c)\nadd_test(b ‹a:n›)\nendif()\nset_tests_properties(b PROPERTIES A "‹b:n›")\n'
        'endif()\nadd_test(c z)\nforeach(x a)\nadd_test(d y)\nendforeach()\n')
    add('crlf', TOP, 'add_test(t "a‹p1:\n|\r\n›b"‹p2:\n|\r\n› c)‹p2:\n|\r\n›add_test(u‹a:b›d)‹p3:|\n|\r\n›')
    add('empty', TOP, '‹p1:|\n|# k|# k\n›')
    add('case', TOP, '‹k1~add_test›(t x)\nadd_test(u x)\n', forms=['json'])
    add('cases', TOP, 'add_test(t x)\n‹k1~set_tests›_properties(t PROPERTIES A b)\n'
        '‹p1:subdirs|SUBDIRS|Subdirs›(a)\n', TOP + '/a', 'add_test(t x)\n', forms=['json'])
    return T


def inputs(S, p):
    return {'files': [[d, lib.build(S, parts)] for d, parts in p['files']]}


def show(p, inp):
    return inp['files']


def value(t):
    """the value of an argument of CMake, without evaluation of variables"""
    if t[0] == '[':
        m = t.find('[', 1)
        if m > 0 and t[1:m] == '=' * (m - 1):
            t = t[m + 1:len(t) - m - 1]
            return t[1:] if t[:1] == '\n' else t
    if t[0] == '"':
        t = t[1:-1]
    out = ''
    i = 0
    while i < len(t):
        c = t[i]
        i += 1
        if c == '\\':
            c = t[i]
            i += 1
            if c == 't':
                c = '\t'
            elif c == 'n':
                c = '\n'
            elif c == 'r':
                c = '\r'
            elif c == '\n':
                c = ''
            elif c == ';':
                c = '\\;'
        out = out + c
    return out


def statements(text):
    if not c24.wellformed(text):
        raise rt.Skip()
    items = ref.read(text)
    out = []
    depth = 0
    for x in items:
        if x[0] == 'cmd':
            out.append([x[1], []])
            depth = 0
        elif x[0] == '(':
            depth += 1
            if depth > 1:
                out[-1][1].append('(')
        elif x[0] == ')':
            depth -= 1
            if depth:
                out[-1][1].append(')')
        elif x[0] == 'arg':
            out[-1][1].append(x[1])
    return out


def expected(files):
    """[name, argv, cwd, {property: value}] of every test"""
    tests = []
    done = []
    queue = [TOP]
    while queue:
        cwd = queue.pop(0)
        if cwd in done:
            raise rt.Skip()
        done.append(cwd)
        if cwd not in files:
            continue
        here = []
        for name, args in statements(files[cwd].replace('\r\n', '\n')):
            if name == 'add_test':
                if not args or '(' in args or ')' in args:
                    raise rt.Skip()
                vals = [value(a) for a in args]
                for t in here:
                    if t[0] == vals[0]:
                        raise rt.Skip()
                here.append([vals[0], vals[1:], cwd, {}])
            elif name == 'subdirs':
                queue += [os.path.normpath(os.path.join(cwd, value(a))) for a in args]
            elif name == 'set_tests_properties':
                i = args.index('PROPERTIES')
                for a in args[:i]:
                    for t in here:
                        if t[0] == value(a):
                            for k in range(i + 1, len(args), 2):
                                t[3][args[k]] = value(args[k + 1])
        tests += here
    return tests


def from_json(text):
    return [[t['name'], t['argv'], os.path.normpath(t['cwd']), t['props']]
            for t in json.loads(text)]


def props_json(props):
    out = {}
    for k, v in props.items():
        if k[0] == '_':
            continue
        if k == 'LABELS':
            v = v.split(';')
        elif k == 'TIMEOUT':
            v = float(v)
        out[k.lower()] = v
    return out


def from_xml(root):
    out = []
    for e in root:
        rt.check(e.tag == 'test', 'element')
        props = dict((k, v) for k, v in e.attrib.items() if k not in ('name', 'cwd'))
        argv = []
        for sub in e:
            vals = [x.get('value') for x in sub]
            rt.check(sub.tag in ('argv', 'labels'), 'element')
            if sub.tag == 'argv':
                argv = vals
            else:
                props['labels'] = vals
        out.append([e.get('name'), argv, os.path.normpath(e.get('cwd')), props])
    return out


def props_xml(props):
    out = {}
    for k, v in props.items():
        if k[0] == '_':
            continue
        out[k.lower()] = v.split(';') if k == 'LABELS' else v
    return out


def run(p, inp):
    fs = vfs.VFS(cwd='/v')
    files = {}
    for d, text in inp['files']:
        fs.add(d + '/CTestTestfile.cmake', text)
        files[d] = text
    roots = []
    saved = ET.ElementTree.write, ET.tostring

    def write(self, out, *a, **k):
        roots.append(self.getroot())

    def tostring(elem, *a, **k):
        roots.append(elem)
        return b''
    want = expected(files)
    try:
        ET.ElementTree.write, ET.tostring = write, tostring
        status, exc = vfs.run_main(ctest_to.main, ['--' + p['form'], TOP], fs)
    finally:
        ET.ElementTree.write, ET.tostring = saved
    rt.check(exc is None and status == 0, lambda: 'failed: %s' % exc)
    if p['form'] == 'json':
        got = from_json(''.join([t for t, _ in fs.stdout]))
    else:
        rt.check(len(roots) == 1, 'no xml')
        got = from_xml(roots[0])
    rt.check(len(got) == len(want), lambda: '%d tests reported instead of %d: %r' % (
        len(got), len(want), got))
    seen = []
    for name, argv, cwd, props in want:
        g = [x for x in got if x[2] == cwd and x[0] == name]
        rt.check(len(g) == 1, lambda: 'test %r of %s reported %d times' % (
            name, cwd, len(g)))
        g = g[0]
        rt.check(len(g[1]) == len(argv) and rt.conj(
            [a == b for a, b in zip(g[1], argv)]), lambda: 'argv %r instead of %r' % (g[1], argv))
        pr = props_json(props) if p['form'] == 'json' else props_xml(props)
        rt.check(sorted(g[3]) == sorted(pr), lambda: 'properties %r instead of %r' % (g[3], pr))
        for k in pr:
            rt.check(g[3][k] == pr[k], lambda: 'property %s is %r instead of %r' % (
                k, g[3][k], pr[k]))
        seen.append([name, argv, pr])
    return seen
