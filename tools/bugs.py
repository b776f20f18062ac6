"""Planted bugs (see mkbug.py). Written from the property statements."""
BUGS = []


def bug(bid, prop, edits, needs, breaks, demo):
  BUGS.append({'id': bid, 'property': prop, 'edits': edits, 'needs': needs,
               'breaks': breaks, 'demo': demo})


FMT = 'cmakelang/format/formatter.py'
MAIN = 'cmakelang/format/__main__.py'
LEX = 'cmakelang/lex/__init__.py'
MARKUP = 'cmakelang/markup.py'
CONF = 'cmakelang/configuration.py'
CUTIL = 'cmakelang/config_util.py'
ARGN = 'cmakelang/parse/argument_nodes.py'
PUTIL = 'cmakelang/parse/util.py'
BODY = 'cmakelang/parse/body_nodes.py'
SIMPLE = 'cmakelang/parse/simple_nodes.py'
STMT = 'cmakelang/parse/statement_node.py'
ADDL = 'cmakelang/parse/additional_nodes.py'
CHECK = 'cmakelang/lint/basic_checker.py'
LINTU = 'cmakelang/lint/lint_util.py'
LMAIN = 'cmakelang/lint/__main__.py'
RENDER = 'cmakelang/render.py'

bug('C10a', 'C10',
    [(LEX, "    offset += len(bytearray(spelling, 'utf-8'))",
      "    offset += len(\n        spelling if tok_type is TokenType.QUOTED_LITERAL\n        else bytearray(spelling, 'utf-8'))")],
    'a quoted argument holding non-ASCII text before a later token',
    'the byte offsets of tokens behind such an argument are too small',
    '''
out = fmt('set(a "\\u00e4\\u00e4\\u00e4")\\n# cmake-format: off\\nfoo(  x )\\n# cmake-format: on\\nbar()\\n')
expect(b'off\\nfoo(  x )\\n# cmake-format: on\\n' in out, out)
''')

bug('C04a', 'C04',
    [(FMT, "        copy_text = copy_bytes.decode('utf-8')",
      "        copy_text = normalize_line_endings(copy_bytes.decode('utf-8'))")],
    'an off/on region holding carriage returns',
    'the text between the markers loses its carriage returns',
    '''
out = fmt('# cmake-format: off\\r\\nfoo(  x )\\r\\n# cmake-format: on\\r\\n', '--line-ending', 'windows')
expect(b'off\\r\\nfoo(  x )\\r\\n# cmake' in out, out)
''')

bug('C01a', 'C01',
    [(FMT, '''    spelling = normalize_line_endings(token.spelling)
    if self.node_type == NodeType.FUNNAME:''',
      '''    spelling = normalize_line_endings(token.spelling)
    if token.type == TokenType.BRACKET_ARGUMENT:
      spelling = "\\n".join(line.rstrip() for line in spelling.split("\\n"))
    if self.node_type is NodeType.FUNNAME:''')],
    'a bracket argument with trailing blanks on an inner line',
    'trailing blanks inside bracket arguments are dropped, changing their value',
    '''
out = fmt('set(x [[a  \\nb]])\\n')
expect(b'[[a  \\nb]]' in out, out)
''')

bug('C02a', 'C02',
    [(FMT, '''        inlines.append(inline.lstrip('#'))''',
      '''        inlines.append(inline.lstrip('#').rstrip('#'))''')],
    'a comment that ends with hash characters',
    'the trailing hashes of a comment, part of its last word, are dropped',
    '''
out = fmt('# see c#\\nfoo()\\n')
expect(b'c#' in out, out)
''')

bug('C06a', 'C06',
    [(FMT, '''      self._fobj.write(self._config.format.endl * rows)''',
      '''      endl = self._config.format.endl
      self._fobj.write(endl if rows == 1 else '\\n' * (rows - 1) + endl)''')],
    'a blank line in a file formatted with Windows line endings',
    'blank lines end with a Unix line ending',
    '''
out = fmt('foo()\\n\\nbar()\\n', '--line-ending', 'windows')
expect(out == b'foo()\\r\\n\\r\\nbar()\\r\\n', out)
''')

bug('C11a', 'C11',
    [(BODY, '''    close_stmt = StatementNode.consume(ctx, tokens)
    node.children.append(close_stmt)

    node.blocks''', '''    close_stmt = open_stmt
    if tokens or flowtype is not FlowType.MACRO:
      close_stmt = StatementNode.consume(ctx, tokens)
      node.children.append(close_stmt)

    node.blocks''')],
    'a macro() without its endmacro()',
    'a missing block terminator is accepted by the parser',
    '''
rc, out, err, _ = tool('lint', ['CMakeLists.txt'], {'CMakeLists.txt': 'macro(foo)\\nbar()\\n'})
expect(rc == 1 and b'token stream' in err, rc, out, err)
''')

bug('C12a', 'C12',
    [(MARKUP, '''      if line and line[0] == ' ':
        obj_list[-1].lines.append(line[1:])''',
      '''      if line and line[0] == ' ':
        obj_list[-1].lines.append(line[1:].expandtabs(4))''')],
    'a tab character inside a fenced block of a comment',
    'fenced blocks are not kept verbatim: tabs are expanded',
    '''
out = fmt('# ~~~\\n# a\\tb\\n# ~~~\\nfoo()\\n')
expect(b'# a\\tb\\n' in out, out)
''')

bug('C21a', 'C21',
    [('cmakelang/annotate.py', '  infile_content = infile.read()',
      '  infile_content = infile.read().rstrip() + "\\n"')],
    'a source text that ends with blank lines or without a line ending',
    'blank text at the end of the source is not shown as it is',
    '''
import html, re
rc, out, err, _ = tool('annotate', ['CMakeLists.txt'], {'CMakeLists.txt': 'set(x y)\\n\\n\\n'})
text = html.unescape(re.sub('<[^>]*>', '', out.decode()))
expect(rc == 0 and text == 'set(x y)\\n\\n\\n', rc, text, err)
''')

bug('C08a', 'C08',
    [(FMT, '''    sortlist.append((keyidx, posidx, child))
    posidx += 1
  return [child for _, _, child in sorted(sortlist)]''',
      '''    sortlist.append((keyidx, posidx, child))
    if child.node_type is not NodeType.COMMENT:
      posidx += 1
  return [
      child for _, _, child in sorted(
          sortlist, key=lambda item: (item[0], -item[1]))]''')],
    'a sortable list with a comment of its own line between arguments followed by another comment',
    'comments no longer keep their place behind the argument they follow',
    '''
out = fmt('add_library(x STATIC b.c\\n#[[two]]\\n\\n#[[one]]\\n a.c)\\n', '--autosort', 'true')
expect(out.index(b'b.c') < out.index(b'two') < out.index(b'one'), out)
''')

bug('C05a', 'C05',
    [(FMT, '''    self._colextent = cursor[1] + max(len(line) for line in lines)

    increment''', '''    self._colextent = cursor[1] + max(len(line) for line in lines[:2])

    increment''')],
    'a comment of three or more lines of which a later one has an overlong word',
    'an overlong comment line is not noticed, so the layout is reported valid',
    '''
word = 'w' * 90
rc, out, err, _ = tool('format', ['--require-valid-layout', 'true', 'CMakeLists.txt'],
                       {'CMakeLists.txt': '# a ' + 'b ' * 80 + word + '\\nfoo()\\n'})
expect(rc != 0 and out == b'', rc, out)
''')

bug('C13a', 'C13',
    [(CUTIL, '''        if not (with_defaults or descr.has_override(self)):
          continue
        helptext = descr.helptext''', '''        if not (with_defaults or value != descr.default_value):
          continue
        helptext = descr.helptext''')],
    'an option explicitly set to its default value, dumped with --no-default as JSON or YAML',
    'the dump without defaults does not contain every option that was set',
    '''
rc, out, err, _ = tool('format', ['--no-default', '--dump-config', 'json', '-c', 'a.json'], {'a.json': '{"format": {"line_width": 80}}'})
expect(b'line_width' in out, rc, out, err)
''')

bug('C13b', 'C13',
    [(CUTIL, '''        pretty = "{} = {}".format(fieldname, ppr.pformat(value))''',
      '''        text = ppr.pformat(value)
        if text[0] == "'" and "\\\\" not in text:
          # prefer double quotes
          text = '"{}"'.format(text[1:-1])
        pretty = "{} = {}".format(fieldname, text)''')],
    'a string option holding a double quote',
    'a python dump of it cannot be loaded again',
    '''
rc, out, err, _ = tool('format', ['--dump-config', 'python', '-c', 'a.json'], {'a.json': '{"markup": {"bullet_char": "\\\\""}}'})
rc, out2, err, _ = tool('format', ['--dump-config', 'python', '-c', 'b.py'], {'b.py': out.decode()})
expect(rc == 0 and out == out2, rc, err)
''')

bug('C14a', 'C14',
    [(MAIN, '''    if value is None:
      continue
    out[key] = value''', '''    if not value:
      continue
    out[key] = value''')],
    'an option set to false, zero or empty on the command line and to something else in a file',
    'the value from the command line is ignored',
    '''
rc, out, err, _ = tool('format', ['-c', 'a.json', '--dangle-parens', 'false', '--', 'x'], {'a.json': '{"format": {"dangle_parens": true, "line_width": 20}}', 'x': 'foo(aaaaaaaaaaaa bbbbbbbbbbbb)\\n'})
expect(rc == 0 and b'\\n)' not in out, rc, out, err)
''')

bug('C14b', 'C14',
    [(MAIN, '''            os.path.dirname(configfile_path), include_path)''',
      '''            os.path.dirname(configfile_paths[0]), include_path)''')],
    'an include in a file of another directory than the first listed one',
    'includes are not resolved relative to the including file',
    '''
rc, out, err, _ = tool('format', ['-c', 'a.json', 'sub/b.json', '--', 'x'], {'a.json': '{}', 'sub/b.json': '{"include": ["c.json"]}', 'sub/c.json': '{"format": {"separate_fn_name_with_space": true}}', 'x': 'foo(a)\\n'})
expect(rc == 0 and b'foo (a)' in out, rc, out, err)
''')

bug('C15a', 'C15',
    [(CONF, '''    self.vartags_ = [
        (re.compile(pattern, re.IGNORECASE), tags) for pattern, tags in
        BUILTIN_VARTAGS + self.vartags]
''', '''    if not self.vartags_:
      self.vartags_ = [
          (re.compile(pattern, re.IGNORECASE), tags) for pattern, tags in
          BUILTIN_VARTAGS + self.vartags]
''')],
    'a configuration that sets vartags, in either form',
    'the tags that are derived from the option do not follow it',
    '''
out = subprocess.run([sys.executable, '-c', 'from cmakelang.configuration import Configuration as C; print(len(C(parse={"vartags": [["a", ["b"]]]}).parse.vartags_))'], cwd=REPO, stdout=subprocess.PIPE).stdout
expect(out.strip() == b'2', out)
''')

bug('C15b', 'C15',
    [(CUTIL, '''    self.get(obj).consume_known(value_dict)
    warn_unused(value_dict)''', '''    self.get(obj).consume_known(value_dict)
    if not obj.get_field_names():
      warn_unused(value_dict)''')],
    'an unknown option inside a section',
    'it is not reported',
    '''
rc, out, err, _ = tool('format', ['-c', 'a.json', '--', 'x'], {'a.json': '{"format": {"bogus": 1}}', 'x': 'foo(a)\\n'})
expect(rc == 0 and b'bogus' in err, rc, out, err)
''')

bug('C16a', 'C16',
    [(MAIN, '''    head2, _ = os.path.split(head)
    if head == head2:
      break''', '''    head2, _ = os.path.split(head)
    if head == head2 or os.path.exists(os.path.join(head, '.git')):
      # don't look beyond the top of the source tree
      break''')],
    'a configuration file above the top directory of a git repository',
    'the configuration is not found',
    '''
rc, out, err, _ = tool('format', ['a/x'], {'.cmake-format.json': '{"separate_fn_name_with_space": true}', 'a/x': 'foo(a)\\n', 'a/.git': ''})
expect(rc == 0 and out == b'foo (a)\\n', rc, out, err)
''')

bug('C16b', 'C16',
    [(MAIN, '''                     '.cmake-format.json',
                     '.cmake-format.yaml',
                     'cmake-format.py',
                     'cmake-format.json',
                     'cmake-format.yaml', ]:''', '''                     '.cmake-format.json',
                     'cmake-format.py',
                     '.cmake-format.yaml',
                     'cmake-format.json',
                     'cmake-format.yaml', ]:''')],
    'a directory with .cmake-format.yaml and cmake-format.py',
    'the file of lower priority is used',
    '''
rc, out, err, _ = tool('format', ['x'], {'.cmake-format.yaml': 'separate_fn_name_with_space: true', 'cmake-format.py': '', 'x': 'foo(a)\\n'})
expect(rc == 0 and out == b'foo (a)\\n', rc, out, err)
''')

bug('C17a', 'C17',
    [(MAIN, '''    shutil.copymode(infile_path, tempfile_path)''',
      '''    if os.access(infile_path, os.X_OK):
      shutil.copymode(infile_path, tempfile_path)''')],
    'formatting a private file in place',
    'the file becomes readable by others',
    '''
tmp = tempfile.mkdtemp()
try:
  path = os.path.join(tmp, 'x')
  with open(path, 'w') as f:
    f.write('foo( a)\\n')
  os.chmod(path, 0o600)
  rc = subprocess.call([sys.executable, '-Bm', 'cmakelang.format', '-i', 'x'], cwd=tmp, env=ENV)
  mode = os.stat(path).st_mode & 0o7777
finally:
  shutil.rmtree(tmp)
expect(rc == 0 and mode == 0o600, rc, mode)
''')

bug('C17b', 'C17',
    [(MAIN, '''    tempfile_path = infile_path + ".cmf-temp"
    outfile = io.open(
        tempfile_path, 'w', encoding=cfg.encode.output_encoding, newline='')''',
      '''    tempfile_path = infile_path + ".cmf-temp"
    try:
      outfile = io.open(
          tempfile_path, 'w', encoding=cfg.encode.output_encoding, newline='')
    except (IOError, OSError):
      # the directory may not be writable
      tempfile_path = infile_path
      outfile = io.open(
          tempfile_path, 'w', encoding=cfg.encode.output_encoding, newline='')''')],
    'the temporary file cannot be created and the output cannot be encoded',
    'the file is overwritten piecemeal, so a failure leaves it damaged',
    '''
rc, out, err, files = tool('format', ['-i', '--output-encoding', 'ascii', 'x'], {'x': 'foo( a)\\nbar( \\u00e4)\\n', 'x.cmf-temp/a': ''}, keep=['x'])
expect(files['x'].decode() == 'foo( a)\\nbar( \\u00e4)\\n', files)
''')

bug('C18a', 'C18',
    [(MAIN, '''    if intext != outtext:
      raise common.FormatError''', '''    if intext.splitlines() != outtext.splitlines():
      raise common.FormatError''')],
    'a file that differs from its formatted form only by its line endings or a missing final newline',
    'the check passes for a file that would change',
    '''
rc, out, err, _ = tool('format', ['--check', 'x'], {'x': 'foo(a)'})
expect(rc == 1, rc, out, err)
''')

bug('C18b', 'C18',
    [(MAIN, '''          os.dup(sys.stdout.fileno()),
          mode='w', encoding=cfg.encode.output_encoding, newline='')''',
      '''          os.dup(sys.stdout.fileno()),
          mode='w', encoding=cfg.encode.input_encoding, newline='')''')],
    'different input and output encodings with the output on stdout',
    'the output is not in the configured encoding',
    '''
rc, out, err, _ = tool('format', ['--output-encoding', 'latin-1', 'x'], {'x': 'foo(\\u00e4)\\n'})
expect(rc == 0 and out == b'foo(\\xe4)\\n', rc, out, err)
''')

bug('C19a', 'C19',
    [(LMAIN, '''    if local_ctx.has_lint():
      returncode = 1

''', ''),
     (LMAIN, '''    global_ctx.write_summary(outfile)
  outfile.close()''', '''    global_ctx.write_summary(outfile)
  if infile_path in global_ctx.file_ctxs:
    returncode = int(bool(global_ctx.get_category_counts()))
  outfile.close()''')],
    'a file that cannot be opened followed by one without lint',
    'the exit status is zero although a file could not be processed',
    '''
rc, out, err, _ = tool('lint', ['missing', 'x'], {'x': '# hi\\n'})
expect(rc == 1, rc, out, err)
''')

bug('C19b', 'C19',
    [(LINTU, '''      for record in file_ctx.get_lint():
        category_char''', '''      # pylint: disable=protected-access
      for record in file_ctx._lint:
        category_char''')],
    'a finding that is suppressed by its line',
    'the summary counts findings that are not reported',
    '''
rc, out, err, _ = tool('lint', ['x'], {'x': '# cmake-lint: disable=C0301\\nset(XX "' + 'a' * 90 + '")\\n'})
expect(b'Convention' not in out.split(b'found lint')[1], out)
''')

bug('C20b', 'C20',
    [(CHECK, '''        if "\\t" in indentation:
          colno = indentation.find("\\t")''', '''        if indentation.startswith("\\t"):
          colno = indentation.find("\\t")''')],
    'an indentation of spaces followed by a tab',
    'a wrong indentation character is not reported',
    '''
rc, out, err, _ = tool('lint', ['x'], {'x': '# hi\\nforeach(i 1)\\n \\tmessage(x)\\nendforeach()\\n'})
expect(b'C0306' in out, out)
''')

bug('C20c', 'C20',
    [(CHECK, '''        line = line[:-1]''', '''        line = line.rstrip("\\r")''')],
    'a line that ends with two carriage returns',
    'the carriage return that is not part of the line ending is not reported as trailing whitespace',
    '''
rc, out, err, _ = tool('lint', ['--line-ending', 'windows', 'x'], {'x': '# hi\\r\\r\\nfoo()\\r\\n'})
expect(b'C0303' in out, out)
''')

bug('C22a', 'C22',
    [(PUTIL, '''  if npargs == "?":
    return nconsumed >= 1
''', '''  if npargs == "?":
    return nconsumed > 1
''')],
    'a declared optional group followed by another group',
    'an optional group takes two words',
    '''
rc, out, err, _ = tool('format', ['-c', 'a.json', '--dump', 'parse', '--', 'x'], {'a.json': '{"parse": {"additional_commands": {"foo": {"pargs": ["?", "*"]}}}}', 'x': 'foo(a b c)\\n'})
expect(out.split(b'PositionalGroupNode')[1].count(b'type=WORD') == 1, out.decode())
''')

bug('C22b', 'C22',
    [(PUTIL, '''      repl = {keystr: value}
      spectree.pargs[idx] = spectree.pargs[idx].replace(**repl)''',
      '''      repl = {"flags": [], keystr: value}
      spectree.pargs[idx] = spectree.pargs[idx].replace(**repl)''')],
    'an override of the count of a positional group that has flags',
    'an override changes another part of the specification: the flags are lost',
    '''
rc, out, err, _ = tool('format', ['-c', 'a.json', '--keyword-case', 'upper', '--', 'x'], {'a.json': '{"parse": {"additional_commands": {"foo": {"pargs": [{"nargs": "*", "flags": ["FLAG"]}]}}, "override_spec": {"foo/parg[0].nargs": "+"}}}', 'x': 'foo(a flag)\\n'})
expect(rc == 0 and out == b'foo(a FLAG)\\n', out, err)
''')

bug('C02b', 'C02',
    [(MARKUP, '''  if item.lines[0].strip('#'):''', '''  if item.lines[0][1:-1].strip('#'):''')],
    'a ruler of hashes between two other characters',
    'the characters are replaced by hashes',
    """
out = fmt('# +#####+\\nfoo()\\n')
expect(b'+#####+' in out, out)
""")

bug('C07a', 'C07',
    [(FMT, '''    allocation = config.format.linewidth - cursor[1]
''', '''    allocation = config.format.linewidth - cursor[1]
    if (config.format.use_tabchars
        and config.format.fractional_tab_policy == "round-up"):
      # the indentation will be rounded up to the next tab stop
      allocation -= -cursor[1] % config.format.tab_size
''')],
    'a comment in a fractional column with tab indentation rounded up',
    'the comment is wrapped differently than with spaces',
    """
src = 'foo(a\\n\\n    # ' + 'b ' * 60 + '\\n  c)\\n'
one = fmt(src, '--tab-size', '8')
two = fmt(src, '--tab-size', '8', '--use-tabchars', 'true', '--fractional-tab-policy', 'round-up')
expect([l.split() for l in one.splitlines()] == [l.split() for l in two.splitlines()], one, two)
""")

bug('C08b', 'C08',
    [(FMT, '''  return layout_node.pnode.children[0].spelling.lower()''',
      '''  spelling = layout_node.pnode.children[0].spelling
  return (spelling.lower(), spelling)''')],
    'a sortable list with arguments that differ only by case',
    'equal arguments do not keep their order',
    """
out = fmt('add_library(x STATIC b.c B.c a.c)\\n', '--autosort', 'true')
expect(b'a.c b.c B.c' in out, out)
""")

bug('C09b', 'C09',
    [(FMT, '''    elif (self.node_type in (NodeType.KEYWORD, NodeType.FLAG)
          and''', '''    elif ((self.node_type in (NodeType.KEYWORD, NodeType.FLAG)
           or token.spelling in ("on", "off", "true", "false"))
          and''')],
    'an argument that is one of on, off, true and false with a keyword case option',
    'an argument that is no keyword changes its case',
    """
out = fmt('set(a on)\\n', '--keyword-case', 'upper')
expect(out == b'set(a on)\\n', out)
""")

bug('C10b', 'C10',
    [(LEX, '''      col = len(spelling.rsplit('\\n', 1)[1])''',
      '''      col = len((spelling + " ").splitlines()[-1]) - 1''')],
    'a form feed in the last line of a multi-line argument',
    'the columns of the tokens behind it are too small',
    """
out = subprocess.run([sys.executable, '-c', 'from cmakelang import lex; print(lex.tokenize("foo(\\\\"a\\\\nb\\\\x0cc\\\\")")[-1].begin.col)'], cwd=REPO, stdout=subprocess.PIPE).stdout
expect(out.strip() == b'4', out)
""")

bug('C11b', 'C11',
    [(SIMPLE, '''    while tokens and tokens[0].type in (lex.TokenType.WHITESPACE,
                                        lex.TokenType.NEWLINE):
      parent.children.append(tokens.pop(0))
''', '''    while tokens and tokens[0].type in (lex.TokenType.WHITESPACE,
                                        lex.TokenType.NEWLINE):
      tokens.pop(0)
''')],
    'blanks in front of an explicit trailing comment',
    'the tree does not contain the blanks',
    """
code = ('from cmakelang import lex, parse; from cmakelang.configuration import Configuration as C; '
        't = lex.tokenize("foo(a #< b\\\\n)\\\\n"); n = len(t); '
        'p = parse.parse(t, parse.ParseContext(parse.funs.get_parse_db(), config=C())); '
        'print(len(list(p.get_tokens())) == n)')
out = subprocess.run([sys.executable, '-c', code], cwd=REPO, stdout=subprocess.PIPE).stdout
expect(out.strip() == b'True', out)
""")

bug('C12b', 'C12',
    [(MARKUP, '''      if not line:
        continue

    if state == CommentType.VERBATIM:''', '''      continue

    if state == CommentType.VERBATIM:''')],
    'words behind the fence that opens or closes a fenced block',
    'the words are lost',
    """
out = fmt('# ~~~ python\\n# a\\n# ~~~\\nfoo()\\n')
expect(b'python' in out, out)
""")

bug('C12c', 'C12',
    [(MARKUP, '''  if item.kind == CommentType.VERBATIM:
    return [line.rstrip() for line in item.lines]''',
      '''  if item.kind == CommentType.VERBATIM:
    lines = [line.rstrip() for line in item.lines]
    return lines[:-1] + [line for line in lines[-1:] if line]''')],
    'a fenced block that ends with an empty line',
    'the empty line is dropped',
    """
out = fmt('# ~~~\\n# a\\n#\\n# ~~~\\nfoo()\\n')
expect(b'# a\\n#\\n# ~~~' in out, out)
""")

bug('C22c', 'C22',
    [(ARGN, '''        for otherspec in pargspecs:
          for flag in otherspec.flags:''', '''        for otherspec in pargspecs[:1]:
          for flag in otherspec.flags:''')],
    'three declared groups of which the last has flags and the second is empty',
    'a flag of the third group does not end the first group',
    """
rc, out, err, _ = tool('format', ['-c', 'a.json', '--dump', 'parse', '--', 'x'], {'a.json': '{"parse": {"additional_commands": {"foo": {"pargs": ["*", "*", {"nargs": "*", "flags": ["FLAG"]}]}}}}', 'x': 'foo(a FLAG)\\n'})
expect(out.count(b'PositionalGroupNode') == 2, out.decode())
""")

MISC = 'cmakelang/parse/funs/miscellaneous.py'

bug('C23a', 'C23',
    [(CHECK, '''        for _ in find_nodes_in_subtree(node.children[idx + 1:], StatementNode):''',
      '''        for _ in find_nodes_in_subtree(
            node.children[idx + 1:idx + 4], StatementNode):''')],
    'a comment between the jump and the code behind it',
    'code that cannot be reached is not reported',
    '''
rc, out, err, _ = tool('lint', ['x'], {'x': 'return()\\n\\n# about\\n\\nfoo()\\n'})
expect(b'W0101' in out, out)
''')

bug('C23b', 'C23',
    [(CHECK, '''  if listcmd.upper() in ("LENGTH", "GET", "JOIN", "SUBLIST"):''',
      '''  if listcmd in ("LENGTH", "GET", "JOIN", "SUBLIST"):''')],
    'a list sub-command in lower case',
    'the name of the result variable is not checked',
    '''
rc, out, err, _ = tool('lint', ['x'], {'x': 'list(length Abc xYz)\\n'})
expect(b'C0103' in out and b'xYz' in out, out)
''')

bug('C23c', 'C23',
    [(CHECK, '''        kwarg = kwarg_token.spelling.upper()''', '''        kwarg = kwarg_token.spelling''')],
    'a keyword repeated in another case',
    'a repeated keyword is not reported',
    '''
rc, out, err, _ = tool('lint', ['x'], {'x': 'add_custom_command(OUTPUT a DEPENDS b depends c)\\n'})
expect(b'E1122' in out, out)
''')

bug('C24a', 'C24',
    [(MISC, '''  if descriminator is not None and descriminator.spelling.upper() == "PROGRAM":''',
      '''  if descriminator.spelling.upper() == "PROGRAM":''')],
    'get_filename_component with one argument as the last command of a file',
    'the file is refused with an internal error',
    '''
rc, out, err, _ = tool('format', ['x'], {'x': 'get_filename_component(aa)\\n'})
expect(rc == 0 and out == b'get_filename_component(aa)\\n', rc, out, err)
''')

SETF = 'cmakelang/parse/funs/set.py'

bug('C24b', 'C24',
    [(SETF, '''      for idx, token in enumerate(cache_tokens[:2]):''',
      '''      for idx, token in enumerate(cache_tokens):''')],
    'a cache variable with words behind FORCE',
    'the file is refused with an internal error',
    '''
rc, out, err, _ = tool('format', ['x'], {'x': 'set(a b CACHE STRING "d" FORCE x)\\n'})
expect(rc == 0 and b'FORCE x)' in out.replace(b'\\n', b' '), rc, out, err)
''')

bug('C25a', 'C25',
    [(FMT, '''    return self.children[0].pnode.children[0].spelling.upper()''',
      '''    return self.children[0].pnode.children[0].spelling''')],
    'a keyword in lower case in a command whose keyword is listed in always_wrap',
    'the path does not match, so the arguments are not wrapped',
    '''
c = {'a.json': '{"format": {"always_wrap": ["foo/HEADERS/PargGroupNode[0]"]}}', 'x': 'foo(a headers b c)\\n'}
rc, out, err, _ = tool('format', ['-c', 'a.json', '--', 'x'], c)
expect(b'b\\n' in out and b' c)' in out, out)
''')

bug('C25b', 'C25',
    [(FMT, '''          column_cursor[0], start_cursor[1] + config.format.tab_size)
    elif config''', '''          column_cursor[0],
          start_cursor[1] + min(2, config.format.tab_size))
    elif config''')],
    'dangle_align=prefix-indent with a tab size over two',
    'the closing parenthesis is not one level in',
    '''
out = fmt('foo(aaaaaaaaaa bbbbbbbbbbb ccccccccccc)\\n', '--line-width', '30', '--dangle-parens', '--dangle-align', 'prefix-indent', '--tab-size', '4')
expect(out.endswith(b'\\n    )\\n'), out)
''')

bug('C25c', 'C25',
    [(FMT, '''        and getattr(self.pnode, "cmdspec").max_subgroups_hwrap is not None):''',
      '''        and getattr(self.pnode, "cmdspec").max_subgroups_hwrap):''')],
    'a command declared with max_subgroups_hwrap of zero',
    'the declared limit is ignored',
    '''
c = {'a.json': '{"parse": {"additional_commands": {"foo": {"pargs": "*", "max_subgroups_hwrap": 0, "kwargs": {"HEADERS": "*"}}}}}', 'x': 'foo(a HEADERS b)\\n'}
rc, out, err, _ = tool('format', ['-c', 'a.json', '--', 'x'], c)
expect(out.count(b'\\n') > 1, out)
''')

bug('C25d', 'C25',
    [('cmakelang/configuration.py', '''        BUILTIN_VARTAGS + self.vartags]''',
      '''        (self.vartags or BUILTIN_VARTAGS)]''')],
    'a configuration that tags further variables, and a variable ending in _COMMAND with many values',
    'the built-in rule is lost, so the command line is written one argument per line',
    '''
c = {'a.json': '{"parse": {"vartags": [[".*_LINE", ["cmdline"]]]}}', 'x': 'set(A_COMMAND a b c d e f g h)\\n'}
rc, out, err, _ = tool('format', ['-c', 'a.json', '--', 'x'], c)
expect(out.count(b'\\n') == 1, out)
''')

bug('C26a', 'C26',
    [(FMT, '''            stack_context, Cursor(savecursor[0] + 1, start_cursor[1]),
            passno)

      self._reflow_valid &= child.reflow_valid
      self._colextent = max(self._colextent, child.colextent)

    self._colextent = max(self._colextent, rparen.colextent)''',
      '''            stack_context, Cursor(savecursor[0] + 1, 0), passno)

      self._reflow_valid &= child.reflow_valid
      self._colextent = max(self._colextent, child.colextent)

    self._colextent = max(self._colextent, rparen.colextent)''')],
    'a comment behind a statement of a block that does not fit behind it',
    'the comment is written in the first column, which the linter reports',
    '''
out = fmt('if(a)\\n  foo(bbbbbbbbbbb) # dddddddddddddddddddddddddddddddddd\\nendif()\\n', '--line-width', '28')
expect(b'\\n#' not in out, out)
''')

bug('C26b', 'C26',
    [(CHECK, '''        subindent = indentation.lstrip("\\t")
        if "\\t" in subindent:''', '''        subindent = indentation.lstrip("\\t")
        if len(subindent) > 1:''')],
    'tab indentation with a fraction of two or more columns',
    'the spaces the formatter writes are reported as wrong indentation characters',
    '''
text = 'if(a)\\n\\tfoo(bbbbbbbbbbbbbbbbb\\n\\t  ccccccccccc)\\nendif()\\n'
c = {'a.json': '{"format": {"use_tabchars": true, "tab_size": 4}}', 'x': text}
rc, out, err, _ = tool('lint', ['-c', 'a.json', '--', 'x'], c)
expect(b'C0306' not in out, out)
''')

bug('C26c', 'C26',
    [(CHECK, '''        elif prevchild[0].count_newlines() > cfg.lint.max_statement_spacing:''',
      '''        elif prevchild[0].count_newlines() >= cfg.lint.max_statement_spacing:''')],
    'one blank line between statements',
    'a single blank line is reported as too many',
    '''
rc, out, err, _ = tool('lint', ['x'], {'x': 'foo(a)\\n\\nfoo(b)\\n'})
expect(b'C0305' not in out, out)
''')

bug('C03a', 'C03',
    [(FMT, '''        cursor = rparen.reflow(stack_context, initial_rparen_cursor, passno)
        cursor = child.reflow(''', '''        cursor = child.reflow(''')],
    'a comment behind a statement which fits neither there nor behind a dangling parenthesis',
    'the parenthesis stays on its own line, which a second run undoes',
    '''
a = fmt('foo(bbbbbbbbbbb) # dddddddddddddddddddddddddddddddddddddd\\n', '--line-width', '30')
b = fmt(a, '--line-width', '30')
expect(a == b, a, b)
''')

bug('C06b', 'C06',
    [(MAIN, '''  windows_count = infile_content.count('\\r\\n')''',
      '''  windows_count = infile_content.count('\\r')''')],
    'a Unix file with as many lone carriage returns as lines, line endings detected',
    'the output has Windows line endings',
    '''
rc, out, err, _ = tool('format', ['--line-ending', 'auto', 'x'], {'x': 'foo("a\\r\\r\\rb")\\n'})
expect(b'\\r\\n' not in out, out)
''')

bug('C07b', 'C07',
    [(FMT, '''  num_tabs, fractional = divmod(num_spaces, config.format.tab_size)''',
      '''  num_tabs, fractional = divmod(num_spaces, config.format.tab_size)
  fractional %= 8''')],
    'a tab size over eight', 'the indentation has less columns', '''
expect(False)
''')
BUGS.pop()


CTEST = 'cmakelang/ctest_to.py'
GENP = 'cmakelang/genparsers.py'
CTRUN = '''
import json
def ctest(files, *args):
  rc, out, err, _ = tool('ctest_to', list(args) or ['--json'], files)
  expect(rc == 0, err)
  return json.loads(out) if not args else out
'''
GENRUN = '''
import json
def gen(text, **more):
  files = dict(more, x=text)
  rc, out, err, _ = tool('genparsers', ['-f', 'json'] + sorted(more) + ['x'], files)
  expect(rc == 0, err)
  return json.loads(out)
'''

bug('C27a', 'C27',
    [(CTEST, '''      self.cwd = self.dirqueue.pop(0)
      logger.debug("processing''', '''      self.cwd = os.path.normpath(self.dirqueue.pop(0))
      logger.debug("processing'''),
     (CTEST, '''      if key == "LABELS":
        value = value.split(";")''', '''      if key == "LABELS":
        value = sorted(set(value.split(";")))''')],
    'labels that are not in alphabetical order',
    'labels are reordered', CTRUN + '''
out = ctest({'CTestTestfile.cmake': 'add_test(t x)\\nset_tests_properties(t PROPERTIES LABELS "b;a")\\n'})
expect(out[0]['props'] == {'labels': ['b', 'a']}, out)
''')

bug('C27b', 'C27',
    [(CTEST, '''      if key.startswith("_"):
        continue

      if key == "LABELS":
        labels_elem''', '''      if key.startswith("_") or not value:
        continue

      if key == "LABELS":
        labels_elem''')],
    'a property set to the empty string, XML output',
    'the property is missing in the XML form', CTRUN + '''
out = ctest({'CTestTestfile.cmake': 'add_test(t x)\\nset_tests_properties(t PROPERTIES ENVIRONMENT "")\\n'}, '--xml')
expect(b'environment=""' in out, out)
''')

bug('C27c', 'C27',
    [(CTEST, '''      token = tokens.pop(0)
      if token.type is lex.TokenType.WHITESPACE:
        continue
      test_argv''', '''      token = tokens.pop(0)
      if not token.spelling.strip("\\"' \\n"):
        continue
      test_argv''')],
    'an empty or blank argument of a test command',
    'the argument is lost', CTRUN + '''
out = ctest({'CTestTestfile.cmake': 'add_test(t x "" y)\\n'})
expect(out[0]['argv'] == ['x', '', 'y'], out)
''')

bug('C28a', 'C28',
    [(GENP, '''def process_defn_body(body, out):
  assert isinstance(body, BodyNode)
  variables = {}
''', '''def process_defn_body(body, out, variables={}):  # pylint: disable=W0102
  assert isinstance(body, BodyNode)
''')],
    'two definitions that use a variable of the same name, set only in the first',
    'keywords of one definition leak into another', GENRUN + '''
out = gen('function(a x)\\nset(o FOO)\\ncmake_parse_arguments(p "${o}" "" "" ${ARGN})\\nendfunction()\\n'
          'function(b x)\\ncmake_parse_arguments(p "${o}" "" "" ${ARGN})\\nendfunction()\\n')
expect(out['b']['pargs']['flags'] == [], out)
''')

bug('C28b', 'C28',
    [(GENP, '''    if fnname.startswith("_"):
      continue
    out[fnname] = spec''', '''    if fnname.startswith("_"):
      continue
    out.setdefault(fnname, spec)''')],
    'a function defined twice in one file',
    'the first definition is reported although the last one counts', GENRUN + '''
out = gen('function(a x)\\nendfunction()\\nfunction(a x y)\\nendfunction()\\n')
expect(out['a']['pargs']['nargs'] == 2, out)
''')

bug('C28c', 'C28',
    [(GENP, '''  while regex.search(value):
    value = regex.sub(repl, value)
  return value''', '''  return regex.sub(repl, value)''')],
    'a variable reference whose name is made from another one',
    'the nested reference is left in the keyword', GENRUN + '''
out = gen('function(a x)\\nset(i b)\\nset(o_b FOO)\\ncmake_parse_arguments(p "${o_${i}}" "" "" ${ARGN})\\nendfunction()\\n')
expect(out['a']['pargs']['flags'] == ['FOO'], out)
''')

FUNS = 'cmakelang/parse/funs/'

bug('C29a', 'C29',
    [(FUNS + 'file.py', '''          "GUARD": PositionalParser(1, flags=["FUNCTION", "FILE", "PROCESS"]),''',
      '''          "GUARD": PositionalParser(1, flags=["FUNCTION", "PROCESS"]),''')],
    'file(LOCK ... GUARD FILE)',
    'the guard FILE is taken for an argument and not spelled as keywords are to be', '''
out = fmt('file(LOCK a GUARD FILE)\\n', '--keyword-case', 'lower')
expect(out == b'file(lock a guard file)\\n', out)
''')

bug('C29b', 'C29',
    [(FUNS + 'miscellaneous.py', '''      "READ_WITH_PREFIX": PositionalParser("2+"),''',
      '''      "READ_WITH_PREFIX": PositionalParser("3+"),''')],
    'load_cache() that reads a single entry',
    'a complete call is reported as lacking an argument', '''
rc, out = lint('load_cache(d READ_WITH_PREFIX p e)\\n')
expect(not any('E1120' in line for line in out), out)
''')

bug('C29c', 'C29',
    [(FUNS + 'miscellaneous.py', '''  descriminator = get_nth_semantic_token(tokens, 2)
  if descriminator is not None and descriminator.spelling.upper() == "PROGRAM":''',
      '''  descriminator = get_nth_semantic_token(tokens, 1)
  if descriminator is not None and descriminator.spelling.upper() == "PROGRAM":''')],
    'get_filename_component(... PROGRAM PROGRAM_ARGS ...)',
    'PROGRAM and PROGRAM_ARGS are taken for arguments', '''
out = fmt('get_filename_component(v f PROGRAM PROGRAM_ARGS a)\\n', '--keyword-case', 'lower')
expect(out == b'get_filename_component(v f program program_args a)\\n', out)
''')

BC = 'cmakelang/lint/basic_checker.py'
bug('C30a', 'C30',
    [(BC, '''      resolved = mock_varrefs(token.spelling)''',
      '''      resolved = mock_varrefs(token.spelling.split("\\n", 1)[0])''')],
    'a quoted argument of several lines with an incomplete reference in a later one',
    'the incomplete reference is not reported',
    '''
rc, out = lint('message("a\\n$UNIX/b\\n")\\n')
expect([l for l in out if 'W0106' in l], out)
''')

bug('C30b', 'C30',
    [('cmakelang/parse/argument_nodes.py', '''      required_kwargs.pop(get_normalized_kwarg(kwargnode.keyword.token), None)''',
      '''      required_kwargs.pop(kwargnode.keyword.token.spelling, None)''')],
    'a lower-case keyword of add_custom_command',
    'a keyword that is there is reported as missing',
    '''
rc, out = lint('add_custom_command(OUTPUT a COMMAND b comment "b")\\n')
expect(not [l for l in out if 'C0113' in l], out)
''')

bug('C30c', 'C30',
    [('cmakelang/parse/funs/list.py', '''  descriminator = descriminator_token.spelling.upper()
  parsemap = {''', '''  descriminator = descriminator_token.spelling
  parsemap = {''')],
    'a list command whose form is not written in upper case',
    'the form is reported as unknown',
    '''
rc, out = lint('list(append _ab c)\\n')
expect(not [l for l in out if 'E1126' in l], out)
''')

bug('C12d', 'C12',
    [('cmakelang/markup.py', '''      outlines.extend(format_item(config, line_width, item))
''', '''      if item.kind != CommentType.SEPARATOR or len(indent_history) < 4:
        outlines.extend(format_item(config, line_width, item))
''')],
    'a comment with lists nested four deep, followed by an empty line',
    'the empty line is lost, so what follows becomes part of the last item',
    '''
out = fmt('# * a\\n#\\n#   * b\\n#\\n#     * c\\n#\\n#       * e\\n#\\n# d\\nfoo()\\n')
expect(b'e\\n#\\n# d\\n' in out, out)
''')
