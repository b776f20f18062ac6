#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the statements stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=observe or [],hook_needed=None)))
F='cmakelang/format/formatter.py'; M='cmakelang/format/__main__.py'; L='cmakelang/lex/__init__.py'
p('C01','Formatting preserves the program: same commands, same arguments, same order',
 'For every listfile that the formatter accepts, the formatted text contains exactly the same command invocations with exactly the same arguments, in the same order and nesting of parentheses, as the input. The only permitted differences in an argument or command are the letter case of command names and keywords when a case option asks for it, the order of arguments inside a list that sorting is enabled for, and the kind of line break inside a multi-line argument. In particular no argument is dropped, duplicated, split, merged, re-quoted or swallowed by a comment.',
 ['inputs','configurations'],'all listfile texts (any characters in names, arguments, quoted/bracket arguments, comments between them) and all values of the layout options (width, tab size, hwrap limits, dangle, spacing)',
 'The tests compare a few hundred fixed snippets at mostly the default width; a loss that needs a particular character, comment position, length or width combination is never sampled.',
 [F,M,L,'cmakelang/parse/'],[('box tree construction and writing',F+' create_box_tree, *Node.write, CursorFile.write_at'),('argument sub-parsers','cmakelang/parse/argument_nodes.py, cmakelang/parse/funs/*.py')],['output text of process_file'])
p('C02','Formatting preserves every comment and never lets one swallow code',
 'Every line or bracket comment of the input appears in the output exactly once, in the same order relative to the other comments, carrying the same words (bracket comments the same text), and attached between the same neighbouring code elements apart from moving across a parenthesis or within the argument it trails. No text that was code becomes part of a comment and no comment text becomes code. This holds for ordinary, trailing, explicit-trailing and tag comments, at file level, between arguments and after a closing parenthesis.',
 ['inputs','configurations'],'all listfiles with comments in any position and any comment text, for all widths and layout options',
 'Tests pin a dozen comment placements; whether a line comment is followed by a newline depends on layout decisions that vary with every width, argument length and neighbour.',
 [F,'cmakelang/parse/simple_nodes.py','cmakelang/parse/util.py','cmakelang/markup.py'],[('forced wrap after a terminal comment',F+' has_terminal_comment, StatementNode._reflow, PargGroupNode._reflow'),('comment consumption','cmakelang/parse/simple_nodes.py CommentNode.consume*')],['output text of process_file'])
p('C03','Formatting is idempotent',
 'Formatting the output of the formatter again with the same configuration reproduces that output byte for byte. Consequently a file that has just been formatted in place passes a check run with the same options, and repeated runs never drift.',
 ['inputs','configurations'],'all listfiles built from flow-control blocks, commands with positional arguments, keywords, nested parentheses, blank lines and single-line comments, for all argument lengths, widths, tab sizes and layout options',
 'Only a handful of tests format twice; drift needs a width at which the first result is read back differently.',
 [F,M,'cmakelang/markup.py'],[('layout passes depend only on tokens',F+' LayoutNode.reflow'),('stable comment wrapping','cmakelang/common.py stable_wrap')],['output text of process_file applied twice'])
p('C04','Text between format-off and format-on markers is copied verbatim',
 'Every character of the input between the end of a format-off comment and the start of the matching format-on comment appears unchanged in the output between the two markers, whatever precedes it (non-ASCII text, a byte-order mark, multi-line arguments) and whatever it contains. If formatting is switched off and never on again, everything up to the end of the file is kept verbatim, a repeated off inside an off region changes nothing, and code outside the regions is formatted as if the region were an opaque block. Only line comments that start with the documented marker, as complete words, act as switches. An unterminated region may gain the configured line ending at the end of the file.',
 ['inputs'],'all texts before, inside and after a region, including multi-byte characters, Windows line endings, unterminated and repeated markers',
 'The tests have two ASCII regions; offsets in bytes versus characters, BOMs, CRLF and missing markers are not sampled.',
 [F,L],[('byte offsets recorded by the tokenizer',L+' tokenize'),('raw transcription',F+' OnOffSwitchNode.write, WriteContext')],['output text of process_file'])
p('C05','A layout accepted as valid fits the configured line width',
 'Whenever formatting reports a valid layout, no output line made of reflowable content is longer than the configured line width; when it cannot fit, it reports an invalid layout. With the require-valid-layout option an invalid layout makes the run fail with a non-zero status and write nothing, and without it the last attempt is written.',
 ['inputs','configurations'],'all statements (argument counts, argument lengths, nesting, comments) and all line widths, tab sizes and wrap limits',
 'Tests exercise width 80 with fixed texts; the off-by-one at the closing parenthesis or trailing comment only shows when length and width meet exactly.',
 [F,M],[('extent tracking',F+' _reflow, _validate_layout'),('layout pass iteration',F+' LayoutNode.reflow')],['reported validity and output lines of process_file'])
p('C06','Output line endings follow the configuration everywhere',
 'Every line of the formatted output, including those inside multi-line arguments and comments, ends with the configured line ending and the file ends with exactly one; with the automatic setting the ending that is more frequent in the input is used (Unix on a tie). No other carriage return or trailing blank is introduced, and the choice of ending affects nothing else in the output.',
 ['inputs','configurations'],'all inputs mixing LF and CRLF in any positions (between and inside tokens) and all three line-ending settings',
 'Tests use homogeneous files; mixed endings inside strings, comments and at end of file are not sampled.',
 [M,F],[('detection',M+' detect_line_endings'),('normalisation',F+' normalize_line_endings, CursorFile')],['output text of process_file'])
p('C07','Tab indentation changes leading whitespace only, at the same columns',
 'With tab indentation enabled the output equals the space-indented output except for the whitespace at the start of lines. There each indent is replaced by one tab per full tab stop, and the remainder is either kept as spaces or rounded up to one more tab according to the fractional policy, so that with the keep policy expanding tabs restores the original columns.',
 ['inputs','configurations'],'all indents and line contents, all tab sizes, both fractional policies',
 'Tests cover two indents at one tab size.',[F],[('tab replacement',F+' replace_with_tabs, count_indentation')],['output text of process_file'])
p('C08','Argument sorting is an opt-in stable permutation that keeps comments attached',
 'When sorting applies to an argument list, the arguments are reordered into case-insensitive order, equal ones keep their input order, every argument appears exactly once, and each comment stays with the argument it follows. Lists are reordered only when automatic sorting is enabled and the list is known, declared or annotated to be sortable; an unsortable annotation, or a command form hidden behind a variable reference, prevents it. With sorting disabled the order never changes.',
 ['inputs','configurations'],'all argument names (case, length, ties, comments between them), all annotations, all sort options',
 'Tests sort three fixed lists; ties, case collisions, comments and annotation placement are combinatorial.',
 [F,'cmakelang/parse/funs/add_library.py','cmakelang/parse/funs/add_executable.py','cmakelang/parse/argument_nodes.py'],[('sort',F+' sort_arguments, PargGroupNode.lock'),('sortability inference','cmakelang/parse/funs/add_library.py parse_add_library')],['output text of process_file'])
p('C09','Case options change only command names and keywords',
 'With a case option the spelling of each command name (respectively of each recognised keyword and flag) is exactly its lower-case, upper-case, canonical or unchanged form as configured, per-command overrides winning over the global setting and matching names in any case. No other argument, comment or string has its case changed.',
 ['inputs','configurations'],'all spellings of names and keywords, all case options and per-command overrides',
 'Tests check a few spellings; the combination of option, override, spelling case and argument that merely looks like a keyword is not enumerated.',
 [F,'cmakelang/configuration.py'],[('case selection',F+' ScalarNode.write'),('override lookup','cmakelang/configuration.py resolve_for_command')],['output text of process_file'])
p('C10','Tokenizing is lossless and positions are exact',
 'Concatenating the tokens of any input reproduces the input exactly (after an optional byte-order mark), and each token records its exact 1-based line, 0-based column and byte offset of its start and end in the input. Input is never silently skipped: text that cannot be tokenized raises an error.',
 ['inputs'],'all input strings',
 'Tests tokenize a dozen strings and compare kinds only; offsets with multi-byte characters, CRLF, BOM and multi-line tokens are not checked.',
 [L],[('scanner and position bookkeeping',L+' tokenize')],['token list'])
p('C11','Parsing accounts for every token once, and malformed files are refused',
 'The syntax tree of an accepted file contains every token of the input exactly once and in order, for every command form with a dedicated parser. A file with unbalanced parentheses, a missing block terminator, stray text outside a command, or a missing argument list is refused with an error and never accepted with silently altered structure; parsing always terminates.',
 ['inputs','programs'],'all token sequences, for every command known to the tool, including keywords in unexpected positions, repeated keywords, empty lists and comments anywhere',
 'Each dedicated parser is tested on one or two well-formed invocations.',
 ['cmakelang/parse/'],[('consumers','cmakelang/parse/body_nodes.py, statement_node.py, argument_nodes.py, additional_nodes.py, funs/*')],['token list versus tree; exit status'])
p('C12','Comment reflow keeps every word, respects the width, keeps literal blocks intact',
 'Reflowing a comment keeps all its words in order (list bullets and numbering may be normalised), and no produced line exceeds the available width unless it consists of a single unbreakable word or lies in a preserved block. Fenced blocks, and comments matching the literal pattern, the first-comment-literal option or disabled markup keep their lines as written apart from trailing blanks. Reflowing never fails and is stable when repeated.',
 ['inputs','configurations'],'all comment texts (paragraphs, bullets, numbered lists, notes, rulers, fences, blank lines) and all widths and markup options',
 'Tests reflow some fixed comments at width 80.',
 ['cmakelang/markup.py',F,'cmakelang/common.py'],[('markup parse and format','cmakelang/markup.py parse, format_items'),('comment lines',F+' format_comment_lines')],['comment lines of the output'])
p('C13','A dumped configuration reloads to the same configuration',
 'For every configuration, dumping it in Python, JSON or YAML form and loading the dump as a configuration file yields a configuration with the same value for every option and hence the same formatting. This holds with and without help comments; when defaults are omitted, the dump contains exactly the options that were set.',
 ['configurations'],'all values of all options (booleans, integers, enumerations, strings, lists, dictionaries) and combinations of the dump flags',
 'Tests dump only the default configuration and check it loads.',
 ['cmakelang/config_util.py','cmakelang/configuration.py',M],[('serialisation','cmakelang/config_util.py dump, _as_dict'),('loading',M+' get_one_config_dict, exec_pyconfig')],['values of all options after reload'])
p('C14','Configuration precedence: command line, later files, earlier files, defaults',
 'The effective value of every option is the command-line value if given, else the value from the last listed configuration file that sets it, else the value from earlier files, else the documented default; sections given in several files are merged option by option. The same command-line options apply to every file named in one run, independent of how many files are processed before it. Files named by an include are read as configuration files relative to the including file.',
 ['configurations','histories'],'all subsets of options set at each level, any number of configuration files and input files in one run',
 'Tests check one include and one merge; the second input file of a run is never checked.',
 [M,'cmakelang/config_util.py'],[('merge',M+' get_configdict, map_merge'),('command line overlay',M+' onefile_main, get_argdict')],['effective configuration for each input file'])
p('C15','Options mean the same in flat and sectioned form',
 'An option set at the top level of a configuration (the legacy flat style) has exactly the same effect as the same option set inside its section, for every option and value, and when both are present the outcome does not depend on the order of the keys. Unknown options are reported and have no effect on any other option; derived settings follow the option they are derived from.',
 ['configurations'],'all options, values, and mixtures of the two styles',
 'One test loads one legacy file.',
 ['cmakelang/config_util.py','cmakelang/configuration.py'],[('legacy shim','cmakelang/config_util.py legacy_consume'),('derived values','cmakelang/configuration.py _update_derived')],['values of all options'])
p('C16','The nearest configuration file in the directory ancestry is used',
 'Without an explicit configuration file, the configuration used for an input is the one found in the closest directory on the path from the input file to the filesystem root that contains a recognised configuration file name, with the documented priority among names within one directory; if none exists, defaults are used. The search always terminates, and explicit files disable it.',
 ['inputs','configurations'],'all placements of configuration files of all recognised names along the ancestry of the input file or directory',
 'Tests place a single file.',
 [M],[('search',M+' find_config_file, get_config')],['configuration file chosen'])
p('C17','In-place formatting never loses or damages the file',
 'During in-place formatting, at every point where an operation can fail or the process can be killed, the input path holds either the complete original content or the complete formatted content. A file whose content would not change is not written at all, a failed parse or rejected layout leaves it untouched, and on success the permission bits are those of the original file.',
 ['crash_points','fault_sequences','inputs'],'every failure or interruption point of the sequence of file operations, for changed, unchanged and unformattable inputs and all output encodings',
 'Tests only run the success path.',
 [M],[('temp file then move',M+' onefile_main')],['file content and mode after a fault at each step'])
p('C18','Check mode and exit status report exactly whether files would change',
 'In check mode the run exits zero if and only if every named file is already exactly in its formatted form, and no file or output is modified. In every mode the exit status is non-zero if any named file failed to be formatted, was refused, or failed the check, regardless of its position among the named files; output written to a chosen path or standard output is exactly the formatted text in the configured encoding.',
 ['inputs','histories','configurations'],'all sequences of files that are clean, dirty, invalid or disabled, in any order, in each output mode',
 'Tests run single files.',
 [M],[('check and return code',M+' onefile_main, inner_main, main')],['exit status, written files, standard output'])
p('C19','Lint suppressions are scoped exactly; exit status reflects what is reported',
 'A lint finding is reported unless its code is disabled by configuration or suppressed at the place it concerns: a directive comment in a block suppresses from that comment to the end of the enclosing block, and one inside a statement suppresses on that line only. Findings are listed in source order, each with its own location and code; the exit status is non-zero exactly when something is reported (or a file cannot be processed), and the summary counts equal the reported findings per category over all files.',
 ['inputs','configurations','histories'],'all interleavings of findings and suppression ranges over lines, all sets of disabled codes, all sequences of files',
 'Tests check single suppressions.',
 ['cmakelang/lint/lint_util.py','cmakelang/lint/basic_checker.py','cmakelang/lint/__main__.py'],[('event list and filter','cmakelang/lint/lint_util.py get_lint, suppress, record_lint'),('scopes','cmakelang/lint/basic_checker.py check_body, check_comment')],['lint report and exit status'])
p('C20','Line-level lint reports exactly the offending lines',
 'The line checks report a too-long line, trailing whitespace, a wrong line ending, a wrong indentation character, and a missing final newline if and only if the line (or file) has that defect under the active configuration, each exactly once, at the correct line number. A carriage return that belongs to the line ending is never counted as content or trailing whitespace.',
 ['inputs','configurations'],'all texts, line widths, tab policies and line-ending settings',
 'Tests hold one example per code.',
 ['cmakelang/lint/basic_checker.py'],[('basic checks','cmakelang/lint/basic_checker.py check_basics')],['lint report'])
p('C21','Annotated HTML shows exactly the source text',
 'The annotated HTML of any listfile, read as HTML, has as its text content exactly the source text, with correctly nested elements, whatever characters the source contains. Source text can never inject markup into the page.',
 ['inputs'],'all listfile texts including markup-significant characters',
 'One test renders plain ASCII.',
 ['cmakelang/render.py','cmakelang/annotate.py'],[('rendering','cmakelang/render.py dump_html')],['HTML output'])
p('C22','Declared command structure is honoured',
 'For a command declared in the configuration, each argument is assigned to the declared positional group, flag, or keyword group to which it belongs: a declared keyword in any case starts its own group, takes as many arguments as its declared count allows up to the next keyword, and words that are not declared never start a group. Declarations match command names in any case, replace a built-in specification of the same name, and affect no other command; overrides of a specification change only the addressed part.',
 ['inputs','configurations'],'all declarations (exact and open counts, flags, nested keywords) and all argument sequences',
 'Tests use the one demo declaration.',
 ['cmakelang/configuration.py','cmakelang/parse/util.py','cmakelang/parse/argument_nodes.py','cmakelang/parse/funs/__init__.py'],[('specification','cmakelang/parse/util.py CommandSpec, apply_overrides'),('standard parser','cmakelang/parse/argument_nodes.py StandardArgTree.parse2')],['syntax tree'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
