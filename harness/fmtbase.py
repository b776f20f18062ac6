"""inputs/run plumbing for properties over process_file"""
from harness import lib
from harness import corpus
from symex import rt

FUNCTIONS = ['format.__main__.process_file', 'lex.*', 'parse.*', 'parse.funs.*',
             'format.formatter.*', 'markup.*', 'common.*']


def inputs(S, p):
    return {'src': lib.build(S, p['parts']),
            'opts': corpus.make_opts(S, p['opts'])}


def show(p, inp):
    return [inp['src'], inp['opts']]


def cfg(inp):
    return lib.config(**inp['opts'])
