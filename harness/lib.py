"""Helpers shared by the harnesses (run in both modes)."""
import copy
import logging

from cmakelang import configuration
from cmakelang import common
from cmakelang import config_util
from cmakelang.format import __main__ as fmt_main
from symex import rt

_BASE = {}


def clone(cfg):
    new = copy.copy(cfg)
    for k, v in list(vars(cfg).items()):
        if isinstance(v, config_util.ConfigObject):
            setattr(new, k, copy.copy(v))
    return new


def base(key, make=None):
    """a complete configuration, built once per process (it holds no unknown
    values) and shared between paths"""
    if key not in _BASE:
        cfg = make() if make is not None else configuration.Configuration()
        # instantiate every section
        for d in cfg._field_registry:
            getattr(cfg, d.name)
        try:
            cfg.parse.fn_spec.sx_shared = True
        except AttributeError:
            pass
        _BASE[key] = cfg
    return _BASE[key]


def config(key='', make=None, **sections):
    """configuration; the expensive part (command specs) is shared between
    paths.  sections: format=dict(...), markup=dict(...)"""
    cfg = clone(base(key, make))
    for sec, vals in sections.items():
        sub = getattr(cfg, sec)
        for k, v in vals.items():
            setattr(sub, k, v)
        if vals and sec != 'parse':
            sub._update_derived()
    return cfg


REFUSED = (common.UserError, common.InternalError, AssertionError, ValueError)


def build(S, p, letters='zjqkyvx'):
    """Template text -> input string.

    A template is a list of parts: str literal, or tuples
      ('c', name, chars|None)      one unknown character
      ('t', name, n, chars|None)   n unknown characters
      ('w', name, letter, lo, hi)  a word of unknown length
      ('p', name, [options])       one of several literals
      ('k', name, word)            a word whose letters have unknown case
    """
    s = ''
    for part in p:
        if isinstance(part, str):
            s = s + part
        elif part[0] == 'c':
            s = s + S.char(part[1], part[2] if len(part) > 2 else None)
        elif part[0] == 't':
            s = s + S.text(part[1], part[2], part[3] if len(part) > 3 else None)
        elif part[0] == 'w':
            s = s + S.word(part[1], part[2], part[3], part[4])
        elif part[0] == 'p':
            s = s + S.pick(part[1], part[2])
        elif part[0] == 'k':
            for i, c in enumerate(part[2]):
                if c.lower() == c.upper():
                    s = s + c
                else:
                    s = s + S.char('%s_%d' % (part[1], i), c.lower() + c.upper())
    return s


def process(cfg, src):
    """-> (text, valid) or None when refused"""
    try:
        return fmt_main.process_file(cfg, src)
    except REFUSED:
        return None


class Recorder(object):
    """the messages logged while active"""

    def __init__(self):
        self.messages = []

    def __enter__(self):
        if rt.symbolic():
            self.root = logging.getLogger()
            self.root.sink = self
        else:
            outer = self

            class Handler(logging.Handler):
                def emit(self, record):
                    outer.add(record.levelname, record.getMessage())
            self.old = logging.root.manager.disable
            logging.disable(logging.NOTSET)
            self.handler = Handler()
            self.handlers = logging.root.handlers[:]
            logging.root.handlers[:] = [self.handler]
        return self

    def __exit__(self, *a):
        if rt.symbolic():
            self.root.sink = None
        else:
            logging.root.handlers[:] = self.handlers
            logging.disable(self.old)
        return False

    def add(self, level, text):
        self.messages.append((level.upper(), text))
