from cmakelang import configuration
from cmakelang.format import __main__ as fmt
from harness import lib
from symex import rt

def inputs(S, p):
    s = p['src']
    out = ''
    for ch in s:
        if ch in 'ZJQKYVX':
            ch = S.word('w' + ch, ch.lower(), 1, p.get('hi', 90))
        elif ch == '?':
            ch = S.char('c%d' % len(out))
        out = out + ch
    lw = S.int('lw', 20, 100) if p.get('lw') else 80
    return {'src': out, 'lw': lw}

def run(p, inp):
    cfg = lib.config()
    cfg.format.line_width = inp['lw']
    try:
        out, ok = fmt.process_file(cfg, inp['src'])
    except Exception as ex:
        if 'engine' in repr(ex): raise
        return repr(type(ex))
    return out
