"""shared by the text checks C22 to C25"""
import re
from engine import ga, harness, decide, report, fp, nf, part, vg, streams
TYPES_TEXT = [ga.D] + list(ga.BLADES) + [ga.P, ga.I, ga.M]

def graph(m, w):
    B = streams.Builder(m, '@w_' + w.name, w.params)
    B.run()
    return B

def leaves(B, roots, limit=2000, boxes=None, default=fp.TOP):
    R = part.Region(B.g, nf.Algebra(), boxes=boxes, default=default)
    return part.leaves(streams.Ctx(R), roots, limit)

def tokens_ok(rep, w, c, toks, names, spec, lead, where):
    """content rule: numbers `names` in order, white space only between them.
    spec(tok) -> None or complaint; lead: a blank is needed before the first too"""
    bad = None
    i = 0
    gap = not lead
    for t in toks:
        if t[0] == 'lit':
            if t[1].strip(streams.WHITE): bad = 'text %r' % t[1]; break
            gap = gap or bool(t[1])
        elif t[0] == 'pad':
            continue
        elif t[0] == 'num':
            if i >= len(names): bad = 'a further number %s' % c.short(t[1]); break
            if not (t[1].op == 'in' and t[1].attr == names[i]): bad = '%s in place %d' % (c.short(t[1]), i); break
            if not gap: bad = 'no white space before number %d' % i; break
            s = spec(t)
            if s: bad = 'number %d: %s' % (i, s); break
            i += 1; gap = False
        else:
            bad = streams.show(t, c); break
    if bad is None and i < len(names): bad = 'only %d numbers' % i
    rep.hold('text of %s' % w.sig, bad is None, where=where, expected='numbers %s separated by white space' % ', '.join(names),
             found=(bad or '') + ': ' + '; '.join(streams.show(t, c) for t in toks), path=c.describe())
    return bad is None
