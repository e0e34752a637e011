"""Bounded copies of the loops that are left in a lowered function.

The lowered function is in loop-simplify / LCSSA form: values of a loop are used
outside only by the phis of its exit blocks.  Every loop (innermost first) is
replaced by COPIES copies of its body; the back edge of the last copy enters a
block with the terminator 'gap'.  Nothing is assumed about what happens there:
a leaf of the guard partition that can reach it gives no answer."""
from . import ir

COPIES = 10
LIMIT = 6000

def successors(t):
    if t.op == 'br': return list(t.extra)
    if t.op == 'switch': return [t.extra[0]] + [c[1] for c in t.extra[1]]
    if t.op == 'invoke': return [t.extra[1]]
    return []

def sccs(nodes, succ):
    """strongly connected components with a cycle (iterative Tarjan)"""
    index, low, onst, st, out = {}, {}, set(), [], []
    n = 0
    for root in nodes:
        if root in index: continue
        work = [(root, iter(succ[root]))]
        index[root] = low[root] = n; n += 1
        st.append(root); onst.add(root)
        while work:
            b, it = work[-1]
            for s in it:
                if s not in succ: continue
                if s not in index:
                    index[s] = low[s] = n; n += 1
                    st.append(s); onst.add(s)
                    work.append((s, iter(succ[s])))
                    break
                if s in onst: low[b] = min(low[b], index[s])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[b])
                if low[b] == index[b]:
                    c = set()
                    while True:
                        x = st.pop(); onst.discard(x); c.add(x)
                        if x == b: break
                    if len(c) > 1 or b in succ[b]: out.append(c)
    return out

def rename(x, m):
    """operand tree with local values replaced"""
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'local' and isinstance(x[1], str):
            return ('local', m.get(x[1], x[1]))
        return tuple(rename(y, m) for y in x)
    return x

def relabel(I, lab):
    if I.op == 'br': return tuple(lab(b) for b in I.extra)
    if I.op == 'switch': return (lab(I.extra[0]), tuple((v, lab(b)) for v, b in I.extra[1]))
    if I.op == 'invoke': return (I.extra[0], lab(I.extra[1]), I.extra[2])
    return I.extra

class Body:
    def __init__(self, f):
        self.blocks = {b: list(f.blocks[b]) for b in f.order}
        self.order = list(f.order)
        self.gap = 0
    def succ(self, among=None):
        return {b: [s for s in successors(self.blocks[b][-1]) if among is None or s in among] for b in (self.order if among is None else [x for x in self.order if x in among])}
    def expand(self):
        """None if some cycle has more than one entry"""
        while True:
            s = self.succ()
            comps = sccs(self.order, s)
            if not comps: return self
            loop = None
            c = comps[0]
            while True:
                heads = {t for b in self.order if b not in c for t in s[b] if t in c}
                if c >= {self.order[0]}: return None
                if len(heads) != 1: return None
                h = heads.pop()
                # inner cycles: without the edges back to the header
                inner = {b: [t for t in s[b] if t in c and t != h] for b in self.order if b in c}
                sub = sccs([b for b in self.order if b in c], inner)
                if not sub: break
                c = sub[0]
                # entries of the inner cycle are computed on the whole graph
            if not self.copy(c, h, s): return None
            if len(self.order) > LIMIT: return None
    def copy(self, body, head, succ):
        body_order = [b for b in self.order if b in body]
        defs = {I.res for b in body_order for I in self.blocks[b] if I.res is not None}
        latches = [b for b in body_order if head in succ[b]]
        new = {}
        neworder = []
        self.gap += 1
        gap = '%%gap.%d' % self.gap
        where = next((I.dbg for I in reversed(self.blocks[latches[0]]) if I.dbg), None) or next((I.dbg for I in self.blocks[head] if I.dbg), None)
        for k in range(COPIES):
            nm = {d: '%s#%d' % (d, k) for d in defs}
            pm = {d: '%s#%d' % (d, k-1) for d in defs}
            def lab(b):
                if b == head: return '%s#%d' % (head, k+1) if k + 1 < COPIES else gap
                return '%s#%d' % (b, k) if b in body else b
            for b in body_order:
                out = []
                for I in self.blocks[b]:
                    J = ir.Instr(I.op, nm.get(I.res, I.res), I.ty, I.args, I.extra, I.dbg, I.text)
                    if I.op == 'phi':
                        args = []
                        for v, p in I.args:
                            if b == head:
                                if p in body:
                                    if k: args.append((rename(v, pm), '%s#%d' % (p, k-1)))
                                elif not k: args.append((v, p))
                            else: args.append((rename(v, nm), '%s#%d' % (p, k)))
                        J.args = tuple(args)
                    else:
                        J.args = rename(I.args, nm)
                        J.extra = relabel(I, lab)
                    out.append(J)
                l = '%s#%d' % (b, k)
                new[l] = out
                neworder.append(l)
        new[gap] = [ir.Instr('gap', dbg=where)]
        neworder.append(gap)
        # the rest: entries into the loop, phis of the exits
        for b in self.order:
            if b in body: continue
            out = []
            for I in self.blocks[b]:
                if I.op == 'phi' and any(p in body for _, p in I.args):
                    args = []
                    for v, p in I.args:
                        if p in body:
                            for k in range(COPIES):
                                args.append((rename(v, {d: '%s#%d' % (d, k) for d in defs}), '%s#%d' % (p, k)))
                        else: args.append((v, p))
                    J = ir.Instr(I.op, I.res, I.ty, tuple(args), I.extra, I.dbg, I.text)
                else:
                    if uses(I.args) & defs: return False      # not in LCSSA form
                    J = ir.Instr(I.op, I.res, I.ty, I.args, relabel(I, lambda t: head + '#0' if t == head else t), I.dbg, I.text)
                out.append(J)
            new[b] = out
        order = []
        for b in self.order:
            if b not in body: order.append(b)
            elif neworder:
                order += neworder
                neworder = []
        self.blocks, self.order = new, order
        return True

def uses(x):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'local' and isinstance(x[1], str): return {x[1]}
        return set().union(*(uses(y) for y in x)) if x else set()
    return set()

def cyclic(f):
    succ = {b: successors(f.blocks[b][-1]) for b in f.order}
    return bool(sccs(f.order, succ))
