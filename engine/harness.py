"""Generated wrapper translation units: one external C function per operation
under analysis.  They are compiled (never linked, never run)."""
import concurrent.futures, re
from . import build, ir, ga

PRE = '''
#include "engabra.hpp"
#include "g3compare.hpp"
#include "g3io.hpp"
#include <array>
#include <complex>
#include <string>
#include <type_traits>
#include <utility>
using namespace engabra::g3;
namespace vh {
template <class F, class... P> constexpr bool can = std::is_invocable_v<F const&, P const&...>;
template <class R, class F, class... P> constexpr int chk(F const&) {
  if constexpr (std::is_invocable_v<F const&, P const&...>) {
    using X = std::decay_t<std::invoke_result_t<F const&, P const&...>>;
    return std::is_same_v<X, R> ? 1 : 2;
  } else return 0;
}
template <class R, class F, class... P> inline void run(F const& f, R* o, P const&... p) {
  if constexpr (std::is_invocable_v<F const&, P const&...>) {
    using X = std::decay_t<std::invoke_result_t<F const&, P const&...>>;
    if constexpr (std::is_same_v<X, R>) *o = f(p...);
  }
}
template <class A, class B, class F, class... P> constexpr int chkpair(F const& f) {
  return chk<std::pair<A, B>, F, P...>(f);
}
template <class A, class B, class F, class... P> inline void runpair(F const& f, A* o, B* q, P const&... p) {
  if constexpr (std::is_invocable_v<F const&, P const&...>) {
    using X = std::decay_t<std::invoke_result_t<F const&, P const&...>>;
    if constexpr (std::is_same_v<X, std::pair<A, B>>) { auto const r = f(p...); *o = r.first; *q = r.second; }
  }
}
}
'''
VARS = 'abcdefgh'

class Wrap:
    def __init__(self, name, ins, expr, out, text, params, sig):
        self.name, self.ins, self.expr, self.out, self.text, self.params, self.sig = name, ins, expr, out, text, params, sig
        self.flag = None
        self.error = None

def cpp(t):
    return t.cpp if isinstance(t, ga.T) else t

class Unit:
    def __init__(self, pre=''):
        self.pre = PRE + pre
        self.wraps = {}
    def add(self, name, ins, expr, out, sig=None):
        """expr over a, b, ...; ins: types; out: type"""
        vs = VARS[:len(ins)]
        lam = 'namespace { constexpr auto f_%s = [](%s) -> decltype(%s) { return %s; }; }\n' % (name, ', '.join('auto const& ' + v for v in vs), expr, expr)
        ts = ''.join(', %s' % cpp(t) for t in ins)
        o = cpp(out)
        lam += 'extern "C" { extern const int flag_%s; const int flag_%s = vh::chk<%s, decltype(f_%s)%s>(f_%s);\n' % (name, name, o, name, ts, name)
        lam += 'void w_%s(%s%s%s* o) { vh::run<%s>(f_%s, o%s); } }\n' % (name, ', '.join('%s const* %s' % (cpp(t), v) for t, v in zip(ins, vs)), ', ' if ins else '', o, o, name, ''.join(', *' + v for v in vs))
        self.wraps[name] = Wrap(name, ins, expr, out, lam, [('in', v) for v in vs] + [('out', 'o')], sig or '%s with %s' % (expr, ', '.join('%s:%s' % (v, cpp(t)) for v, t in zip(vs, ins))))
    def addpair(self, name, ins, expr, out1, out2, sig=None):
        vs = VARS[:len(ins)]
        lam = 'namespace { constexpr auto f_%s = [](%s) -> decltype(%s) { return %s; }; }\n' % (name, ', '.join('auto const& ' + v for v in vs), expr, expr)
        ts = ''.join(', %s' % cpp(t) for t in ins)
        o, q = cpp(out1), cpp(out2)
        lam += 'extern "C" { extern const int flag_%s; const int flag_%s = vh::chkpair<%s, %s, decltype(f_%s)%s>(f_%s);\n' % (name, name, o, q, name, ts, name)
        lam += 'void w_%s(%s, %s* o, %s* q) { vh::runpair<%s, %s>(f_%s, o, q%s); } }\n' % (name, ', '.join('%s const* %s' % (cpp(t), v) for t, v in zip(ins, vs)), o, q, o, q, name, ''.join(', *' + v for v in vs))
        self.wraps[name] = Wrap(name, ins, expr, (out1, out2), lam, [('in', v) for v in vs] + [('out', 'o'), ('out', 'q')], sig or '%s with %s' % (expr, ', '.join('%s:%s' % (v, cpp(t)) for v, t in zip(vs, ins))))
    def addraw(self, name, text, params, sig):
        """text defines extern "C" w_<name>"""
        w = Wrap(name, (), sig, None, text, params, sig)
        w.flag = 1
        self.wraps[name] = w
    def source(self, names=None):
        return self.pre + ''.join(w.text for n, w in self.wraps.items() if names is None or n in names)
    def lower(self, **kw):
        names = list(self.wraps)
        try:
            m = build.lower(self.source(), **kw)
        except build.BuildError as e:
            bad = self.offenders(kw)
            if not bad or len(bad) == len(names):
                raise
            for n, err in bad.items():
                self.wraps[n].flag = -1
                self.wraps[n].error = err
            ok = set(names) - set(bad)
            m = build.lower(self.source(ok), **kw)
        for n, w in self.wraps.items():
            if w.flag == -1: continue
            g = m.globals.get('@flag_' + n)
            if g is not None and g['init'] is not None:
                w.flag = 0 if g['init'][0] == 'zero' else g['init'][1]
            elif w.flag is None:
                w.flag = 0
        return m
    def available(self, kw):
        """names of the wrappers that compile"""
        try:
            build.front(self.source(), extra=kw.get('extra', ()), std=kw.get('std', 'c++17'))
            return set(self.wraps)
        except build.BuildError:
            return set(self.wraps) - set(self.offenders(kw))
    def offenders(self, kw):
        """wrappers whose instantiation does not compile"""
        def probe(names):
            try:
                build.front(self.source(names), extra=kw.get('extra', ()), std=kw.get('std', 'c++17'))
                return None
            except build.BuildError as e:
                return str(e)
        base = probe(set())
        if base is not None:
            raise build.BuildError(base)
        bad = {}
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            todo = [list(self.wraps)]
            while todo:
                res = list(ex.map(lambda ns: probe(set(ns)), todo))
                nxt = []
                for ns, err in zip(todo, res):
                    if err is None: continue
                    if len(ns) == 1: bad[ns[0]] = err
                    else:
                        h = max(1, len(ns)//8)
                        nxt += [ns[i:i+h] for i in range(0, len(ns), h)]
                todo = nxt
        return bad
