import re
from engine import ga, decide, report, build, ir
RULE = ('the type checker evaluates one boolean witness per obligation in a generated translation unit that includes every public header: implicit conversion and assignment for each ordered pair of an algebra type and '
        'any other algebra or arithmetic type; well-formedness of each division, compound assignment, increment, decrement, ordering and logical expression; trivial copyability and size; each classification trait for each type; operators of types of the standard library and of a user (also built alike, also with operators of their own), and operators seen from a namespace that hides outer names')
NUM = ['bool', 'char', 'int', 'unsigned', 'long', 'std::size_t', 'float', 'double', 'long double', 'std::complex<double>', 'std::complex<float>', 'std::nullptr_t']
PRE = '''
#include "engabra.hpp"
#include "g3compare.hpp"
#include "g3const.hpp"
#include "g3func.hpp"
#include "g3io.hpp"
#include "g3ops.hpp"
#include "g3publish.hpp"
#include "g3traits.hpp"
#include "g3validity.hpp"
#include <array>
#include <complex>
#include <memory>
#include <optional>
#include <ostream>
#include <string>
#include <type_traits>
#include <utility>
namespace g3 = engabra::g3;
namespace vh {
using namespace engabra::g3;
using namespace engabra::g3::io;
template <class T> void take(T);
template <class A, class... P> struct brace_ { template <class X> static auto t(int) -> decltype(take<X>({std::declval<P const&>()...}), std::true_type{}); template <class> static std::false_type t(...); };
template <class A, class... P> constexpr bool brace = decltype(brace_<A, P...>::template t<A>(0))::value;
template <class T> struct Derived : T {};
}
namespace own { // code of a user
struct Plain {};
struct Alike { std::array<double, 3u> theData; };
struct Parts { g3::Scalar theSca; g3::Vector theVec; g3::BiVector theBiv; g3::TriVector theTri; };
enum class Level { low };
template <class T> struct Box { T theData; double const & operator[](std::size_t k) const { return theData[k]; } };
struct Op {};
struct Res {};
inline Res operator+(Op const &, Op const &) { return {}; }
inline Res operator-(Op const &, Op const &) { return {}; }
inline Res operator*(Op const &, Op const &) { return {}; }
inline Res operator-(Op const &) { return {}; }
template <class T> Res operator+(T const &, Op const &) { return {}; }
template <class T> Res operator-(T const &, Op const &) { return {}; }
template <class T> Res operator*(T const &, Op const &) { return {}; }
template <class T> Res operator+(Op const &, T const &) { return {}; }
template <class T> Res operator-(Op const &, T const &) { return {}; }
template <class T> Res operator*(Op const &, T const &) { return {}; }
inline bool operator==(Op const &, Op const &) { return true; }
inline std::ostream & operator<<(std::ostream & s, Op const &) { return s; }
namespace deep { // names of its own hide those of enclosing scopes
inline void operator+(Plain, Plain) {} inline void operator-(Plain, Plain) {} inline void operator*(Plain, Plain) {} inline void operator-(Plain) {} inline void operator==(Plain, Plain) {}
@DEEP@
}
}
namespace vh {
%s
}
'''
BIN = {'div': ('a / b', '/'), 'rem': ('a % b', None), 'lt': ('a < b', '<'), 'gt': ('a > b', '>'), 'le': ('a <= b', '<='), 'ge': ('a >= b', '>='), 'land': ('a && b', '&&'), 'lor': ('a || b', '||'),
       'addas': ('a += b', '+='), 'subas': ('a -= b', '-='), 'mulas': ('a *= b', '*='), 'divas': ('a /= b', '/='), 'remas': ('a %= b', None),
       'andas': ('a &= b', '&='), 'oras': ('a |= b', '|='), 'xoras': ('a ^= b', '^='), 'shlas': ('a <<= b', '<<='), 'shras': ('a >>= b', '>>='),
       'eq': ('a == b', None), 'add': ('a + b', None), 'mul': ('a * b', None), 'sub': ('a - b', None)}
UNA = {'preinc': '++a', 'predec': '--a', 'postinc': 'a++', 'postdec': 'a--', 'lnot': '!a', 'neg': '-a'}

OWN = ['own::Plain', 'own::Alike', 'own::Parts', 'own::Level', 'own::Box<std::array<double, 3u>>', 'own::Box<g3::Vector>', 'std::array<double, 3u>', 'std::array<g3::Vector, 2u>', 'std::pair<g3::Scalar, g3::BiVector>',
       'std::string', 'std::unique_ptr<g3::Vector>', 'std::optional<double>']
def deep():
    s = ''
    for n in ('add', 'sub', 'mul'):
        s += 'template <class A, class B, class = void> struct %s_ : std::false_type {}; template <class A, class B> struct %s_<A, B, std::void_t<decltype(std::declval<A&>()%sstd::declval<B const&>())>> : std::true_type {};\n' % (n, n, BIN[n][0][1:-1])
    return s + 'template <class A, class = void> struct neg_ : std::false_type {}; template <class A> struct neg_<A, std::void_t<decltype(-std::declval<A&>())>> : std::true_type {};\n'

def detectors():
    s = ''
    D = lambda e: e.replace('a', 'std::declval<A&>()', 1) if e.count('a') else e
    for n, (e, _) in BIN.items():
        ee = 'std::declval<A&>()%sstd::declval<B const&>()' % e[1:-1]
        s += 'template <class A, class B, class = void> struct %s_ : std::false_type {}; template <class A, class B> struct %s_<A, B, std::void_t<decltype(%s)>> : std::true_type {};\n' % (n, n, ee)
    for n, e in UNA.items():
        ee = e.replace('a', 'std::declval<A&>()')
        s += 'template <class A, class = void> struct %s_ : std::false_type {}; template <class A> struct %s_<A, std::void_t<decltype(%s)>> : std::true_type {};\n' % (n, n, ee)
    return s

def witnesses():
    """[(expression, expected, text, (a type, b type, operator expression) or None)]"""
    W = []
    nine = [t.cpp for t in ga.NINE]
    G = lambda t: 'g3::' + t if t in nine else t
    pairs = [(a, b) for a in nine + NUM for b in nine + NUM if a != b and (a in nine or b in nine)]
    for a, b in pairs:
        if (a, b) == ('ComPlex', 'std::complex<double>'):
            W.append(('std::is_convertible_v<%s, %s>' % (G(a), b), True, 'ComPlex converts to the standard complex type', None)); continue
        if (a, b) == ('std::complex<double>', 'ComPlex'): continue
        W.append(('std::is_convertible_v<%s, %s>' % (G(a), G(b)), False, 'no implicit conversion from %s to %s' % (a, b), None))
        W.append(('std::is_assignable_v<%s&, %s const&>' % (G(b), G(a)), False, 'no assignment of %s to %s' % (a, b), None))
    for t in ga.TEN:
        W.append(('std::is_constructible_v<g3::MultiVector, %s const&>' % G(t.cpp), True, 'explicit promotion from %s to MultiVector' % t, None))
        if t is not ga.M: W.append(('vh::brace<g3::MultiVector, %s>' % G(t.cpp), False, 'no implicit promotion of {%s} to MultiVector' % t, None))
    for ps in (('ComPlex', 'DirPlex'), ('Scalar', 'Vector', 'BiVector', 'TriVector')):
        W.append(('vh::brace<g3::MultiVector, %s>' % ', '.join(map(G, ps)), False, 'no implicit promotion of {%s} to MultiVector' % ', '.join(ps), None))
    for n, (e, op) in BIN.items():
        if not op: continue
        ps = pairs + [(a, a) for a in nine]
        for a, b in ps:
            # arithmetic shift-assign etc. of numbers by numbers is not in pairs
            W.append(('vh::%s_<%s, %s>::value' % (n, G(a), G(b)), False, '%s does not compile for %s, %s' % (e, a, b), (G(a), G(b), e)))
    for n, e in UNA.items():
        if n == 'neg': continue
        for a in nine: W.append(('vh::%s_<%s>::value' % (n, G(a)), False, '%s does not compile for %s' % (e, a), (G(a), None, e)))
    for t in ga.NINE:
        g = G(t.cpp)
        W.append(('std::is_trivially_copyable_v<%s>' % g, True, '%s is trivially copyable' % t, None))
        W.append(('sizeof(%s) == %d * sizeof(double)' % (g, t.n), True, '%s is exactly %d components' % (t, t.n), None))
        W.append(('std::is_constructible_v<bool, %s const&>' % g, False, '%s has no truth value' % t, None))
    others = ['double', 'int', 'std::complex<double>', 'std::array<double, 1>', 'std::array<double, 3>', 'std::string', 'void', 'g3::MultiVector*', 'g3::Vector*']
    for tr in ['blade'] + nine:
        for t in nine:
            W.append(('g3::is::%s<%s>::value' % (tr, G(t)), t in ('Scalar', 'Vector', 'BiVector', 'TriVector') if tr == 'blade' else t == tr, 'is::%s<%s>' % (tr, t), None))
            W.append(('g3::is::%s<vh::Derived<%s>>::value' % (tr, G(t)), False, 'is::%s of a class derived from %s' % (tr, t), None))
        for t in others: W.append(('g3::is::%s<%s>::value' % (tr, t), False, 'is::%s<%s>' % (tr, t), None))
    # types of other libraries
    for f in OWN:
        for n in ('add', 'sub', 'mul'):
            e = BIN[n][0]
            if not (f == 'std::string' and n == 'add'): W.append(('vh::%s_<%s, %s>::value' % (n, f, f), False, '%s does not compile for %s' % (e, f), (f, f, e)))
            for t in nine:
                W.append(('vh::%s_<%s, %s>::value' % (n, f, G(t)), False, '%s does not compile for %s, %s' % (e, f, t), (f, G(t), e)))
                W.append(('vh::%s_<%s, %s>::value' % (n, G(t), f), False, '%s does not compile for %s, %s' % (e, t, f), (G(t), f, e)))
        W.append(('vh::neg_<%s>::value' % f, False, 'negation does not compile for %s' % f, (f, None, '-a')))
        for t in nine: W.append(('vh::eq_<%s, %s>::value || vh::eq_<%s, %s>::value' % (f, G(t), G(t), f), False, 'a == b does not compile for %s, %s' % (f, t), (f, G(t), 'a == b')))
    for e in ('a + b', 'a - b', 'a * b'):
        for t in nine + ['double', 'own::Op']:
            for x, y in ((t, 'own::Op'), ('own::Op', t)):
                if t == 'own::Op' and (x, y) != (t, t): continue
                W.append(('std::is_same_v<decltype(std::declval<%s const&>()%sstd::declval<%s const&>()), own::Res>' % (G(x), e[1:-1], G(y)), True, '%s of %s, %s stays the operator of the user' % (e, x, y), None))
    W.append(('std::is_same_v<decltype(-std::declval<own::Op const&>()), own::Res>', True, 'negation of own::Op stays the operator of the user', None))
    # argument dependent lookup: usable from every namespace
    for t in ga.NINE:
        g = G(t.cpp)
        W.append(('own::deep::neg_<%s>::value' % g, True, 'negation of %s is found from other namespaces' % t, None))
        for n in ('add', 'sub', 'mul'): W.append(('own::deep::%s_<%s, %s>::value' % (n, g, g), True, '%s of %s is found from other namespaces' % (BIN[n][0], t), None))
        W.append(('own::deep::mul_<%s, double>::value && own::deep::mul_<double, %s>::value' % (g, g), True, 'products of %s and number are found from other namespaces' % t, None))
    # anchors: the detectors do see expressions that compile
    for t in ga.NINE:
        g = G(t.cpp)
        for n in ('add', 'sub', 'mul'): W.append(('vh::%s_<%s, %s>::value' % (n, g, g), True, 'anchor: %s of %s' % (n, t), 'anchor'))
        W.append(('vh::neg_<%s>::value' % g, True, 'anchor: negative of %s' % t, 'anchor'))
    W.append(('vh::brace<g3::Spinor, g3::Scalar, g3::BiVector>', True, 'anchor: braces', 'anchor'))
    W.append(('vh::addas_<int, int>::value && vh::preinc_<int>::value && vh::lnot_<int>::value && vh::div_<double, double>::value && vh::lt_<int, double>::value', True, 'anchor: numbers', 'anchor'))
    return W

def locate(probe, std):
    """the declaration that makes the expression compile"""
    a, b, e = probe
    src = build.fresh('.cpp')
    with open(src, 'w') as f:
        f.write((PRE % "").replace("@DEEP@", "") + 'namespace vh { void probe(%s & a%s) { (void)(%s); } }\n' % (a, ', %s const & b' % b if b else '', e))
    rc, out, err = build.run(['clang-query-18' if build.have('clang-query-18') else 'clang-query', '-c', 'set output dump', '-c', 'set bind-root false',
                              '-c', 'match callExpr(hasAncestor(functionDecl(hasName("vh::probe"))), callee(functionDecl().bind("f")))', src, '--', '-std=' + std, '-w', '-I' + build.REPO + '/include'] + build.DEFS)
    m = re.search(r'(?:Function|CXXMethod|CXXConversion)Decl 0x\w+ (?:(?:prev|parent) 0x\w+ )*<([^>]*)>', out)
    return m.group(1) if m else None

def check(tier):
    rep = report.Report('C27', tier, RULE)
    for cfg in decide.configs(tier):
        W = witnesses()
        std = cfg.get('std', 'c++17')
        src = (PRE % detectors()).replace("@DEEP@", deep()) + 'extern "C" { extern const unsigned char tab[]; const unsigned char tab[] = {\n' + ',\n'.join('(%s) ? 1 : 2' % w[0] for w in W) + ' }; }\n'
        text, _ = build.front(src, extra=cfg.get('extra', ()), std=std)
        m = ir.Module(text, parse_bodies=False)
        init = m.globals['@tab']['init']
        if init[0] != 'str': raise build.BuildError('table not constant')
        raw = [int(x, 16) if len(x) == 2 else ord(x) for x in re.findall(r'\\([0-9A-Fa-f]{2})|([^\\])', init[1]) for x in [x[0] or x[1]]]
        if len(raw) != len(W) or set(raw) - {1, 2}: raise build.BuildError('table not understood: %d %d' % (len(raw), len(W)))
        for v, (e, want, what, probe) in zip(raw, W):
            if probe == 'anchor':
                rep.count('anchors')
                if (v == 1) != want: rep.count('anchors_missing')
                continue
            ok = (v == 1) == want
            rep.hold(what, ok, where=None if ok else (locate(probe, std) if probe and len(rep.bad) < 8 else 'include/g3type.hpp, include/g3traits.hpp'), expected='%s is %s' % (e, str(want).lower()), found=str(v == 1).lower())
        if rep.counts.get('anchors_missing', 0) > rep.counts['anchors']//2: raise build.BuildError('detectors do not work on this tree')
        rep.count('witnesses', len(W))
        rep.sample('%s: %d witnesses, e.g. %s' % (std, len(W), W[0][0]))
    rep.functions |= {'%s' % t for t in ga.NINE}
    return rep.finish()
