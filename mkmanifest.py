#!/usr/bin/env python3
"""writes MANIFEST.json from the table below (a check is claimed if checks/<id>.py exists)"""
import json, os
HERE = os.path.dirname(os.path.realpath(__file__))
NF = 'static analysis: SSA value numbering + rational-function normal forms'
TR = ('Trusts clang/opt lowering to LLVM IR, the IR reader and abstract domains in engine/, and the oracle in engine/ga.py. ')
EX = 'Equality is in exact real arithmetic (rounding is C30); case distinctions are decided with IEEE class/interval semantics. '
T = {
 'C01': (NF, EX + 'Complete for all operator overloads and all finite operands; missing overloads/result types reported.'),
 'C02': (NF, EX + 'Complete for all supported pairs.'),
 'C03': (NF, EX + 'Complete for all supported pairs; six reversed overloads are listed known findings.'),
 'C04': (NF, EX + 'Complete for all types and all four operations.'),
 'C05': (NF, EX + 'Complete for all types.'),
 'C06': (NF, EX + 'Complete for all types.'),
 'C07': (NF + ' with principal-root branch regions', EX + 'Per guard partition of the input space.'),
 'C08': (NF + ' over a guard partition (class/interval dataflow)', EX),
 'C09': (NF + ' over a guard partition (class/interval dataflow)', EX),
 'C10': (NF + ' with sqrt/sin/cos rewrite rules over a guard partition', EX),
 'C11': (NF + ' with function atoms over a guard partition', EX),
 'C12': (NF + ' with log/atan2 branch regions over a guard partition', EX),
 'C13': (NF + ' with root/angle atoms over a guard partition', EX),
 'C14': ('static analysis: floating point class dataflow over SSA', 'Decides the truth of isValid for every assignment of IEEE classes to components. '),
 'C15': ('static analysis: constant propagation over SSA', 'Every documented constant is evaluated by the compiler and the value graph. '),
 'C16': ('static analysis: floating point class dataflow (NaN propagation) over SSA', 'Each operation, each operand position, each NaN component. '),
 'C17': ('static analysis: floating point class/interval dataflow over a guard partition', 'Regions of null operands and tolerances. '),
 'C18': (NF + ' with an ordering domain over comparison guards', EX),
 'C19': ('static analysis: order-relation dataflow over SSA', 'All relation assignments (<,=,>,unordered) of component pairs. '),
 'C20': ('static analysis: pointer/offset analysis with symbolic subscript', 'All subscripts, const and mutable access. '),
 'C21': ('static analysis: SSA value identity (copy propagation)', 'All constructors and members. '),
 'C22': ('static analysis: abstract interpretation of stream event chains', 'Stream primitives of the standard library are modelled by their specification. '),
 'C23': ('static analysis: typestate of extraction event chains with NaN class dataflow', 'Stream primitives of the standard library are modelled by their specification. '),
 'C24': ('static analysis: abstract interpretation of stream format state', 'Stream primitives of the standard library are modelled by their specification. '),
 'C25': ('static analysis: abstract interpretation of stream format state', 'Decides the digit count constant; 16 digits after the point = 17 significant digits are necessary and sufficient for binary64 (given correctly rounding conversions). One known finding. '),
 'C26': ('static analysis: call graph, effect and global-state analysis of LLVM IR', 'Every function reachable from the public interface. '),
 'C27': ('static analysis: compile-time witness table evaluated by the type checker', 'Every ordered pair of types and operator. '),
 'C28': ('static analysis: per-header semantic analysis (two compilers) and linkage scan', 'Every header alone and every rotation (thorough: every ordered pair) of the headers. '),
 'C29': (NF + ' with sin/cos rewrite rules over a guard partition', EX),
 'C30': ('static analysis: a priori rounding error domain (posynomial error bounds) over SSA terms', 'First order in the rounding unit; library functions are taken to be accurate to one unit. General exponential, inverse and amplitude of MultiVector items are outside the statement. '),
 'C32': ('static analysis: guard lowering (every undefined operation guarded, guards eliminated by dataflow), initialisation by distinct unknown values that no result may mention, lifetime typestate', 'Subscripts chosen by the caller are outside. The standard library is taken to be correct for arguments that satisfy its preconditions. '),
 'C33': (NF, EX + 'All type triples; both forms of every law are compared with the algebra and with each other\'s type. '),
}
NA = {
 'C31': 'Round-trip equality of text depends on the decimal conversion algorithms of the C++ library and on locale and stream states at run time, which are outside the source analysed; its structural necessary conditions (all components, order, separation, digit counts, read order) are claimed separately as C22 to C25.',
}
def main():
    checks, na = [], []
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(l)['id']
        if os.path.exists(os.path.join(HERE, 'checks', p.lower() + '.py')):
            t, n = T[p]
            checks.append({'property': p, 'quick_cmd': 'python3 check.py %s' % p, 'thorough_cmd': 'python3 check.py %s --thorough' % p,
                           'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': 'other', 'level_note': TR + n})
        else:
            na.append({'property': p, 'reason': NA.get(p, 'check not built yet')})
    d = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo. No repository code is executed by any check: see DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(d, f, indent=1); f.write('\n')
if __name__ == "__main__": main()
