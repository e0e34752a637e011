from checks import c02
RULE = ('every supported overload of operator- is resolved, lowered to SSA, value numbered and each output component normalised to a polynomial; '
        'rule: it equals a + (-b) component by component')
def check(tier):
    return c02.decide_op('C03', tier, RULE, '-', -1, keyf=lambda w: 'reversed:' + w.sig.replace(' ', ''))
