"""Programs in which any sub-expression, in any position, may leave through ?, return or break."""
import random
from lang import *
from h02 import A, D, E, F, B
T = lambda k, v: ('call', V('t'), [L(k), v])
PRE = [('fndef', 't', ['k', 'v'], [pr(V('k')), ('expr', V('v'))]),
       ('fndef', 'three', ['a', 'b', 'c'], [('let', 'z', V('a')), pr(V('a'), V('b'), V('c')), ('expr', V('z'))]),
       ('fndef', 'id', ['a'], [('ret', V('a'))])]
class G:
    def __init__(s, r, p): s.r, s.p, s.k = r, p, 0
    def n(s): s.k += 1; return s.k
    def esc(s, loop):
        r = s.r; c = r.random()
        if c < .45: return ('try', E(b'e', L(s.n())))
        if c < .6: return ('try', T(s.n(), E(b'x', L(7))))
        if c < .8 or not loop: return ('if', L(True), [('ret', L(1000 + s.n()))], [('expr', L(0))])
        return ('if', L(True), [('break',)], [('expr', L(0))])
    def e(s, t, d, loop):
        """an expression of type t (i int, b bool, f function, a array) or an escape"""
        r = s.r
        if r.random() < s.p: return s.esc(loop)
        if r.random() < .12: return ('if', s.e('b', d - 1, loop), [('expr', s.e(t, d - 1, loop))], [('expr', s.e(t, d - 1, loop))]) if d > 0 else s.e(t, 0, loop)
        if t == 'b':
            c = r.random()
            if d <= 0 or c < .4: return T(s.n(), L(r.random() < .5))
            if c < .6: return B(r.choice(['<', '>=', '==', '!=']), s.e('i', d - 1, loop), s.e('i', d - 1, loop))
            if c < .9: return B(r.choice(['and', 'or']), s.e('b', d - 1, loop), s.e('b', d - 1, loop))
            return ('un', 'not', s.e('b', d - 1, loop))
        if t == 'a': return A(*[s.e('i', d - 1, loop) for _ in range(r.randint(1, 3))])
        c = r.random()
        if d <= 0 or c < .25: return T(s.n(), L(r.randint(0, 2)))
        if c < .4: return B(r.choice(['+', '-', '*']), s.e('i', d - 1, loop), s.e('i', d - 1, loop))
        if c < .6: return ('call', V('three'), [s.e('i', d - 1, loop) for _ in range(3)])
        if c < .7: return ('call', ('dot', V('std'), 'len'), [s.e('a', d - 1, loop)])
        if c < .8: return ('idx', s.e('a', d - 1, loop), s.e('i', d - 1, loop))
        if c < .85: return ('dot', D(('p', s.e('i', d - 1, loop)), ('q', s.e('i', d - 1, loop))), r.choice('pq'))
        if c < .9: return ('call', ('if', s.e('b', d - 1, loop), [('expr', V('id'))], [('expr', V('id'))]), [s.e('i', d - 1, loop)])
        if c < .95: return ('call', V('id'), [s.fncall(d - 1)])
        return s.fncall(d - 1)
    def fncall(s, d):
        return ('call', ('fn', [], s.block(max(d, 0), False)), [])
    def st(s, d, loop):
        r = s.r; c = r.random(); v = 'v%d' % s.n()
        if c < .15: return [('let', v, s.e('i', d, loop)), pr(V(v))]
        if c < .3: return [('let', v, A(L(1), L(2))), ('asg', ('idx', ('if', s.e('b', d - 1, loop), [('expr', V(v))], [('expr', V(v))]), s.e('i', d - 1, loop)), s.e('i', d - 1, loop)), pr(V(v))]
        if c < .45: return [('expr', s.e(r.choice('ib'), d, loop))]
        if c < .6 and d > 0:
            return [('let', v, L(0)), ('while', B('and', B('<', V(v), L(2)), s.e('b', d - 1, loop)) if r.random() < .7 else B('and', s.e('b', d - 1, loop), B('<', V(v), L(2))), [('asg', V(v), B('+', V(v), L(1)))] + s.block(d - 1, True)), pr(L(s.n()))]
        if c < .75 and d > 0: return [('for', v, std('range', L(0), L(2), L(1)) if r.random() < .6 else std('iter', s.e('a', d - 1, loop)), s.block(d - 1, True)), pr(L(s.n()))]
        if c < .9 and d > 0: return [('expr', ('if', s.e('b', d - 1, loop), s.block(d - 1, loop), s.block(d - 1, loop)))]
        if c < .94: return [('ret', s.e('i', d, loop))]
        return [pr(s.e('i', d, loop), s.e('i', d, loop))]
    def block(s, d, loop):
        out = []
        for _ in range(s.r.randint(1, 3)):
            out += s.st(d, loop)
            if out[-1][0] == 'ret': break
        if out[-1][0] != 'ret': out.append(('expr', L(s.n())))
        return out
def run_flows(ctx, group, count, p=.06):
    def one(i):
        r = random.Random((ctx.seed, group, i).__repr__())
        g = G(r, r.choice([p / 2, p, p * 2, p * 3]))
        prog = list(PRE)
        for j in range(3):
            prog += [('fndef', 'f%d' % j, [], g.block(3, False)), ('let', 'pad%d' % j, L(j)),
                     pr(L(500), ('call', V('f%d' % j), []), L(600), V('pad%d' % j)),
                     ('let', 'w%d' % j, A(L(1), ('call', V('f%d' % j), []), L(3))), pr(V('w%d' % j)),
                     ('expr', ('call', V('three'), [L(70), ('call', V('f%d' % j), []), L(80)]))]
        ex = expected(prog, 20000)
        if ex is None: return None
        out, k = ex
        return ctx.expect(group, source(prog), out, 127 if k else 0)
    ctx.map(group, range(count), one)
