"""C14: model composition."""
from props.models_common import *

OWNS = ['alg']
SELF_TEST = 15
ASSUMPTIONS = [
    'components are probe models whose outputs are integers; models of the '
    'same name are the same model (names determine equality)',
    'products are limited to 10^9 in absolute value']


def scenarios(ctx):
    rng = ctx.rng
    res = tlc_progs(ctx, ctx.pick(858, 6000),
                    lambda p: any(o['op'] != 'fix' for o in p))
    for _ in range(ctx.pick(300, 3000)):
        leaves = [L('null')] + [rand_probe(rng, k)
                                for k in range(rng.randint(2, 5))]
        res.append(dict(kind='prog', leaves=leaves, prog=random_prog(
            rng, leaves, rng.randint(2, 8), rng.choice([0, .15])),
            seed=rng.randint(0, 10 ** 6)))
    return res


def corrupt(tr, rng, sc):
    ix = [i for i, e in enumerate(tr) if e['ev'] in (
        'Eval', 'Make', 'Valid', 'Guess', 'Order')]
    e = tr[rng.choice(ix)]
    ops = [x for x in tr if x['ev'] == 'Make']
    fixed = any(x['op'] == 'fix' for x in ops)
    if fixed:
        return None
    if e['ev'] == 'Eval':
        if ops[e['m'] - 1]['op'] == 'leaf' or not e['out']:
            return None
        if all(x['nm'] != ops[e['m'] - 1]['nm'] or x['op'] != 'leaf'
               for x in ops):
            e['out'][0] += 1
            return 'value', tr
        return None
    if e['ev'] == 'Make':
        if rng.random() < .5:
            e['np'] += 1
            return 'count', tr
        e['nm'] += 'x'
        return 'name', tr
    if e['ev'] == 'Valid':
        e['ok'] = not e['ok']
        return 'valid', tr
    if e['ev'] == 'Guess':
        if not e['init']:
            return None
        e[rng.choice(['init', 'lo', 'hi'])][-1] += 1
        return 'guess', tr
    e['eq'] = not e['eq']
    return 'order', tr
