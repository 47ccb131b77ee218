"""C15: fixed parameters."""
from props.models_common import *

OWNS = ['fix']
SELF_TEST = 15
ASSUMPTIONS = [
    'fitted models are linear in their free parameters and the data are '
    'noise-free, so that the free parameters are known (within 2e-4)']


def scenarios(ctx):
    rng = ctx.rng
    res = tlc_progs(ctx, ctx.pick(700, 6000),
                    lambda p: any(o['op'] == 'fix' for o in p))
    for _ in range(ctx.pick(200, 2000)):
        leaves = [L('null')] + [rand_probe(rng, k)
                                for k in range(rng.randint(2, 5))]
        res.append(dict(kind='prog', leaves=leaves, prog=random_prog(
            rng, leaves, rng.randint(2, 8), .6),
            seed=rng.randint(0, 10 ** 6)))
    for _ in range(ctx.pick(160, 1500)):
        res.append(dict(kind='fixfit', seed=rng.randint(0, 10 ** 6),
                        case=rng.choice(['linear', 'wday', 'lin+wday',
                                         'lin+wday', 'lin*wday', 'three'])))
    return res


def corrupt(tr, rng, sc):
    if sc['kind'] == 'fixfit':
        e = tr[-1]
        how = rng.choice(['p', 'out'])
        if not e[how]:
            return None
        e[how][rng.randrange(len(e[how]))] += 1
        return how, tr
    ops = [x for x in tr if x['ev'] == 'Make']
    ix = [e for e in tr if e['ev'] in ('Eval', 'Guess') and
          ops[e['m'] - 1]['op'] == 'fix']
    if not ix:
        return None
    e = rng.choice(ix)
    k = 'out' if e['ev'] == 'Eval' else rng.choice(['init', 'lo', 'hi'])
    if not e[k]:
        return None
    e[k][0] += 1
    return e['ev'], tr
