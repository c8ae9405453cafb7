"""Reduce a failing program recipe: truncate, then drop steps."""

from . import gen


def _fails(recipe, test):
    try:
        return test(recipe)
    except Exception:
        return False


def live(recipe):
    """Remove steps no output depends on."""
    n_in = len(recipe['inputs'])
    need = set(recipe['outs'])
    for k in range(len(recipe['steps']) - 1, -1, -1):
        if n_in + k in need:
            need |= set(recipe['steps'][k][1])
    remap, steps = {i: i for i in range(n_in)}, []
    for k, (name, idx, p) in enumerate(recipe['steps']):
        if n_in + k in need:
            remap[n_in + k] = n_in + len(steps)
            steps.append([name, [remap[i] for i in idx], p])
    return dict(recipe, steps=steps, outs=[remap[o] for o in recipe['outs']])


def shrink(recipe, test, budget=40):
    best = recipe
    n_in = len(recipe['inputs'])
    for k in range(len(recipe['steps'])):
        cand = live(dict(recipe, outs=[n_in + k]))
        budget -= 1
        if _fails(cand, test):
            best = cand
            break
    # replace a step by one of its operands
    k = len(best['steps']) - 2
    while k >= 0 and budget > 0:
        me = n_in + k
        for src in sorted(set(best['steps'][k][1])):
            steps = [
                [n, [src if i == me else i for i in idx], p] for n, idx, p in best['steps']
            ]
            cand = live(dict(best, steps=steps))
            budget -= 1
            if _fails(cand, test):
                best = cand
                k = len(best['steps']) - 1
                break
        k -= 1
    return best
