"""Replay a counterexample on the real code, with no symbolic layer loaded.

python -m symtorch.replay FILE   exit 1: the property fails at these inputs, exit 0: it does not
"""
import json
import sys
import traceback


def main():
    import torch
    from symtorch import ctx
    from symtorch.runner import get_case
    d = json.load(open(sys.argv[1]))
    c = get_case(d['property'], d['tier'], d['case'])
    torch.set_default_dtype(torch.float64)
    torch.manual_seed(1)
    k = ctx.ConCtx(d['inputs'])
    try:
        k.run(c.fn, c.params)
    except ctx.PathAbandoned:
        pass
    except Exception as e:
        site = ctx.exception_site(e)
        if site is not None and site[0] == 'repo':
            print('exception {}: {} at {}'.format(type(e).__name__, str(e)[:300], site[1]))
            return 1
        if d['label'].startswith(ctx.UNUSABLE) and site is not None and site[0] == 'harness' and not ctx.missing_private(e):
            print('exception {}: {} at {}'.format(type(e).__name__, str(e)[:300], site[1]))
            return 1
        if not k.failed:
            traceback.print_exc()
            return 3
        # a check failed before the harness went on with what it had made sure of
    if k.failed:
        print('; '.join(k.failed[:3]))
        return 1
    print('all {} checks hold at these inputs'.format(k.checked))
    return 0


if __name__ == '__main__':
    sys.exit(main())
