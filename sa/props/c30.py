from props.eff_ import *


def run(r, tier):
    m, pub = universe()
    dumps = sorted(n for n in pub if n.endswith('_dump'))
    rest = sorted(n for n in pub if n not in dumps)
    F = flow.Flow(m, rest)
    cover(r, F)
    for n, ins in sorted(F.external.items()):
        d = flow.EXT.get(n, {})
        if n in flow.NEVER:
            for i in ins: report(r, F, 'C30', 'call of %s, which %s' % (n, 'ends the process' if n in TERM else 'has effects outside of the library'), i)
        elif d.get('io'):
            for i in ins: report(r, F, 'C30', 'call of %s: output outside of the dump operations' % n, i)
    G = flow.Flow(m, dumps)
    r.cov['dump_operations'] = len(dumps)
    r.cov['dump_output_calls'] = sum(len(v) for n, v in G.external.items() if flow.EXT.get(n, {}).get('io'))
    for n, ins in sorted(G.external.items()):
        if n in flow.NEVER:
            for i in ins: report(r, G, 'C30', 'call of %s in a dump operation' % n, i)
    r.minimum.update(operations=120, functions=130, dump_operations=3, dump_output_calls=1)
    r.cov['explanation'] = ('Call graph (indirect calls resolved by points-to analysis) of every public operation except the dump operations: no reachable call ends the process, raises signals, '
                            'prints or touches files. dump_output_calls is the expected positive: the same query finds the output of the dump operations.')
    r.assumptions += ['release build as installed (assertions compiled out); callbacks supplied by the user are not the library']


TERM = {'exit', '_exit', '_Exit', 'abort', 'raise', 'kill', 'longjmp', '__assert_fail', '__assert', 'quick_exit', 'pthread_exit', 'llvm.trap', 'llvm.debugtrap', 'llvm.ubsantrap', 'err', 'errx', '__stack_chk_fail'}
