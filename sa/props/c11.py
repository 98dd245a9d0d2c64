from props.mem_ import mem


def run(r, tier):
    mem(r, 'C11', ['grow', ('splice', False), ('splice', True), ('jspl', False), ('jspl', True), 'destroy', 'create'], dict(worlds=40, failures=40, successes=40))
    r.cov['explanation'] = ('Abstract interpretation of every operation that allocates, resizes or releases, on buffers, journals and encoders over user memory: no allocator callback is reached (the zero-copy allocator has none), '
                            'a change of the length is refused without a change of structure or bytes, and destruction does not touch the memory.')
