from props.mem_ import mem


def run(r, tier):
    mem(r, 'C12', ['create', 'destroy', 'grow', ('splice', False), ('splice', True), ('jspl', False), ('jspl', True), 'callers'], dict(worlds=40, failures=40, successes=40, blocks_checked=100, heap_calls=6))
    r.cov['explanation'] = ('Abstract interpretation of creation, change and destruction of buffers, journals and encoders with blocks tagged by the allocator they came from: every resize and release goes to that allocator with its data, '
                            'after every operation the live blocks are exactly those the object refers to, after destruction and failed creation there are none, and a second destruction does nothing. '
                            'Heap functions of the C library are called only by allocator callbacks.')
