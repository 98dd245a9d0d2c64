from props.mem_ import mem


def run(r, tier):
    mem(r, 'C10', ['grow', ('splice', False), ('splice', True), ('jspl', False), ('jspl', True)], dict(worlds=20, failures=40, successes=40, bytes_compared=100))
    r.cov['explanation'] = ('Abstract interpretation of reserving, range write and range clear on every kind of buffer (invalid, zero-copy, default and user allocator; with and without memory), '
                            'all ranges and sizes, every allocation failing or succeeding. After every failing result the buffer structure equals the one before and a byte at an arbitrary position is the original one.')
