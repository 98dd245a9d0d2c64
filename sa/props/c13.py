from props.mem_ import mem


def run(r, tier):
    mem(r, 'C13', [('splice', False), ('splice', True), ('jspl', False), ('jspl', True)], dict(worlds=20, failures=40, successes=40, bytes_compared=100))
    r.cov['explanation'] = ('Abstract interpretation of range write and clear with symbolic ranges and sizes over memory that remembers where copied bytes come from: in every successful result a byte at an arbitrary position '
                            'before, inside and behind the range is the required original or new byte, and the size changed by exactly the difference.')
