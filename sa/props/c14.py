from props.mem_ import mem


def run(r, tier):
    mem(r, 'C14', [('jspl', False), ('jspl', True)], dict(worlds=10, failures=40, successes=40, records_compared=60))
    r.cov['explanation'] = ('Abstract interpretation of the journal\'s write and clear with any number of existing records, every allocation failing or succeeding: a successful change of the length appends one record with the origin, end and '
                            'difference, an equal-length change none, a failing one leaves the number of records, the records and the message as they were.')
