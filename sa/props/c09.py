from props.enc_ import enc


def run(r, tier):
    enc(r, 'C09', dict(worlds=100, failures=150, refusals=4))
    r.cov['explanation'] = ('The same abstract interpretation with every reservation and every allocation failing or succeeding: after a failure nothing more is reserved or written, '
                            'the error of the first failure is returned, and the buffer has the size it had before the call. Encoding into an encoder without memory returns an error and writes nothing.')
