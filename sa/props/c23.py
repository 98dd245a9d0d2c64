from props.desc_ import desc


def run(r, tier):
    desc(r, 'C23', 'extend', 3 if tier == 'quick' else 6)
    r.minimum.update(worlds=12, results=12)
    r.assumptions += ['a description is not registered as an extension of itself; chains are acyclic']
    r.cov['explanation'] = ('Abstract interpretation of pb_descriptor_extend on chains of up to 3 (thorough: 6) registered extensions, with the registered one absent from the chain (with or without an extension of its own) or at any place in it; the resulting chain must contain every earlier extension and the new one, and be '
                            'unchanged when it was registered already; field tables are not written.')
