from props.desc_ import desc, ASSUME


def run(r, tier):
    desc(r, 'C22', 'lookups', 3 if tier == 'quick' else 5)
    r.assumptions += ASSUME
    r.minimum.update(worlds=20, lookups=20, results=20, found=8, absent=8)
    r.cov['explanation'] = ('Abstract interpretation of the four lookups over tables of every size with symbolic sorted content; a symbolic position marks the matching entry (or there is none) in one of a chain of '
                            'descriptions linked as extensions (chains of up to 3, thorough: 5). Every abstract result must be the matching entry, or nothing when there is none, and every access inside its table.')
