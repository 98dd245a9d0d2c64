from props.desc_ import desc


def run(r, tier):
    desc(r, 'C24', 'iterators')
    r.minimum.update(worlds=27, results=27)
    r.assumptions += ['members of a oneof lie inside the field table of its message; iterators are moved only from a valid position']
    r.cov['explanation'] = ('Abstract interpretation of create, begin, end, prev, next, pos, current, size and empty of the three descriptor iterators with a table of symbolic size and a symbolic valid position: begin and end go to '
                            'the first and last entry exactly when there is one, next and prev move by one exactly when another entry follows, current yields the entry at the position.')
