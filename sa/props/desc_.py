"""descriptor operations, shared by C22-C24"""
import ir
from desc import DescSpec

ASSUME = ['field tables are sorted by strictly increasing positive tags, enum values by number (as the generator emits them); names are unique within a description and its extensions']


def desc(r, rule, part, *args):
    m = ir.load(inline_tu=True)
    d = DescSpec(m)
    try:
        getattr(d, part)(*args)
    finally:
        fs = set()
        for ip in d.ips:
            r.interp(ip, {rule}, True)
            fs |= ip.stats['funcs']
            for k in ('paths', 'access', 'branches', 'heads'): r.cov[k] = r.cov.get(k, 0) + ip.stats[k]
        r.cov.update(d.cov)
        r.cov['functions_analysed'] = sorted(fs)
        r.cov['functions'] = len(fs)
    return d
