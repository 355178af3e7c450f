"""Verus declarations for the record types met during extraction."""
from ct import vtype


def struct_text(trs, declared=()):
    """trs: translators; returns text of all structs (dependency order irrelevant in Rust)"""
    seen = {}
    for t in trs:
        for q in t.structs:
            vn, fl = t.structs[q]
            if fl is None or vn in seen or vn in declared:
                continue
            seen[vn] = 'pub struct %s { %s }' % (vn, ', '.join('pub %s: %s' % (al, vtype(ft)) for nm, al, ft in fl))
    return '\n'.join(seen[k] for k in sorted(seen))
