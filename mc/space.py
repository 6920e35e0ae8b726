"""Enumerations shared by the checks: layouts (which sample of which file belongs to which domain) and mixtures."""
import itertools
from fractions import Fraction

ALPHABETS = {
    "single": {"A": {"l": "a"}, "B": {"l": "b"}, "C": {"l": "c"}},
    "multi": {"A": {"l": ["a"]}, "B": {"l": ["a", "b"]}, "C": {"l": ["b"]}},
    "two": {"A": {"l": "a", "t": "x"}, "B": {"l": "a", "t": "y"}, "C": {"l": "b", "t": None}},
}


def as_key(props):
    from mixtera.core.query.mixture import MixtureKey

    return MixtureKey({k: (list(v) if isinstance(v, (list, tuple)) else [v]) for k, v in props.items() if v is not None})


def layouts(n, letters, nfiles=2, canonical=True):
    """all ways to spread n samples with the given letters over nfiles files (as strings)"""
    for chars in itertools.product(letters, repeat=n):
        if canonical:  # first appearances in alphabetical order of the letters actually used ('.' excluded)
            first = []
            for c in chars:
                if c != "." and c not in first:
                    first.append(c)
            if first != sorted(first):
                continue
        for cuts in itertools.combinations_with_replacement(range(n + 1), nfiles - 1):
            parts, p = [], 0
            for c in cuts + (n,):
                parts.append("".join(chars[p:c]))
                p = c
            yield parts


def compositions(total, k, minimum=1):
    """all k-tuples of integers >= minimum summing to total"""
    if k == 1:
        if total >= minimum:
            yield (total,)
        return
    for i in range(minimum, total - (k - 1) * minimum + 1):
        for rest in compositions(total - i, k - 1, minimum):
            yield (i,) + rest


def static(keys_counts, strict):
    """a StaticMixture whose per-chunk counts are exactly the given integers"""
    from mixtera.core.query.mixture import StaticMixture

    size = sum(c for _, c in keys_counts)
    return StaticMixture(size, {k: c / size for k, c in keys_counts}, strict=strict)
