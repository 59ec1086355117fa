"""Cases for the hash-order rule: bad_* must be reported, good_* must not."""
import numpy as np
import pandas as pd


def bad_list(names):
    return list(set(names))


def bad_array(names):
    return np.array([x for x in set(names) | {"a"}])


def bad_append(names):
    out = []
    for x in set(names):
        out.append({"n": x})
    return pd.DataFrame(out)


def bad_number(names):
    s = set(names)
    return dict(zip(s, range(len(s))))


def bad_enumerate(names):
    d = {}
    for i, x in enumerate(frozenset(names)):
        d[x] = i
    return d


def bad_counter(names):
    d, i = {}, 0
    for x in set(names):
        d[x] = i
        i += 1
    return d


def bad_ties(names):
    return sorted(set(names), key=len)


def bad_ties_part(names):
    return sorted(set(names), key=lambda x: x[0])


def bad_pick(names):
    return next(iter(set(names)))


def bad_last(names):
    last = None
    for x in set(names):
        last = x
    return last


def bad_draw(names, rng):
    d = {}
    for x in sorted(set(names)):
        d[x] = 0.0
    for x in set(names):
        d[x] = rng.normal()
    return d


def bad_dict(names):
    d = {}
    for x in set(names):
        d[x] = x.upper()
    return list(d.values())


def bad_join(names):
    return " + ".join(set(names))


def bad_helper(names):
    return _as_list(set(names))


def _as_list(v):
    return [x for x in v]


class BadTable:
    def __init__(self, names):
        self.names = {"all": set(names)}
        self.order = self._order()

    def _order(self):
        return list(self.names["all"])


def good_sorted(names):
    return sorted(set(names))


def good_order(names, order):
    return sorted(list(set(names)), key=lambda x: order[x])


def good_unique(names):
    return np.unique(list(set(names)))


def good_lookup(names, keys):
    s = set(names)
    d = dict(zip(s, [len(x) for x in s]))
    return [d[k] for k in keys]


def good_count(names):
    n = 0
    for x in set(names):
        if len(x) > 1:
            n += 1
    return n


def good_keyed(names, frame):
    for x in set(names):
        frame.loc[x, x] = 1.0
    return frame


def good_set(names):
    out = set()
    for x in set(names):
        out.add(x.lower())
    return out


def good_diagonal(names, order, n):
    m = np.zeros((n, n))
    s = set(names)
    i = [order[x] for x in s]
    m[i, i] = 1.0
    return m


def good_sort_method(names):
    v = list(set(names))
    v.sort()
    return v


def good_helper(names):
    v = _as_list(set(names))
    return sorted(v)


def good_fromkeys(names):
    return list(dict.fromkeys(names))


def good_any(names, other):
    for x in set(names):
        if x in other:
            return True
    return False
