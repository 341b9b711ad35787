from . import channel, history, lazy, pool, results, sharing

ALL = {}
for _m in (sharing, results, pool, channel, lazy, history):
    for _n, _c in sorted(vars(_m).items()):
        if isinstance(_c, type) and getattr(_c, "id", None) == _n:
            ALL[_n] = _c()
