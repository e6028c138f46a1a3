"""Canonical JSON-able form of observations, shared by both sides."""


def norm(v, depth=0):
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, (bytes, bytearray)):
        return {'bytes': list(v)}
    if isinstance(v, (list, tuple)):
        return [norm(x, depth + 1) for x in v]
    if isinstance(v, range):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {'dict': sorted([[repr(k), norm(x, depth + 1)] for k, x in v.items()], key=lambda t: t[0])}
    if isinstance(v, (set, frozenset)):
        return {'set': sorted(repr(x) for x in v)}
    if hasattr(v, 'kind') and hasattr(v, 'value') and type(v).__name__ == 'Outcome':
        return {'dict': sorted([["'kind'", v.kind], ["'value'", norm(v.value)]])}
    return '<' + type(v).__name__ + '>'
