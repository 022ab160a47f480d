"""Helpers shared by the judges.  No hypothesis import here: replays need none."""

from vp import refmodel as R
from vp import target as T
from vp.core import fail


def scheme_of(case):
    return R.SCHEMES[case["s"]]


def with_escape_case(uri, low):
    """Write the escapes of a canonical URI in lower-case hex where `low` says so."""
    if not low:
        return uri
    out, k, i = [], 0, 0
    while i < len(uri):
        if uri[i] == "%":
            e = uri[i : i + 3]
            out.append(e.lower() if low[k % len(low)] else e)
            k += 1
            i += 3
        else:
            out.append(uri[i])
            i += 1
    return "".join(out)


def uri_of(case):
    s = scheme_of(case)
    uri = s.uri(case["f"])
    if case.get("low") and s.name not in ("cpi", "adi"):
        uri = with_escape_case(uri, case["low"])
    return uri


def build(s, uri):
    """Construct a valid EPC; being refused is a violation of any property."""
    o = T.call(T.CLS[s.name], uri)
    if not o.ok:
        fail("valid %s URI %r could not be built: %s", s.name, uri, o.show())
    return o.value


def holders(s, f):
    return [c for c in s.codings if s.representable(c, f)]


def resplits(s, f):
    """The same digits split at every company prefix length (fixed-length keys)."""
    yield f
    if isinstance(s, R.Keyed12):
        digits = f["cp"] + f["ref"]
        for n in R.CP_LENGTHS:
            if n != len(f["cp"]) and n <= len(digits):
                g = dict(f)
                g["cp"], g["ref"] = digits[:n], digits[n:]
                yield g


def some_filters(s, flt):
    """All filter values for 3-bit filters, a spread plus the drawn one otherwise."""
    if s.filter_bits == 0:
        return [None]
    n = 1 << s.filter_bits
    if n <= 8:
        return list(range(n))
    return sorted({0, 1, n // 2, n - 1, flt % n})


def one_filter(s, flt):
    every = T.filters_of(s)
    return [every[flt % len(every)]]


def expect_epc(o, s, uri, what, *args):
    """The outcome must be an EPC of scheme s with exactly this URI."""
    if not o.ok:
        fail("%s: expected %s, got %s", what % args, uri, o.show())
    v = o.value
    if type(v) is not T.CLS[s.name] or v.epc_uri != uri:
        fail("%s: expected %s(%r), got %s", what % args, s.name.upper(), uri, o.show())


def expect_value(o, value, what, *args):
    if not o.ok or o.value != value or type(o.value) is not type(value):
        fail("%s: expected %r, got %s", what % args, value, o.show())


def expect_refused(o, what, *args):
    if not o.refused:
        fail("%s: expected the conversion exception, got %s", what % args, o.show())


FORMS = ("binary", "hex", "base64")


def textual(form, raw):
    """raw bits -> text of the given form (hex/base64 padded to 16-bit words)."""
    if form == "binary":
        return raw
    h = R.hex_of(raw)
    return h if form == "hex" else R.b64_of_hex(h)


LOW = ([], [], [], [True], [True, False])
