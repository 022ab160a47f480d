"""C22 C23: the same number in several schemes and at several company prefix lengths.

The oracle is agreement between the library's own answers; the reference model only
supplies names, lengths and escaping.
"""

from vp import refmodel as R
from vp import target as T
from vp.core import Unit, fail
from vp.props.common import build, expect_epc, scheme_of

GTIN = ("sgtin", "lgtin", "upui", "itip")
THIRTEEN = ("sgln", "pgln", "grai", "gdti", "sgcn")
EIGHTEEN = ("gsrn", "gsrnp", "sscc")


# ---- C22 -----------------------------------------------------------------
def _fields(name, digits, n, case):
    """Fields of the EPC whose number (without check digit) is `digits`."""
    s = R.SCHEMES[name]
    if s.indicator:
        f = {"cp": digits[1 : 1 + n], "ref": digits[0] + digits[1 + n :]}
    else:
        f = {"cp": digits[:n], "ref": digits[n:]}
    if s.serial == "digits":
        f["serial"] = case["number"]
    elif s.serial:
        f["serial"] = case["serial"][: s.serial_max]
    if name == "itip":
        f["piece"], f["total"] = case["number"].rjust(2, "0")[:2], case["number"].rjust(2, "0")[-2:]
    return f


def _text(obj, name, *args, **kw):
    o = T.method(obj, name, *args, **kw)
    if not o.ok or not isinstance(o.value, str):
        fail("%s of %r: %s", name, obj.epc_uri, o.show())
    return o.value


def c22_shared(case, rec):
    digits = case["digits"]
    n = case["n"]
    names = {13: GTIN, 12: THIRTEEN, 17: EIGHTEEN}[len(digits)]
    seen, bits = {}, {}
    for name in names:
        s = R.SCHEMES[name]
        f = _fields(name, digits, n, case)
        obj = build(s, s.uri(f))
        es = _text(obj, "gs1_element_string")
        start = len(s.ai) + 2 + (name == "grai")
        seen["element string of " + obj.epc_uri] = es[start : start + len(digits) + 1]
        rec.cmp()
        if s.keyed:
            seen["key of " + obj.epc_uri] = _text(obj, "gs1_key")[: len(digits) + 1]
            rec.cmp()
        for coding in s.codings:
            if s.representable(coding, f):
                b = _text(obj, "binary", **T.enc_kwargs(s, coding, case["flt"] % 8))
                m = R.prefix_bits(len(f["cp"]))
                # filter, partition, company prefix; then the reference as a number
                ref = int(b[14 + m : 11 + 3 + s.part_bits], 2)
                bits.setdefault((f["cp"], f["ref"]), {})["%s of %s" % (coding, obj.epc_uri)] = (b[8 : 14 + m], ref)
                rec.cmp()
    _same("number", seen)
    for group in bits.values():
        _same("tag fields", group)
    number = next(iter(seen.values()))
    if number[:-1] != digits:
        fail("%s: the number is %r, expected it to start with %r", *_first(seen), digits)
    if sum(int(c) * (3 if i % 2 else 1) for i, c in enumerate(reversed(number))) % 10:
        fail("%s: %r does not end in its check digit", *_first(seen))
    # the check digit does not change when zeros are put in front
    for name in {12: ("sgtin", "gsrn", "gsin"), 13: ("gsrn", "sscc", "gsin"), 17: ()}[len(digits)]:
        s = R.SCHEMES[name]
        longer = digits.rjust(s.total_digits, "0")
        f = _fields(name, longer, n, case)
        key = _text(build(s, s.uri(f)), "gs1_key")
        rec.cmp()
        if key != longer + number[-1]:
            fail("%s: %r, but the key of %r is %r", *_first(seen), s.uri(f), key)
    rec.bucket("%d digits" % (len(digits) + 1))
    if digits.strip("0"):
        rec.mark()


def _first(seen):
    return next(iter(seen.items()))


def _same(what, seen):
    if len(set(seen.values())) > 1:
        a = _first(seen)
        b = next(i for i in seen.items() if i[1] != a[1])
        fail("different %s: %s gives %r, %s gives %r", what, *a, *b)


def c22_units():
    from hypothesis import strategies as st

    from vp import gens as G

    for k in (12, 13, 17):
        yield Unit(
            "digits-%d" % k, "shared",
            lambda k=k: st.fixed_dictionaries({
                "digits": G.digits(k), "n": st.sampled_from(R.CP_LENGTHS), "flt": st.integers(0, 7),
                "serial": G.serial_text(16), "number": G.numeric_serial(12),
            }),
            40000, 300000,
        )


# ---- C23 -----------------------------------------------------------------
def _splits(s, f):
    """The same key with its company prefix ending at every possible place."""
    if isinstance(s, R.Keyed12):
        lead = f["ref"][:1] if s.indicator else ""
        rest = f["cp"] + f["ref"][len(lead) :]
        for n in R.CP_LENGTHS:
            yield n, {**f, "cp": rest[:n], "ref": lead + rest[n:]}
        return
    tail = "serial" if s.name in ("giai", "ginc") else "ref"
    whole = f["cp"] + f[tail]
    for n in R.CP_LENGTHS:
        if n < len(whole) and R.is_digits(whole[:n]):
            yield n, {**f, "cp": whole[:n], tail: whole[n:]}


def c23_split(case, rec):
    s = scheme_of(case)
    cls = T.CLS[s.name]
    objs, texts, keys = [], {}, {}
    for n, g in _splits(s, case["f"]):
        obj = build(s, s.uri(g))
        objs.append((n, obj))
        texts[obj.epc_uri] = _text(obj, "gs1_element_string")
        rec.cmp()
        if s.keyed:
            keys[obj.epc_uri] = _text(obj, "gs1_key")
            rec.cmp()
    _same("element strings", texts)
    _same("keys", keys)
    es = _first(texts)[1]
    for n, obj in objs:
        expect_epc(T.call(cls.from_gs1_element_string, es, n), s, obj.epc_uri, "%r read with prefix length %d", es, n)
        rec.cmp()
        if s.keyed:
            k = T.call(T.GENERIC["get_gs1_key"], es, n)
            rec.cmp()
            if k.key() != ("ok", keys[obj.epc_uri]):
                fail("key of %r with prefix length %d: %s, expected %r", es, n, k.show(), keys[obj.epc_uri])
    outs = {}
    for n, obj in objs:
        for m, other in objs:
            if (obj == other) != (n == m):
                fail("%r == %r: %r", obj.epc_uri, other.epc_uri, n != m)
            rec.cmp()
        f = s.parse(obj.epc_uri)
        for coding in s.codings:
            if s.representable(coding, f):
                b = _text(obj, "binary", **T.enc_kwargs(s, coding, 0))
                rec.cmp()
                if outs.setdefault(b, obj.epc_uri) != obj.epc_uri:
                    fail("%r and %r have the same tag %s", outs[b], obj.epc_uri, b)
    rec.bucket("%s %d splits" % (s.name, len(objs)))
    if len(objs) > 1:
        rec.mark()


def c23_units():
    from vp import gens as G

    for n in sorted(s.name for s in R.ELEMENTS):
        yield Unit(n, "split", lambda n=n: G.epc_case(n), 7000, 60000)


PROPS = {
    "C22": dict(
        judges={"shared": c22_shared}, units=c22_units,
        rule="A case is a number of 12, 13 or 17 digits, a company prefix length and serials, made into an EPC of every scheme that can carry the number. Non-trivial: the digits are not all zero.",
    ),
    "C23": dict(
        judges={"split": c23_split}, units=c23_units,
        rule="A case is a valid EPC, rewritten with its company prefix ending at every possible place. Non-trivial: there are at least two such places.",
    ),
}
