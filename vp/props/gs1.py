"""C06 C07 C16 C17 C19: GS1 element strings, keys, patterns and GTINs."""

from vp import refmodel as R
from vp import target as T
from vp.core import Unit, fail
from vp.props.common import (
    LOW,
    build,
    expect_epc,
    expect_refused,
    expect_value,
    resplits,
    scheme_of,
    uri_of,
)

ELEMENTS = sorted(s.name for s in R.ELEMENTS)
KEYED = sorted(s.name for s in R.KEYED)
GTIN_SCHEMES = ("sgtin", "lgtin")


def _low():
    from hypothesis import strategies as st

    return st.sampled_from(LOW)


# ---- C06 -----------------------------------------------------------------
def c06_roundtrip(case, rec):
    s = scheme_of(case)
    cls = T.CLS[s.name]
    for f in resplits(s, case["f"]):
        uri = uri_of({**case, "f": f})
        obj = build(s, uri)
        o = T.method(obj, "gs1_element_string")
        if not o.ok:
            fail("element string of %r: %s", uri, o.show())
        n = len(f["cp"])
        what, args = "element string %r of %r read back", (o.value, uri)
        expect_epc(T.call(cls.from_gs1_element_string, o.value, n), s, s.uri(f), what, *args)
        expect_epc(
            T.call(T.GENERIC["gs1_element_string_to_gs1_element"], o.value, n),
            s, s.uri(f), "generically " + what, *args,
        )
        rec.cmp(3)
        rec.bucket("%s L%d" % (s.name, n))
    if s.name in ("sscc", "gsrn", "gsrnp", "gsin", "pgln", "sgcn"):
        rec.mark()
    elif not R.is_digits(case["f"].get("serial", "") + case["f"].get("ref", "")):
        rec.mark()


def c06_units():
    from vp import gens as G

    for n in ELEMENTS:
        yield Unit(n, "roundtrip", lambda n=n: G.epc_case(n, low=_low()), 9000, 50000)


# ---- C07 -----------------------------------------------------------------
def c07_content(case, rec):
    s = scheme_of(case)
    for f in resplits(s, case["f"]):
        uri = uri_of({**case, "f": f})
        obj = build(s, uri)
        expect_value(T.method(obj, "gs1_element_string"), s.element_string(f), "element string of %r", uri)
        rec.cmp()
        if s.keyed:
            expect_value(T.method(obj, "gs1_key"), s.key(f), "key of %r", uri)
            rec.cmp()
        if s.name in GTIN_SCHEMES:
            for n, member in T.GTIN.items():
                for how in ("gs1_key", "gtin"):
                    o = T.method(obj, how, gtin_type=member)
                    rec.cmp()
                    try:
                        want = R.key_of(s, f, n)
                    except R.Refused:
                        expect_refused(o, "GTIN-%d (%s) of %r", n, how, uri)
                        rec.bucket("GTIN-%d refused" % n)
                        continue
                    expect_value(o, want, "GTIN-%d (%s) of %r", n, how, uri)
                    rec.bucket("GTIN-%d given" % n)
        rec.bucket("%s L%d" % (s.name, len(f["cp"])))
    if f["cp"].strip("0"):
        rec.mark()


def c07_units():
    from vp import gens as G

    for n in ELEMENTS:
        yield Unit(n, "content", lambda n=n: G.epc_case(n, low=_low()), 8000, 50000)
    for n in GTIN_SCHEMES:
        yield Unit("short-" + n, "content", lambda n=n: G.short_gtin_case(n), 2000, 20000)


# ---- C16 -----------------------------------------------------------------
def c16_pattern(case, rec):
    text = case["t"]
    if not text.startswith("urn:epc:idpat:"):
        # a mutation turned the pattern into some other kind of text
        rec.bucket("not a pattern")
        return
    kw = {}
    if case["gtin"] and text.startswith("urn:epc:idpat:sgtin:"):
        kw = {"gtin_type": T.GTIN[case["gtin"]]}
    o = T.call(T.GENERIC["get_gs1_key"], text, **kw)
    rec.cmp()
    try:
        want = R.idpat_key(text, case["gtin"] if kw else None)
    except R.Refused:
        expect_refused(o, "key of pattern %r %r", text, kw)
        rec.bucket("refused")
    else:
        expect_value(o, want, "key of pattern %r %r", text, kw)
        rec.bucket("key " + text.split(":")[3])
        rec.mark()
    if "*" in text:
        rec.mark()


def c16_units():
    from vp import gens as G

    for n in sorted(R.SCHEMES):
        q = 7000 if n in KEYED else 2400
        yield Unit(n, "pattern", lambda n=n: G.pattern_case(n), q, q * 15)


# ---- C17 -----------------------------------------------------------------
def c17_build(case, rec):
    gtin, serial, n = case["gtin"], case["serial"], case["n"]
    s = R.SCHEMES["sgtin"]
    cls = T.CLS["sgtin"]
    for n in [n] + [m for m in R.CP_LENGTHS if m != n]:
        full = gtin.rjust(14, "0")
        uri = "urn:epc:id:sgtin:%s.%s.%s" % (full[1 : 1 + n], full[0] + full[1 + n : -1], serial)
        o = T.call(cls.from_gtin_plus_serial, gtin, serial, n)
        rec.cmp()
        if len(full) != 14 or n not in R.CP_LENGTHS or not s.valid_uri(uri):
            expect_refused(o, "SGTIN from GTIN %r serial %r prefix length %d", gtin, serial, n)
            rec.bucket("refused")
            continue
        expect_epc(o, s, uri, "SGTIN from GTIN %r serial %r prefix length %d", gtin, serial, n)
        for m, member in T.GTIN.items():
            g = T.method(o.value, "gtin", gtin_type=member)
            rec.cmp()
            if full[: 14 - m].strip("0"):
                expect_refused(g, "GTIN-%d of %r", m, uri)
            else:
                expect_value(g, full[14 - m :], "GTIN-%d of %r", m, uri)
        again = T.call(cls.from_gtin_plus_serial, full, serial, n)
        expect_epc(again, s, uri, "SGTIN from GTIN-14 %r serial %r prefix length %d", full, serial, n)
        rec.cmp()
        if serial == "0" or serial[0] in "123456789" and R.is_digits(serial):  # a number stands for its digits
            number = T.call(cls.from_gtin_plus_serial, gtin, int(serial), n)
            expect_epc(number, s, uri, "SGTIN from GTIN %r serial %s as a number, prefix length %d", gtin, serial, n)
            rec.cmp()
        rec.bucket("GTIN-%d L%d" % (len(gtin), n))
        rec.mark()


def c17_units():
    from vp import gens as G

    for k in range(4):
        yield Unit("gtin-%d" % k, "build", lambda: G.gtin_case(), 20000, 100000)


# ---- C19 -----------------------------------------------------------------
def c19_parse(case, rec):
    es = case["es"]
    lengths = [case["n"]] + [m for m in (R.CP_LENGTHS if case["all"] else ()) if m != case["n"]]
    for n in lengths:
        try:
            s, f, right = R.parse_element_string(es, n)
        except R.Refused:
            s = None
        outs = [("generic", T.call(T.GENERIC["gs1_element_string_to_gs1_element"], es, n))]
        outs += [(name, T.call(T.CLS[name].from_gs1_element_string, es, n)) for name in ELEMENTS]
        rec.cmp(len(outs))
        for who, o in outs:
            if s is None or who not in ("generic", s.name):
                expect_refused(o, "reading %r with prefix length %d (%s)", es, n, who)
            elif right:
                expect_epc(o, s, s.uri(f), "reading %r with prefix length %d (%s)", es, n, who)
                back = T.method(o.value, "gs1_element_string")
                expect_value(back, es, "element string of what %r with prefix length %d gave", es, n)
                rec.cmp()
            elif not o.refused:
                # a wrong check digit: the library may ignore it or refuse it
                expect_epc(o, s, s.uri(f), "reading %r with prefix length %d (%s)", es, n, who)
        if s is None:
            rec.bucket("refused")
        else:
            rec.bucket("%s L%d %s" % (s.name, n, "" if right else "wrong check digit"))
            if right:
                rec.mark()


def c19_units():
    from vp import gens as G

    for n in ELEMENTS:
        yield Unit(n, "parse", lambda n=n: G.element_string_case(n), 4000, 40000)


PROPS = {
    "C06": dict(
        judges={"roundtrip": c06_roundtrip}, units=c06_units,
        rule="A case is a generated valid EPC of a GS1 element scheme (plus re-splits at every company prefix length). Non-trivial: its serial or reference contains a non-digit, or its scheme has digits only.",
    ),
    "C07": dict(
        judges={"content": c07_content}, units=c07_units,
        rule="A case is a generated valid EPC of a GS1 element scheme (plus re-splits at every company prefix length), for all four GTIN lengths where they apply. Non-trivial: the company prefix is not all zeros, so the check digit depends on it.",
    ),
    "C16": dict(
        judges={"pattern": c16_pattern}, units=c16_units,
        rule="A case is an ID-pattern text and GTIN length. Non-trivial: it contains a wildcard or names a key.",
    ),
    "C17": dict(
        judges={"build": c17_build}, units=c17_units,
        rule="A case is a GTIN with correct check digit, a serial in URI form and a company prefix length, also judged for all seven lengths. Non-trivial: at least one length gives a valid SGTIN.",
    ),
    "C19": dict(
        judges={"parse": c19_parse}, units=c19_units,
        rule="A case is an element-string text and company prefix length (usually judged for all seven). Non-trivial: it is well formed with a correct check digit for at least one length.",
    ),
}
