"""C08 C11: accepting and refusing text."""

from vp import refmodel as R
from vp import target as T
from vp.core import Unit, fail
from vp.props.common import expect_epc, expect_refused, some_filters

NAMES = sorted(R.SCHEMES)


# ---- C08 -----------------------------------------------------------------
def c08_accept(case, rec):
    text = case["t"]
    names = NAMES if case["all"] else [case["s"]]
    if case["all"]:
        o = T.call(T.GENERIC["epc_pure_identity_to_scheme"], text)
        rec.cmp()
        fits = [n for n in NAMES if R.SCHEMES[n].valid_uri(text)]
        if not fits:
            expect_refused(o, "scheme of invalid %r", text)
        else:
            expect_epc(o, R.SCHEMES[fits[0]], text, "scheme of %r", text)
    for name in names:
        s = R.SCHEMES[name]
        valid = s.valid_uri(text)
        for how, fn in (("constructor", T.CLS[name]), ("from_epc_uri", T.CLS[name].from_epc_uri)):
            o = T.call(fn, text)
            rec.cmp()
            if valid:
                if not o.ok:
                    fail("%s %s refuses valid %r: %s", name, how, text, o.show())
                if type(o.value) is not T.CLS[name] or o.value.epc_uri != text:
                    fail("%s %s of %r gives %s", name, how, text, o.show())
            else:
                expect_refused(o, "%s %s of invalid %r", name, how, text)
        if name == case["s"]:
            rec.bucket("%s %s" % (name, "valid" if valid else "invalid"))
            if valid or text.startswith(s.prefix):
                rec.mark()


def c08_units():
    from vp import gens as G

    for n in NAMES:
        q = 9000 if getattr(R.SCHEMES[n], "serial", None) or n in ("giai", "ginc", "cpi", "adi") else 4500
        yield Unit(n, "accept", lambda n=n: G.uri_case(n), q, q * 10)


# ---- C11 -----------------------------------------------------------------
def entry_points(text, n):
    """Every public way to feed a text to the library: (label, scheme or None, outcome)."""
    for name in NAMES:
        cls = T.CLS[name]
        s = R.SCHEMES[name]
        yield name, s, T.call(cls, text)
        yield name + ".from_epc_uri", s, T.call(cls.from_epc_uri, text)
        if s.taggable:
            for form in ("binary", "hex", "base64", "tag_uri"):
                yield name + ".from_" + form, s, T.call(getattr(cls, "from_" + form), text)
        if s.ai:
            yield name + ".from_gs1_element_string", s, T.call(cls.from_gs1_element_string, text, n)
    yield "sgtin.from_gtin_plus_serial", R.SCHEMES["sgtin"], T.call(T.CLS["sgtin"].from_gtin_plus_serial, "00614141123452", text, n)
    yield "sgtin.from_gtin_plus_serial", R.SCHEMES["sgtin"], T.call(T.CLS["sgtin"].from_gtin_plus_serial, text, "1", n)
    for g, fn in T.GENERIC.items():
        if g == "gs1_element_string_to_gs1_element":
            yield g, None, T.call(fn, text, n)
        elif g == "get_gs1_key":
            yield g, None, T.call(fn, text)
            yield g, None, T.call(fn, text, n)
            yield g, None, T.call(fn, text, company_prefix_length=n)
        else:
            yield g, None, T.call(fn, text)


def c11_clean(case, rec):
    text, n = case["t"], case["n"]
    seen = set()
    accepted = False
    for label, s, o in entry_points(text, n):
        rec.cmp()
        if o.kind == "error":
            fail("%s(%r, prefix length %d): %s", label, text, n, o.show())
        if not o.ok:
            continue
        v = o.value
        accepted = True
        if isinstance(v, str):
            continue
        names = [k for k, c in T.CLS.items() if type(v) is c]
        if not names or (s is not None and names[0] != s.name):
            fail("%s(%r) returned a %s", label, text, type(v).__name__)
        t = R.SCHEMES[names[0]]
        if not isinstance(v.epc_uri, str) or not t.valid_uri(v.epc_uri):
            fail("%s(%r, prefix length %d) returned the malformed EPC %r", label, text, n, v.epc_uri)
        key = (names[0], v.epc_uri)
        if key in seen:
            continue
        seen.add(key)
        for what, r in conversions(t, v):
            rec.cmp()
            if r.kind == "error":
                fail("%s(%r) returned %r, whose %s gives %s", label, text, v.epc_uri, what, r.show())
    rec.bucket("%s %s" % (case["k"], "accepted" if accepted else "refused"))
    if text:
        rec.mark()


def conversions(s, v):
    for coding in s.codings:
        for flt in some_filters(s, 5)[:3]:
            kw = T.enc_kwargs(s, coding, flt)
            for form in ("tag_uri", "binary", "hex", "base64"):
                yield "%s as %s" % (form, coding), T.method(v, form, **kw)
    if s.ai:
        yield "element string", T.method(v, "gs1_element_string")
    if s.keyed:
        yield "key", T.method(v, "gs1_key")
    if s.name in ("sgtin", "lgtin"):
        for m in T.GTIN.values():
            yield "GTIN", T.method(v, "gs1_key", gtin_type=m)


def c11_units():
    from vp import gens as G

    for k in G.TEXT_KINDS:
        yield Unit(k, "clean", lambda k=k: G.text_case(k), 1600, 25000)


PROPS = {
    "C08": dict(
        judges={"accept": c08_accept}, units=c08_units,
        rule="A case is a text: a valid URI, one with component lengths and values straddling the limits, or an edited one; one in four is offered to all 21 schemes. Non-trivial: it starts with the scheme's URN prefix, so the decision depends on the body.",
    ),
    "C11": dict(
        judges={"clean": c11_clean}, units=c11_units,
        rule="A case is a text and a company prefix length, fed to every public entry point; whatever is accepted is converted to every other representation. Non-trivial: the text is not empty.",
    ),
}
