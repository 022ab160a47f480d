"""C03 C18: reading tag memory."""

from vp import refmodel as R
from vp import target as T
from vp.core import Unit, fail
from vp.props.common import expect_epc, expect_refused, scheme_of
from vp.props.tags import TAGGABLE


def c03_decode(case, rec):
    raw = case["bits"]
    try:
        s, coding, flt, f = R.decode_any(raw)
        uri = s.uri(f)
    except R.Refused:
        s = None
    g = T.call(T.GENERIC["binary_to_tag_encodable"], raw)
    rec.cmp()
    if s is None:
        expect_refused(g, "decoding %s generically", raw)
        rec.bucket("refused")
    else:
        expect_epc(g, s, uri, "decoding %s generically", raw)
        rec.bucket("decoded " + coding)
    for name in TAGGABLE:
        o = T.call(T.CLS[name].from_binary, raw)
        rec.cmp()
        if s is not None and s.name == name:
            expect_epc(o, s, uri, "decoding %s as %s", raw, name)
        else:
            expect_refused(o, "decoding %s as %s", raw, name)
    if raw and len(raw) % 8 == 0:  # the same memory as hexadecimal and base64
        h = R.hex_digits(raw)
        for form, t in (("hex", h), ("hex", h.lower()), ("base64", R.b64_of_hex(h))):
            outs = [("generic", T.call(T.GENERIC[form + "_to_tag_encodable"], t))]
            if raw[:8] in R.HEADERS:
                own = R.HEADERS[raw[:8]][0].name
                outs.append((own, T.call(getattr(T.CLS[own], "from_" + form), t)))
            for who, o in outs:
                rec.cmp()
                if s is None:
                    expect_refused(o, "decoding %s %s (%s)", form, t, who)
                else:
                    expect_epc(o, s, uri, "decoding %s %s (%s)", form, t, who)
        rec.bucket("also as hex and base64")
    if raw[:8] in R.HEADERS:
        rec.mark()


def c03_units():
    from hypothesis import strategies as st

    from vp import gens as G

    for n in TAGGABLE:
        yield Unit(n, "decode", lambda n=n: G.memory_case(n), 4000, 60000)
    yield Unit(
        "anything", "decode",
        lambda: st.fixed_dictionaries({"bits": st.one_of(st.text("01", max_size=220), st.integers(0, 1 << 240).map(lambda v: bin(v)[2:].rjust(240, "0")))}),
        1500, 15000,
    )


def c18_reencode(case, rec):
    s = scheme_of(case)
    raw = case["bits"]
    o = T.call(T.CLS[s.name].from_binary, raw)
    if o.kind == "error":
        fail("decoding %s: %s", raw, o.show())
    if o.refused:
        rec.bucket("refused")
        return
    hit = R.HEADERS.get(raw[:8])
    if hit is None or hit[0] is not s:
        fail("%s decoded as %s despite its header", raw, s.name)
    coding = hit[1]
    flt = int(raw[8 : 8 + s.filter_bits], 2) if s.filter_bits else None
    uri = o.value.epc_uri
    try:
        f = s.parse(uri)
    except R.Refused:
        fail("%s decoded to the invalid EPC %r", raw, uri)
    b = T.method(o.value, "binary", **T.enc_kwargs(s, coding, flt))
    rec.cmp()
    if not b.ok:
        fail("%s decoded to %r, which does not encode in %s: %s", raw, uri, coding, b.show())
    if not s.representable(coding, f):
        fail("%s decoded to %r, which %s cannot hold", raw, uri, coding)
    for lo, hi in s.significant(coding, f):
        if b.value[lo:hi] != raw[lo:hi] or len(raw) < hi:
            fail("%s decoded to %r, which re-encodes as %s", raw, uri, b.value)
    # a fresh object of the same EPC must agree with the decoded one
    fresh = T.call(T.CLS[s.name], uri)
    if not fresh.ok:
        fail("decoded EPC %r cannot be built: %s", uri, fresh.show())
    fb = T.method(fresh.value, "binary", **T.enc_kwargs(s, coding, flt))
    rec.cmp()
    if fb.key() != b.key():
        fail("decoded and built %r encode differently: %s / %s", uri, b.show(), fb.show())
    rec.bucket("decoded " + coding)
    rec.mark()


def c18_pair(case, rec):
    """One flipped information bit never decodes to the same EPC and filter."""
    s = scheme_of(case)
    raw, i = case["bits"], case["flip"]
    if not raw:
        return
    cls = T.CLS[s.name]
    a = T.call(cls.from_binary, raw)
    if a.kind == "error":
        fail("decoding %s: %s", raw, a.show())
    if a.refused or R.HEADERS.get(raw[:8], (None,))[0] is not s:
        return
    coding = R.HEADERS[raw[:8]][1]
    try:
        f = s.parse(a.value.epc_uri)
        spans = s.significant(coding, f)
    except R.Refused:
        fail("%s decoded to %r, which %s cannot hold", raw, a.value.epc_uri, coding)
    start = 8 + s.filter_bits
    positions = [p for lo, hi in spans for p in range(max(lo, start), min(hi, len(raw)))]
    for step in range(4):
        p = positions[(i + step * 37) % len(positions)]
        other = raw[:p] + ("1" if raw[p] == "0" else "0") + raw[p + 1 :]
        b = T.call(cls.from_binary, other)
        rec.cmp()
        if b.kind == "error":
            fail("decoding %s: %s", other, b.show())
        if b.ok and b.value.epc_uri == a.value.epc_uri:
            fail("%s and %s (bit %d flipped) both decode to %r", raw, other, p, a.value.epc_uri)
    rec.mark()
    rec.bucket("flip " + coding)


def c18_units():
    from hypothesis import strategies as st

    from vp import gens as G

    for n in TAGGABLE:
        yield Unit(n, "reencode", lambda n=n: G.memory_case(n), 7000, 70000)
        yield Unit("flip-" + n, "pair", lambda n=n: G.memory_case(n, flip=st.integers(0, 400)), 3000, 30000)


# ---- C21 -----------------------------------------------------------------
ALPHABET = {
    "binary": frozenset("01"),
    "hex": frozenset("0123456789abcdefABCDEF"),
    "base64": frozenset("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"),
}


def foreign(form, t):
    """Does the text hold a character its form does not have?  Blanks in base64 are
    left open (line-wrapped text is common), padding belongs at the end."""
    if form == "base64":
        t = t.rstrip("= \t\r\n\f\v")
        return any(c not in ALPHABET[form] and c not in " \t\r\n\f\v" for c in t)
    return any(c not in ALPHABET[form] for c in t)


def c21_foreign(case, rec):
    s = scheme_of(case)
    form, t = case["form"], case["t"]
    readers = [("generic", T.GENERIC[form + "_to_tag_encodable"]), (s.name, getattr(T.CLS[s.name], "from_" + form))]
    if form != "base64":
        readers.append(("key", T.GENERIC["get_gs1_key"]))
    if not foreign(form, t):
        rec.bucket("well-formed " + form)
        return
    for who, read in readers:
        if who == "key" and form == "binary" and not foreign("hex", t):
            rec.bucket("binary text that reads as hexadecimal")
            continue  # the key function takes either form
        expect_refused(T.call(read, t), "%s text %r (%s)", form, t, who)
        rec.cmp()
    rec.bucket("foreign character in " + form)
    rec.mark()


def c21_units():
    from vp import gens as G

    for n in TAGGABLE:
        yield Unit(n, "foreign", lambda n=n: G.foreign_case(n), 5000, 50000)


PROPS = {
    "C03": dict(
        judges={"decode": c03_decode}, units=c03_units,
        rule="A case is a bit string: a valid encoding, a mutated, truncated or extended one, fields straddling their limits, or arbitrary bits. Non-trivial: its header belongs to a supported coding scheme, so a full decode decision is compared with the independent decoder.",
    ),
    "C18": dict(
        judges={"reencode": c18_reencode, "pair": c18_pair}, units=c18_units,
        rule="A case is a bit string generated as for C03 (optionally with bits to flip). Non-trivial: it decodes to an EPC, so the re-encoding or the flipped twin was compared.",
    ),
    "C21": dict(
        judges={"foreign": c21_foreign}, units=c21_units,
        rule="A case is a tag written as binary, hexadecimal or base64 text with one to three characters inserted, replaced or wrapped around. Non-trivial: the result holds a character its form does not have.",
    ),
}
