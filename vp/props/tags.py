"""C01 C02 C04 C05 C12 C14 C15: producing tag representations."""

from vp import refmodel as R
from vp import target as T
from vp.core import Unit, fail
from vp.props.common import (
    FORMS,
    LOW,
    build,
    expect_epc,
    expect_refused,
    expect_value,
    holders,
    one_filter,
    resplits,
    scheme_of,
    some_filters,
    textual,
    uri_of,
)

TAGGABLE = sorted(s.name for s in R.TAGGABLE)


def _low_flt():
    from hypothesis import strategies as st

    return {"low": st.sampled_from(LOW), "flt": st.integers(0, 63)}


# ---- C01 -----------------------------------------------------------------
def c01_roundtrip(case, rec):
    s = scheme_of(case)
    for f in resplits(s, case["f"]):
        uri = uri_of({**case, "f": f})
        canonical = s.uri(f)
        obj = build(s, uri)
        cls = T.CLS[s.name]
        for coding in holders(s, f):
            for flt in some_filters(s, case["flt"]) if f is case["f"] else one_filter(s, case["flt"]):
                kw = T.enc_kwargs(s, coding, flt)
                for form in FORMS:
                    o = T.method(obj, form, **kw)
                    if not o.ok:
                        fail("%s of %r as %s filter %s: %s", form, uri, coding, flt, o.show())
                    what = "%s %s of %r (%s, filter %s) decoded"
                    args = (form, o.value, uri, coding, flt)
                    expect_epc(T.call(getattr(cls, "from_" + form), o.value), s, canonical, what, *args)
                    expect_epc(
                        T.call(T.GENERIC[form + "_to_tag_encodable"], o.value),
                        s, canonical, "generically " + what, *args,
                    )
                    rec.cmp(3)
                rec.mark()
            rec.bucket(coding)
            if "cp" in f:
                rec.bucket("%s L%d" % (s.name, len(f["cp"])))


def c01_units():
    from vp import gens as G

    for n in TAGGABLE:
        yield Unit(n, "roundtrip", lambda n=n: G.epc_case(n, **_low_flt()), 3600, 30000)


# ---- C02 -----------------------------------------------------------------
def c02_layout(case, rec):
    s = scheme_of(case)
    for f in resplits(s, case["f"]):
        obj = build(s, uri_of({**case, "f": f}))
        for coding in holders(s, f):
            for flt in T.filters_of(s) if f is case["f"] else one_filter(s, case["flt"]):
                kw = T.enc_kwargs(s, coding, flt)
                want = s.encode(coding, flt or 0, f)
                for form in FORMS:
                    expect_value(
                        T.method(obj, form, **kw), textual(form, want),
                        "%s of %r as %s filter %s", form, obj.epc_uri, coding, flt,
                    )
                    rec.cmp()
                rec.mark()
            rec.bucket(coding)
            if "cp" in f:
                rec.bucket("%s L%d" % (s.name, len(f["cp"])))


def c02_units():
    from vp import gens as G

    for n in TAGGABLE:
        q = 1200 if n == "adi" else 4000
        yield Unit(n, "layout", lambda n=n: G.epc_case(n, **_low_flt()), q, q * 12)


# ---- C04 -----------------------------------------------------------------
def c04_fit(case, rec):
    s = scheme_of(case)
    for f in resplits(s, case["f"]):
        obj = build(s, s.uri(f))
        for coding in s.codings:
            fits = s.representable(coding, f)
            for flt in one_filter(s, case["flt"]):
                kw = T.enc_kwargs(s, coding, flt)
                for form in ("tag_uri",) + FORMS:
                    o = T.method(obj, form, **kw)
                    rec.cmp()
                    if fits and not o.ok:
                        fail("%r fits %s but its %s gives %s", obj.epc_uri, coding, form, o.show())
                    if not fits:
                        expect_refused(o, "%r does not fit %s; its %s", obj.epc_uri, coding, form)
            rec.bucket("%s %s" % (coding, "fits" if fits else "too big"))
            if not fits:
                rec.mark()


def c04_units():
    from vp import gens as G

    for n in TAGGABLE:
        two = len(R.SCHEMES[n].codings) > 1
        yield Unit(
            n, "fit", lambda n=n: G.limit_case(n, flt=_low_flt()["flt"]),
            8000 if two else 2000, 60000 if two else 15000,
        )


# ---- C05 -----------------------------------------------------------------
def c05_taguri(case, rec):
    s = scheme_of(case)
    cls = T.CLS[s.name]
    for f in resplits(s, case["f"]):
        uri = s.uri(f)
        obj = build(s, uri)
        for coding in holders(s, f):
            for flt in T.filters_of(s) if f is case["f"] else one_filter(s, case["flt"]):
                o = T.method(obj, "tag_uri", **T.enc_kwargs(s, coding, flt))
                want = s.tag_uri(coding, flt or 0, f)
                expect_value(o, want, "tag URI of %r as %s filter %s", uri, coding, flt)
                expect_epc(T.call(T.GENERIC["tag_uri_to_tag_encodable"], want), s, uri, "parsing %r", want)
                expect_epc(_from_tag_uri(s, want), s, uri, "parsing %r as %s", want, s.name)
                rec.cmp(3)
            rec.mark()
            rec.bucket(coding)
            for other in T.FILTERS:
                if other != s.name:
                    o = _from_tag_uri(R.SCHEMES[other], want)
                    expect_refused(o, "parsing %r as %s", want, other)
                    rec.cmp()
            tail = case["tail"]
            if tail and not R.only(tail, R.GS3A3):
                bad = want + tail
                expect_refused(T.call(T.GENERIC["tag_uri_to_tag_encodable"], bad), "parsing %r", bad)
                expect_refused(_from_tag_uri(s, bad), "parsing %r as %s", bad, s.name)
                rec.cmp(2)


def _from_tag_uri(s, text):
    cls = T.CLS[s.name]
    return T.call(cls.from_tag_uri, text)


def c05_near(case, rec):
    """Tag-URI-shaped text: accepted only as the EPC it spells."""
    text = case["t"]
    coding, _, rest = text[len("urn:epc:tag:"):].partition(":") if text.startswith("urn:epc:tag:") else ("", "", "")
    s = R.CODINGS.get(coding)
    expected = None
    if s is not None:
        flt, dot, body = rest.partition(".")
        if s.filter_bits == 0:
            flt, dot, body = "0", ".", rest
        if dot and R.plain_number(flt):
            try:
                f = s.parse_body(body)
                expected = s.prefix + body
                strict = len(flt) < 4 and int(flt) < (1 << s.filter_bits or 1) and s.representable(coding, f)
            except R.Refused:
                pass
    outs = [("generic", T.call(T.GENERIC["tag_uri_to_tag_encodable"], text))]
    outs += [(n, _from_tag_uri(R.SCHEMES[n], text)) for n in (T.FILTERS if case["all"] else [case["s"]])]
    for who, o in outs:
        rec.cmp()
        mine = expected is not None and who in ("generic", s.name)
        if mine and strict:
            expect_epc(o, s, expected, "parsing %r (%s)", text, who)
        elif mine and not o.refused:
            # over-range filter or EPC too big for the named coding: the
            # library may be lenient, but only with the EPC that is spelled out
            expect_epc(o, s, expected, "parsing %r (%s)", text, who)
        elif not mine:
            expect_refused(o, "parsing %r (%s)", text, who)
    rec.bucket("near " + ("valid" if expected else "invalid"))
    rec.mark()


def c05_units():
    from hypothesis import strategies as st

    from vp import gens as G

    tails = st.sampled_from(["", "", "#", "\n", " ", ":x y", "%", "/", "é", "%41x#"])
    for n in TAGGABLE:
        q = 800 if n == "adi" else 2400
        yield Unit(n, "taguri", lambda n=n: G.epc_case(n, tail=tails, flt=st.integers(0, 63)), q, q * 8)
    for n in TAGGABLE:
        yield Unit("near-" + n, "near", lambda n=n: G.tag_uri_text_case(n), 3000, 30000)


# ---- C12 -----------------------------------------------------------------
class Lookalike:
    """Not an EPC, whatever its attribute says."""

    def __init__(self, epc_uri):
        self.epc_uri = epc_uri


def c12_pair(case, rec):
    s = scheme_of(case)
    f, g = case["f"], case["g"]
    ua, ub = s.uri(f), s.uri(g)
    a, b = build(s, ua), build(s, ub)
    same = ua == ub
    checks = [
        (a, b, same), (b, a, same), (a, a, True), (a, build(s, ua), True),
        (a, ua, False), (a, None, False), (a, 0, False), (a, object(), False),
        (a, Lookalike(ua), False), (a, (ua,), False), (a, ua.encode(), False), (a, type(a), False),
    ]
    body = ua[len(s.prefix) :]
    for twin in R.SCHEMES.values():  # the same components under another scheme's name
        if twin is not s and twin.valid_uri(twin.prefix + body):
            checks.append((a, build(twin, twin.prefix + body), False))
            rec.bucket("same components, other scheme")
    t = R.SCHEMES[case["s2"]]
    other = build(t, t.uri(case["f2"]))
    checks += [(a, other, ua == other.epc_uri), (other, a, ua == other.epc_uri)]
    for x, y, want in checks:
        e = T.call(lambda: x == y)
        n = T.call(lambda: x != y)
        expect_value(e, want, "%r == %r", getattr(x, "epc_uri", x), getattr(y, "epc_uri", y))
        expect_value(n, not want, "%r != %r", getattr(x, "epc_uri", x), getattr(y, "epc_uri", y))
        rec.cmp(2)
    if same:
        rec.bucket("equal pair")
        return
    rec.bucket("distinct pair")
    rec.mark()
    for coding in s.codings:
        if not (s.representable(coding, f) and s.representable(coding, g)):
            continue
        for flt in some_filters(s, case["flt"])[:2]:
            kw = T.enc_kwargs(s, coding, flt)
            for form in ("tag_uri",) + FORMS:
                x, y = T.method(a, form, **kw), T.method(b, form, **kw)
                rec.cmp()
                if x.ok and y.ok and x.value == y.value:
                    fail("%r and %r share the %s %s %r", ua, ub, coding, form, x.value)
                if not (x.ok and y.ok):
                    fail("%s of %r / %r: %s / %s", form, ua, ub, x.show(), y.show())
        rec.bucket("collision " + coding)
    if s.ai and len(f["cp"]) == len(g["cp"]):
        x, y = T.method(a, "gs1_element_string"), T.method(b, "gs1_element_string")
        rec.cmp()
        if not (x.ok and y.ok):
            fail("element string of %r / %r: %s / %s", ua, ub, x.show(), y.show())
        if x.value == y.value:
            fail("%r and %r share the element string %r", ua, ub, x.value)


def c12_family(case, rec):
    """An EPC and every EPC one edit away at one place: no two share an output."""
    s = scheme_of(case)
    f = case["f"]
    fields = sorted(f)
    key = fields[case["field"] % len(fields)]
    v = f[key]
    i = case["pos"] % (len(v) + 1)
    words = [v, "0" + v, v.lstrip("0"), v.rstrip("0"), v.swapcase(), v[:i] + v[i + 1 :], v[:i] + v[i : i + 1] + v[i:]]
    for c in R.GS3A3 + "#":
        words += [v[:i] + c + v[i:], v[:i] + c + v[i + 1 :], v + c]
    family = {}
    for w in words:
        g = dict(f, **{key: w})
        try:
            s.validate(g)
            family[s.uri(s.parse(s.uri(g)))] = g
        except R.Refused:
            continue
    seen = {}
    for uri, g in family.items():
        obj = build(s, uri)
        outs = []
        if s.ai:
            outs.append((("element string", len(g["cp"])), T.method(obj, "gs1_element_string")))
        for coding in holders(s, g):
            kw = T.enc_kwargs(s, coding, case["flt"] % (1 << s.filter_bits))
            outs += [((form, coding), T.method(obj, form, **kw)) for form in ("tag_uri", "binary", "hex")]
        for what, o in outs:
            rec.cmp()
            if not o.ok:
                fail("%s of %r: %s", what[0], uri, o.show())
            if seen.setdefault((what, o.value), uri) != uri:
                fail("%r and %r share the %s %r", seen[what, o.value], uri, what[0], o.value)
    rec.bucket("family of %s" % ("one" if len(family) < 2 else "several" if len(family) < 30 else "30 or more"))
    if len(family) > 1:
        rec.mark()


def c12_units():
    from hypothesis import strategies as st

    from vp import gens as G

    for n in sorted(R.SCHEMES):
        yield Unit(n, "pair", lambda n=n: G.pair_case(n), 2500, 30000)
        yield Unit(
            "family-" + n, "family",
            lambda n=n: G.epc_case(n, field=st.integers(0, 4), pos=st.one_of(st.just(0), st.integers(0, 30)), flt=st.integers(0, 63)),
            300, 4000,
        )


# ---- C14 -----------------------------------------------------------------
def c14_encode(case, rec):
    s = scheme_of(case)
    if s.filter_bits == 0:
        return
    w = s.filter_bits
    for f in resplits(s, case["f"]):
        obj = build(s, s.uri(f))
        for coding in holders(s, f):
            base = None
            for flt in T.filters_of(s):
                kw = T.enc_kwargs(s, coding, flt)
                b, t = T.method(obj, "binary", **kw), T.method(obj, "tag_uri", **kw)
                rec.cmp(2)
                if not (b.ok and t.ok):
                    fail("%r %s filter %s: %s / %s", obj.epc_uri, coding, flt, b.show(), t.show())
                if b.value[8 : 8 + w] != R.bits(flt, w):
                    fail("%r %s: filter %s written as %s", obj.epc_uri, coding, flt, b.value[8 : 8 + w])
                head = "urn:epc:tag:%s:" % coding
                if not t.value.startswith("%s%d." % (head, flt)):
                    fail("%r %s filter %s: tag URI %r", obj.epc_uri, coding, flt, t.value)
                for form in ("hex", "base64"):
                    expect_value(T.method(obj, form, **kw), textual(form, b.value), "%s of %r as %s filter %s", form, obj.epc_uri, coding, flt)
                    rec.cmp()
                rest = (b.value[:8], b.value[8 + w :], t.value[len("%s%d." % (head, flt)) :])
                if base is None:
                    base = rest
                elif base != rest:
                    fail("%r %s: filter %s changes more than the filter: %r vs %r", obj.epc_uri, coding, flt, rest, base)
            rec.mark()
            rec.bucket(coding)


def c14_decode(case, rec):
    s = scheme_of(case)
    raw = case["bits"]
    w = s.filter_bits
    if len(raw) < 8 + w or w == 0:
        return
    cls = T.CLS[s.name]
    base = None
    for flt in T.filters_of(s):
        mem = raw[:8] + R.bits(flt, w) + raw[8 + w :]
        o = T.call(cls.from_binary, mem)
        rec.cmp()
        if o.kind == "error":
            fail("decoding %s: %s", mem, o.show())
        if base is None:
            base = o
            rec.bucket("memory " + o.kind)
            if o.ok:
                rec.mark()
        elif base.key() != o.key():
            fail("decoding %s: %s with filter 0 but %s with filter %d", mem, base.show(), o.show(), flt)
        g = T.call(T.GENERIC["binary_to_tag_encodable"], mem)
        rec.cmp()
        if base.ok and g.key() != base.key():
            fail("decoding %s generically: %s, but %s with filter 0", mem, g.show(), base.show())


def c14_units():
    from vp import gens as G

    for n in TAGGABLE:
        if R.SCHEMES[n].filter_bits:
            q = 250 if n == "adi" else 1000
            yield Unit(n, "encode", lambda n=n: G.epc_case(n), q, q * 12)
            yield Unit("memory-" + n, "decode", lambda n=n: G.memory_case(n), 500 if n == "adi" else 1500, 20000)


# ---- C15 -----------------------------------------------------------------
def c15_args(case, rec):
    """hex/base64 describe the bits of binary for the same arguments."""
    s = scheme_of(case)
    f = case["f"]
    obj = build(s, s.uri(f))
    for coding in s.codings:
        c = T.coding_member(coding)
        for flt in some_filters(s, case["flt"]):
            if s.filter_bits:
                v = T.filter_member(s, flt)
                shapes = [
                    ((c, v), {}), ((v, c), {}), ((v,), {}), ((c,), {}), ((), {}),
                    ((), {"binary_coding_scheme": c, "filter_value": v}),
                    ((), {"filter_value": v}), ((), {"binary_coding_scheme": c}),
                    ((c,), {"filter_value": v}), ((v,), {"binary_coding_scheme": c}),
                ]
            else:
                shapes = [((c,), {}), ((), {}), ((), {"binary_coding_scheme": c})]
            for a, k in shapes:
                b = T.method(obj, "binary", *a, **k)
                h = T.method(obj, "hex", *a, **k)
                e = T.method(obj, "base64", *a, **k)
                rec.cmp(2)
                if b.ok:
                    want = textual("hex", b.value)
                    expect_value(h, want, "hex%r of %r", _show(a, k), obj.epc_uri)
                    expect_value(e, R.b64_of_hex(want), "base64%r of %r", _show(a, k), obj.epc_uri)
                    rec.mark()
                    rec.bucket("shape %d+%d" % (len(a), len(k)))
                elif h.ok or e.ok:
                    fail("%r: binary%r gives %s but hex %s, base64 %s", obj.epc_uri, _show(a, k), b.show(), h.show(), e.show())


def _show(a, k):
    return [str(x.value) for x in a] + ["%s=%s" % (n, v.value) for n, v in k.items()]


def c15_decode(case, rec):
    """Same bits, four textual forms, with and without extra memory."""
    s = scheme_of(case)
    raw = case["bits"]
    raw += "0" * (-len(raw) % 8)
    if not raw:
        return
    cls = T.CLS[s.name]
    h = R.hex_digits(raw)
    b64 = R.b64_of_hex(h)
    base = T.call(cls.from_binary, raw)
    gen = T.call(T.GENERIC["binary_to_tag_encodable"], raw)
    mixed = "".join(c.lower() if i % 2 else c for i, c in enumerate(h))
    forms = [
        ("hex", h), ("hex", h.lower()), ("hex", mixed),
        ("base64", b64), ("base64", b64.rstrip("=")),
    ]
    for form, text in forms:
        a = T.call(getattr(cls, "from_" + form), text)
        g = T.call(T.GENERIC[form + "_to_tag_encodable"], text)
        rec.cmp(2)
        if a.key() != base.key() or a.kind == "error":
            fail("%s %r decodes to %s but the same bits as binary to %s", form, text, a.show(), base.show())
        if g.key() != gen.key() or g.kind == "error":
            fail("%s %r generically decodes to %s but the same bits as binary to %s", form, text, g.show(), gen.show())
    if base.ok:
        rec.mark()
        for extra in case["extra"]:
            o = T.call(cls.from_binary, raw + extra)
            rec.cmp()
            if o.key() != base.key():
                fail("%s decodes to %s, with %r appended to %s", raw, base.show(), extra, o.show())
        # a hex nibble more or less of trailing memory
        for tail in ("A", "A5", "000", "f00d"):
            for o in (T.call(cls.from_hex, h + tail), T.call(T.GENERIC["hex_to_tag_encodable"], h + tail)):
                rec.cmp()
                if o.key() != base.key():
                    fail("hex %s decodes to %s, with %s appended to %s", h, base.show(), tail, o.show())
    # an odd number of hexadecimal digits is memory too
    cut = h[: len(h) - 1 - len(case["extra"])]
    if cut:
        want = T.call(cls.from_binary, raw[: 4 * len(cut)])
        o = T.call(cls.from_hex, cut)
        rec.cmp()
        if o.key() != want.key() or o.kind == "error":
            fail("hex %r decodes to %s but the same bits as binary to %s", cut, o.show(), want.show())
    rec.bucket("memory " + base.kind)


def c15_units():
    from hypothesis import strategies as st

    from vp import gens as G

    extra = st.lists(st.text("01", min_size=1, max_size=64), max_size=2)
    for n in TAGGABLE:
        yield Unit(n, "args", lambda n=n: G.epc_case(n, flt=st.integers(0, 63)), 700, 8000)
        yield Unit("memory-" + n, "decode", lambda n=n: G.memory_case(n, extra=extra), 2200, 25000)


# ---- C20 -----------------------------------------------------------------
def c20_names(case, rec):
    s = scheme_of(case)
    f = case["f"]
    cls = T.CLS[s.name]
    headers = {R.bits(h, 8): T.coding_member(c) for c, (h, _) in s.codings.items()}
    if hasattr(cls, "header_to_schemes"):  # a helper, which may go
        expect_value(T.headers_of(s), headers, "headers of %s", s.name)
    for coding in s.codings:
        expect_value(T.call(lambda: T.coding_member(coding).value), coding, "name of coding scheme %s", coding)
    rec.cmp(1 + len(s.codings))
    obj = build(s, s.uri(f))
    names = R.filter_names(s.name)
    if names:
        have = sorted(m.name for m in T.FILTER_ENUM[s.name])
        if have != sorted(names):
            fail("%s names the filter values %r, expected %r", s.name, have, sorted(names))
    for coding in holders(s, f):
        header = R.bits(s.codings[coding][0], 8)
        for flt in T.filters_of(s):
            kw = T.enc_kwargs(s, coding, flt)
            who = "" if flt is None else kw["filter_value"].name
            b, h, t = (T.method(obj, form, **kw) for form in ("binary", "hex", "tag_uri"))
            rec.cmp(3)
            if not (b.ok and h.ok and t.ok):
                fail("%r %s %s: %s / %s / %s", obj.epc_uri, coding, who, b.show(), h.show(), t.show())
            w = s.filter_bits
            lead = header + (R.bits(flt, w) if w else "")
            if not b.value.startswith(lead):
                fail("%r as %s %s starts %s, expected %s", obj.epc_uri, coding, who, b.value[: len(lead)], lead)
            if h.value[:2] != R.hex_digits(header):
                fail("%r as %s %s: hex %s, expected header %s", obj.epc_uri, coding, who, h.value, R.hex_digits(header))
            head = "urn:epc:tag:%s:" % coding + ("%d." % flt if w else "")
            if not t.value.startswith(head):
                fail("%r as %s %s: tag URI %r, expected it to start %r", obj.epc_uri, coding, who, t.value, head)
            own = T.call(cls.from_binary, b.value)
            expect_epc(own, s, obj.epc_uri, "decoding %s", b.value)
        rec.mark()
        rec.bucket(coding)


def c20_units():
    from vp import gens as G

    for n in TAGGABLE:
        q = 500 if n == "adi" else 3500
        yield Unit(n, "names", lambda n=n: G.epc_case(n), q, q * 12)


PROPS = {
    "C20": dict(
        judges={"names": c20_names}, units=c20_units,
        rule="A case is a generated valid EPC encoded under every named filter value of its scheme. Non-trivial: at least one coding scheme holds it, so names were compared with written numbers.",
    ),
    "C01": dict(
        judges={"roundtrip": c01_roundtrip}, units=c01_units,
        rule="A case is a generated valid EPC (plus the same digits re-split at every company prefix length), escape letter case and filter. Non-trivial: at least one coding scheme holds the EPC, so at least one encoding was produced and decoded back by both decoders.",
    ),
    "C02": dict(
        judges={"layout": c02_layout}, units=c02_units,
        rule="A case is a generated valid EPC (plus re-splits at every company prefix length), judged for every filter value. Non-trivial: at least one coding scheme holds it, so its bits were compared with the independent encoder.",
    ),
    "C04": dict(
        judges={"fit": c04_fit}, units=c04_units,
        rule="A case is a generated valid EPC with values around coding limits. Non-trivial: at least one coding scheme of its family cannot hold it (for single-coding families every EPC fits and no case counts).",
    ),
    "C05": dict(
        judges={"taguri": c05_taguri, "near": c05_near}, units=c05_units,
        rule="A case is a valid EPC rendered with every filter value and parsed back, or a tag-URI-shaped text near one. Non-trivial: a tag URI was rendered and parsed, or a near-miss text was judged.",
    ),
    "C12": dict(
        judges={"pair": c12_pair, "family": c12_family}, units=c12_units,
        rule="A case is a pair of valid EPCs of one scheme, the second usually a small edit of the first, plus one EPC of another scheme; or an EPC with all EPCs one edit away at one place. Non-trivial: the pair is distinct, the family has two members.",
    ),
    "C14": dict(
        judges={"encode": c14_encode, "decode": c14_decode}, units=c14_units,
        rule="A case is a valid EPC encoded under all filter values, or tag memory decoded under all filter values. Non-trivial: at least one coding scheme holds the EPC, or the memory decodes.",
    ),
    "C15": dict(
        judges={"args": c15_args, "decode": c15_decode}, units=c15_units,
        rule="A case is a valid EPC with all argument shapes, or whole bytes of tag memory in five textual forms. Non-trivial: some argument shape produced an encoding, or the memory decodes.",
    ),
}
