"""C09 C10 C13: generic functions and call histories."""

from vp import refmodel as R
from vp import target as T
from vp.core import Unit, fail
from vp.props.common import (
    FORMS,
    LOW,
    build,
    expect_epc,
    expect_refused,
    expect_value,
    holders,
    resplits,
    scheme_of,
    some_filters,
    textual,
    uri_of,
)

NAMES = sorted(R.SCHEMES)


# ---- C09 -----------------------------------------------------------------
def c09_uri(case, rec):
    s = scheme_of(case)
    G = T.GENERIC
    for f in resplits(s, case["f"]):
        uri = s.uri(f)
        obj = build(s, uri)
        expect_epc(T.call(G["epc_pure_identity_to_scheme"], uri), s, uri, "scheme of %r", uri)
        for fn, able in (
            ("epc_pure_identity_to_tag_encodable", s.taggable),
            ("epc_pure_identity_to_gs1_element", bool(s.ai)),
            ("epc_pure_identity_to_gs1_keyed", s.keyed),
        ):
            o = T.call(G[fn], uri)
            if able:
                expect_epc(o, s, uri, "%s of %r", fn, uri)
            else:
                expect_refused(o, "%s of %r", fn, uri)
        rec.cmp(4)
        for fn, able, own in (
            ("epc_pure_identity_to_gs1_element_string", bool(s.ai), "gs1_element_string"),
            ("epc_pure_identity_to_gs1_key", s.keyed, "gs1_key"),
        ):
            o = T.call(G[fn], uri)
            rec.cmp()
            if able:
                mine = T.method(obj, own)
                if not mine.ok:
                    fail("%s of %r: %s", own, uri, mine.show())
                expect_value(o, mine.value, "%s of %r", fn, uri)
            else:
                expect_refused(o, "%s of %r", fn, uri)
        if s.name in ("sgtin", "lgtin"):
            for n, m in T.GTIN.items():
                a = T.call(G["epc_pure_identity_to_gs1_key"], uri, gtin_type=m)
                b = T.method(obj, "gs1_key", gtin_type=m)
                rec.cmp()
                if a.key() != b.key() or a.kind == "error":
                    fail("GTIN-%d of %r: generic %s, own %s", n, uri, a.show(), b.show())
        if s.ai:
            es = s.element_string(f)
            n = len(f["cp"])
            expect_epc(T.call(G["gs1_element_string_to_gs1_element"], es, n), s, uri, "reading %r", es)
            rec.cmp()
        for coding in holders(s, f):
            for flt in some_filters(s, case["flt"]):
                raw = s.encode(coding, flt or 0, f)
                for form in FORMS:
                    t = textual(form, raw)
                    own = T.call(getattr(T.CLS[s.name], "from_" + form), t)
                    gen = T.call(G[form + "_to_tag_encodable"], t)
                    expect_epc(own, s, uri, "%s %s as %s", form, t, s.name)
                    expect_epc(gen, s, uri, "%s %s", form, t)
                    rec.cmp(2)
                tag = s.tag_uri(coding, flt or 0, f)
                expect_epc(T.call(G["tag_uri_to_tag_encodable"], tag), s, uri, "parsing %r", tag)
                rec.cmp()
            rec.bucket(coding)
    rec.bucket(s.name)
    rec.mark()


def c09_same(case, rec):
    """Any text: the generic function and the scheme's own agree."""
    text = case["t"]
    G = T.GENERIC
    g = T.call(G["epc_pure_identity_to_scheme"], text)
    own = [(n, T.call(T.CLS[n], text)) for n in NAMES]
    good = [(n, o) for n, o in own if o.ok]
    rec.cmp()
    if g.kind == "error":
        fail("scheme of %r: %s", text, g.show())
    if good:
        if not g.ok or g.key() != good[0][1].key():
            fail("scheme of %r: generic %s, own %s", text, g.show(), good[0][1].show())
        rec.bucket("text accepted")
        rec.mark()
    elif g.ok:
        fail("scheme of %r: generic %s, but no scheme accepts it", text, g.show())
    for fn, base in (
        ("epc_pure_identity_to_tag_encodable", "taggable"),
        ("epc_pure_identity_to_gs1_element", "ai"),
        ("epc_pure_identity_to_gs1_keyed", "keyed"),
    ):
        o = T.call(G[fn], text)
        rec.cmp()
        able = bool(good) and bool(getattr(R.SCHEMES[good[0][0]], base))
        if able != o.ok or o.kind == "error":
            fail("%s of %r: %s", fn, text, o.show())


def _agree(what, generic, own, rec):
    """generic outcome vs [(scheme name, its own outcome)]: the one that accepts, or none."""
    rec.cmp()
    good = [(n, o) for n, o in own if o.ok]
    for n, o in [("generic", generic)] + own:
        if o.kind == "error":
            fail("%s (%s): %s", what, n, o.show())
    if not good:
        expect_refused(generic, "%s: no scheme accepts it; generic", what)
    elif generic.key() != good[0][1].key():
        fail("%s: generic %s, own %s", what, generic.show(), good[0][1].show())
    else:
        rec.bucket("agree on " + good[0][0])
        rec.mark()


def c09_memory(case, rec):
    """Any tag memory, in every textual form."""
    raw = case["bits"]
    raw += "0" * (-len(raw) % 8)
    if not raw:
        return
    h = R.hex_digits(raw)
    b64 = R.b64_of_hex(h)
    names = sorted(s.name for s in R.TAGGABLE)
    for form, t in (("binary", raw), ("hex", h), ("hex", h.lower()), ("base64", b64), ("base64", b64.rstrip("="))):
        g = T.call(T.GENERIC[form + "_to_tag_encodable"], t)
        own = [(n, T.call(getattr(T.CLS[n], "from_" + form), t)) for n in names]
        _agree("%s %s" % (form, t), g, own, rec)


def c09_tag(case, rec):
    """Any tag-URI-like text."""
    g = T.call(T.GENERIC["tag_uri_to_tag_encodable"], case["t"])
    own = [(s.name, T.call(T.CLS[s.name].from_tag_uri, case["t"])) for s in R.TAGGABLE]
    _agree("tag URI %r" % case["t"], g, own, rec)


def c09_es(case, rec):
    """Any element-string-like text with any prefix length."""
    es, n = case["es"], case["n"]
    g = T.call(T.GENERIC["gs1_element_string_to_gs1_element"], es, n)
    own = [(s.name, T.call(T.CLS[s.name].from_gs1_element_string, es, n)) for s in R.ELEMENTS]
    _agree("element string %r with prefix length %d" % (es, n), g, own, rec)


def c09_headers(case, rec):
    """Every 8-bit header in front of the same payload."""
    G = T.GENERIC
    for h in range(256):
        raw = R.bits(h, 8) + case["rest"]
        raw += "0" * (-len(raw) % 16)
        hit = R.HEADERS.get(raw[:8])
        for form in FORMS:
            t = textual(form, raw)
            o = T.call(G[form + "_to_tag_encodable"], t)
            rec.cmp()
            if hit is None:
                expect_refused(o, "%s %s with unknown header", form, t)
            else:
                own = T.call(getattr(T.CLS[hit[0].name], "from_" + form), t)
                if own.key() != o.key() or o.kind == "error":
                    fail("%s %s: generic %s, own %s", form, t, o.show(), own.show())
                if o.ok:
                    rec.bucket("header %02X decoded" % h)
    rec.mark()


def c09_units():
    from hypothesis import strategies as st

    from vp import gens as G

    flt = st.integers(0, 63)
    for n in NAMES:
        tag = R.SCHEMES[n].taggable
        yield Unit(n, "uri", lambda n=n: G.epc_case(n, flt=flt), 400 if tag else 1500, 5000 if tag else 15000)
        yield Unit("text-" + n, "same", lambda n=n: G.uri_case(n), 1000, 15000)
        if tag:
            yield Unit("memory-" + n, "memory", lambda n=n: G.memory_case(n), 700, 10000)
            yield Unit("tag-" + n, "tag", lambda n=n: G.tag_uri_text_case(n), 700, 10000)
        if R.SCHEMES[n].ai:
            yield Unit("es-" + n, "es", lambda n=n: G.element_string_case(n), 1000, 15000)
    rest = st.one_of(st.integers(0, (1 << 88) - 1).map(lambda v: R.bits(v, 88)), st.text("01", max_size=210))
    yield Unit("headers", "headers", lambda: st.fixed_dictionaries({"rest": rest}), 120, 1500)


# ---- C10 -----------------------------------------------------------------
def c10_key(case, rec):
    s = scheme_of(case)
    get = T.GENERIC["get_gs1_key"]
    narrow = case.get("narrow")  # one prefix length and filter value: more cases for the price
    for f in [case["f"]] if narrow else resplits(s, case["f"]):
        uri = uri_of({**case, "f": f})
        sources = [(uri, {})]
        if s.ai:
            sources.append((s.element_string(f), {"company_prefix_length": len(f["cp"])}))
        for coding in holders(s, f):
            for flt in [case["flt"] % (1 << s.filter_bits)] if narrow else some_filters(s, case["flt"]):
                raw = s.encode(coding, flt or 0, f)
                h = R.hex_of(raw)
                mixed = "".join(c.lower() if i % 2 else c for i, c in enumerate(h))
                sources += [(t, {}) for t in (s.tag_uri(coding, flt or 0, f), raw, h, h.lower(), mixed)]
            rec.bucket(coding)
        lengths = [None]
        if s.name in ("sgtin", "lgtin") and not narrow:
            lengths += sorted(T.GTIN)
        for g in lengths:
            kw = {} if g is None else {"gtin_type": T.GTIN[g]}
            want = None
            if s.keyed:
                try:
                    want = R.key_of(s, f, g)
                except R.Refused:
                    pass
            for text, more in sources:
                o = T.call(get, text, **more, **kw)
                rec.cmp()
                if want is None:
                    expect_refused(o, "key of %r %r %s", text, more, g or "")
                else:
                    expect_value(o, want, "key of %r %r %s", text, more, g or "")
                if not more and want is not None and text is not uri and g is None:
                    # a superfluous prefix length changes nothing
                    o = T.call(get, text, len(f.get("cp", "1234567")))
                    expect_value(o, want, "key of %r with superfluous prefix length", text)
                    rec.cmp()
        if s.ai:
            expect_refused(T.call(get, s.element_string(f)), "key of element string %r without prefix length", s.element_string(f))
            rec.cmp()
    rec.bucket(s.name)
    if s.keyed:
        rec.mark()


def c10_units():
    from hypothesis import strategies as st

    from vp import gens as G

    for n in NAMES:
        s = R.SCHEMES[n]
        q = 500 if s.taggable else 1800
        if not s.keyed:
            q = 300
        if n == "sgtin":
            q = 400
        yield Unit(n, "key", lambda n=n: G.epc_case(n, flt=st.integers(0, 63), low=st.sampled_from(LOW)), q, q * 12)
        if s.keyed:
            yield Unit("narrow-" + n, "key", lambda n=n: G.epc_case(n, flt=st.integers(0, 63), narrow=st.just(True)), 4000, 40000)
    for n in ("sgtin", "lgtin"):
        yield Unit("short-" + n, "key", lambda n=n: G.short_gtin_case(n, flt=st.integers(0, 63)), 250, 3000)


# ---- C13 -----------------------------------------------------------------
def _expected(s, f, op):
    """Reference outcome of one call: ('ok', value) or ('refused', None)."""
    kind = op[0]
    try:
        if kind in ("tag_uri",) + FORMS:
            coding, flt = op[2], op[3]
            raw = s.encode(coding, flt or 0, f)
            if kind == "tag_uri":
                return ("ok", s.tag_uri(coding, flt or 0, f))
            return ("ok", textual(kind, raw))
        if kind == "es":
            return ("ok", s.element_string(f))
        if kind == "key":
            return ("ok", R.key_of(s, f, op[2]))
    except R.Refused:
        return ("refused", None)
    raise AssertionError(kind)


def _perform(s, obj, op):
    kind = op[0]
    if kind in ("tag_uri",) + FORMS:
        return T.method(obj, kind, **T.enc_kwargs(s, op[2], op[3]))
    if kind == "es":
        return T.method(obj, "gs1_element_string")
    if kind == "key":
        kw = {} if op[2] is None else {"gtin_type": T.GTIN[op[2]]}
        return T.method(obj, "gs1_key", **kw)
    raise AssertionError(kind)


def c13_history(case, rec):
    pool = []
    for name, f in case["pool"]:
        s = R.SCHEMES[name]
        pool.append((s, f, s.uri(f), build(s, s.uri(f))))
    results = []
    for step, op in enumerate(case["ops"]):
        kind, i = op[0], op[1] % len(pool)
        s, f, uri, obj = pool[i]
        if kind == "bad":  # a text that is usually refused, in between
            t = op[2]
            try:
                u = R.parse_any_uri(t)[0]
            except R.Refused:
                u = None
            for who, read in ((s, T.CLS[s.name]), (u, T.GENERIC["epc_pure_identity_to_scheme"])):
                o = T.call(read, t)
                rec.cmp()
                if u is not None and who is u:
                    expect_epc(o, u, t, "step %d: %r", step, t)
                else:
                    expect_refused(o, "step %d: %r", step, t)
            continue
        if kind == "junk":  # memory that is usually refused, in between
            try:
                t, _, _, g = R.decode_any(op[2])
            except R.Refused:
                t = None
            o = T.call(T.CLS[s.name].from_binary, op[2])
            rec.cmp()
            if t is s:
                expect_epc(o, s, s.uri(g), "step %d: decoding %s", step, op[2])
            else:
                expect_refused(o, "step %d: decoding %s", step, op[2])
            continue
        if kind == "cross":  # the tag of one pool member given to the scheme of another
            t, g = pool[op[2] % len(pool)][:2]
            for coding in holders(t, g) if t.taggable else ():
                raw = t.encode(coding, step % (1 << t.filter_bits), g)
                o = T.call(T.CLS[s.name].from_binary, raw)
                rec.cmp()
                if t is s:
                    expect_epc(o, s, s.uri(g), "step %d: decoding %s", step, raw)
                else:
                    expect_refused(o, "step %d: decoding %s of %s as %s", step, raw, t.name, s.name)
            continue
        if kind == "headers":
            want = {R.bits(h, 8): T.coding_member(c) for c, (h, _) in s.codings.items()}
            if hasattr(T.CLS[s.name], "header_to_schemes"):
                expect_value(T.headers_of(s), want, "step %d: headers of %s", step, s.name)
                rec.cmp()
            continue
        if kind == "decode":
            if not s.taggable or not s.representable(op[2], f):
                continue
            form, generic = op[4], len(op) > 6 and op[6]
            if form == "tag_uri":
                t = s.tag_uri(op[2], op[3] or 0, f)
            else:
                t = textual(form, s.encode(op[2], op[3] or 0, f))
            read = T.GENERIC[form + "_to_tag_encodable"] if generic else getattr(T.CLS[s.name], "from_" + form)
            o = T.call(read, t)
            expect_epc(o, s, uri, "step %d: %s %s", step, form, t)
            if op[5]:  # go on with the decoded object
                pool[i] = (s, f, uri, o.value)
        elif kind == "parse":
            o = T.call(T.GENERIC["epc_pure_identity_to_scheme"], uri)
            expect_epc(o, s, uri, "step %d: scheme of %r", step, uri)
            if op[2]:
                pool[i] = (s, f, uri, o.value)
        elif kind == "read":
            es, n = s.element_string(f), op[2]
            read = T.GENERIC["gs1_element_string_to_gs1_element"] if op[3] else T.CLS[s.name].from_gs1_element_string
            o = T.call(read, es, n)
            try:
                t, g, _ = R.parse_element_string(es, n)
            except R.Refused:
                expect_refused(o, "step %d: reading %r with prefix length %d", step, es, n)
            else:
                expect_epc(o, t, t.uri(g), "step %d: reading %r with prefix length %d", step, es, n)
                if op[4] and t is s:
                    pool[i] = (s, g, s.uri(g), o.value)
        elif kind == "gkey":
            t, more = uri, {}
            if op[2] == "es":
                t, more = s.element_string(f), {"company_prefix_length": len(f["cp"])}
            elif op[2] == "pattern" and uri.startswith("urn:epc:id:"):
                t = uri.replace(":id:", ":idpat:", 1)
            elif op[2] in ("hex", "tag_uri"):
                c = holders(s, f)
                if c:
                    flt = step % (1 << s.filter_bits)
                    t = s.tag_uri(c[0], flt, f) if op[2] == "tag_uri" else R.hex_of(s.encode(c[0], flt, f))
            expect_value(T.call(T.GENERIC["get_gs1_key"], t, **more), s.key(f), "step %d: key of %r", step, t)
        elif kind == "renew":
            pool[i] = (s, f, uri, build(s, uri))
        elif kind == "eq":
            j = op[2] % len(pool)
            expect_value(T.call(lambda: obj == pool[j][3]), uri == pool[j][2], "step %d: %r == %r", step, uri, pool[j][2])
        else:
            want = _expected(s, f, op)
            o = _perform(s, obj, op)
            if o.key() != want:
                fail("step %d %r on %r: expected %r, got %s", step, op, uri, want, o.show())
            results.append((i, obj, s, op, o.key()))
        rec.cmp()
        for t, _, u, x in pool:
            if x.epc_uri != u:
                fail("step %d %r changed the EPC URI of %r to %r", step, op, u, x.epc_uri)
    for i, obj, s, op, before in reversed(results):
        o = _perform(s, obj, op)
        rec.cmp()
        if o.key() != before:
            fail("repeating %r gives %s instead of %r", op, o.show(), before)
    kinds = {op[0] for op in case["ops"]}
    rec.bucket("history of %d kinds" % len(kinds))
    if len(results) >= 2:
        rec.mark()


def c13_units():
    from vp import gens as G

    for n in NAMES:
        tag = R.SCHEMES[n].taggable
        yield Unit(n, "history", lambda n=n: G.history_case(n), 900 if tag else 400, 12000 if tag else 4000)


PROPS = {
    "C09": dict(
        judges={"uri": c09_uri, "same": c09_same, "memory": c09_memory, "tag": c09_tag, "es": c09_es, "headers": c09_headers},
        units=c09_units,
        rule="A case is a valid EPC put through every generic function, a URI-, tag-URI- or element-string-like text or tag memory given to the generic function and every scheme's own, or a payload behind all 256 headers. Non-trivial: a valid EPC, a text or memory some scheme accepts, or a payload.",
    ),
    "C10": dict(
        judges={"key": c10_key}, units=c10_units,
        rule="A case is a generated valid EPC (plus re-splits at every company prefix length) in every representation, coding scheme, filter and GTIN length. Non-trivial: its scheme has a key.",
    ),
    "C13": dict(
        judges={"history": c13_history}, units=c13_units,
        rule="A case is a pool of one to four EPCs (later ones often small edits of the first) and a sequence of conversions. Non-trivial: at least two conversions were judged, each against the reference outcome and again in reverse order.",
    ),
}
