"""Hypothesis strategies.  Every case is plain JSON data; judges rebuild from it."""

import re
from functools import lru_cache

from hypothesis import strategies as st

from vp import dictionary
from vp import refmodel as R
from vp.target import REPO

DICT_DIGITS, DICT_TEXT, DICT_INTS = dictionary.build(REPO)

ESC = R.GS1_ESCAPED
NASTY = ESC + "().:;*'-_=+,!"
TOKENS = [
    "(21)", "(10)", "(254)", "(01)", "(00)", "(235)", "(8011)", "(414)", "(12)", "(123)",
    "(1234)", "%2F", "%25", "%22", "%", "%2", "2F", "urn:epc:id:", "urn:", ":", "::", ".",
    "..", ".0", "*", "0", "00", "000", "1", "9", "/", "/A", "//", '"', "&", "<", ">", "?",
    "-", "_", "A", "a", "Z", "z", "(", ")", "()", "idpat", "id", "tag", "sgtin-96", "+", "=",
]


def freq(*pairs):
    """Weighted choice.  (A nested one_of would be flattened and lose the weights.)"""
    branches = [strat for _, strat in pairs]
    slots = [i for i, (weight, _) in enumerate(pairs) for _ in range(weight)]
    return st.sampled_from(slots).flatmap(branches.__getitem__)


def _near_values(limit):
    """Interesting integers in [0, limit)."""
    vals = {0, 1, 2, 9, 10, limit - 1, limit - 2, limit // 2, limit // 10}
    k = 1
    while k <= limit:
        vals |= {k - 1, k, k + 1}
        k *= 10
    k = 1
    while k <= limit:
        vals |= {k - 1, k, k + 1}
        k *= 2
    for i in DICT_INTS:
        vals |= {i - 1, i, i + 1}
    return sorted(v for v in vals if 0 <= v < limit)


@lru_cache(None)
def integer(limit):
    """0 <= x < limit, biased to powers of two and ten, limits and source literals."""
    ends = {0, 1, 2, limit // 2 - 1, limit // 2, limit - 3, limit - 2, limit - 1}
    return freq(
        (5, st.integers(0, limit - 1)),
        (4, st.sampled_from(_near_values(limit))),
        (2, st.sampled_from(sorted(v for v in ends if 0 <= v < limit))),
    )


@st.composite
def _digit_runs(draw, n):
    """A few runs of one digit each."""
    out = ""
    while len(out) < n:
        run = draw(st.sampled_from([1, 1, 2, 3, 4, 5, 6, 7, 8, 9]))
        out += draw(st.sampled_from("00099123456789")) * run
    return out[:n]


@lru_cache(None)
def digits(n):
    if n == 0:
        return st.just("")
    limit = 10**n
    special = ["0" * n, "9" * n, "1" + "0" * (n - 1), "0" * (n - 1) + "1", "5" * n]
    special += ["0" * i + "9" * (n - i) for i in range(n)]
    special += [("1234567890" * 3)[:n], ("9876543210" * 3)[:n]]
    fit = [d for d in DICT_DIGITS if len(d) <= n]
    special += [d.rjust(n, "0") for d in fit] + [d.ljust(n, "0") for d in fit if len(d) > 1]
    return freq(
        (4, st.integers(0, limit - 1).map(lambda v: str(v).rjust(n, "0"))),
        (2, st.sampled_from(special)),
        (1, st.text("0123456789", min_size=n, max_size=n)),
        (1, _digit_runs(n)),
        (1, integer(limit).map(lambda v: str(v).rjust(n, "0"))),
    )


cp_length = st.sampled_from([7, 6, 8, 9, 10, 11, 12])


@lru_cache(None)
def number_text(maxlen):
    """Plain decimal numbers of at most maxlen digits."""
    return freq(
        (2, integer(10**maxlen)),
        (2, st.integers(1, maxlen).flatmap(lambda n: st.integers(0, 10**n - 1))),
    ).map(str)


@lru_cache(None)
def text(alphabet, maxlen, awkward, tokens=()):
    """Non-empty strings over `alphabet`, at most maxlen long."""
    tok = [t for t in list(TOKENS) + list(tokens) if R.only(t, alphabet)]
    dic = [t for t in DICT_TEXT if R.only(t, alphabet) and len(t) <= maxlen]
    short = st.text(alphabet, min_size=1, max_size=min(4, maxlen))
    any_ = st.text(alphabet, min_size=1, max_size=maxlen)
    full = st.text(alphabet, min_size=max(1, maxlen - 1), max_size=maxlen)
    nasty = st.text(awkward, min_size=1, max_size=maxlen)
    joined = st.lists(st.sampled_from(tok), min_size=1, max_size=maxlen).map(
        lambda ts: "".join(ts)[:maxlen]
    )
    run = st.tuples(st.sampled_from(alphabet), st.integers(1, maxlen)).map(
        lambda t: t[0] * t[1]
    )
    # an awkward character at an end, often of a text of full length
    edge = st.tuples(
        freq((1, any_), (1, full)), st.sampled_from(awkward), st.sampled_from([0, -1])
    ).map(lambda t: t[1] + t[0][1:] if t[2] == 0 else t[0][:-1] + t[1])
    # every length equally often (plain texts are mostly short)
    even = st.integers(1, maxlen).flatmap(lambda n: st.text(alphabet, min_size=n, max_size=n))
    parts = [(2, short), (2, any_), (4, even), (2, full), (2, nasty), (2, joined), (1, run), (2, edge)]
    if dic:
        parts.append((1, st.sampled_from(dic)))
        parts.append(
            (1, st.tuples(st.sampled_from(dic), any_).map(lambda t: (t[0] + t[1])[:maxlen]))
        )
    return freq(*parts)


@lru_cache(None)
def serial_text(maxlen):
    """GS1 alphanumeric serial, often numeric so that every coding is exercised."""
    return freq(
        (4, number_text(min(maxlen, 13))),
        (1, number_text(maxlen)),
        (1, st.integers(1, maxlen).flatmap(digits)),
        (7, text(R.GS3A3, maxlen, NASTY)),
    )


SIX_AWKWARD = "P0X8H@`A".replace("@", "").replace("`", "") + "Q-/1DB"


@lru_cache(None)
def cpref_text(maxlen):
    return freq(
        (2, number_text(min(maxlen, 9))),
        (1, st.integers(1, maxlen).flatmap(digits)),
        (3, text(R.CPREF, maxlen, SIX_AWKWARD + "#")),
    )


@lru_cache(None)
def numeric_serial(maxlen):
    return freq(
        (2, number_text(maxlen)), (3, st.integers(1, maxlen).flatmap(digits))
    )


@lru_cache(None)
def asset_ref(length):
    """GIAI/GINC reference next to a company prefix of `length` digits."""
    room = 30 - length
    top = 1 << (82 - R.prefix_bits(length))
    return freq(
        (4, serial_text(room)),
        (1, number_text(room)),
        (1, integer(min(1 << 62, 10**room)).map(str)),
        (1, st.sampled_from([top - 1, top, top + 1]).map(lambda v: str(v)[:room])),
    )


@lru_cache(None)
def part_ref(length):
    k = 15 - length
    return freq(
        (2, cpref_text(30 - length)),
        (2, integer(10**k).map(str)),
        (1, integer(10 ** (k + 1)).map(str)),
    )


@lru_cache(None)
def part_serial():
    return freq((2, number_text(12)), (2, integer(1 << 32).map(str)))


@lru_cache(None)
def adi_part():
    return freq((1, st.just("")), (6, text(R.ADI_CHARS, 32, SIX_AWKWARD)))


@lru_cache(None)
def epc(name):
    return _epc(name)


@st.composite
def _epc(draw, name):
    """Decoded fields of a valid EPC of scheme `name`."""
    s = R.SCHEMES[name]
    if isinstance(s, R.Keyed12):
        length = draw(cp_length)
        f = {"cp": draw(digits(length)), "ref": draw(digits(s.total_digits - length))}
        if name == "itip":
            f["piece"] = draw(digits(2))
            f["total"] = draw(digits(2))
        if s.serial == "gs3a3":
            f["serial"] = draw(serial_text(s.serial_max))
        elif s.serial == "digits":
            f["serial"] = draw(numeric_serial(s.serial_max))
        return f
    if name in ("giai", "ginc"):
        length = draw(cp_length)
        return {"cp": draw(digits(length)), "serial": draw(asset_ref(length))}
    if name == "cpi":
        length = draw(cp_length)
        return {
            "cp": draw(digits(length)),
            "ref": draw(part_ref(length)),
            "serial": draw(part_serial()),
        }
    if name == "gid":
        return {k: str(draw(integer(1 << w))) for k, w in zip(s.fields, s.widths)}
    if name == "usdod":
        return {"cage": draw(cage()), "serial": str(draw(integer(1 << 36)))}
    if name == "adi":
        part = draw(adi_part())
        hash_ = draw(st.sampled_from(["", "", "#"]))
        serial = draw(text(R.ADI_CHARS, 30 - len(hash_), SIX_AWKWARD))
        return {"cage": draw(cage()), "part": part, "serial": hash_ + serial}
    if name == "bic":
        letters = "".join(c for c in R.UPPER if c not in "IO")
        return {
            "code": draw(st.text(letters, min_size=3, max_size=3))
            + draw(st.sampled_from("JUZ"))
            + draw(digits(7))
        }
    if name == "imovn":
        return {"number": draw(digits(7))}
    raise AssertionError(name)


@lru_cache(None)
def cage():
    return st.one_of(
        st.text(R.CAGE, min_size=5, max_size=5),
        st.text(R.CAGE, min_size=6, max_size=6),
        st.sampled_from(["00000", "ZZZZZZ", "PPPPP", "XXXXXX", "2S194", "AAAAA", "999999"]),
    )


@st.composite
def numeric_epc(draw, name):
    """Valid EPC biased towards the smallest coding scheme of its family."""
    f = draw(epc(name))
    s = R.SCHEMES[name]
    if name in ("sgtin", "itip", "grai"):
        f["serial"] = str(draw(integer(1 << 38)))
    elif name in ("sgln", "gdti"):
        f["serial"] = str(draw(integer(1 << 41)))
    elif name == "giai":
        width = 82 - R.prefix_bits(len(f["cp"]))
        f["serial"] = str(draw(integer(1 << width)))
        if len(f["cp"]) + len(f["serial"]) > 30:
            f["serial"] = f["serial"][:13]
    elif name == "cpi":
        k = 15 - len(f["cp"])
        f["ref"] = str(draw(integer(10**k)))
        f["serial"] = str(draw(integer(1 << 31)))
    if isinstance(f.get("serial"), str) and not s.valid_uri(s.uri(f)):
        f["serial"] = f["serial"][: getattr(s, "serial_max", 12) or 12]
    return f


def epc_case(name, numeric_share=1, **extra):
    base = freq((2, epc(name)), (numeric_share, numeric_epc(name)))
    return st.fixed_dictionaries({"s": st.just(name), "f": base, **extra})


def any_epc_case(names, **extra):
    return st.one_of([epc_case(n, **extra) for n in names])


# ---- URIs and their neighbours ---------------------------------------------
ODD_CHARS = (
    "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
    ".:%*#/-_()!'+,;=\"&<>? \n\t\0~^|@[]{}`$\\"
    "١१１²①éKİſ\U0001d7d9\ud800"
).replace("\ud800", "")
ODD_TOKENS = [
    "%2f", "%2F", "%3c", "%3E", "%3f", "%23", "%41", "%7E", "%00", "%2", "%", "%%", "%2X", "%GG",
    "%252F", "%0A", "%20", "0", "00", "\n", " ", ".", "..", ":", "*", ".*", "urn:epc:id:", "%3D",
    "١", "%FF", "%2a", "%5F", "-96", "sgtin", "#", "/", "%22", "%25", "%26",
]


@st.composite
def mutate(draw, base, max_edits=3):
    """Apply a few edits to a text."""
    t = draw(base)
    for _ in range(draw(st.integers(0, max_edits))):
        op = draw(st.integers(0, 12))
        i = draw(st.integers(0, len(t)))
        if op == 0:
            t = t[:i] + draw(st.sampled_from(ODD_CHARS)) + t[i:]
        elif op == 1:
            t = t[:i] + t[i + 1 :]
        elif op == 2:
            t = t[:i] + draw(st.sampled_from(ODD_CHARS)) + t[i + 1 :]
        elif op == 3:
            t = t[:i] + draw(st.sampled_from(ODD_TOKENS)) + t[i:]
        elif op == 4:  # move a delimiter
            dots = [k for k, c in enumerate(t) if c == "."]
            if dots:
                k = draw(st.sampled_from(dots))
                j = k + draw(st.sampled_from([-2, -1, 1, 2]))
                t = t[:k] + t[k + 1 :]
                j = min(max(j, 0), len(t))
                t = t[:j] + "." + t[j:]
        elif op == 5:
            t = t[:i] + (t[i : i + 1]).swapcase() + t[i + 1 :]
        elif op == 6:  # duplicate or drop a component
            parts = t.split(".")
            k = draw(st.integers(0, len(parts) - 1))
            if draw(st.booleans()):
                parts.insert(k, parts[k])
            elif len(parts) > 1:
                del parts[k]
            t = ".".join(parts)
        elif op == 7:  # swap two components
            parts = t.split(".")
            if len(parts) > 1:
                k = draw(st.integers(0, len(parts) - 2))
                parts[k], parts[k + 1] = parts[k + 1], parts[k]
            t = ".".join(parts)
        elif op == 8:  # another scheme or urn kind
            parts = t.split(":")
            if len(parts) > 3:
                if draw(st.booleans()):
                    parts[3] = draw(st.sampled_from(sorted(R.SCHEMES)))
                else:
                    parts[2] = draw(st.sampled_from(["id", "class", "tag", "idpat", "pat", "ID", ""]))
            t = ":".join(parts)
        elif op == 9 and t:  # a character of the text itself, once more
            t = t[:i] + draw(st.sampled_from(t)) + t[i:]
        elif op == 10 and t:  # double or drop what stands next to it
            t = t[:i] + t[max(0, i - 1) : i] + t[i:]
        elif op == 11 and i < len(t):  # neighbouring code point
            t = t[:i] + chr(max(0, ord(t[i]) + draw(st.sampled_from([-1, 1])))) + t[i + 1 :]
        else:
            t = draw(
                st.sampled_from([t + "\n", " " + t, t + " ", t + ".", t + ":", t[:-1], t[1:], t * 2, t + ".0", t.upper(), t.lower()])
            )
    return t


def escape_variant(text_, escaped, how):
    """how: per-escaped-char choice list; True -> lower-case hex."""
    out, k = [], 0
    for c in text_:
        if c in escaped:
            e = R.hex2(c)
            if how and how[k % len(how)]:
                e = e.lower()
            k += 1
            out.append(e)
        else:
            out.append(c)
    return "".join(out)


@lru_cache(None)
def _loose_cp_length():
    return freq((5, cp_length), (1, st.integers(4, 14)))


@lru_cache(None)
def _loose_part_ref(length):
    room = max(1, 30 - length)
    return freq(
        (3, cpref_text(30 - min(length, 13))),
        (2, st.text("A0-#/", min_size=room, max_size=room + 2)),
    )


@st.composite
def loose_uri(draw, name):
    """URI-shaped text whose component lengths and values straddle every limit."""
    s = R.SCHEMES[name]
    length = draw(_loose_cp_length())
    cp = draw(digits(length))
    if isinstance(s, R.Keyed12):
        slack = draw(st.sampled_from([0, 0, 0, 0, -1, 1, 2]))
        comps = [cp, draw(digits(max(0, s.total_digits - length + slack)))]
        if name == "itip":
            comps.append(draw(digits(draw(st.sampled_from([2, 2, 2, 2, 1, 3, 0])))))
            comps.append(draw(digits(draw(st.sampled_from([2, 2, 2, 2, 1, 3, 0])))))
        if s.serial:
            comps.append(draw(loose_serial(s.serial_max)))
    elif name in ("giai", "ginc"):
        comps = [cp, draw(loose_serial(30 - min(length, 13)))]
    elif name == "cpi":
        ref = draw(_loose_part_ref(length))
        comps = [cp, R.esc(ref, "#/"), draw(loose_number(10**12))]
    elif name == "gid":
        comps = [draw(loose_number(1 << w)) for w in s.widths]
    elif name == "usdod":
        comps = [draw(loose_cage()), draw(loose_number(1 << 36))]
    elif name == "adi":
        part = draw(st.one_of(text(R.ADI_CHARS, 32, "P/"), st.text("A0/", min_size=31, max_size=34), st.just("")))
        serial = draw(st.one_of(text(R.ADI_CHARS, 30, "P/"), st.text("A0/", min_size=28, max_size=32)))
        hash_ = draw(st.sampled_from(["", "", "%23", "#", "%23%23"]))
        comps = [draw(loose_cage()), R.esc(part, "#/"), hash_ + R.esc(serial, "#/")]
    elif name == "bic":
        code = draw(epc("bic"))["code"]
        style = draw(st.integers(0, 3))
        if style == 0:  # one letter or digit more or fewer, every class intact
            own = draw(st.sampled_from([code[:2], code[:3], code[0] + code[:3]]))
            comps = [own + code[3] + draw(digits(draw(st.integers(6, 8))))]
        elif style == 1:
            comps = [code[:3] + draw(st.sampled_from(R.UPPER)) + code[4:]]
        else:
            comps = [draw(mutate(st.just(code), 2))]
    else:
        comps = [draw(digits(draw(st.sampled_from([7, 7, 7, 6, 8]))))]
    return s.prefix + ".".join(comps)


@lru_cache(None)
def loose_cage():
    return st.one_of(
        cage(),
        st.text(R.CAGE, min_size=4, max_size=7),
        st.text(R.CAGE + "IOio-", min_size=5, max_size=6),
    )


@lru_cache(None)
def loose_number(limit):
    return st.one_of(
        integer(limit).map(str),
        integer(limit).map(str),
        st.sampled_from([limit - 1, limit, limit + 1]).map(str),
        integer(limit).map(lambda v: "0" + str(v)),
        st.integers(limit, limit * 100).map(str),
        st.just(""),
    )


@lru_cache(None)
def _loose_serial_text(maxlen):
    return freq(
        (4, serial_text(maxlen)),
        (2, st.text(R.GS3A3, min_size=maxlen, max_size=maxlen + 1)),
        (2, st.text(ESC + "A", min_size=max(1, maxlen - 1), max_size=maxlen + 2)),
        (2, _over_run(maxlen)),
        (1, st.just("")),
    )


@st.composite
def _over_run(draw, maxlen):
    """About one character too long, with a run of one awkward character inside."""
    k = draw(st.integers(2, 4))
    n = max(0, maxlen + draw(st.sampled_from([0, 1, 1, 2])) - k)
    t = draw(st.text(R.GS3A3, min_size=n, max_size=n))
    i = draw(st.one_of(st.just(0), st.just(n), st.integers(0, n)))
    return t[:i] + draw(st.sampled_from(NASTY + "0....::")) * k + t[i:]


@lru_cache(None)
def loose_serial(maxlen):
    return _loose_serial(maxlen)


@st.composite
def _loose_serial(draw, maxlen):
    """Escaped serial whose decoded length is often at or just over the limit."""
    t = draw(_loose_serial_text(maxlen))
    how = draw(st.sampled_from([(), (), (), (True,), (True, False)]))
    out = escape_variant(t, ESC, how)
    if draw(st.integers(0, 9)) == 0:
        i = draw(st.integers(0, len(out)))
        out = out[:i] + draw(st.sampled_from(ODD_TOKENS)) + out[i:]
    return out


def valid_uri(name):
    s = R.SCHEMES[name]
    return epc(name).map(s.uri)


def uri_text(name):
    return freq(
        (3, loose_uri(name)),
        (2, valid_uri(name)),
        (4, mutate(valid_uri(name), 2)),
        (1, mutate(loose_uri(name), 3)),
    )


# ---- tag memory ------------------------------------------------------------
@lru_cache(None)
def bitfield(width):
    if width == 0:
        return st.just("")
    top = (1 << width) - 1
    masks = st.integers(0, width - 1).flatmap(
        lambda i: st.sampled_from(
            [1 << i, top ^ (1 << i), top >> i, top ^ (top >> i), top // 3, top ^ (top // 3)]
        )
    )
    return freq((5, integer(1 << width)), (1, masks)).map(lambda v: R.bits(v, width))


@lru_cache(None)
def near_decimal(width, k):
    """A field of `width` bits, straddling 10**k where that fits."""
    lim = 1 << width
    vals = sorted({v for v in (0, 1, 10**k - 1, 10**k, 10**k + 1, lim - 1) if 0 <= v < lim})
    ok = min(10**k, lim)
    return freq(
        (4, integer(ok).map(lambda v: R.bits(v, width))),
        (2, st.sampled_from(vals).map(lambda v: R.bits(v, width))),
        (1, bitfield(width)),
    )


PARTITION = freq((6, st.integers(0, 6)), (1, st.just(7)))
CHAR7 = st.one_of(
    st.sampled_from([ord(c) for c in R.GS3A3]),
    st.sampled_from([ord(c) for c in R.GS3A3]),
    st.sampled_from([ord(c) for c in NASTY]),
)
CHAR7_ODD = st.one_of(CHAR7, CHAR7, CHAR7, st.integers(0, 127))
CHAR6 = st.sampled_from([ord(c) % 64 for c in R.CPREF])
CHAR6_ODD = st.one_of(CHAR6, CHAR6, CHAR6, st.integers(0, 63), st.sampled_from([37, 46, 35, 0, 32, 50, 6]))


@st.composite
def string7(draw, width):
    """A 7-bit string field: mostly well formed, sometimes with holes or odd chars."""
    n = width // 7
    style = draw(st.integers(0, 5))
    chars = draw(st.lists(CHAR7 if style < 3 else CHAR7_ODD, min_size=0 if style == 5 else 1, max_size=n))
    chars += [0] * (n - len(chars))
    if style == 4 and n > 2:
        chars[draw(st.integers(0, n - 1))] = 0
        chars[draw(st.integers(0, n - 1))] = draw(CHAR7)
    out = "".join(R.bits(c, 7) for c in chars)
    pad = width - len(out)
    return out + (draw(bitfield(pad)) if pad and draw(st.booleans()) else "0" * pad)


@st.composite
def string6(draw, maxlen):
    odd = draw(st.sampled_from([False, False, True]))
    chars = draw(st.lists(CHAR6_ODD if odd else CHAR6, min_size=0, max_size=maxlen))
    return "".join(R.bits(c, 6) for c in chars)


@st.composite
def structured_memory(draw, name):
    """Header followed by field values that straddle each field's limits."""
    s = R.SCHEMES[name]
    coding = draw(st.sampled_from(sorted(s.codings)))
    header, size = s.codings[coding]
    out = R.bits(header, 8)
    if s.filter_bits:
        out += draw(bitfield(s.filter_bits))
    if name == "gid":
        out += "".join(draw(bitfield(w)) for w in s.widths)
    elif name == "usdod":
        c = draw(st.one_of(cage(), loose_cage(), st.text(R.CAGE + " .", min_size=4, max_size=6)))
        c = c[:6].rjust(6, " ")
        if draw(st.integers(0, 5)) == 0:
            k = draw(st.integers(0, 5))
            c = c[:k] + draw(st.sampled_from(" .I\xff\x00a%")) + c[k + 1 :]
        out += "".join(R.bits(ord(ch), 8) for ch in c) + draw(bitfield(36))
    elif name == "adi":
        c = draw(st.one_of(cage(), cage(), loose_cage())).upper()[:6].rjust(6, " ")
        if draw(st.integers(0, 5)) == 0:
            c = c.strip().ljust(6, " ")
        c = R.six_bit(c)
        if draw(st.integers(0, 3)) == 0:  # filler or odd character somewhere
            k = 6 * draw(st.integers(0, 5))
            c = c[:k] + draw(st.one_of(st.just("100000"), bitfield(6))) + c[k + 6 :]
        out += c
        out += draw(string6(34)) + draw(st.sampled_from(["000000"] * 6 + [""]))
        out += draw(st.sampled_from(["", "", "100011"])) + draw(string6(31))
        out += draw(st.sampled_from(["000000"] * 6 + [""]))
    else:
        p = draw(PARTITION)
        length = 12 - min(p, 6)
        m = R.prefix_bits(length)
        out += R.bits(p, 3) + draw(near_decimal(m, length))
        if name == "giai":
            if coding == "giai-96":
                out += draw(bitfield(82 - m))
            else:
                out += draw(string7(188 - m))
        elif name == "cpi":
            if coding == "cpi-96":
                out += draw(near_decimal(51 - m, 15 - length)) + draw(bitfield(31))
            else:
                out += draw(string6(32 - length)) + draw(st.sampled_from(["000000"] * 6 + [""]))
                out += draw(near_decimal(40, 12))
        else:
            k = s.total_digits - length
            out += draw(near_decimal(s.part_bits - m, k))
            if name == "itip":
                out += draw(near_decimal(7, 2)) + draw(near_decimal(7, 2))
            if s.serial:
                how, width = s.serial_bits[coding]
                if how == "int":
                    out += draw(bitfield(width))
                elif how == "str":
                    out += draw(string7(width))
                else:
                    out += draw(numeric_string_field(width))
            if s.tail_zero:
                out += draw(st.one_of(st.just("0" * 24), bitfield(24)))
    return out


@lru_cache(None)
def numeric_string_field(width):
    vals = set()
    for k in range(0, 14):
        vals |= {10**k - 1, 10**k, 10**k + 1, 2 * 10**k - 1, 2 * 10**k}
    vals = sorted(v for v in vals if 0 <= v < 1 << width)
    return freq(
        (3, st.integers(1, 12).flatmap(digits).map(lambda d: R.bits(int("1" + d), width))),
        (1, st.sampled_from(vals).map(lambda v: R.bits(v, width))),
        (1, bitfield(width)),
    )


@st.composite
def encoded_memory(draw, name):
    """What a correct encoder writes for some EPC."""
    s = R.SCHEMES[name]
    f = draw(st.one_of(epc(name), numeric_epc(name)))
    options = [c for c in sorted(s.codings) if s.representable(c, f)]
    if not options:
        return draw(structured_memory(name))
    coding = draw(st.sampled_from(options))
    flt = draw(st.integers(0, (1 << s.filter_bits) - 1)) if s.filter_bits else 0
    return s.encode(coding, flt, f)


@st.composite
def memory(draw, name):
    """Tag memory for scheme `name`: valid, mutated, structured or arbitrary bits."""
    s = R.SCHEMES[name]
    style = draw(st.integers(0, 9))
    if style < 2:
        raw = draw(encoded_memory(name))
    elif style < 4:
        raw = draw(encoded_memory(name))
        for _ in range(draw(st.integers(1, 3))):
            i = draw(st.integers(0, len(raw) - 1))
            if draw(st.booleans()):
                raw = raw[:i] + ("1" if raw[i] == "0" else "0") + raw[i + 1 :]
            else:
                j = min(len(raw), i + draw(st.integers(1, 14)))
                raw = raw[:i] + draw(st.sampled_from("01")) * (j - i) + raw[j:]
    elif style < 8:
        raw = draw(structured_memory(name))
    else:
        header, size = s.codings[draw(st.sampled_from(sorted(s.codings)))]
        size = size or draw(st.integers(8, 300))
        raw = R.bits(header, 8) + draw(bitfield(size - 8))
    tail = draw(st.integers(0, 7))
    if tail == 0:
        raw = raw[: draw(st.integers(0, len(raw)))]
    elif tail in (1, 2):
        raw += draw(st.one_of(st.just("0" * draw(st.integers(0, 32))), st.text("01", max_size=40)))
    return raw


def memory_case(name, **extra):
    return st.fixed_dictionaries({"s": st.just(name), "bits": memory(name), **extra})


FOREIGN = list("_-.xXgGhHlLoOIzZ2!@#$%^&*(),:;<>?~` |") + [
    "\n", "\t", "\r", "\0", "\x0b", "\x1c", "\x85", "\xa0", "\u2028", "\ufeff", "\u200b",
    "\uff10", "\uff11", "\uff21", "\u0660", "\u0661", "\u0967", "\xb2", "\u2460", "\U0001d7ce", "\xc0", "=", "==", "\ud800",
]
WRAPS = [("0x", ""), ("0b", ""), ("0X", ""), ("0B", ""), ("", "h"), ("+", ""), ("-", ""), (" ", ""), ("", " "), ("", "\n"), ("b'", "'"), ("'", "'"), ("", "L"), ("\n", ""), ("\ufeff", "")]


@st.composite
def foreign_case(draw, name):
    """A tag as text, with characters its form does not have."""
    form = draw(st.sampled_from(["binary", "hex", "base64"]))
    raw = draw(freq((3, encoded_memory(name)), (1, memory(name))))
    raw += draw(st.sampled_from(["", "", "0" * 32, "1" * 48]))  # room to lose a character and still be read
    raw += "0" * (-len(raw) % 16)
    t = raw
    if form != "binary":
        t = R.hex_digits(raw)
        if form == "base64":
            t = R.b64_of_hex(t)
            t = t.rstrip("=") if draw(st.booleans()) else t
        elif draw(st.booleans()):
            t = t.lower()
    if draw(st.integers(0, 4)) == 0:
        a, b = draw(st.sampled_from(WRAPS))
        t = a + t + b
    else:
        for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
            i = draw(freq((1, st.sampled_from([0, len(t)])), (2, st.integers(0, len(t)))))
            c = draw(freq((3, st.sampled_from(FOREIGN)), (1, st.characters())))
            t = t[:i] + c + t[i + draw(st.integers(0, 1)) :]
    return {"s": name, "form": form, "t": t}


# ---- property-specific cases -------------------------------------------------
@lru_cache(None)
def over_number(bits_):
    """Numbers around 2**bits_, plus the same with leading zeros."""
    lim = 1 << bits_
    near = [lim - 2, lim - 1, lim, lim + 1, lim * 2, lim * 2 - 1, lim * 10]
    return freq(
        (3, st.sampled_from(near).map(str)),
        (2, st.integers(0, lim * 3).map(str)),
        (1, integer(lim).map(lambda v: "0" + str(v))),
        (1, st.integers(1, 20).map(lambda n: "0" * n)),
    )


def limit_case(name, **extra):
    """Valid EPCs concentrated on the coding schemes' limits."""
    s = R.SCHEMES[name]

    @st.composite
    def gen(draw):
        f = dict(draw(epc(name)))
        if draw(st.integers(0, 2)) == 0:
            return f
        g = dict(f)
        if name in ("sgtin", "itip", "grai"):
            g["serial"] = draw(over_number(38))[: s.serial_max]
        elif name in ("sgln", "gdti"):
            g["serial"] = draw(over_number(41))[: s.serial_max]
        elif name == "giai":
            room = 30 - len(f["cp"])
            g["serial"] = draw(over_number(82 - R.prefix_bits(len(f["cp"]))))[:room]
        elif name == "cpi":
            k = 15 - len(f["cp"])
            g["ref"] = draw(_cpi_limit_ref(k))
            g["serial"] = draw(_cpi_limit_serial())
        try:
            s.validate(g)
        except R.Refused:
            return f
        return g

    return st.fixed_dictionaries({"s": st.just(name), "f": gen(), **extra})


@lru_cache(None)
def _cpi_limit_ref(k):
    return freq(
        (2, integer(10**k).map(str)),
        (2, st.sampled_from([10**k - 1, 10**k, 10**k + 1]).map(str)),
        (1, integer(10**k).map(lambda v: "0" + str(v))),
        (1, st.integers(0, 10 ** (k + 2)).map(str)),
        (1, integer(10**k).map(lambda v: str(v) + "A")),
    )


@lru_cache(None)
def _cpi_limit_serial():
    return st.one_of(
        integer(1 << 31).map(str),
        st.sampled_from([(1 << 31) - 1, 1 << 31, (1 << 31) + 1, 10**12 - 1]).map(str),
        integer(10**12).map(str),
    )


@st.composite
def _tag_text(draw, name):
    s = R.SCHEMES[name]
    coding = draw(st.sampled_from(sorted(s.codings)))
    other = draw(st.sampled_from(sorted(R.CODINGS)))
    coding = draw(st.sampled_from([coding] * 6 + [other, coding.split("-")[0], coding + "0", coding.upper()]))
    body = draw(uri_text(name))
    body = body[len(s.prefix) :] if body.startswith(s.prefix) else body
    flt = draw(st.sampled_from(["0", "1", "3", "7", "5", "8", "15", "16", "63", "64", "00", "", "-1", "x", "07"]))
    dot = "" if s.filter_bits == 0 else flt + "."
    return "urn:epc:tag:%s:%s%s" % (coding, dot, body)


def tag_uri_text_case(name):
    base = _tag_text(name)
    text_ = freq((3, base), (2, mutate(base, 2)))
    return st.fixed_dictionaries(
        {"s": st.just(name), "t": text_, "all": st.sampled_from([False, False, False, True])}
    )


@st.composite
def variant(draw, name, f):
    """A valid EPC close to f (possibly f itself)."""
    s = R.SCHEMES[name]
    g = dict(f)
    style = draw(st.integers(0, 9))
    key = draw(st.sampled_from(sorted(g)))
    v = g[key]
    if style == 0:
        return dict(draw(epc(name)))
    if style == 1 and v:  # change one character
        i = draw(st.integers(0, len(v) - 1))
        alphabet = R.DIGITS if R.is_digits(v) else R.GS3A3
        g[key] = v[:i] + draw(st.sampled_from(alphabet)) + v[i + 1 :]
    elif style == 2:  # leading zero more or less
        g[key] = v[1:] if v.startswith("0") else "0" + v
    elif style == 3:  # letter case
        cased = [k for k in sorted(g) if g[k] != g[k].swapcase()]
        if cased:
            key = draw(st.sampled_from(cased))
            v = g[key]
            i = draw(st.sampled_from([j for j, c in enumerate(v) if c != c.swapcase()]))
            one = v[:i] + v[i].swapcase() + v[i + 1 :]
            g[key] = draw(st.sampled_from([one, v.swapcase(), v.upper(), v.lower()]))
    elif style == 4:  # shift a character between neighbouring fields
        names = list(g)
        i = names.index(key)
        if i + 1 < len(names):
            a, b = g[names[i]], g[names[i + 1]]
            whole, cut = a + b, len(a) + draw(st.sampled_from([-1, 1]))
            if 0 <= cut <= len(whole):
                g[names[i]], g[names[i + 1]] = whole[:cut], whole[cut:]
    elif style == 5:
        g[key] = v + draw(st.sampled_from(["0", "1", "A", "%", "/", "-"]))
    elif style == 6:
        g[key] = v[:-1]
    elif style == 7:
        g[key] = draw(epc(name))[key]
    elif style == 8:  # one character more, anywhere
        i = draw(st.sampled_from([0, len(v), draw(st.integers(0, len(v)))]))
        g[key] = v[:i] + draw(st.sampled_from(R.GS3A3)) + v[i:]
    elif style == 9 and len(v) > 1:  # two characters swapped
        i = draw(st.integers(0, len(v) - 2))
        g[key] = v[:i] + v[i + 1] + v[i] + v[i + 2 :]
    try:
        s.validate(g)
        s.parse(s.uri(g))
    except R.Refused:
        return dict(draw(epc(name))) if draw(st.booleans()) else dict(f)
    return g


@st.composite
def _pair(draw, name):
    f = draw(st.one_of(epc(name), numeric_epc(name)))
    other = draw(st.sampled_from(sorted(R.SCHEMES)))
    return {
        "s": name, "f": f, "g": draw(variant(name, f)), "flt": draw(st.integers(0, 63)),
        "s2": other, "f2": draw(epc(other)),
    }


def pair_case(name):
    return _pair(name)


@st.composite
def _short_gtin(draw, name, extra):
    """EPCs whose GTIN starts with a run of zeros, so shorter GTINs exist."""
    f = dict(draw(epc(name)))
    n = len(f["cp"])
    zeros = draw(st.integers(0, 9))
    body = f["ref"][0] + f["cp"] + f["ref"][1:]
    body = "0" * zeros + body[zeros:]
    f["cp"], f["ref"] = body[1 : 1 + n], body[0] + body[1 + n :]
    return {"s": name, "f": f, **{k: draw(v) for k, v in extra.items()}}


def short_gtin_case(name, **extra):
    return _short_gtin(name, extra)


@st.composite
def _pattern(draw, name):
    s = R.SCHEMES[name]
    if draw(st.integers(0, 3)) == 0:
        uri = draw(loose_uri(name))
    else:
        uri = draw(valid_uri(name))
    head, body = s.prefix, uri[len(s.prefix) :]
    n = len(s.fields)
    parts = body.split(".", n - 1)
    style = draw(st.integers(0, 5))
    if style == 0:
        for i in range(len(parts)):
            if draw(st.booleans()):
                parts[i] = "*"
    elif style < 4:  # a trailing run of wildcards, most often just the last
        run = draw(st.sampled_from([0, 1, 1, 1, 1, 2, 2, 3, len(parts)]))
        for i in range(max(0, len(parts) - run), len(parts)):
            parts[i] = "*"
    elif style == 4:
        i = draw(st.integers(0, len(parts) - 1))
        k = draw(st.integers(0, len(parts[i])))
        parts[i] = parts[i][:k] + "*" + parts[i][k:]
    return "urn:epc:idpat:%s:%s" % (name, ".".join(parts))


def pattern_case(name):
    base = _pattern(name)
    return st.fixed_dictionaries(
        {
            "t": freq((4, base), (1, mutate(base, 1))),
            "gtin": st.sampled_from([None, None, None, 8, 12, 13, 14]),
        }
    )


@st.composite
def gtin_case(draw):
    n = draw(st.sampled_from([14, 13, 12, 8, 14, 13, 12, 8, 15, 16]))
    body = draw(digits(n - 1))
    if draw(st.integers(0, 3)) == 0:
        z = draw(st.integers(0, n - 1))
        body = "0" * z + body[z:]
    gtin = body + R.check_digit(body)
    return {
        "gtin": gtin,
        "serial": draw(loose_serial(20)),
        "n": draw(freq_n),
    }


freq_n = st.one_of(cp_length, cp_length, st.integers(0, 14))


@st.composite
def _element_string(draw, name):
    s = R.SCHEMES[name]
    if draw(st.integers(0, 5)) == 0:
        es, n = s.element_string(draw(epc(name))), draw(freq_n)
        return es, n, True
    n = draw(freq_n)
    if isinstance(s, R.Keyed12):
        t = s.total_digits
        d = draw(digits(t))
        d += R.check_digit(d)
        if draw(st.integers(0, 9)) == 0:
            d = draw(digits(t + 1))
        if draw(st.integers(0, 11)) == 0:
            d = draw(digits(t + draw(st.sampled_from([0, 2]))))
        serial = draw(_es_serial(s.serial_max)) if s.serial == "gs3a3" else ""
        if s.serial == "digits":
            serial = draw(st.one_of(st.integers(0, 13).flatmap(digits), _es_serial(12)))
        if name == "itip":
            es = "(8006)%s%s%s(21)%s" % (d, draw(digits(2)), draw(digits(2)), serial)
        elif name in ("sgtin", "lgtin", "upui"):
            es = "(01)%s(%s)%s" % (d, {"sgtin": "21", "lgtin": "10", "upui": "235"}[name], serial)
        elif name == "sgln":
            es = "(414)%s(254)%s" % (d, serial)
        elif name == "grai":
            es = "(8003)%s%s%s" % (draw(st.sampled_from("00000001")), d, serial)
        else:
            es = "(%s)%s%s" % (s.ai, d, serial)
    elif name == "cpi":
        es = "(8010)%s%s(8011)%s" % (
            draw(st.integers(5, 13).flatmap(digits)),
            draw(st.one_of(cpref_text(18), cpref_text(25), st.just(""))),
            draw(loose_number(10**12)),
        )
    else:
        es = "(%s)%s%s" % (s.ai, draw(st.integers(5, 14).flatmap(digits)), draw(_es_serial(24)))
    return es, n, draw(st.sampled_from([True, True, False]))


@lru_cache(None)
def _es_serial(maxlen):
    return freq(
        (5, serial_text(maxlen)),
        (1, st.text(R.GS3A3, min_size=maxlen, max_size=maxlen + 1)),
        (1, st.text(ODD_CHARS, max_size=maxlen)),
        (1, st.just("")),
    )


OTHER_AIS = [
    "00", "01", "02", "03", "10", "11", "17", "20", "21", "22", "235", "240", "250", "251", "253", "254", "255", "30",
    "37", "400", "401", "402", "403", "410", "411", "413", "414", "415", "416", "417", "8002", "8003", "8004", "8006",
    "8010", "8011", "8012", "8013", "8017", "8018", "8019", "8020", "8026", "",
]


@st.composite
def _other_ai(draw, es):
    """The same element string with one application identifier edited."""
    found = list(re.finditer(r"\(([0-9]{2,4})\)", es))
    if not found:
        return es
    m = draw(st.sampled_from(found[:2]))
    ai = m.group(1)
    op = draw(st.integers(0, 7))
    if op < 5:  # one digit changed, most often the last
        i = draw(st.sampled_from([len(ai) - 1, len(ai) - 1, *range(len(ai))]))
        ai = ai[:i] + draw(st.sampled_from("0123456789")) + ai[i + 1 :]
    elif op == 5:
        ai = draw(st.sampled_from(OTHER_AIS))
    elif op == 6:
        i = draw(st.integers(0, len(ai)))
        ai = draw(st.sampled_from([ai[:i] + ai[i + 1 :], ai[:i] + draw(st.sampled_from("01")) + ai[i:]]))
    else:
        ai = draw(st.sampled_from([ai[::-1], ai + " ", " " + ai, ai[:-1] + chr(0xFF10 + int(ai[-1])), "[" + ai + "]"]))
    return es[: m.start(1)] + ai + es[m.end(1) :]


@st.composite
def element_string_case(draw, name):
    es, n, all_ = draw(_element_string(name))
    how = draw(st.integers(0, 11))
    if how < 3:
        es = draw(mutate(st.just(es), 2))
    elif how < 5:
        es = draw(_other_ai(es))
    return {"es": es, "n": n, "all": all_}


def uri_case(name):
    return st.fixed_dictionaries(
        {
            "s": st.just(name),
            "t": uri_text(name),
            "all": st.sampled_from([False, False, False, True]),
        }
    )


# ---- arbitrary text for the clean-refusal property ---------------------------
def _joined_names():
    return sorted(R.SCHEMES)


@st.composite
def _uri_any(draw):
    name = draw(st.sampled_from(_joined_names()))
    return draw(mutate(uri_text(name), 3))


@st.composite
def _tag_any(draw):
    name = draw(st.sampled_from(sorted(s.name for s in R.TAGGABLE)))
    return draw(mutate(_tag_text(name), 3))


@st.composite
def _es_any(draw):
    name = draw(st.sampled_from(sorted(s.name for s in R.ELEMENTS)))
    return draw(mutate(_element_string(name).map(lambda t: t[0]), 3))


@st.composite
def _pattern_any(draw):
    name = draw(st.sampled_from(_joined_names()))
    return draw(mutate(_pattern(name), 2))


BIN_JUNK = ["_", " ", "2", "0b", "+", "-", "\n", "１", "é", "0x", "_0", "b"]


@st.composite
def _memory_text(draw, form):
    name = draw(st.sampled_from(sorted(s.name for s in R.TAGGABLE)))
    raw = draw(memory(name))
    if form == "hex":
        t = R.hex_of(raw)
        t = draw(st.sampled_from([t, t.lower(), t[:-1]]))
    elif form == "base64":
        t = R.b64_of_hex(R.hex_of(raw))
        t = draw(st.sampled_from([t, t.rstrip("="), t[:-1]]))
    else:
        t = raw
    if draw(st.booleans()):
        for _ in range(draw(st.integers(1, 2))):
            i = draw(st.integers(0, len(t)))
            t = t[:i] + draw(st.sampled_from(BIN_JUNK)) + t[i + draw(st.integers(0, 1)) :]
    return t


@st.composite
def _skeleton(draw):
    """Colon and dot skeletons: the shapes that break naive indexing."""
    words = st.sampled_from(
        ["urn", "epc", "id", "tag", "idpat", "class", "", "*", "0", "1", "(01)", "%"]
        + sorted(R.SCHEMES) + sorted(R.CODINGS)
    )
    parts = draw(st.lists(words, max_size=7))
    sep = st.sampled_from([":", ":", ":", ".", ""])
    out = ""
    for p in parts:
        out += p + draw(sep)
    return out


@st.composite
def _long(draw):
    name = draw(st.sampled_from(_joined_names()))
    s = R.SCHEMES[name]
    ch = draw(st.sampled_from(["0", "1", "9", "A", "%2F", ".", "(", "a", "0.", ":"]))
    n = draw(st.sampled_from([30, 64, 129, 500, 5000]))
    uri = s.uri(draw(epc(name)))
    if draw(st.booleans()):  # one component becomes a very long run of one digit
        parts = uri[len(s.prefix) :].split(".")
        parts[draw(st.integers(0, len(parts) - 1))] = draw(st.sampled_from("901")) * n
        return s.prefix + ".".join(parts)
    i = draw(st.integers(len(s.prefix), len(uri)))
    return draw(st.sampled_from([uri[:i] + ch * n + uri[i:], s.prefix + ch * n, ch * n]))


@st.composite
def _run(draw):
    """A legal text with one component grown to a long run and, mostly, spoiled after it."""
    form = draw(st.sampled_from(["uri", "tag", "element", "pattern"]))
    if form == "tag":
        t = draw(_tag_text(draw(st.sampled_from(sorted(s.name for s in R.TAGGABLE)))))
    elif form == "element":
        t = draw(_element_string(draw(st.sampled_from(sorted(s.name for s in R.ELEMENTS)))))[0]
    elif form == "pattern":
        t = draw(_pattern(draw(st.sampled_from(_joined_names()))))
    else:
        name = draw(st.sampled_from(_joined_names()))
        t = R.SCHEMES[name].uri(draw(epc(name)))
    token = draw(st.sampled_from(["0", "9", "A", "a", "-", "/", "%2F", "%23", "%25", "*", ".*", "0.", "A1", "a%22"]))
    n = draw(st.sampled_from([12, 24, 32, 40, 64, 200, 3000]))
    spots = [i for i in range(1, len(t) + 1) if i == len(t) or t[i] in ".():"]
    i = draw(st.sampled_from(spots[-4:]))
    junk = draw(st.sampled_from(["!", "~", "%", "\n", "", ".", "%2", "\u00e9"]))
    return t[:i] + token * n + draw(st.sampled_from([junk + t[i:], t[i:] + junk]))


TEXT_KINDS = {
    "run": _run(),
    "uri": _uri_any(),
    "tag-uri": _tag_any(),
    "element-string": _es_any(),
    "pattern": _pattern_any(),
    "binary": _memory_text("binary"),
    "hex": _memory_text("hex"),
    "base64": _memory_text("base64"),
    "skeleton": _skeleton(),
    "long": _long(),
    "unicode": st.one_of(st.text(max_size=40), st.text("0123456789abcdefABCDEF", max_size=60), st.text("01", max_size=120), st.text(ODD_CHARS, max_size=60)),
    "dictionary": st.lists(st.sampled_from(sorted(set(DICT_TEXT + TOKENS + ODD_TOKENS + DICT_DIGITS))), max_size=8).map("".join),
}


def text_case(kind):
    return st.fixed_dictionaries(
        {"k": st.just(kind), "t": TEXT_KINDS[kind], "n": freq_20}
    )


freq_20 = st.one_of(cp_length, cp_length, st.integers(-3, 40))


# ---- histories ---------------------------------------------------------------
@st.composite
def history_case(draw, name):
    f = draw(st.one_of(epc(name), numeric_epc(name)))
    pool = [[name, f]]
    for _ in range(draw(st.integers(0, 3))):
        if draw(st.integers(0, 3)):
            pool.append([name, draw(variant(name, f))])
        else:
            other = draw(st.sampled_from(_joined_names()))
            pool.append([other, draw(epc(other))])
    ops = []
    for _ in range(draw(st.integers(2, 40))):
        i = draw(st.integers(0, len(pool) - 1))
        s, g = R.SCHEMES[pool[i][0]], pool[i][1]
        kinds = ["renew", "eq", "bad", "parse"]
        if s.taggable:
            kinds = ["binary", "hex", "base64", "tag_uri"] * 2 + ["decode", "decode", "junk", "cross", "headers"] + kinds
        if s.ai:
            kinds = ["es", "read"] + kinds
        if s.keyed:
            kinds = ["key", "key", "gkey"] + kinds
        k = draw(st.sampled_from(kinds))
        op = [k, i]
        if k in ("binary", "hex", "base64", "tag_uri", "decode"):
            op.append(draw(st.sampled_from(sorted(s.codings))))
            op.append(draw(st.integers(0, (1 << s.filter_bits) - 1)) if s.filter_bits else None)
            if k == "decode":
                op.append(draw(st.sampled_from(["binary", "hex", "base64", "tag_uri"])))
                op.append(draw(st.booleans()))
                op.append(draw(st.booleans()))
        elif k == "parse":
            op.append(draw(st.booleans()))
        elif k == "read":
            op.append(draw(st.sampled_from([len(g["cp"])] * 3 + [6, 7, 8, 9, 10, 11, 12])))
            op.append(draw(st.booleans()))
            op.append(draw(st.booleans()))
        elif k == "key":
            op.append(draw(st.sampled_from([None, 8, 12, 13, 14])) if s.name in ("sgtin", "lgtin") else None)
        elif k == "gkey":
            op.append(draw(st.sampled_from(["uri", "es", "pattern"] + (["hex", "tag_uri"] if s.taggable else []))))
        elif k in ("eq", "cross"):
            op.append(draw(st.integers(0, len(pool) - 1)))
        elif k == "bad":
            op.append(draw(st.one_of(
                st.sampled_from([s.prefix, s.prefix + "1", "urn:epc:id:sgtin:0614141.812345.%", "x"]),
                mutate(st.just(s.uri(g)), 1),
            )))
        elif k == "junk":
            op.append(draw(st.one_of(structured_memory(s.name), memory(s.name))))
        ops.append(op)
    return {"pool": pool, "ops": ops}
