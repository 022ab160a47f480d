"""Independent reference model of the EPC representations (GS1 EPC Tag Data Standard).

Nothing here imports the code under test.  Field widths, partition splits and
character tables are derived from the standard's rules (bit widths are computed,
not copied), strings are handled character by character without regular
expressions, and every function is total: it returns a value or raises Refused.

An EPC is a dict of *decoded* fields (no URI escapes), keyed per scheme.
"""

from math import ceil, log2


class Refused(Exception):
    """The reference says this input has no meaning / no representation."""


DIGITS = "0123456789"
UPPER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOWER = UPPER.lower()
# GS1 AI encodable character set 82 (TDS Annex A)
GS1_OTHER_LITERAL = "!'()*+,-.:;=_"
GS1_ESCAPED = '"%&/<>?'
GS3A3 = DIGITS + UPPER + LOWER + GS1_OTHER_LITERAL + GS1_ESCAPED
CPREF = DIGITS + UPPER + "-#/"
ADI_CHARS = DIGITS + UPPER + "-/"
CAGE = "".join(c for c in DIGITS + UPPER if c not in "IO")

CP_LENGTHS = (6, 7, 8, 9, 10, 11, 12)


def hex2(ch):
    return "%%%02X" % ord(ch)


def esc(text, escaped):
    return "".join(hex2(c) if c in escaped else c for c in text)


def unesc(text, escaped, allowed, any_case):
    """Decode a URI component; every escape must be the URI form of an escaped char."""
    out = []
    i = 0
    while i < len(text):
        c = text[i]
        if c == "%":
            trip = text[i : i + 3]
            if any_case:
                trip = trip.upper() if trip.isascii() else trip
            for e in escaped:
                if trip == hex2(e):
                    out.append(e)
                    break
            else:
                raise Refused("bad escape %r" % trip)
            i += 3
        else:
            if c in escaped or c not in allowed:
                raise Refused("bad char %r" % c)
            out.append(c)
            i += 1
    return "".join(out)


def only(text, alphabet):
    return all(c in alphabet for c in text)


def is_digits(text):
    return text != "" and only(text, DIGITS)


def plain_number(text):
    """NumericComponent: no superfluous leading zero."""
    return is_digits(text) and (text == "0" or text[0] != "0")


def check_digit(body):
    """Standard GS1 mod-10: weights 3,1,3,1... starting at the rightmost body digit."""
    total = 0
    for pos, d in enumerate(reversed(body)):
        total += (ord(d) - 48) * (3 if pos % 2 == 0 else 1)
    return DIGITS[-total % 10]


def bits(value, width):
    if value < 0 or value >= 1 << width:
        raise Refused("%d does not fit %d bits" % (value, width))
    return bin(value)[2:].rjust(width, "0")


def prefix_bits(length):
    """Bits needed for `length` decimal digits (TDS partition tables, column M)."""
    return ceil(length * log2(10))


def seven_bit(text, width):
    out = "".join(bits(ord(c), 7) for c in text)
    if len(out) > width:
        raise Refused("too long")
    return out.ljust(width, "0")


def un_seven_bit(raw):
    """Characters up to the first all-zero group; everything after must be zero."""
    out = []
    usable = len(raw) - len(raw) % 7
    ended = False
    for i in range(0, usable, 7):
        v = int(raw[i : i + 7], 2)
        if v == 0:
            ended = True
        elif ended:
            raise Refused("character after end of string")
        else:
            if chr(v) not in GS3A3:
                raise Refused("not a GS1 character")
            out.append(chr(v))
    return "".join(out)


def six_bit(text):
    return "".join(bits(ord(c) % 64, 6) for c in text)


def un_six_bit_char(v):
    return chr(v) if v >= 32 else chr(v + 64)


def read_terminated_six_bit(raw, pos):
    """Return (text, position after the 000000 terminator)."""
    out = []
    while True:
        if pos + 6 > len(raw):
            raise Refused("missing terminator")
        v = int(raw[pos : pos + 6], 2)
        pos += 6
        if v == 0:
            return "".join(out), pos
        out.append(un_six_bit_char(v))


class Scheme:
    """name, uri kind, and the reference behaviour of one EPC scheme."""

    name = ""
    kind = "id"
    ai = None  # GS1 element string schemes
    keyed = False
    codings = {}  # coding name -> (header byte, total bits or None)
    filter_bits = 3
    fields = ()

    # ---- pure identity -------------------------------------------------
    @property
    def prefix(self):
        return "urn:epc:%s:%s:" % (self.kind, self.name)

    def parse(self, uri):
        if not uri.startswith(self.prefix):
            raise Refused("prefix")
        return self.parse_body(uri[len(self.prefix) :])

    def uri(self, f):
        return self.prefix + self.body(f)

    def valid_uri(self, uri):
        try:
            self.parse(uri)
            return True
        except Refused:
            return False

    def canonical(self, uri):
        return self.uri(self.parse(uri))

    # ---- tags ----------------------------------------------------------
    @property
    def taggable(self):
        return bool(self.codings)

    def tag_uri(self, coding, flt, f):
        self.encode(coding, flt, f)
        dot = "" if self.filter_bits == 0 else "%d." % flt
        return "urn:epc:tag:%s:%s%s" % (coding, dot, self.body(f))

    def encode(self, coding, flt, f):
        header, size = self.codings[coding]
        out = bits(header, 8)
        if self.filter_bits:
            out += bits(flt, self.filter_bits)
        out += self.encode_fields(coding, f)
        if size is not None and len(out) != size:
            raise AssertionError("reference encoder wrong size")
        return out

    def representable(self, coding, f):
        try:
            self.encode(coding, 0, f)
            return True
        except Refused:
            return False

    def decode(self, raw):
        """raw: string over {0,1}. -> (coding, filter or None, fields)"""
        coding = None
        for name, (header, size) in self.codings.items():
            if raw[:8] == bits(header, 8):
                coding = name
                break
        else:
            raise Refused("header")
        if size is not None:
            if len(raw) < size:
                raise Refused("short")
            raw = raw[:size]
        pos = 8 + self.filter_bits
        if len(raw) < pos:
            raise Refused("short")
        flt = int(raw[8:pos], 2) if self.filter_bits else None
        f = self.decode_fields(coding, raw[pos:])
        self.validate(f)
        return coding, flt, f

    def significant(self, coding, f):
        """Bit positions that carry information for this EPC in this coding
        (the rest is reserved or padding), as (start, end) half-open ranges."""
        size = len(self.encode(coding, 0, f))
        return [(0, size)]

    # ---- hooks ---------------------------------------------------------
    def parse_body(self, body):
        raise NotImplementedError

    def body(self, f):
        raise NotImplementedError

    def validate(self, f):
        if self.parse_body(self.body(f)) != f:
            raise Refused("fields do not form a valid EPC")

    def encode_fields(self, coding, f):
        raise NotImplementedError

    def decode_fields(self, coding, raw):
        raise NotImplementedError

    def element_string(self, f):
        raise NotImplementedError

    def key(self, f):
        raise NotImplementedError


def split_partition(raw, total, k_total, padded=True):
    """Read a partition-table block. -> (cp, ref digits or raw ref bits)"""
    p = int(raw[:3], 2)
    if p > 6:
        raise Refused("partition")
    length = 12 - p
    m = prefix_bits(length)
    cp = int(raw[3 : 3 + m], 2)
    if cp >= 10**length:
        raise Refused("company prefix")
    rest = raw[3 + m : 3 + total]
    return str(cp).rjust(length, "0"), rest


class Keyed12(Scheme):
    """cp.ref[.serial] where len(cp)+len(ref) is fixed."""

    total_digits = 0
    part_bits = 0  # company prefix + reference bits
    ref_may_be_empty = False
    serial = None  # None | 'gs3a3' | 'digits'
    serial_max = 0
    serial_bits = {}  # coding -> ('int'|'str'|'numstr', width)
    indicator = False
    tail_zero = 0

    @property
    def fields(self):
        return ("cp", "ref") + (("serial",) if self.serial else ())

    def parse_body(self, body):
        n = 3 if self.serial else 2
        parts = body.split(".", n - 1)
        if len(parts) != n:
            raise Refused("components")
        cp, ref = parts[0], parts[1]
        if not is_digits(cp) or len(cp) not in CP_LENGTHS:
            raise Refused("company prefix")
        if not only(ref, DIGITS) or len(cp) + len(ref) != self.total_digits:
            raise Refused("reference")
        f = {"cp": cp, "ref": ref}
        if self.serial == "gs3a3":
            s = unesc(parts[2], GS1_ESCAPED, GS3A3, any_case=True)
            if not 1 <= len(s) <= self.serial_max:
                raise Refused("serial length")
            f["serial"] = s
        elif self.serial == "digits":
            if not is_digits(parts[2]) or len(parts[2]) > self.serial_max:
                raise Refused("serial")
            f["serial"] = parts[2]
        return f

    def body(self, f):
        out = "%s.%s" % (f["cp"], f["ref"])
        if self.serial:
            out += "." + esc(f["serial"], GS1_ESCAPED)
        return out

    # GS1 -----------------------------------------------------------------
    def digits13(self, f):
        if self.indicator:
            body = f["ref"][0] + f["cp"] + f["ref"][1:]
        else:
            body = f["cp"] + f["ref"]
        return body + check_digit(body)

    # tags ----------------------------------------------------------------
    def encode_fields(self, coding, f):
        length = len(f["cp"])
        m = prefix_bits(length)
        n = self.part_bits - m
        out = bits(12 - length, 3) + bits(int(f["cp"]), m)
        out += bits(int(f["ref"] or "0"), n)
        out += self.encode_middle(f)
        if self.serial:
            how, width = self.serial_bits[coding]
            s = f["serial"]
            if how == "int":
                if not plain_number(s):
                    raise Refused("serial not a plain number")
                out += bits(int(s), width)
            elif how == "str":
                out += seven_bit(s, width)
            else:
                out += bits(int("1" + s), width)
        return out + "0" * self.tail_zero

    def encode_middle(self, f):
        return ""

    def decode_middle(self, raw, f):
        return raw

    def decode_fields(self, coding, raw):
        cp, ref_raw = split_partition(raw, self.part_bits, self.total_digits)
        k = self.total_digits - len(cp)
        f = {"cp": cp}
        if k == 0:
            f["ref"] = ""
        else:
            v = int(ref_raw, 2)
            if v >= 10**k:
                raise Refused("reference")
            f["ref"] = str(v).rjust(k, "0")
        raw = self.decode_middle(raw[3 + self.part_bits :], f)
        if self.serial:
            how, width = self.serial_bits[coding]
            s = raw[:width]
            if how == "int":
                f["serial"] = str(int(s, 2))
            elif how == "str":
                f["serial"] = un_seven_bit(s)
            else:
                t = str(int(s, 2))
                if len(t) < 2 or t[0] != "1":
                    raise Refused("numeric string")
                f["serial"] = t[1:]
        return f

    def significant(self, coding, f):
        size = self.codings[coding][1] - self.tail_zero
        if self.total_digits == len(f["cp"]):
            head = 8 + self.filter_bits + 3 + prefix_bits(len(f["cp"]))
            start = 8 + self.filter_bits + 3 + self.part_bits
            return [(0, head), (start, size)]
        return [(0, size)]


class SGTIN(Keyed12):
    name, ai, keyed = "sgtin", "01", True
    total_digits, part_bits, indicator = 13, 44, True
    serial, serial_max = "gs3a3", 20
    codings = {"sgtin-96": (0x30, 96), "sgtin-198": (0x36, 198)}
    serial_bits = {"sgtin-96": ("int", 38), "sgtin-198": ("str", 140)}

    def key(self, f):
        return self.digits13(f)

    def element_string(self, f):
        return "(01)%s(21)%s" % (self.digits13(f), f["serial"])


class LGTIN(Keyed12):
    name, ai, keyed, kind = "lgtin", "01", True, "class"
    total_digits, indicator = 13, True
    serial, serial_max = "gs3a3", 20

    def key(self, f):
        return self.digits13(f)

    def element_string(self, f):
        return "(01)%s(10)%s" % (self.digits13(f), f["serial"])


class UPUI(Keyed12):
    name, ai = "upui", "01"
    total_digits, indicator = 13, True
    serial, serial_max = "gs3a3", 28

    def element_string(self, f):
        return "(01)%s(235)%s" % (self.digits13(f), f["serial"])


class ITIP(Keyed12):
    name, ai = "itip", "8006"
    total_digits, part_bits, indicator = 13, 44, True
    serial, serial_max = "gs3a3", 20
    codings = {"itip-110": (0x40, 110), "itip-212": (0x41, 212)}
    serial_bits = {"itip-110": ("int", 38), "itip-212": ("str", 140)}

    @property
    def fields(self):
        return ("cp", "ref", "piece", "total", "serial")

    def parse_body(self, body):
        parts = body.split(".", 4)
        if len(parts) != 5:
            raise Refused("components")
        for p in parts[2:4]:
            if not is_digits(p) or len(p) != 2:
                raise Refused("piece/total")
        f = Keyed12.parse_body(self, ".".join(parts[:2] + parts[4:]))
        f["piece"], f["total"] = parts[2], parts[3]
        return f

    def body(self, f):
        return ".".join(
            [f["cp"], f["ref"], f["piece"], f["total"], esc(f["serial"], GS1_ESCAPED)]
        )

    def encode_middle(self, f):
        return bits(int(f["piece"]), 7) + bits(int(f["total"]), 7)

    def decode_middle(self, raw, f):
        for i, k in enumerate(("piece", "total")):
            v = int(raw[7 * i : 7 * i + 7], 2)
            if v > 99:
                raise Refused(k)
            f[k] = str(v).rjust(2, "0")
        return raw[14:]

    def element_string(self, f):
        return "(8006)%s%s%s(21)%s" % (
            self.digits13(f),
            f["piece"],
            f["total"],
            f["serial"],
        )


class SSCC(Keyed12):
    name, ai, keyed = "sscc", "00", True
    total_digits, part_bits, indicator = 17, 58, True
    codings = {"sscc-96": (0x31, 96)}
    tail_zero = 24

    def key(self, f):
        return self.digits13(f)

    def element_string(self, f):
        return "(00)" + self.digits13(f)


class GSRN(Keyed12):
    name, ai, keyed = "gsrn", "8018", True
    total_digits, part_bits = 17, 58
    codings = {"gsrn-96": (0x2D, 96)}
    tail_zero = 24

    def key(self, f):
        return self.digits13(f)

    def element_string(self, f):
        return "(%s)%s" % (self.ai, self.digits13(f))


class GSRNP(GSRN):
    name, ai = "gsrnp", "8017"
    codings = {"gsrnp-96": (0x2E, 96)}


class GSIN(Keyed12):
    name, ai, keyed = "gsin", "402", True
    total_digits = 16

    def key(self, f):
        return self.digits13(f)

    def element_string(self, f):
        return "(402)" + self.digits13(f)


class PGLN(Keyed12):
    name, ai, keyed = "pgln", "417", True
    total_digits, ref_may_be_empty = 12, True

    def key(self, f):
        return self.digits13(f)

    def element_string(self, f):
        return "(417)" + self.digits13(f)


class SGLN(Keyed12):
    name, ai, keyed = "sgln", "414", True
    total_digits, part_bits, ref_may_be_empty = 12, 41, True
    serial, serial_max = "gs3a3", 20
    codings = {"sgln-96": (0x32, 96), "sgln-195": (0x39, 195)}
    serial_bits = {"sgln-96": ("int", 41), "sgln-195": ("str", 140)}

    def key(self, f):
        return self.digits13(f)

    def element_string(self, f):
        return "(414)%s(254)%s" % (self.digits13(f), f["serial"])


class GRAI(Keyed12):
    name, ai, keyed = "grai", "8003", True
    total_digits, part_bits, ref_may_be_empty = 12, 44, True
    serial, serial_max = "gs3a3", 16
    codings = {"grai-96": (0x33, 96), "grai-170": (0x37, 170)}
    serial_bits = {"grai-96": ("int", 38), "grai-170": ("str", 112)}

    def key(self, f):
        return self.digits13(f) + f["serial"]

    def element_string(self, f):
        return "(8003)0" + self.key(f)


class GDTI(Keyed12):
    name, ai, keyed = "gdti", "253", True
    total_digits, part_bits, ref_may_be_empty = 12, 41, True
    serial, serial_max = "gs3a3", 17
    codings = {"gdti-96": (0x2C, 96), "gdti-174": (0x3E, 174)}
    serial_bits = {"gdti-96": ("int", 41), "gdti-174": ("str", 119)}

    def key(self, f):
        return self.digits13(f) + f["serial"]

    def element_string(self, f):
        return "(253)" + self.key(f)


class SGCN(Keyed12):
    name, ai, keyed = "sgcn", "255", True
    total_digits, part_bits, ref_may_be_empty = 12, 41, True
    serial, serial_max = "digits", 12
    codings = {"sgcn-96": (0x3F, 96)}
    serial_bits = {"sgcn-96": ("numstr", 41)}

    def key(self, f):
        return self.digits13(f) + f["serial"]

    def element_string(self, f):
        return "(255)" + self.key(f)


class GIAI(Scheme):
    name, ai, keyed = "giai", "8004", True
    fields = ("cp", "serial")
    codings = {"giai-96": (0x34, 96), "giai-202": (0x38, 202)}

    def parse_body(self, body):
        parts = body.split(".", 1)
        if len(parts) != 2:
            raise Refused("components")
        cp = parts[0]
        if not is_digits(cp) or len(cp) not in CP_LENGTHS:
            raise Refused("company prefix")
        s = unesc(parts[1], GS1_ESCAPED, GS3A3, any_case=True)
        if not s or len(cp) + len(s) > 30:
            raise Refused("length")
        return {"cp": cp, "serial": s}

    def body(self, f):
        return f["cp"] + "." + esc(f["serial"], GS1_ESCAPED)

    def key(self, f):
        return f["cp"] + f["serial"]

    def element_string(self, f):
        return "(%s)%s" % (self.ai, self.key(f))

    def encode_fields(self, coding, f):
        length = len(f["cp"])
        m = prefix_bits(length)
        out = bits(12 - length, 3) + bits(int(f["cp"]), m)
        if coding == "giai-96":
            if not plain_number(f["serial"]):
                raise Refused("serial not a plain number")
            return out + bits(int(f["serial"]), 82 - m)
        return out + seven_bit(f["serial"], 188 - m)

    def decode_fields(self, coding, raw):
        total = 82 if coding == "giai-96" else 188
        cp, rest = split_partition(raw, total, 0)
        if coding == "giai-96":
            return {"cp": cp, "serial": str(int(rest, 2))}
        return {"cp": cp, "serial": un_seven_bit(rest)}

    def significant(self, coding, f):
        if coding == "giai-96":
            return [(0, 96)]
        n = 188 - prefix_bits(len(f["cp"]))
        return [(0, 202 - n % 7)]


class GINC(GIAI):
    name, ai = "ginc", "401"
    codings = {}


class CPI(Scheme):
    name, ai = "cpi", "8010"
    fields = ("cp", "ref", "serial")
    codings = {"cpi-96": (0x3C, 96), "cpi-var": (0x3D, None)}

    def parse_body(self, body):
        parts = body.split(".")
        if len(parts) != 3:
            raise Refused("components")
        cp = parts[0]
        if not is_digits(cp) or len(cp) not in CP_LENGTHS:
            raise Refused("company prefix")
        ref = unesc(parts[1], "#/", CPREF, any_case=False)
        if not ref or len(cp) + len(ref) > 30:
            raise Refused("reference")
        if not plain_number(parts[2]) or len(parts[2]) > 12:
            raise Refused("serial")
        return {"cp": cp, "ref": ref, "serial": parts[2]}

    def body(self, f):
        return ".".join([f["cp"], esc(f["ref"], "#/"), f["serial"]])

    def element_string(self, f):
        return "(8010)%s%s(8011)%s" % (f["cp"], f["ref"], f["serial"])

    def encode_fields(self, coding, f):
        length = len(f["cp"])
        m = prefix_bits(length)
        out = bits(12 - length, 3) + bits(int(f["cp"]), m)
        if coding == "cpi-96":
            if not plain_number(f["ref"]) or len(f["ref"]) > 15 - length:
                raise Refused("part reference")
            return out + bits(int(f["ref"]), 51 - m) + bits(int(f["serial"]), 31)
        return out + six_bit(f["ref"]) + "000000" + bits(int(f["serial"]), 40)

    def decode_fields(self, coding, raw):
        if coding == "cpi-96":
            cp, rest = split_partition(raw, 51, 0)
            v = int(rest, 2)
            if v >= 10 ** (15 - len(cp)):
                raise Refused("part reference")
            return {"cp": cp, "ref": str(v), "serial": str(int(raw[54:85], 2))}
        if len(raw) < 3 or raw[:3] == "111":
            raise Refused("partition")
        m = prefix_bits(12 - int(raw[:3], 2))
        if len(raw) < 3 + m:
            raise Refused("short")
        cp, _ = split_partition(raw, len(raw) - 3, 0)
        ref, pos = read_terminated_six_bit(raw, 3 + m)
        if not only(ref, CPREF):
            raise Refused("part reference")
        if len(raw) < pos + 40:
            raise Refused("short")
        return {"cp": cp, "ref": ref, "serial": str(int(raw[pos : pos + 40], 2))}


class GID(Scheme):
    name = "gid"
    fields = ("manager", "klass", "serial")
    codings = {"gid-96": (0x35, 96)}
    filter_bits = 0
    widths = (28, 24, 36)

    def parse_body(self, body):
        parts = body.split(".")
        if len(parts) != 3:
            raise Refused("components")
        for p, w in zip(parts, self.widths):
            if not plain_number(p) or len(p) > 12 or int(p) >= 1 << w:
                raise Refused("number")
        return dict(zip(self.fields, parts))

    def body(self, f):
        return ".".join(f[k] for k in self.fields)

    def encode_fields(self, coding, f):
        return "".join(bits(int(f[k]), w) for k, w in zip(self.fields, self.widths))

    def decode_fields(self, coding, raw):
        return {
            "manager": str(int(raw[:28], 2)),
            "klass": str(int(raw[28:52], 2)),
            "serial": str(int(raw[52:88], 2)),
        }


class USDOD(Scheme):
    name = "usdod"
    fields = ("cage", "serial")
    codings = {"usdod-96": (0x2F, 96)}
    filter_bits = 4

    def parse_body(self, body):
        parts = body.split(".")
        if len(parts) != 2:
            raise Refused("components")
        if len(parts[0]) not in (5, 6) or not only(parts[0], CAGE):
            raise Refused("cage")
        if not plain_number(parts[1]) or len(parts[1]) > 12:
            raise Refused("serial")
        if int(parts[1]) >= 1 << 36:
            raise Refused("serial")
        return {"cage": parts[0], "serial": parts[1]}

    def body(self, f):
        return f["cage"] + "." + f["serial"]

    def encode_fields(self, coding, f):
        cage = f["cage"].rjust(6, " ")
        return "".join(bits(ord(c), 8) for c in cage) + bits(int(f["serial"]), 36)

    def decode_fields(self, coding, raw):
        cage = "".join(chr(int(raw[i : i + 8], 2)) for i in range(0, 48, 8))
        if cage[0] == " ":
            cage = cage[1:]
        return {"cage": cage, "serial": str(int(raw[48:84], 2))}


class ADI(Scheme):
    name = "adi"
    fields = ("cage", "part", "serial")
    codings = {"adi-var": (0x3B, None)}
    filter_bits = 6

    def parse_body(self, body):
        parts = body.split(".")
        if len(parts) != 3:
            raise Refused("components")
        if len(parts[0]) not in (5, 6) or not only(parts[0], CAGE):
            raise Refused("cage")
        part = unesc(parts[1], "/", ADI_CHARS, any_case=False)
        if len(part) > 32:
            raise Refused("part")
        rest = parts[2]
        hash_ = ""
        if rest.startswith("%23"):
            hash_, rest = "#", rest[3:]
        serial = unesc(rest, "/", ADI_CHARS, any_case=False)
        if not serial or len(hash_ + serial) > 30:
            raise Refused("serial")
        return {"cage": parts[0], "part": part, "serial": hash_ + serial}

    def body(self, f):
        return ".".join([f["cage"], esc(f["part"], "#/"), esc(f["serial"], "#/")])

    def encode_fields(self, coding, f):
        return (
            six_bit(f["cage"].rjust(6, " "))
            + six_bit(f["part"])
            + "000000"
            + six_bit(f["serial"])
            + "000000"
        )

    def decode_fields(self, coding, raw):
        if len(raw) < 36:
            raise Refused("short")
        cage = "".join(
            un_six_bit_char(int(raw[i : i + 6], 2)) for i in range(0, 36, 6)
        )
        if cage[0] == " ":
            cage = cage[1:]
        part, pos = read_terminated_six_bit(raw, 36)
        serial, pos = read_terminated_six_bit(raw, pos)
        if not only(part, ADI_CHARS) or not only(serial, ADI_CHARS + "#"):
            raise Refused("characters")
        return {"cage": cage, "part": part, "serial": serial}


class BIC(Scheme):
    name = "bic"
    fields = ("code",)

    def parse_body(self, body):
        letters = "".join(c for c in UPPER if c not in "IO")
        if (
            len(body) != 11
            or not only(body[:3], letters)
            or body[3] not in "JUZ"
            or not is_digits(body[4:])
        ):
            raise Refused("bic")
        return {"code": body}

    def body(self, f):
        return f["code"]


class IMOVN(Scheme):
    name = "imovn"
    fields = ("number",)

    def parse_body(self, body):
        if len(body) != 7 or not is_digits(body):
            raise Refused("imovn")
        return {"number": body}

    def body(self, f):
        return f["number"]


SCHEMES = {
    s.name: s
    for s in (
        ADI(), BIC(), CPI(), GDTI(), GIAI(), GID(), GINC(), GRAI(), GSIN(), GSRN(),
        GSRNP(), IMOVN(), ITIP(), LGTIN(), PGLN(), SGCN(), SGLN(), SGTIN(), SSCC(),
        UPUI(), USDOD(),
    )
}
TAGGABLE = [s for s in SCHEMES.values() if s.taggable]
ELEMENTS = [s for s in SCHEMES.values() if s.ai]
KEYED = [s for s in SCHEMES.values() if s.keyed]
CODINGS = {c: s for s in TAGGABLE for c in s.codings}
HEADERS = {bits(h, 8): (s, c) for s in TAGGABLE for c, (h, _) in s.codings.items()}


def key_of(scheme, f, gtin_len=None):
    k = scheme.key(f)
    if gtin_len is not None and gtin_len != 14:
        if set(k[: 14 - gtin_len]) - {"0"}:
            raise Refused("not a GTIN-%d" % gtin_len)
        return k[14 - gtin_len :]
    return k


def parse_any_uri(uri):
    for s in SCHEMES.values():
        if uri.startswith(s.prefix):
            return s, s.parse(uri)
    raise Refused("no scheme")


def decode_any(raw):
    hit = HEADERS.get(raw[:8])
    if hit is None:
        raise Refused("header")
    s = hit[0]
    coding, flt, f = s.decode(raw)
    return s, coding, flt, f


def hex_of(raw):
    """Hexadecimal view: zero-padded on the right to a whole number of 16-bit words."""
    padded = raw + "0" * (-len(raw) % 16)
    return "".join("%X" % int(padded[i : i + 4], 2) for i in range(0, len(padded), 4))


def hex_digits(raw):
    """Whole nibbles of bits as upper-case hexadecimal."""
    return "".join("%X" % int(raw[i : i + 4], 2) for i in range(0, len(raw), 4))


def bits_of_hex(h):
    return "".join(bits(int(c, 16), 4) for c in h)


B64 = UPPER + LOWER + DIGITS + "+/"


def b64_of_hex(h):
    raw = bits_of_hex(h)
    nbytes = len(raw) // 8
    raw += "0" * (-len(raw) % 6)
    out = "".join(B64[int(raw[i : i + 6], 2)] for i in range(0, len(raw), 6))
    return out + "=" * (-nbytes % 3)


# ---- GS1 element strings -> EPC ------------------------------------------
def parse_element_string(es, cplen):
    """-> (scheme, fields, check digit ok). Refused if no scheme/split fits."""
    for s in ELEMENTS:
        r = _parse_es(s, es, cplen)
        if r is not None:
            f, ok = r
            s.validate(f)
            return s, f, ok
    raise Refused("unknown element string")


def _indicator_split(d, n):
    body = d[: n - 1]
    return body


def _parse_es(s, es, cplen):
    """None when the AI layout is not this scheme's, Refused when content is bad."""
    head = "(%s)" % s.ai
    if not es.startswith(head):
        return None
    rest = es[len(head) :]

    def take(n):
        nonlocal rest
        part, rest = rest[:n], rest[n:]
        if len(part) != n or not is_digits(part):
            raise Refused("digits")
        return part

    def ai(text):
        nonlocal rest
        if not rest.startswith(text):
            return False
        rest = rest[len(text) :]
        return True

    if cplen not in CP_LENGTHS:
        raise Refused("company prefix length")
    if s.name in ("sgtin", "lgtin", "upui"):
        d = take(14)
        if not ai({"sgtin": "(21)", "lgtin": "(10)", "upui": "(235)"}[s.name]):
            return None
        f = {"cp": d[1 : 1 + cplen], "ref": d[0] + d[1 + cplen : 13], "serial": rest}
        return f, check_digit(d[:13]) == d[13]
    if s.name == "itip":
        d, piece, total = take(14), take(2), take(2)
        if not ai("(21)"):
            raise Refused("serial")
        f = {
            "cp": d[1 : 1 + cplen],
            "ref": d[0] + d[1 + cplen : 13],
            "piece": piece,
            "total": total,
            "serial": rest,
        }
        return f, check_digit(d[:13]) == d[13]
    if s.name == "sscc":
        d = take(18)
        if rest:
            raise Refused("tail")
        f = {"cp": d[1 : 1 + cplen], "ref": d[0] + d[1 + cplen : 17]}
        return f, check_digit(d[:17]) == d[17]
    if s.name in ("gsrn", "gsrnp", "gsin", "pgln"):
        n = s.total_digits
        d = take(n + 1)
        if rest:
            raise Refused("tail")
        return {"cp": d[:cplen], "ref": d[cplen:n]}, check_digit(d[:n]) == d[n]
    if s.name in ("sgln", "grai", "gdti", "sgcn"):
        if s.name == "grai" and not ai("0"):
            raise Refused("filler")
        d = take(13)
        if s.name == "sgln" and not ai("(254)"):
            raise Refused("extension")
        f = {"cp": d[:cplen], "ref": d[cplen:12], "serial": rest}
        return f, check_digit(d[:12]) == d[12]
    if s.name in ("giai", "ginc"):
        cp = take(cplen)
        return {"cp": cp, "serial": rest}, True
    if s.name == "cpi":
        cp = take(cplen)
        i = rest.find("(8011)")
        if i < 0:
            raise Refused("serial")
        return {"cp": cp, "ref": rest[:i], "serial": rest[i + 6 :]}, True
    raise AssertionError(s.name)


# ---- id patterns ----------------------------------------------------------
def idpat_key(uri, gtin_len=None):
    """Key named by an id-pattern URI, or Refused when it does not name one.

    A pattern is the pure identity with '*' for a trailing run of components.
    '*' is itself a GS1 character, so a wildcard alphanumeric serial is carried
    into keys that contain the serial, and dropped from those that do not.
    """
    if not uri.startswith("urn:epc:idpat:"):
        raise Refused("not a pattern")
    s, f = parse_any_uri("urn:epc:id:" + uri[len("urn:epc:idpat:") :])
    if not s.keyed:
        raise Refused("no key")
    return key_of(s, f, gtin_len)


# ---- filter value tables (Tag Data Standard 10.2 and the scheme sections) ------
_FILTER_NAMES = {
    "sgtin": {1: "POS_ITEM", 2: "FULL_CASE", 4: "INNER_PACK", 6: "UNIT_LOAD", 7: "COMPONENT"},
    "sscc": {2: "FULL_CASE", 6: "UNIT_LOAD"},
    "gdti": {1: "TRAVEL_DOCUMENT"},
    "giai": {1: "RAIL_VEHICLE"},
    "usdod": {0: "PALLET", 1: "CASE", 2: "UNIT_PACK"},
    "adi": {
        1: "ITEM_OTHER", 2: "CARTON", 6: "PALLET", 8: "SEAT_CUSHIONS", 9: "SEAT_COVERS",
        10: "SEAT_BELTS", 11: "GALLEY", 12: "UNIT_LOAD_DEVICES", 13: "AIRCRAFT_SECURITY_ITEMS",
        14: "LIFE_VESTS", 15: "OXYGEN_GENERATOR", 16: "ENGINE_COMPONENTS", 17: "AVIONICS",
        18: "EXPERIMENTAL_EQUIPMENT", 19: "OTHER_EMERGENCY_EQUIPMENT", 20: "OTHER_ROTABLES",
        21: "OTHER_REPAIRABLE", 22: "OTHER_CABIN_INTERIOR", 23: "OTHER_REPAIR",
        24: "PASSENGER_SEATS", 25: "IFE_SYSTEMS", 56: "LOCATION_IDENTIFIER",
        57: "DOCUMENTATION", 58: "TOOLS", 59: "GROUND_SUPPORT_EQUIPMENT",
        60: "OTHER_NON_FLYABLE_EQUIPMENT",
    },
}


def filter_names(scheme_name):
    """The library's name of each filter number of a scheme, in order."""
    if SCHEMES[scheme_name].filter_bits == 0:
        return []
    named = {0: "ALL_OTHERS", **_FILTER_NAMES.get(scheme_name, {})}
    return [named.get(i, "RESERVED_%d" % i) for i in range(1 << SCHEMES[scheme_name].filter_bits)]
