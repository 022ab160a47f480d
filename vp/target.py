"""The only module that touches the code under test, always through its public API.

The package is imported from the working tree of /repo (REPO_UNDER_TEST overrides
the location for scratch copies); compiled caches are neither read nor written, so
what runs is what the source files say now.
"""

import importlib
import os
import signal
import sys
import warnings

REPO = os.environ.get("REPO_UNDER_TEST", "/repo")

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"
warnings.simplefilter("ignore")
sys.path.insert(0, REPO)

import epcpy  # noqa: E402
import epcpy.epc_schemes as _schemes  # noqa: E402
from epcpy.epc_schemes.base_scheme import (  # noqa: E402
    EPCScheme,
    GS1Element,
    GS1Keyed,
    TagEncodable,
)
from epcpy.epc_schemes.sgtin import GTIN_TYPE  # noqa: E402
from epcpy.utils.parsers import gs1_element_string_to_gs1_element  # noqa: E402

if not os.path.realpath(epcpy.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit("imported epcpy from %s, not from %s" % (epcpy.__file__, REPO))

from vp import refmodel as R  # noqa: E402
from vp.core import fail  # noqa: E402

ConvertException = epcpy.ConvertException

CLS = {name: getattr(_schemes, name.upper()) for name in R.SCHEMES}
GENERIC = {
    "epc_pure_identity_to_scheme": epcpy.epc_pure_identity_to_scheme,
    "epc_pure_identity_to_gs1_element": epcpy.epc_pure_identity_to_gs1_element,
    "epc_pure_identity_to_gs1_element_string": epcpy.epc_pure_identity_to_gs1_element_string,
    "epc_pure_identity_to_gs1_keyed": epcpy.epc_pure_identity_to_gs1_keyed,
    "epc_pure_identity_to_gs1_key": epcpy.epc_pure_identity_to_gs1_key,
    "epc_pure_identity_to_tag_encodable": epcpy.epc_pure_identity_to_tag_encodable,
    "tag_uri_to_tag_encodable": epcpy.tag_uri_to_tag_encodable,
    "binary_to_tag_encodable": epcpy.binary_to_tag_encodable,
    "hex_to_tag_encodable": epcpy.hex_to_tag_encodable,
    "base64_to_tag_encodable": epcpy.base64_to_tag_encodable,
    "gs1_element_string_to_gs1_element": gs1_element_string_to_gs1_element,
    "get_gs1_key": epcpy.get_gs1_key,
}


def _filter_enum(name):
    if R.SCHEMES[name].filter_bits == 0 or not R.SCHEMES[name].taggable:
        return None
    module = importlib.import_module(CLS[name].__module__)
    return getattr(module, name.upper() + "FilterValue")


def _member(enum, name, value):
    """Enum member by its public name, else by value, else None."""
    found = enum.__members__.get(name)
    return found if found is not None else next((m for m in enum if str(m.value) == value), None)


FILTER_ENUM = {}  # scheme -> its filter enumeration or None
FILTERS = {}  # scheme -> {number in the standard: enum member of that name}
CODING = {}  # coding name -> enum member
for _n, _s in R.SCHEMES.items():
    if _s.taggable:
        _e = _filter_enum(_n)
        FILTER_ENUM[_n] = _e
        FILTERS[_n] = {i: _member(_e, name, str(i)) for i, name in enumerate(R.filter_names(_n))}
        for _c in _s.codings:
            CODING[_c] = _member(CLS[_n].BinaryCodingScheme, _c.upper().replace("-", "_"), _c)
GTIN = {int(m): m for m in GTIN_TYPE}


class Hang(BaseException):
    """A single call used more than HANG_CPU_S seconds of processor time."""


HANG_CPU_S = 20.0
_limit = HANG_CPU_S  # shortened after the first hang, which keeps shrinking affordable


def _on_timer(signum, frame):
    raise Hang()


signal.signal(signal.SIGVTALRM, _on_timer)


class Out:
    """Outcome of one call: ok (with value), refused (ConvertException), error."""

    __slots__ = ("kind", "value")

    def __init__(self, kind, value=None):
        self.kind = kind
        self.value = value

    @property
    def ok(self):
        return self.kind == "ok"

    @property
    def refused(self):
        return self.kind == "refused"

    def show(self):
        if self.kind == "ok":
            v = self.value
            if isinstance(v, EPCScheme):
                return "%s(%r)" % (type(v).__name__, v.epc_uri)
            return repr(v)
        return self.kind if self.refused else "error %s" % self.value

    def key(self):
        """Comparable summary."""
        v = self.value
        if self.kind == "ok" and isinstance(v, EPCScheme):
            v = (type(v).__name__, v.epc_uri)
        elif self.kind != "ok":
            v = None
        return (self.kind, v)


def call(fn, *args, **kwargs):
    global _limit
    signal.setitimer(signal.ITIMER_VIRTUAL, _limit)
    try:
        return Out("ok", fn(*args, **kwargs))
    except ConvertException:
        return Out("refused")
    except Hang:
        _limit = max(0.5, _limit / 4)
        return Out("error", "no answer after seconds of CPU time")
    except Exception as e:  # anything else the code under test lets escape
        return Out("error", "%s: %s" % (type(e).__name__, str(e)[:200]))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def method(obj, name, *args, **kwargs):
    """Call a method, treating a missing one as an error of the code under test."""
    return call(lambda: getattr(obj, name)(*args, **kwargs))


def headers_of(s):
    """What the scheme says its headers are, as a plain dictionary."""
    return call(lambda: dict(CLS[s.name].header_to_schemes()))


def coding_member(coding):
    if CODING[coding] is None:
        fail("there is no coding scheme %s", coding)
    return CODING[coding]


def filter_member(scheme, flt):
    if FILTERS[scheme.name][flt] is None:
        fail("%s has no filter value %d (%s)", scheme.name, flt, R.filter_names(scheme.name)[flt])
    return FILTERS[scheme.name][flt]


def enc_kwargs(scheme, coding, flt):
    kw = {"binary_coding_scheme": coding_member(coding)}
    if scheme.filter_bits:
        kw["filter_value"] = filter_member(scheme, flt)
    return kw


def filters_of(scheme):
    """All filter values of a scheme; [None] when it has none."""
    if scheme.filter_bits == 0:
        return [None]
    return list(range(1 << scheme.filter_bits))
