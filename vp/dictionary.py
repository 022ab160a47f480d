"""Literals found in the code under test, used only to bias generation.

A change that reacts to one magic number or string usually spells it in the
source; drawing some values from these literals makes such a change reachable.
The dictionary never decides a verdict.
"""

import ast
import os

from vp import refmodel as R


def _literals(root):
    ints, strs = set(), set()
    for base, dirs, files in os.walk(os.path.join(root, "epcpy")):
        dirs.sort()
        for name in sorted(files):
            if not name.endswith(".py"):
                continue
            try:
                with open(os.path.join(base, name), encoding="utf-8") as fh:
                    tree = ast.parse(fh.read())
            except SyntaxError:
                continue
            docs = set()
            for node in ast.walk(tree):
                body = getattr(node, "body", None)
                if isinstance(body, list) and body and isinstance(body[0], ast.Expr):
                    docs.add(id(body[0].value))
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant) and id(node) not in docs:
                    if type(node.value) is int and 1 < node.value < 10**40:
                        ints.add(node.value)
                    elif type(node.value) is str and 0 < len(node.value) <= 40:
                        strs.add(node.value)
    return ints, strs


def _headers():
    return set(R.HEADERS)


def build(root):
    ints, strs = _literals(root)
    digits = {str(i) for i in ints}
    digits |= {s for s in strs if R.is_digits(s)} - _headers()
    texts = {s for s in strs if R.only(s, R.GS3A3)} - _headers()
    return sorted(digits), sorted(texts), sorted(ints)
