"""Registry of property modules: id -> (module, judges, units, rule)."""

from vp.props import generic, gs1, memory, relations, tags, texts

PROPS = {}
for _m in (tags, memory, gs1, texts, generic, relations):
    PROPS.update(_m.PROPS)
