"""All properties by id."""
from . import convert, determ, dispatch, disk, fail, isolate, props, restore

PROPS = {}
for _m in (props, restore, disk, isolate, determ, dispatch, fail, convert):
    for _k, _v in vars(_m).items():
        if isinstance(_v, type) and issubclass(_v, props.Prop) and _k[0] == 'C' and _k[1:].isdigit():
            PROPS[_k] = _v()
