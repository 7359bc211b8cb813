"""All properties by id."""

from . import props_front, props_layout, props_reject, props_run, props_values

ALL = {}
for _module in (props_layout, props_values, props_front, props_reject, props_run):
    for _value in list(vars(_module).values()):
        if type(_value).__name__ == "Property":
            ALL[_value.id] = _value
