"""Independent statement of the identifier-case rules the generators document
(snake -> camel, camel -> snake), as iancoleman/strcase v0.2 defines them."""


def _low(c):
    return "a" <= c <= "z"


def _cap(c):
    return "A" <= c <= "Z"


def _num(c):
    return "0" <= c <= "9"


def _camel(s, init):
    s = s.strip()
    if not s:
        return s
    if s == "ID":
        s = "id"
    out = []
    cap_next = init
    for i, c in enumerate(s):
        was_cap, was_low = _cap(c), _low(c)
        v = c
        if cap_next:
            if was_low:
                v = c.upper()
        elif i == 0 and was_cap:
            v = c.lower()
        if was_cap or was_low:
            out.append(v)
            cap_next = False
        elif _num(c):
            out.append(v)
            cap_next = True
        else:
            cap_next = c in "_ -."
    return "".join(out)


def upper_camel(s):
    return _camel(s, True)


def lower_camel(s):
    return _camel(s, False)


def snake(s):
    s = s.strip()
    out = []
    for i, c in enumerate(s):
        cap, low, num = _cap(c), _low(c), _num(c)
        v = c.lower() if cap else c
        if i + 1 < len(s):
            n = s[i + 1]
            ncap, nlow, nnum = _cap(n), _low(n), _num(n)
            if (cap and (nlow or nnum)) or (low and (ncap or nnum)) or (num and (ncap or nlow)):
                if cap and nlow and i > 0 and _cap(s[i - 1]):
                    out.append("_")
                out.append(v)
                if low or num or nnum:
                    out.append("_")
                continue
        if v in " _-.":
            out.append("_")
        else:
            out.append(v)
    return "".join(out)
