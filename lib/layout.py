"""Rewrites a configuration (or image-description) file without changing what it means."""

NASTY = ["a note", "X0 5 1,9", "Y0 7", "FUNCTION Exponential", "see FUNCTION Sersic # and X0", "OPTIONAL_PARAMS_START", "OPTIONAL_PARAMS_END",
         "IMAGE_START", "FUNCTIONS_START", "fixed", "0.5,2", "3,1", "nan", "LABELS below", "", "# #", "GAIN 77", "NCOLS 3", "\ttabs\tand  blanks ",
         "=", "[1:2,3:4]", "%s%d%n", "X0", "Y0", "\u03b1\u03b2", "'quoted' \"text\"", "1e5", "-", "--fixed"]
NAMES = ["PosAngle", "myX0", "X0_offset", "Y0b", "theFUNCTION", "FUNCTIONS", "fixed", "12.5", "a,b", "I_0", "PA", "sub-X0", "X0Y0", "[x]", "par=",
         "OPTIONAL_PARAMS_STARTING", "IMAGE_STARTED", "NCOLS", "GAIN", "\u00b5", "ell", "n"]
LABELS = ["main disk", "disk at X0=5", "FUNCTION in a label", "OPTIONAL_PARAMS_START", "galaxy # 2", "IMAGE_START here", "Y0", "fixed 3,4", "two  blanks", "LABEL twice",
          "100%", "a,b;c", "\u03b2 galaxy", "FUNCTIONS_START"]


def number(r, t):
    """another way of writing the same number"""
    try:
        v = float(t)
    except ValueError:
        return t
    k = int(r.integers(8))
    if k == 0:
        s = "%.17e" % v
    elif k == 1:
        s = "%.17g" % v
    elif k == 2:
        s = ("%.17E" % v)
    elif k == 3 and v >= 0 and t[0] not in "+-":
        s = "+" + t
    elif k == 4 and v >= 0 and t[0] not in "+-":
        s = "00" + t
    elif k == 5 and "e" not in t and "." in t:
        s = t + "000"
    elif k == 6 and v == int(v) and abs(v) < 1e6:
        s = str(int(v))
    else:
        s = t
    return s if float(s) == v else t


def limits(r, t):
    p = t.split(",")
    return ",".join(number(r, q) for q in p) if len(p) == 2 else t


KEYS = ("X0", "Y0", "FUNCTION", "OPTIONAL_PARAMS_START", "OPTIONAL_PARAMS_END", "IMAGE_START", "FUNCTIONS_START")


def scramble(r, text, kind="config", names=True, rate=None):
    """kind 'config' or 'info'; returns the rewritten text"""
    rate = rate or float(r.choice([.1, .3, .7]))
    hit = lambda p=1.0: r.random() < rate * p  # noqa: E731
    ws = lambda: "".join(str(r.choice([" ", "\t", "  "])) for _ in range(int(r.integers(1, 4))))  # noqa: E731
    out = []

    def filler():
        while hit(.6):
            k = int(r.integers(3))
            if k == 0:
                out.append("" if r.random() < .5 else ws())
            else:
                out.append((ws() if r.random() < .4 else "") + "#" + (" " if r.random() < .6 else "") + str(r.choice(NASTY)))
    opt = False
    infunc = False
    for ln in text.splitlines():
        filler()
        body, _, com = ln.partition("#")
        t = body.split()
        if not t:
            out.append(ln)
            continue
        ind = ws() if hit() else ""
        if t[0] == "FUNCTION":
            infunc = True
            s = "FUNCTION" + (ws() if hit() else " ") + t[1]
            if com.strip().startswith("LABEL"):
                s += (ws() if hit() else " ") + "#" + (ws() if hit() else " ") + com.strip()
            elif hit():
                s += ws() + "# " + str(r.choice([q for q in NASTY if "LABEL" not in q]))
            out.append(ind + s + (ws() if hit() else ""))
            continue
        if t[0] == "OPTIONAL_PARAMS_START":
            opt = True
        inside = opt and t[0] not in KEYS
        if t[0] == "OPTIONAL_PARAMS_END":
            opt = False
        nm = t[0]
        if t[0] in ("IMAGE_START", "FUNCTIONS_START"):
            infunc = False
        if names and infunc and not inside and nm not in KEYS and hit():
            nm = str(r.choice(NAMES))
        rest = t[1:]
        if rest and not inside:
            if rest[0][0] in "+-.0123456789" and nm not in ("NCOLS", "NCOLUMNS", "NROWS", "NCOMBINED", "OVERSAMPLE_SCALE", "OVERSAMPLED_REGION", "NCOLS,NROWS", "NROWS,NCOLS") or infunc:
                rest = [number(r, rest[0])] + [limits(r, q) for q in rest[1:]]
        sep = lambda: ws() if hit() else " "  # noqa: E731
        s = nm
        for q in rest:
            s += sep() + q
        if hit():
            s += ws() + "#" + str(r.choice(["", " "])) + str(r.choice(NASTY))
        if hit():
            s += ws()
        out.append(ind + s)
    filler()
    return "\n".join(out) + str(r.choice(["\n", "\n", "\n\n", ""]))
