"""Driving the programs: subprocess wrapper with sanitizer detection, minimal FITS reader and
writer (independent of the library the programs use), parsing of reports."""
import os
import re
import signal
import subprocess

import numpy as np


class ProgramFailure(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


class R:
    __slots__ = ("rc", "out", "err", "timeout", "cmd")

    @property
    def text(self):
        return self.out + self.err

    def sanitizer(self):
        """A report by ASan/UBSan/TSan or a fatal signal, else None."""
        t = self.err + self.out
        m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n]*"
                      r"|ERROR: ThreadSanitizer: [^\n]*|Assertion '[^\n]*' failed|\*\*\* [^\n]*(?:overflow|smashing|corrupt|free\(\))[^\n]*)", t)
        if m:
            where = ""
            fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", t[m.start():m.start() + 6000])
            fr = [f for f in fr if "/repo/" in f or "core/" in f or "cpp:" in f][:4]
            loc = re.search(r"([\w./-]+\.(?:cpp|h|c):\d+:\d+: runtime error)", t)
            if loc:
                where = loc.group(1)
            return m.group(1) + " | " + where + " " + " <- ".join(f[:120] for f in fr)
        if self.rc is not None and self.rc < 0:
            return "killed by signal %s" % signal.Signals(-self.rc).name
        if self.rc is not None and self.rc in (134, 139, 136):
            return "died with status %d" % self.rc
        if "terminate called" in t:
            return "uncaught exception: " + t[t.find("terminate called"):][:200]
        return None


BASEENV = {"PATH": "/usr/bin:/bin", "HOME": "/tmp", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
           "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"
                           ":strict_string_checks=0:max_allocation_size_mb=4096",
           "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
           "OMP_WAIT_POLICY": "passive"}


def run(exe, args, cwd, timeout=90, env=None, stdin=None, threads=1, binary=False):
    e = dict(BASEENV)
    if threads:
        e["OMP_THREAD_LIMIT"] = str(threads)
    if env:
        e.update(env)
    r = R()
    r.cmd = [exe] + [str(a) for a in args]
    r.timeout = False
    try:
        p = subprocess.run(r.cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
        r.rc = p.returncode
        r.out = p.stdout.decode("latin-1")
        r.err = p.stderr.decode("latin-1")
    except subprocess.TimeoutExpired as ex:
        r.rc = None
        r.timeout = True
        r.out = (ex.stdout or b"").decode("latin-1")
        r.err = (ex.stderr or b"").decode("latin-1")
    return r


def must(exe, args, cwd, timeout=90, env=None, threads=1, ok=(0,)):
    """Run a valid workload: anything but a normal successful end is a failure of the property."""
    r = run(exe, args, cwd, timeout, env, threads=threads)
    if r.timeout:
        r = run(exe, args, cwd, timeout * 2, env, threads=threads)
        if r.timeout:
            raise ProgramFailure("hang", "no end after %ds (twice): %s" % (timeout, " ".join(r.cmd)))
    s = r.sanitizer()
    name = os.path.basename(exe)
    if s:
        raise ProgramFailure("crash:" + name, "%s: %s" % (" ".join(r.cmd), s))
    if r.rc not in ok:
        raise ProgramFailure("status:" + name, "%s: exit status %s: %s" % (
            " ".join(r.cmd), r.rc, (r.err + r.out)[-500:]))
    return r


# ---------------------------------------------------------------- FITS
def _card(k, v, comment=""):
    if isinstance(v, bool):
        s = "%-8s= %20s" % (k, "T" if v else "F")
    elif isinstance(v, (int, np.integer)):
        s = "%-8s= %20d" % (k, v)
    elif isinstance(v, (float, np.floating)):
        s = "%-8s= %20s" % (k, repr(float(v)).upper())
    else:
        s = "%-8s= %-20s" % (k, "'%-8s'" % v)
    return (s + (" / " + comment if comment else "")).ljust(80)[:80]


def write_fits(path, arr, bitpix=-64, extra=(), bscale=None, bzero=None):
    arr = np.asarray(arr)
    dt = {-64: ">f8", -32: ">f4", 8: ">u1", 16: ">i2", 32: ">i4", 64: ">i8"}[bitpix]
    cards = [_card("SIMPLE", True), _card("BITPIX", bitpix), _card("NAXIS", arr.ndim)]
    for i, n in enumerate(reversed(arr.shape)):
        cards.append(_card("NAXIS%d" % (i + 1), n))
    if bscale is not None:
        cards.append(_card("BSCALE", float(bscale)))
    if bzero is not None:
        cards.append(_card("BZERO", float(bzero)))
    for k, v in extra:
        cards.append(_card(k, v))
    cards.append("END".ljust(80))
    h = "".join(cards).encode()
    h += b" " * (-len(h) % 2880)
    d = np.ascontiguousarray(arr.astype(dt)).tobytes()
    d += b"\0" * (-len(d) % 2880)
    with open(path, "wb") as f:
        f.write(h + d)


def read_fits(path):
    """Primary image as a float64 array [row, col]; raises ProgramFailure when unreadable."""
    try:
        b = open(path, "rb").read()
    except OSError as e:
        raise ProgramFailure("missing-output", "no output image: %s" % e)
    hdr, pos, done = {}, 0, False
    while not done:
        blk = b[pos:pos + 2880]
        if len(blk) < 2880:
            raise ProgramFailure("bad-output", "truncated FITS header in %s" % path)
        pos += 2880
        for i in range(0, 2880, 80):
            c = blk[i:i + 80].decode("latin-1")
            k = c[:8].strip()
            if k == "END":
                done = True
                break
            if c[8:10] == "= ":
                v = c[10:].split("/")[0].strip()
                hdr[k] = v
    n = [int(hdr["NAXIS%d" % (i + 1)]) for i in range(int(hdr["NAXIS"]))]
    bp = int(hdr["BITPIX"])
    dt = {-64: ">f8", -32: ">f4", 8: ">u1", 16: ">i2", 32: ">i4", 64: ">i8"}[bp]
    cnt = int(np.prod(n)) if n else 0
    raw = b[pos:pos + cnt * abs(bp) // 8]
    if len(raw) < cnt * abs(bp) // 8:
        raise ProgramFailure("bad-output", "truncated FITS data in %s" % path)
    a = np.frombuffer(raw, dt).astype(float)
    a = a * float(hdr.get("BSCALE", 1)) + float(hdr.get("BZERO", 0))
    return a.reshape(list(reversed(n)))


# ---------------------------------------------------------------- reports
FLT = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|nan|inf|-nan|-inf)"


def find_num(text, pat):
    m = re.search(pat.replace("NUM", "(" + FLT + ")"), text)
    return float(m.group(1)) if m else None


def parse_params(path):
    """A saved-parameter file -> (list of (name, value, error or None), header lines)."""
    try:
        lines = open(path, errors="replace").read().splitlines()
    except OSError as e:
        raise ProgramFailure("missing-output", "no parameter file: %s" % e)
    out, hdr = [], []
    for ln in lines:
        if ln.startswith("#"):
            hdr.append(ln)
            continue
        body, _, com = ln.partition("#")
        f = body.split()
        if len(f) >= 2 and f[0] not in ("FUNCTION",):
            try:
                v = float(f[1])
            except ValueError:
                continue
            m = re.search(r"\+/-\s*(" + FLT + ")", com)
            out.append((f[0], v, float(m.group(1)) if m else None))
        elif len(f) >= 1 and f[0] == "FUNCTION":
            out.append(("FUNCTION", f[1] if len(f) > 1 else "", None))
    return out, hdr


def header_stats(hdr):
    t = "\n".join(hdr)
    d = {}
    m = re.search(r"statistic: (" + FLT + r")|Best-fit value:?\s*(" + FLT + ")", t)
    d["text"] = t
    for k, p in (("best", r"Best-fit value:?\s*NUM"), ("red", r"Reduced value:?\s*NUM"),
                 ("aic", r"AIC:?\s*NUM"), ("bic", r"BIC:?\s*NUM")):
        d[k] = find_num(t, p)
    return d
