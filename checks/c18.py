"""C18: malformed input is refused with a message: no crash, hang, undefined operation or silent misuse."""
import os
import re

from common import *
import funcs as F
import imf

BADNUM = ["nan", "inf", "-inf", "1e400", "-1e400", "1e-400", "1e308", "-1e308", "1e-308", "0", "-0", "-1", "--5", "+", "-", "", "0x10", "1e", "1,2", "5,", ",5", ",", ",,", "1..2",
          "fixed", "fixed,", "1e5e5", "99999999999999999999", "-99999999999999999999", "2147483648", "4294967297", "0.5", "1:2", ":", "x", "%s%n", "1 2", "1\t2 3", "1e9", "a" * 300, "1,2,3",
          "3,1", "2,2", "nan,nan", "-inf,inf", "0,nan", "1e400,2e400", "!", "[1:2]", "#", "=", "yes", "12abc", "NaN", "Infinity", ".", "e5", "1d5", "١", "\x00", "\xff\xfe", "5 fixed fixed"]
WORDS = ["X0 5", "Y0 5", "X0", "Y0", "X0 5 1,9", "Y0 4 fixed", "FUNCTION", "FUNCTION Gaussian", "FUNCTION Exponential # LABEL", "FUNCTION NoSuch", "OPTIONAL_PARAMS_START", "OPTIONAL_PARAMS_END",
         "IMAGE_START", "FUNCTIONS_START", "DATA nosuch.fits", "DATA d.fits", "PSF d.fits", "MASK d.fits", "ERROR d.fits", "NCOLS,NROWS 5", "NROWS,NCOLS 5,", "NCOLS,NROWS ,", "NCOLS 0", "NCOLS -3", "NROWS 1e9",
         "GAIN 0", "GAIN -1", "READNOISE nan", "EXPTIME 0", "NCOMBINED 0", "NCOMBINED -2", "ORIGINAL_SKY inf", "OVERSAMPLED_PSF d.fits", "OVERSAMPLE_SCALE 0", "OVERSAMPLE_SCALE 2", "OVERSAMPLED_REGION 1",
         "OVERSAMPLED_REGION 1:2,3:4", "OVERSAMPLED_REGION 5:1,5:1", "PIXEL_SCALE 0", "PIXEL_SCALE -1 fixed", "FLUX_SCALE 1 0,", "IMAGE_PA 10 ,20", "floor 3", "method quadratic", "PA 10", "I_0 100 1,2",
         "MASK_ZERO_IS_BAD", "PSF", "DATA", "GAIN", "extra", "# comment", " ", "\t", "a b c d e f", "\x00\x00", "\xff\xff", "OVERSAMPLED_REGION ,", "OVERSAMPLED_REGION :,:", "OVERSAMPLED_REGION 1:,1:"]


def mutate_text(r, text, n=None, byte=.35):
    """1-4 mutations of lines, tokens or bytes"""
    b = text
    for _ in range(n or int(r.choice([1, 1, 1, 2, 3]))):
        if r.random() < byte:
            raw = bytearray(b.encode("latin-1", "replace"))
            k = int(r.integers(8))
            p = int(r.integers(len(raw) + 1)) if raw else 0
            if k == 0 and raw:
                raw[p % len(raw)] = int(r.integers(256))
            elif k == 1:
                raw[p:p] = bytes(r.integers(0, 256, int(r.integers(1, 9)), dtype=np.uint8))
            elif k == 2:
                del raw[p:p + int(r.integers(1, 40))]
            elif k == 3:
                del raw[p:]
            elif k == 4:
                raw[p:p] = raw[p:p + int(r.integers(1, 60))]
            elif k == 5:
                raw[p:p] = bytes([int(r.choice([0, 9, 10, 13, 32, 35, 44, 45, 58, 61, 91, 93, 255]))]) * int(r.integers(1, 4))
            elif k == 6 and raw:
                q = int(r.integers(len(raw)))
                raw[p % len(raw)], raw[q] = raw[q], raw[p % len(raw)]
            else:
                raw[p:p] = bytes([int(r.choice([32, 65, 48, 35, 44]))]) * int(r.choice([100, 1023, 1024, 5000]))
            b = raw.decode("latin-1")
            continue
        L = b.split("\n")
        i = int(r.integers(len(L)))
        k = int(r.integers(9))
        if k == 0:
            del L[i]
        elif k == 1:
            L.insert(i, L[int(r.integers(len(L)))])
        elif k == 2:
            j = int(r.integers(len(L)))
            L[i], L[j] = L[j], L[i]
        elif k == 3:
            L.insert(i, str(r.choice(WORDS)))
        elif k == 4:
            L[i] = str(r.choice(WORDS))
        else:
            t = re.split(r"([ ,\t]+)", L[i])
            j = int(r.integers(len(t)))
            if k == 5:
                t[j] = str(r.choice(BADNUM))
            elif k == 6:
                t[j] = ""
            elif k == 7:
                t.append(str(r.choice([" fixed", " 1,2", ",", " 1,", " x", " # LABEL y", " nan,nan", " -1e400,1e400"])))
            else:
                t = [t[0], " ", str(r.choice(BADNUM))] + t[3:]
            L[i] = "".join(t)
        b = "\n".join(L)
    return b


def mutate_str(r, s):
    s = str(s)
    k = int(r.integers(6))
    if k == 0:
        return str(r.choice(BADNUM)).replace("\0", "")
    p = int(r.integers(len(s) + 1))
    if k == 1:
        return s[:p] + s[p + 1:]
    if k == 2:
        return s[:p] + str(r.choice(list("[]:,;-+.*0123456789 #!@eExX()%=^$"))) + s[p:]
    if k == 3:
        return s[:p]
    if k == 4:
        return s[:p] + s[:p]
    return re.sub(r"\d+", lambda m: str(r.choice([m.group(0), "0", "-1", "1", "99999", "2147483648", "99999999999999999999", "", "1.5"])), s)


INFORM = ("--list-functions", "--list-parameters", "--sample-config", "--help", "-h", "--version", "--config")   # print something and end with status 1
SECTIONS = ["[]", "[", "]", "[:]", "[:,:]", "[,]", "[*,*]", "[*]", "[1:5]", "[1:5,]", "[,1:5]", "[1:5,1:5", "1:5,1:5]", "[5:1,1:5]", "[1:5,5:1]", "[0:5,1:5]", "[-3:5,1:5]", "[1:500,1:5]", "[1:5,1:500]", "[1:5:2,1:5]",
            "[1:5,1:5,1:5]", "[x:y,1:5]", "[3:3,3:3]", "[1 : 5 , 1 : 5]", "[99999999999999999999:5,1:5]", "[1:5,1:99999999999999999999]", "[1.5:5,1:5]", "[*,1:5]", "[1:5,*]", "[-*,1:5]", "[0]", "[1]", "[7]", "[-1]", "[SCI]",
            "[1:5][1:5]", "[1:5,1:5][1:5,1:5]", "[[1:5,1:5]]", "[1:5;1:5]", "[col X]", "[bin x]", "[pix r4 X*2]", "(out.fits)", "[1:0,1:0]", "[2147483648:2147483650,1:5]", "+1", "[#1]", "[:,1:5]", "[1:,1:5]", "[:5,:5]", "[1:5,"]
REGIONS = ["", ":", ",", ":,:", "1:5", "1:5,", ",1:5", "1:5,1", "1:5,1:", "5:1,1:5", "1:5,5:1", "0:5,0:5", "-3:5,1:5", "1:500,1:500", "100:120,100:120", "3:3,3:3", "3:3,1:9", "1:5,1:5,1:5", "1-5,1-5", "1:5;1:5", "x:y,1:5",
           "99999999999999999999:5,1:5", "1.5:5.5,1:5", "1:2:3,1:5", "[1:5,1:5]", " 1:5,1:5", "nan:nan,1:5", "2147483647:2147483648,1:5", "1:5 ,1:5", "*,*", "fixed"]


class C(Check):
    id = "C18"
    asan_programs = ("imfit", "makeimage", "imfit-mcmc", "multimfit", "makemultimages", "psfconvolve1d")
    rule = ("valid inputs of every program with 1-4 random mutations of bytes, tokens, lines, arguments or FITS headers, hostile sections, regions and parameter values, and a "
            "table of structural errors, under ASan+UBSan with library assertions: reports, signals, uncaught exceptions, endless runs, exit status, message, no output "
            "left by a refused run; signature = kind, program, outcome and first line of the message")

    def cases(self, tier, seed):
        return mkcases({"config": (900, 12000), "info": (500, 6000), "args": (700, 9000), "fits": (500, 6000), "section": (300, 3000), "region": (300, 3000), "values": (500, 6000),
                        "profile": (200, 2000), "reject": (500, 4000), "mcmc": (60, 500)}, tier, seed, self.id)

    def run(self, case, ctx):
        r = rng_of(case)
        res = Res()
        getattr(self, "k_" + case["kind"])(r, ctx, res)
        return res

    # ------------------------------------------------------------------ the oracle
    def judge(self, res, ctx, exe, args, desc, reject=False, outs=(), timeout=25):
        """Runs the program; True if it was accepted (status 0)."""
        args = [str(a).replace("\0", "") for a in args]
        e = {"HOME": ctx.dir}
        R = imf.run(ctx.bins["asan:" + exe], args, ctx.dir, timeout, env=e)
        if R.timeout:
            done = R.out.count("mpfit iteration")
            R = imf.run(ctx.bins["asan:" + exe], args, ctx.dir, 4 * timeout, env=e)
            if R.timeout and done < R.out.count("mpfit iteration") <= 1000:
                res.seen("long_fits")          # a fit that advances towards its limit of 1000 iterations
                return None
        res.evals += 1
        res.seen("runs_" + exe)
        cmd = "%s %s" % (exe, " ".join(args)[:300])
        if R.timeout:
            res.bad("hang:" + exe, "%s: %s: no end after %d s" % (desc, cmd, 4 * timeout))
            return None
        s = R.sanitizer()
        if s:
            res.bad("crash:" + exe, "%s: %s: %s" % (desc, cmd, s))
            return None
        t = R.out + R.err
        if R.rc != 0:
            res.seen("refused")
            m = re.search(r"(\*\*\*|WARNING|ERROR|Error|error|Unable|nvalid|Usage|sage:|ailed|ailure|Missing|wrong|Couldn.t|must )[^\n]*", t)
            if not m and not any(x.split("=")[0] in INFORM for x in args):
                res.bad("silent:" + exe, "%s: %s: status %d without any message; output ends %r" % (desc, cmd, R.rc, t[-300:]))
            for o in outs:
                if os.path.exists(os.path.join(ctx.dir, o)):
                    res.bad("leftover:" + exe, "%s: %s: refused (status %d) but wrote %s" % (desc, cmd, R.rc, o))
            res.nontrivial((exe, "refused", R.rc, re.sub(r"[\d.\"'].*", "", m.group(0))[:60] if m else ""))
        else:
            res.seen("accepted")
            res.nontrivial((exe, "accepted", desc.split(" ")[0], len(t) // 200))
            if reject:
                res.bad("accepted:" + exe, "%s: %s: accepted (status 0); output ends %r" % (desc, cmd, t[-400:]))
        return R.rc == 0

    # ------------------------------------------------------------------ valid inputs
    def cfg(self, r, limits=True, names=None, nsets=None, n=12, full=False):
        names = names or [x for x in F.NAMES2D if x not in F.IS3D]
        m = F.random_model(r, n, n, nsets=nsets or int(r.integers(1, 3)), nfuncs=None, names=names)
        lim = None
        if limits:
            def lim(si, fi, pn, v):
                k = r.random()
                return "fixed" if k < .25 else "%r,%r" % (float(v) - abs(v) * .5 - 1, float(v) + abs(v) * .5 + 1) if k < .9 or full else ""
        return m, F.config_text(m, limits=lim)

    def put(self, ctx, name, data):
        with open(os.path.join(ctx.dir, name), "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("latin-1", "replace"))

    def images(self, r, ctx, n=12):
        d = ctx.dir
        imf.write_fits(os.path.join(d, "d.fits"), r.normal(60, 6, (n, n)), int(r.choice([-64, -32, 16])))
        imf.write_fits(os.path.join(d, "mask.fits"), (r.random((n, n)) < .1).astype(float))
        imf.write_fits(os.path.join(d, "noise.fits"), r.uniform(3, 6, (n, n)))
        imf.write_fits(os.path.join(d, "psf.fits"), F.random_psf(r, 5, 7))
        imf.write_fits(os.path.join(d, "opsf.fits"), F.random_psf(r, 9, 11))

    def info(self, r, ctx, prog, n=12):
        t = []
        for i in range(int(r.integers(1, 4))):
            L_ = ["IMAGE_START"]
            if prog == "multimfit":
                L_ += ["DATA d.fits", "GAIN 2.5", "READNOISE 3", "ORIGINAL_SKY 10"]
                if r.random() < .3:
                    L_ += ["MASK mask.fits"]
                if r.random() < .3:
                    L_ += ["ERROR noise.fits"]
            else:
                L_ += [["NCOLS %d" % n, "NROWS %d" % n], ["NCOLS,NROWS %d,%d" % (n, n)], ["NROWS,NCOLS %d,%d" % (n, n)]][int(r.integers(3))]
            if r.random() < .5:
                L_ += ["PSF psf.fits"]
            if r.random() < .3:
                L_ += ["OVERSAMPLED_PSF opsf.fits", "OVERSAMPLE_SCALE 3", "OVERSAMPLED_REGION 3:7,4:9"]
            L_ += ["PIXEL_SCALE %s" % ("1.0 fixed" if i == 0 else "1.1 0.9,1.3"), "IMAGE_PA %s" % ("0 fixed" if i == 0 else "10 -20,40"), "FLUX_SCALE %s" % ("1 fixed" if i == 0 else "1 0.5,2"),
                   "X0 6.0 %s" % ("fixed" if i == 0 else "4,8"), "Y0 6.0 %s" % ("fixed" if i == 0 else "4,8")]
            if r.random() < .4:
                L_ += ["FUNCTIONS_START", "X0 4 fixed", "Y0 5 2,8", "FUNCTION Gaussian # LABEL local one", "PA 20 fixed", "ell 0.2 0,0.9", "I_0 20 0,90", "sigma 1.5 0.5,9"]
            t += L_
        return "\n".join(t) + "\n"

    def base(self, r, ctx, prog, limits=True, cheap=False):
        """writes a valid input set; returns (arguments, name and text of its text file(s), outputs)"""
        self.images(r, ctx)
        k = r.random()
        cheap = cheap or (prog == "imfit" and k > .7)      # a fit of its own: functions evaluated quickly
        m, text = self.cfg(r, limits or prog == "imfit-mcmc", names=["Exponential", "Sersic", "Gaussian", "Moffat", "FlatSky"] if prog == "imfit-mcmc" or cheap else None, full=prog == "imfit-mcmc")
        files = {"c.dat": text}
        if prog == "makeimage":
            if r.random() < .5:
                a = ["c.dat", "--ncols", "12", "--nrows", "12", "-o", "o.fits"]
            elif r.random() < .5:
                a = ["c.dat", "--refimage", "d.fits", "-o", "o.fits"]
            else:
                files["c.dat"] = "NCOLS 12\nNROWS 12\n" + text
                a = ["c.dat", "-o", "o.fits"]
            if r.random() < .3:
                a += ["--print-fluxes", "--estimation-size", "40"]
        elif prog in ("imfit", "imfit-mcmc"):
            files["c.dat"] = "".join(k for k in ("GAIN 2.5\n", "READNOISE 3\n", "EXPTIME 2\n", "NCOMBINED 2\n", "ORIGINAL_SKY 12\n") if r.random() < .5) + text
            a = ["-c", "c.dat", "d.fits"]
            if r.random() < .3:
                a += ["--mask", "mask.fits"]
            if r.random() < .3:
                a += ["--noise", "noise.fits"]
            if prog == "imfit":
                a += ["--save-params", "p.dat", "--save-model", "o.fits"] + (["--fitstat-only"] if k < .7 else ["--ftol", "0.1", "--no-subsampling"])
            else:
                a += ["-o", "ch", "--nchains", "4", "--max-chain-length", "15", "--burnin-length", "5", "--no-subsampling"]
        if prog in ("makeimage", "imfit", "imfit-mcmc"):
            if r.random() < .5:
                a += ["--psf", "psf.fits"]
            if r.random() < .3:
                a += ["--overpsf", "opsf.fits", "--overpsf_scale", "3", "--overpsf_region", "3:7,4:9"]
        else:
            files["i.dat"] = self.info(r, ctx, prog)
            a = ["-c", "c.dat", "-i", "i.dat", "--fitstat-only", "--save-model", "mm"] if prog == "multimfit" else ["c.dat", "--image-info", "i.dat", "-o", "mm"]
        a += ["--max-threads", "1"] if prog != "makemultimages" else []
        for n, t in files.items():
            self.put(ctx, n, t)
        return a, files

    # ------------------------------------------------------------------ kinds
    def k_config(self, r, ctx, res):
        prog = str(r.choice(["imfit", "makeimage", "multimfit", "makemultimages"], p=[.4, .4, .1, .1]))
        a, files = self.base(r, ctx, prog)
        t = mutate_text(r, files["c.dat"])
        self.put(ctx, "c.dat", t)
        self.judge(res, ctx, prog, a, "mutated configuration")

    def k_mcmc(self, r, ctx, res):
        a, files = self.base(r, ctx, "imfit-mcmc")
        self.put(ctx, "c.dat", mutate_text(r, files["c.dat"]))
        self.judge(res, ctx, "imfit-mcmc", a, "mutated configuration")

    def k_info(self, r, ctx, res):
        prog = str(r.choice(["multimfit", "makemultimages"]))
        a, files = self.base(r, ctx, prog)
        self.put(ctx, "i.dat", mutate_text(r, files["i.dat"]))
        self.judge(res, ctx, prog, a, "mutated image description")

    def k_args(self, r, ctx, res):
        prog = str(r.choice(self.asan_programs[:5], p=[.4, .25, .05, .15, .15]))
        a, files = self.base(r, ctx, prog, cheap=True)
        opts = {"imfit": ["--noise", "--mask", "--psf", "--overpsf", "--overpsf_scale", "--overpsf_region", "--sky", "--gain", "--readnoise", "--exptime", "--ncombined", "--ftol", "--nlopt", "--bootstrap", "--seed",
                          "--max-threads", "--save-weights", "--save-residual", "--errors-are-variances", "--mask-zero-is-bad", "--cashstat", "--mlr", "--nm", "--model-errors", "--no-normalize", "--sample-config",
                          "--quiet", "--loud", "--nosuch", "-x", "--", "-", "--printimage", "--save-bootstrap"],
                "makeimage": ["--ncols", "--nrows", "--refimage", "--psf", "--overpsf", "--overpsf_scale", "--overpsf_region", "--zero-point", "--estimation-size", "--timing", "--output-functions", "--save-fluxes",
                              "--print-fluxes", "--max-threads", "--nosave", "--no-subsampling", "--list-functions", "--list-parameters", "--save-expanded", "--nosuch", "-o", "--debug"],
                "imfit-mcmc": ["--nchains", "--max-chain-length", "--burnin-length", "--gelman-evals", "--gelman-rubin-limit", "--uniform-offset", "--gaussian-offset", "--seed", "--append", "--sky", "--gain", "--mask",
                               "--noise", "--psf", "--nosuch", "--overpsf"],
                "multimfit": ["--save-params-root", "--save-model", "--ftol", "--seed", "--max-threads", "--nm", "--nlopt", "--cashstat", "--mlr", "--de", "--nosuch", "-i", "-c", "--mask", "--psf"],
                "makemultimages": ["--image-info", "-o", "--output-functions", "--nosubsampling", "--nosave", "--debug", "--nosuch", "--max-threads", "--psf", "--print-fluxes", "--estimation-size"]}[prog]
        vals = BADNUM + ["c.dat", "d.fits", "nosuch.fits", "psf.fits", "d.fits[1:4,1:4]", "COBYLA", "NoSolver", "3:7,4:9", "--psf", "1", "2", "3", "10"]
        for _ in range(int(r.integers(1, 4))):
            k = int(r.integers(6))
            i = int(r.integers(len(a))) if a else 0
            if k == 0 and a:
                del a[i]
            elif k == 1 and a:
                a[i] = mutate_str(r, a[i])
            elif k == 2:
                o = str(r.choice(opts))
                a += [o, str(r.choice(vals))]
            elif k == 3:
                a += [str(r.choice(opts)) + "=" + str(r.choice(vals))]
            elif k == 4:
                a[i:i] = [str(r.choice(opts + vals))]
            elif a:
                a.insert(int(r.integers(len(a))), a.pop(i))
        # keep the runs short and within the scratch directory
        a = [x for x in a if not (x.isdigit() and len(x) > 6 and "--timing" in a) and "/" not in x and not x.startswith("--bootstrap=") and not x.startswith("--timing=")]
        if "--bootstrap" in a or "--timing" in a:
            a = [x if not re.fullmatch(r"[+\d.eE]+", x) or len(x) < 3 else "7" for x in a]
        if prog in ("imfit", "multimfit") and "--fitstat-only" not in a and "--ftol" not in a:
            a += ["--fitstat-only"]
        self.judge(res, ctx, prog, a, "mutated arguments", timeout=40)

    def k_section(self, r, ctx, res):
        prog = str(r.choice(["imfit", "makeimage", "imfit-mcmc", "multimfit"], p=[.6, .2, .05, .15]))
        a, files = self.base(r, ctx, prog)
        s = str(r.choice(SECTIONS)) if r.random() < .6 else mutate_str(r, "[2:9,3:10]")
        if prog == "multimfit":
            key, f = [("DATA", "d.fits"), ("MASK", "mask.fits"), ("PSF", "psf.fits")][int(r.integers(3))]
            t = re.sub(r"%s \S+" % key, lambda m: key + " " + f + s.replace(" ", ""), files["i.dat"], count=1)
            self.put(ctx, "i.dat", t)
        elif prog == "makeimage":
            a = ["c.dat", "-o", "o.fits", "--refimage", "d.fits" + s] if r.random() < .6 else a + ["--psf", "psf.fits" + s]
        else:
            k = r.random()
            if k < .6:
                a = [x + s if x == "d.fits" else x for x in a]
            elif k < .8:
                a += ["--mask", "mask.fits" + s]
            else:
                a += ["--psf", "psf.fits" + s]
        self.judge(res, ctx, prog, a, "section %r" % s)

    def k_region(self, r, ctx, res):
        prog = str(r.choice(["imfit", "makeimage", "makemultimages", "multimfit"]))
        a, files = self.base(r, ctx, prog)
        s = str(r.choice(REGIONS)) if r.random() < .6 else mutate_str(r, "3:9,2:8")
        k = str(r.choice(["1", "3", "3", "0", "-2", "x", "100", "2.5", "99999999999"], p=[.2, .3, .2, .05, .05, .05, .05, .05, .05]))
        if prog in ("imfit", "makeimage"):
            a = [x for x in a if not x.startswith("--overpsf") and x not in ("opsf.fits", "3", "3:7,4:9")]
            a += ["--overpsf", "opsf.fits", "--overpsf_scale", k, "--overpsf_region", s]
            if r.random() < .2:
                a += ["--overpsf_region", "3:6,3:6"]
        else:
            t = files["i.dat"].replace("IMAGE_START\n", "IMAGE_START\nOVERSAMPLED_PSF opsf.fits\nOVERSAMPLE_SCALE %s\nOVERSAMPLED_REGION %s\n" % (k, s), 1)
            self.put(ctx, "i.dat", t)
        if k in ("100", "99999999999") and s not in ("", ":", ",", ":,:"):
            a = [x if x not in ("100", "99999999999") else "40" for x in a]
        self.judge(res, ctx, prog, a, "region %r scale %s" % (s, k), timeout=40)

    def k_values(self, r, ctx, res):
        """syntactically valid parameter values far outside the physical range"""
        n = 8
        name = str(r.choice(list(F.G) + ["PointSource", "PointSourceRot"]))
        m = F.random_model(r, n, n, nsets=1, nfuncs=1, names=[name])
        f = m["sets"][0]["funcs"][0]
        bad = []
        for _ in range(int(r.integers(1, 3))):
            pn = str(r.choice(F.params_of(name) + ["x0", "y0"]))
            v = float(r.choice([0, -1, 1e308, -1e308, 1e-308, 1e30, -1e30, 1e10, -1e10, 1e-10, 100, 1000, -100, 1.0, 0.999999, 90, np.nan, np.inf, -np.inf, 2147483648.0]))
            bad.append("%s=%g" % (pn, v))
            if pn in ("x0", "y0"):
                m["sets"][0][pn] = v
            else:
                f["p"][pn] = v
        self.images(r, ctx, n)
        self.put(ctx, "c.dat", F.config_text(m))
        prog = str(r.choice(["makeimage", "imfit"], p=[.7, .3]))
        a = ["c.dat", "-o", "o.fits", "--ncols", n, "--nrows", n] if prog == "makeimage" else ["-c", "c.dat", "d.fits", "--fitstat-only", "--sky", "9"]
        if "PointSource" in name or r.random() < .3:
            a += ["--psf", "psf.fits"]
        if "PointSource" in name and r.random() < .3:
            a += ["--overpsf", "opsf.fits", "--overpsf_scale", "3", "--overpsf_region", "2:6,3:7"]
        if prog == "makeimage" and r.random() < .3:
            a += ["--print-fluxes", "--estimation-size", "30"]
        self.judge(res, ctx, prog, a + ["--max-threads", "1"], "%s with %s" % (name, ", ".join(bad)), timeout=60)

    def k_profile(self, r, ctx, res):
        x = np.arange(int(r.integers(2, 40))) * float(r.choice([1, .5]))
        p = "# a profile\n" + "\n".join("%g %g" % (a, b) for a, b in zip(x, 100 * np.exp(-x / 5))) + "\n"
        k = int(r.integers(1, 6))
        q = "\n".join("%g %g" % (a, np.exp(-a * a / 4)) for a in (np.arange(-k, k + 1) * float(r.choice([1, .5])))) + "\n"
        which = r.random()
        if which < .6:
            p = mutate_text(r, p)
        if which > .4:
            q = mutate_text(r, q)
        self.put(ctx, "p.dat", p)
        self.put(ctx, "q.dat", q)
        a = ["p.dat", "q.dat", "o.dat"]
        if r.random() < .25:
            a[int(r.integers(3))] = str(r.choice(["nosuch", "", "--nosuch", "-h", "p.dat"]))
        if r.random() < .2:
            a += [str(r.choice(["--printProfiles", "--debug", "--debug=3", "--nosuch", "extra"]))]
        self.judge(res, ctx, "psfconvolve1d", a, "mutated profiles")

    # ------------------------------------------------------------------ structural errors, each of which must be refused
    def k_reject(self, r, ctx, res):
        prog = str(r.choice(["imfit", "makeimage", "imfit-mcmc", "multimfit", "makemultimages"], p=[.35, .25, .12, .16, .12]))
        n = int(r.integers(8, 14))
        self.images(r, ctx, n)
        multi = prog in ("multimfit", "makemultimages")
        fit = prog in ("imfit", "imfit-mcmc", "multimfit")
        u = lambda a, b: "%.6g" % r.uniform(a, b)
        L = ["X0 %s 1,%d" % (u(3, 7), n), "Y0 %s 1,%d" % (u(3, 7), n), "FUNCTION Exponential", "PA %s -10,100" % u(0, 90), "ell %s 0,0.9" % u(.1, .8), "I_0 %s 0,900" % u(50, 90), "h %s 0.1,20" % u(1, 5),
             "X0 %s 1,%d" % (u(3, 7), n), "Y0 %s fixed" % u(3, 7), "FUNCTION FlatSky", "I_sky %s 0,100" % u(5, 9), "FUNCTION Gaussian", "PA %s 0,90" % u(0, 90), "ell %s 0,0.9" % u(.1, .8),
             "I_0 %s 0,900" % u(50, 90), "sigma %s 0.1,20" % u(1, 5)]
        pl = [i for i, x in enumerate(L) if not x.startswith("FUNCTION")]
        fl = [i for i, x in enumerate(L) if x.startswith("FUNCTION")]
        ll = [i for i in pl if "," in L[i]]
        I = []
        for k in range(int(r.integers(2, 4))):
            I += [["IMAGE_START"] + (["DATA d.fits", "GAIN 2.5", "READNOISE 3", "ORIGINAL_SKY 10"] if prog == "multimfit" else ["NCOLS %d" % n, "NROWS %d" % n])
                  + ["PIXEL_SCALE %s" % ("1.0 fixed" if not k else "1.1 0.9,1.3"), "IMAGE_PA %s" % ("0 fixed" if not k else "10 -20,40"), "FLUX_SCALE %s" % ("1 fixed" if not k else "1 0.5,2"),
                     "X0 6.0 %s" % ("fixed" if not k else "4,8"), "Y0 6.0 %s" % ("fixed" if not k else "4,8")]]
        A = {"imfit": ["-c", "c.dat", "d.fits", "--fitstat-only", "--save-params", "p.dat", "--save-model", "o.fits"], "makeimage": ["c.dat", "--ncols", str(n), "--nrows", str(n), "-o", "o.fits"],
             "imfit-mcmc": ["-c", "c.dat", "d.fits", "-o", "ch", "--nchains", "4", "--max-chain-length", "8", "--burnin-length", "3"],
             "multimfit": ["-c", "c.dat", "-i", "i.dat", "--fitstat-only", "--save-model", "mm"], "makemultimages": ["c.dat", "--image-info", "i.dat", "-o", "mm"]}[prog]
        one = lambda x: x[int(r.integers(len(x)))]
        JUNK = ["", "abc", "12abc", "1.2.3", "--5", "1e", "5,", ",5", "0x", "1:2", "%d", "[3]", "fixed"]

        def val(i, v):
            t = L[i].split()
            L[i] = " ".join([t[0], v] + t[2:]) if v else t[0]

        def lim(i, v):
            t = L[i].split()
            L[i] = " ".join([t[0], t[1], v])

        def ins(i, x):
            L.insert(i, x)

        def cut(i, j=None):
            del L[i:(j or i + 1)]

        def setl(i, x):
            L[i] = x

        def info(key, v, k=None):
            J = I[len(I) - 1 if k is None else k]
            J[:] = [x for x in J if x.split()[0] != key] + ([key + " " + v] if v is not None else [])

        def arg(*x):
            A.extend(x)

        def wr(name, sh=None, v=None):
            imf.write_fits(os.path.join(ctx.dir, name), np.full(sh or (n, n), 1.0 if v is None else v))

        cfg = [("unknown function", lambda: setl(one(fl), "FUNCTION " + one(["NoSuchFunction", "exponential", "Exponentials", "Gauss"]))), ("FUNCTION without a name", lambda: setl(one(fl), "FUNCTION")),
               ("missing parameter", lambda: cut(one([3, 4, 5, 6, 12, 13, 14, 15]))), ("surplus parameter", lambda: ins(one([7, 11, 16]), "extra 5 0,9")), ("value not a number", lambda: val(one(pl), one(JUNK))),
               ("no Y0", lambda: cut(one([1, 8]))), ("no X0", lambda: cut(one([0, 7]))), ("no X0 and Y0", lambda: cut(0, 2)), ("X0 and Y0 swapped", lambda: L.insert(0, L.pop(1))),
               ("no FUNCTION at all", lambda: cut(2, 16)), ("no FUNCTION in the first set", lambda: cut(2, 7)), ("no FUNCTION in the last set", lambda: cut(9, 16)), ("set without functions", lambda: L.extend(["X0 3 1,5", "Y0 3 1,5"])),
               ("parameter before FUNCTION", lambda: ins(one([2, 9]), "PA 5 0,9")), ("FUNCTION line lost", lambda: cut(one([2, 9]))), ("empty configuration", lambda: L.clear()), ("only comments", lambda: L.__setitem__(slice(None), ["# " + x for x in L])),
               ("no configuration file", lambda: A.__setitem__(A.index("c.dat"), "nosuch.dat")), ("configuration is a FITS file", lambda: A.__setitem__(A.index("c.dat"), "d.fits")),
               ("unknown option", lambda: arg("--nosuch")), ("limits not numbers", lambda: lim(one(ll), one(["a,b", "1,b", ",", "1,", ",1", "1", "1:2", "1,2,3", "fix", "1,2x"])))]
        limits = [("value outside its limits", lambda: lim(one(ll), one(["1000,2000", "-50,-40"]))), ("lower limit above the upper", lambda: lim(one(ll), one(["2000,-100", "1e9,-1e9"]))), ("equal limits", lambda: val(5, "40") or lim(5, "40,40")),
                  ("NaN limit", lambda: lim(one(ll), one(["nan,900", "-50,nan", "nan,nan"]))), ("NaN value with limits", lambda: val(one(ll), "nan"))]
        opsf = lambda *x: arg("--overpsf", "opsf.fits", *x)
        psfs = [("no PSF file", lambda: arg("--psf", "nosuch.fits")), ("PSF with a NaN", lambda: (wr("psf.fits", (5, 5), np.nan), arg("--psf", "psf.fits"))), ("PSF of zeros", lambda: (wr("psf.fits", (5, 5), 0.0), arg("--psf", "psf.fits"))),
                ("negative PSF", lambda: (wr("psf.fits", (5, 5), -1.0), arg("--psf", "psf.fits"))), ("PSF of three dimensions", lambda: (wr("psf.fits", (2, 5, 5)), arg("--psf", "psf.fits"))),
                ("PSF is a text file", lambda: arg("--psf", "c.dat")), ("PointSource without PSF", lambda: L.extend(["FUNCTION PointSource", "I_tot 5 0,9"])),
                ("PointSource with a tiny PSF", lambda: (wr("psf.fits", (one([1, 2, 3]), 7)), L.extend(["FUNCTION PointSource", "I_tot 5 0,9"]), arg("--psf", "psf.fits"))),
                ("PointSource with a tiny oversampled PSF", lambda: (wr("opsf.fits", (3, 3)), L.extend(["FUNCTION PointSource", "I_tot 5 0,9"]), arg("--psf", "psf.fits"), opsf("--overpsf_scale", "3", "--overpsf_region", "2:5,2:5"))),
                ("oversampled PSF without region", lambda: opsf("--overpsf_scale", "3")), ("oversampled PSF without scale", lambda: opsf("--overpsf_region", "2:5,2:5")),
                ("no oversampled PSF file", lambda: arg("--overpsf", "nosuch.fits", "--overpsf_scale", "3", "--overpsf_region", "2:5,2:5")),
                ("two oversampled PSFs, one scale", lambda: opsf("--overpsf", "psf.fits", "--overpsf_scale", "3", "--overpsf_region", "2:5,2:5", "--overpsf_region", "6:7,6:7")),
                ("two oversampled PSFs, one region", lambda: opsf("--overpsf", "psf.fits", "--overpsf_scale", "3", "--overpsf_scale", "2", "--overpsf_region", "2:5,2:5")),
                ("oversampling scale", lambda: opsf("--overpsf_scale", one(["0", "-1", "x"]), "--overpsf_region", "2:5,2:5")),
                ("oversampling region", lambda: opsf("--overpsf_scale", "3", "--overpsf_region", one(["5:2,2:5", "2:5,5:2", "50:60,2:5", "2:5,50:60", "-9:-3,2:5", "2:5", "2:5,", "", ":,:", "a:b,2:5", "2:5:6,2:5", "2-5,2-5", "2:5,2:5,2:5"]))),
                ("oversampled PSF of zeros", lambda: (wr("opsf.fits", (5, 5), 0.0), opsf("--overpsf_scale", "3", "--overpsf_region", "2:5,2:5"))),
                ("oversampled PSF with a NaN", lambda: (wr("opsf.fits", (5, 5), np.nan), opsf("--overpsf_scale", "3", "--overpsf_region", "2:5,2:5"))),
                ("number of threads", lambda: arg("--max-threads", one(["0", "-1", "x", "2.5", "3x", "99999999999999999999"])))]
        badsec = ["[1:500,1:5]", "[1:5,1:500]", "[-3:5,1:5]", "[0:5,1:5]", "[a:b,1:5]", "[]", "[:,:]", "[1:5", "[1:5,]", "[1.5:5,1:5]"]
        noise = ["--readnoise", "--gain", "--exptime", "--ncombined", "--sky"]
        data = [("no such image", lambda: A.__setitem__(A.index("d.fits"), "nosuch.fits")), ("no image name", lambda: A.remove("d.fits")), ("image is a text file", lambda: A.__setitem__(A.index("d.fits"), "c.dat")),
                ("image section", lambda: A.__setitem__(A.index("d.fits"), "d.fits" + one(badsec))), ("image of three dimensions", lambda: wr("d.fits", (2, n, n))), ("image of one dimension", lambda: wr("d.fits", (n,))),
                ("size of the mask", lambda: (wr("mask.fits", one([(n, n + 1), (n - 1, n), (n + 2, n - 2), (1, 1)]), 0.0), arg("--mask", "mask.fits"))), ("size of the noise image", lambda: (wr("noise.fits", one([(n, n + 1), (n - 1, n), (1, 1)])), arg("--noise", "noise.fits"))),
                ("mask missing", lambda: arg("--mask", "nosuch.fits")), ("noise image missing", lambda: arg("--noise", "nosuch.fits")), ("noise parameter not a number", lambda: arg(one(noise), one(["x", "1.2.3", "3x", "1,5", "", "--psf"]))),
                ("negative or zero noise parameter", lambda: arg(*one([("--gain", "0"), ("--gain", "-1"), ("--readnoise", "-1"), ("--exptime", "0"), ("--exptime", "-2"), ("--ncombined", "0"), ("--ncombined", "-3")])))]
        special = {"imfit": [("Cash statistic with Levenberg-Marquardt", lambda: (A.remove("--fitstat-only"), arg("--cashstat", "--sky", "50"))), ("unknown NLopt solver", lambda: (A.remove("--fitstat-only"), arg("--nlopt", one(["NOSUCH", "cobyla", "LM"])))),
                             ("DE without limits", lambda: (A.remove("--fitstat-only"), arg("--de"), setl(5, "I_0 70"))), ("tolerance", lambda: arg("--ftol", one(["x", "1.2.3", "1e-3x"]))), ("bootstrap number", lambda: arg("--bootstrap", one(["x", "0", "-3", "5x"])))],
                   "makeimage": [("no size", lambda: [A.remove(x) for x in ("--ncols", "--nrows", str(n), str(n))]), ("no rows", lambda: (A.remove("--nrows"), A.remove(str(n)))),
                                 ("size", lambda: A.__setitem__(A.index(one(["--ncols", "--nrows"])) + 1, one(["0", "-4", "x", "5x", "1.5", "99999999999999999999", ""]))), ("no reference image", lambda: ([A.remove(x) for x in ("--ncols", "--nrows", str(n), str(n))], arg("--refimage", "nosuch.fits"))),
                                 ("reference image is a text file", lambda: ([A.remove(x) for x in ("--ncols", "--nrows", str(n), str(n))], arg("--refimage", "c.dat"))), ("zero point", lambda: arg("--zero-point", one(["x", "2.2.2"]))), ("no arguments", lambda: A.clear()),
                                 ("size in the configuration", lambda: ([A.remove(x) for x in ("--ncols", "--nrows", str(n), str(n))], L.insert(0, "NCOLS %d" % n), L.insert(1, "NROWS " + one(["0", "-5", "x"]))))],
                   "imfit-mcmc": [("parameter without limits", lambda: setl(one([5, 6, 14]), L[one([5, 6, 14])].split()[0] + " 3")), ("chains", lambda: A.__setitem__(A.index("--nchains") + 1, one(["0", "-1", "1", "2", "x"]))),
                                  ("chain length", lambda: A.__setitem__(A.index("--max-chain-length") + 1, one(["0", "-5", "x"])))]}.get(prog, [])
        loc = ["FUNCTIONS_START", "X0 4 fixed", "Y0 5 2,8", "FUNCTION Gaussian", "PA 20 fixed", "ell 0.2 0,0.9", "I_0 20 0,90", "sigma 1.5 0.5,9"]

        def local(k, x):
            M = list(loc)
            if x is None:
                del M[k]
            else:
                M[k] = x
            I[-1].extend(M)

        infos = [("no image description", lambda: A.__setitem__(A.index("i.dat"), "nosuch.dat")), ("no -i", lambda: (A.remove("i.dat"), A.remove("-i" if "-i" in A else "--image-info"))), ("no IMAGE_START", lambda: I.__setitem__(slice(None), [J[1:] for J in I])),
                 ("empty image description", lambda: I.clear()), ("image parameter not a number", lambda: info(one(["PIXEL_SCALE", "IMAGE_PA", "FLUX_SCALE", "X0", "Y0"]), one(JUNK[1:-1]) + " -50,50")),
                 ("line with one word", lambda: I[-1].append(one(["GAIN", "PSF", "X0", "something"]))), ("PSF missing", lambda: info("PSF", "nosuch.fits")),
                 ("oversampled PSF alone", lambda: info("OVERSAMPLED_PSF", "opsf.fits")), ("oversampling scale", lambda: (info("OVERSAMPLED_PSF", "opsf.fits"), info("OVERSAMPLE_SCALE", one(["0", "-1", "x", "2.5"])), info("OVERSAMPLED_REGION", "2:5,2:5"))),
                 ("oversampling region", lambda: (info("OVERSAMPLED_PSF", "opsf.fits"), info("OVERSAMPLE_SCALE", "3"), info("OVERSAMPLED_REGION", one(["5:2,2:5", "2:5", "50:60,2:5", ":,:", "x:y,1:2"])))),
                 ("local functions", lambda: local(*one([(3, "FUNCTION NoSuch"), (3, "FUNCTION"), (3, None), (2, None), (1, None), (4, None), (4, "PA x"), (7, "sigma")])))]
        if prog == "multimfit":
            infos += [("image parameter limits", lambda: info(one(["PIXEL_SCALE", "IMAGE_PA", "FLUX_SCALE", "X0", "Y0"]), "1 " + one(["5,2", "2,5", "1,1", "a,b", "1,", "nan,5", "0,nan", "0,1,2", "7", "fix"]))), ("limits of local functions", lambda: local(*one([(5, "ell 0.2 0.9,0"), (5, "ell 2 0,0.9"), (6, "I_0 20 a,b")]))),
                      ("no data image", lambda: info("DATA", None)), ("data image missing", lambda: info("DATA", "nosuch.fits")), ("mask of another size", lambda: (wr("mask.fits", (n + 1, n), 0.0), info("MASK", "mask.fits"))),
                      ("noise image of another size", lambda: (wr("noise.fits", (n, n - 1)), info("ERROR", "noise.fits"))), ("noise parameter", lambda: info(*one([("GAIN", "0"), ("GAIN", "-2"), ("GAIN", "x"), ("READNOISE", "-1"), ("READNOISE", "3x"), ("EXPTIME", "0"), ("NCOMBINED", "0"), ("NCOMBINED", "x"), ("NCOMBINED", "2.5"), ("ORIGINAL_SKY", "x")]))),
                      ("data section", lambda: info("DATA", "d.fits" + one(badsec)))]
        elif prog == "makemultimages":
            infos += [("no size", lambda: info(one(["NCOLS", "NROWS"]), None)), ("size", lambda: info(one(["NCOLS", "NROWS"]), one(["0", "-3", "x", "5.5", "99999999999"]))), ("size pair", lambda: info("NCOLS,NROWS", one(["5", "5,", ",", "x,y", "5,0", "0,5", "5,5,5"])))]
        groups = [cfg] + ([limits] if fit else []) + ([infos, infos] if multi else [psfs]) + ([data] if prog in ("imfit", "imfit-mcmc") else []) + ([special] if special else [])
        name, f = one(one(groups))
        self.put(ctx, "c0.dat", "\n".join(L) + "\n")
        f()
        self.put(ctx, "c.dat", "\n".join(L) + "\n")
        if multi:
            self.put(ctx, "i.dat", "\n".join("\n".join(J) for J in I) + "\n")
        before = set(os.listdir(ctx.dir))
        self.judge(res, ctx, prog, A, "%s [%s]" % (name, "; ".join(x for x in L if x)[:200] if (name, f) in cfg + limits else ""), reject=True, timeout=40)
        new = sorted(x for x in set(os.listdir(ctx.dir)) - before if not x.startswith("program_"))
        if new:
            res.bad("leftover:" + prog, "%s: %s %s: refused but wrote %s" % (name, prog, " ".join(A), new))
        res.seen("table:" + name)

    def k_fits(self, r, ctx, res):
        prog = str(r.choice(["imfit", "makeimage", "multimfit"], p=[.6, .25, .15]))
        a, files = self.base(r, ctx, prog)
        n = str(r.choice(["d.fits", "psf.fits", "mask.fits", "noise.fits", "opsf.fits"]))
        if prog == "multimfit":
            self.put(ctx, "i.dat", files["i.dat"].replace("GAIN", "%s %s\nGAIN" % ({"d": "DATA", "p": "PSF", "m": "MASK", "n": "ERROR", "o": "PSF"}[n[0]], n)))
        elif n != "d.fits" or prog == "makeimage":
            a += {"d.fits": ["--refimage", n], "psf.fits": ["--psf", n], "mask.fits": ["--mask", n] if prog == "imfit" else ["--psf", n], "noise.fits": ["--noise", n] if prog == "imfit" else ["--psf", n],
                  "opsf.fits": ["--overpsf", n, "--overpsf_scale", "2", "--overpsf_region", "3:8,3:8"]}[n]
        p = os.path.join(ctx.dir, n)
        b = bytearray(open(p, "rb").read())
        what = []
        for _ in range(int(r.integers(1, 4))):
            k = int(r.integers(9))
            if k == 0:
                del b[int(r.integers(len(b) + 1)):]
                what.append("truncated to %d" % len(b))
            elif k == 1:
                card, v = str(r.choice(["NAXIS", "NAXIS1", "NAXIS2", "BITPIX", "SIMPLE", "END"])), str(r.choice(["0", "1", "3", "-1", "7", "999", "2147483647", "4294967296", "99999999999999999999", "T", "F", "nan", "", "8", "16", "-32", "1.5", "'abc'", "100000", "3000000"]))
                i = b.find(card.ljust(8).encode())
                if i >= 0:
                    b[i:i + 80] = ("%-8s= %20s" % (card, v)).ljust(80)[:80].encode()
                what.append("%s=%s" % (card, v))
            elif k == 2 and len(b) > 80:
                i = int(r.integers(min(len(b), 900)))
                b[i] = int(r.integers(256))
                what.append("byte %d" % i)
            elif k == 3:
                i = b.find(b"END     ")
                if i >= 0:
                    c = str(r.choice(["BSCALE  = 0", "BSCALE  =                nan", "BZERO   = 1E400", "BLANK   = 0", "BLANK   = 1.5", "NAXIS3  = 5", "NAXIS1  = 3", "GCOUNT  = 1000000", "PCOUNT  = -5", "GROUPS  = T", "EXTEND  = 7", "BSCALE  = 'x'", "XTENSION= 'IMAGE   '", "ZIMAGE  = T"]))
                    b[i:i] = c.ljust(80).encode()
                    del b[i + 160:i + 240]
                    what.append(c)
            elif k == 4:
                b = bytearray(r.integers(0, 256, int(r.choice([0, 1, 100, 2880, 5760])), dtype=np.uint8).tobytes())
                what.append("random bytes")
            elif k == 5:
                b += bytes(r.integers(0, 256, 3000, dtype=np.uint8))
                what.append("trailing bytes")
            elif k == 6:
                sh = [(0,), (5,), (3, 12, 12), (1, 12, 12), (12, 1), (1, 12), (1, 1), (2, 2), (1, 1, 12, 12), (12, 13)][int(r.integers(10))]
                imf.write_fits(p, np.ones(sh) if sh != (0,) else np.zeros((0,)))
                b = bytearray(open(p, "rb").read())
                what.append("shape %s" % (sh,))
            elif k == 7:
                v = float(r.choice([np.nan, np.inf, 0, -5, 1e308, -1e308, 1e-320]))
                imf.write_fits(p, np.full((7, 7) if "psf" in n else (12, 12), v))
                b = bytearray(open(p, "rb").read())
                what.append("all %g" % v)
            else:
                from astropy.io import fits
                h = [fits.BinTableHDU.from_columns([fits.Column("x", "D", array=np.arange(5.))]), fits.ImageHDU(np.ones((3, 3))), fits.ImageHDU()]
                fits.HDUList([fits.PrimaryHDU()] + [h[i] for i in r.permutation(3)[:int(r.integers(0, 3))]]).writeto(p, overwrite=True)
                b = bytearray(open(p, "rb").read())
                what.append("extensions")
        if r.random() < .1:
            import gzip
            b = bytearray(gzip.compress(bytes(b)))
            if r.random() < .6:
                del b[int(r.integers(len(b))):]
            what.append("gzip")
        open(p, "wb").write(bytes(b))
        self.judge(res, ctx, prog, a, "%s: %s" % (n, "; ".join(what)), timeout=40)


sys.exit(vf.main(C()))
