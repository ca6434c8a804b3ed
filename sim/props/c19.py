"""C19: an unusable settings file never stops the library from being imported, nor keeps its usable settings from taking effect."""
import json
import os
import sys

from sim import core, simio

ID = "C19"
RUNS = {"quick": 400, "thorough": 20000}
RULE = ("a run counts when its history of settings files, damage and faults differs from every other run's and the library was imported "
        "at least once with a settings file that is there")
REAL = ["import of the whole library in a new process per session, viscid._rc, viscid.vjson, PyYAML, post_rc_actions of viscid.plot.mpl_style, "
        "matplotlib's rcParams and styles"]
STUB = ["the home directory is one of the run's own; system calls on the settings file pass a layer that injects faults; where the plan says "
        "so PyYAML can't be imported"]
STATE_MEASURE = "way of writing x parser x kinds of entries x damage x fault x outcome of the parse"
PROBES = ["imports", "settings_applied", "unparsable", "invalid_entries", "no_file", "torn", "torn_but_parsable", "fault_fired", "json_parser",
          "yaml_parser", "not_a_mapping", "no_home"]
SHRINK_LISTS = ["ops", "entries"]

# path in the file, expression that shows it, values it may have
SETTINGS = [
    ("grid.Grid.longterm_field_caches", "viscid.grid.Grid.longterm_field_caches", [True, False]),
    ("readers.openggcm.GGCMFile.read_log_file", "viscid.readers.openggcm.GGCMFile.read_log_file", [True, False]),
    ("readers.openggcm.GGCMGrid.mhd_to_gse_on_read", "viscid.readers.openggcm.GGCMGrid.mhd_to_gse_on_read", ["auto", True, False]),
    ("readers.openggcm.GGCMGrid.copy_on_transform", "viscid.readers.openggcm.GGCMGrid.copy_on_transform", [True, False]),
    ("calculator.evaluator.enabled", "viscid.calculator.evaluator.enabled", [True, True, False]),
    ("readers.ggcm_logfile.GGCMLogFile.watched_classes", "viscid.readers.ggcm_logfile.GGCMLogFile.watched_classes", [["abc"], []]),
    ("readers.athena_bin.AthenaBinFileWrapper.var_type", "viscid.readers.athena_bin.AthenaBinFileWrapper.var_type", ["prim", "cons"]),
    ("grid.Grid.force_vector_layout", "viscid.grid.Grid.force_vector_layout", ["interlaced", "flat"]),
    ("mpl_style.rc_params", None, [{"savefig.dpi": 77}, {"svg.fonttype": "none", "savefig.dpi": 88}]),
    ("plot.mpl_style.rc", None, [{"pdf": {"compression": 3}}, {"pdf": {"fonttype": 42}, "ps": {"fonttype": 42}}]),
    ("mpl_style.use_styles", None, [["dark_background"], ["ggplot", "dark_background"], []]),
    ("plot.vseaborn.context", "viscid.plot.vseaborn.context", ["poster", "paper"]),
]
PARTS = {"mpl_style.rc_params": {"savefig.dpi": "rcParams['savefig.dpi']", "svg.fonttype": "rcParams['svg.fonttype']"},
         "plot.mpl_style.rc": {"pdf.compression": "rcParams['pdf.compression']", "pdf.fonttype": "rcParams['pdf.fonttype']",
                               "ps.fonttype": "rcParams['ps.fonttype']"}}
# nothing of these takes effect; what is said of them is that they don't hurt
INVALID = [
    ["nosuch.Thing.x", 1], ["grid.Nosuch.x", True], ["grid.Grid.nosuch_attr", 3], ["", 1], [".", 1], ["grid..x", 2], ["numpy.float64.x", 1],
    ["grid.Grid.longterm_field_caches.x", True], ["grid.Grid.crds.x", 1], ["readers.openggcm.nosuch.attr.x", None], ["logger.name.x.y", 1],
    ["plot.nosuch.x", {}], ["nosuch", 5], ["cython.nosuch.x", 5], ["grid.Grid", None, "key"], [5, 1], [None, True], [True, "x"], [1.5, [1]],
    ["mpl_style.use_styles.append", 1], ["readers", "x", "sub"], ["calculator.evaluator.enabled.x", True], [" ", 1],
    ["grid.Grid.fill_time.x.y", 1], ["plot.vlab.nosuch.x", 1]]
# invalid values of settings that are real
BADVALUES = {"mpl_style.use_styles": [["nosuch"], ["nosuch", "dark_background"], "nosuch", 5, None, [5, "dark_background"], {"a": 1}],
             "mpl_style.rc_params": [{"nosuch.key": 1, "savefig.dpi": 66}, {"savefig.dpi": "abc", "svg.fonttype": "none"}, [1], "x", None, 7,
                                     {5: 1, "savefig.dpi": 66}],
             "plot.mpl_style.rc": [{"nosuch": {"a": 1}, "pdf": {"compression": 4}}, {"pdf": 5, "ps": {"fonttype": 42}}, 3, [], None,
                                   {"pdf": {"nosuch": 1, "compression": 5}}, {"pdf": {"compression": "x", "fonttype": 42}}]}
FAULTS = [{"cls": "open", "act": "err", "err": "EACCES"}, {"cls": "open", "act": "err", "err": "EMFILE"},
          {"cls": "open", "act": "err", "err": "EIO"}, {"cls": "open", "act": "err", "err": "ENFILE"},
          {"cls": "read", "act": "err", "err": "EIO"}, {"cls": "read", "act": "short", "err": 0}, {"cls": "read", "act": "err", "err": "EINTR"},
          {"cls": "close", "act": "err", "err": "EIO"}, {"cls": "open", "act": "err", "err": "ESTALE"}]


def prepare():
    # what the library imports from elsewhere, but not the library
    import logging
    logging.getLogger("matplotlib").setLevel(100)
    import textwrap, distutils.version, ctypes, tempfile, fractions, xml.etree.ElementTree, zipfile  # noqa: F401,E401
    import numpy, matplotlib, matplotlib.style, matplotlib.pyplot, matplotlib.colors, yaml, h5py, numexpr  # noqa: F401,E401
    import multiprocessing.pool, scipy.optimize, scipy.interpolate, numpy.ma, dateutil.parser  # noqa: F401,E401
    if any(m == "viscid" or m.startswith("viscid.") for m in sys.modules):
        raise core.HarnessError("the library is imported already")


# ------------------------------------------------------------------ plans
def gen_file(rng):
    es = []
    for p, _, vals in rng.sample(SETTINGS, rng.randint(0, 6)):
        if p in BADVALUES and rng.random() < 0.45:
            es.append([p, rng.choice(BADVALUES[p])])
        else:
            es.append([p, rng.choice(vals)])
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        e = rng.choice(INVALID)
        if len(e) == 2 and not any(json.dumps(x[0]) == json.dumps(e[0]) for x in es):
            es.append(list(e))
    rng.shuffle(es)
    return {"entries": es, "style": rng.choice(["json", "json", "block", "block", "flow"]), "comments": rng.random() < 0.5,
            "pad": rng.choice([0, 0, 0, 0, 5000, 20000]), "bom": rng.random() < 0.03, "crlf": rng.random() < 0.1,
            "trail": rng.choice(["", "", ",", " , ", "\n", ",\n"])}


WHOLE = ["", "\n\n", "# nothing\n", "null\n", "[1, 2]\n", "5\n", "just text\n", "{", "}", "a: b: c\n", "\t: x\n", "{]}", "\x00\x01", "!!python/object/apply:os.getcwd []\n",
         "- a: 1\n- b: 2\n", "---\na: 1\n---\nb: 2\n", "*nosuch\n", "'unterminated\n", "? [a]\n: 1\n", "? {a: 1}\n: 1\n", "&a [*a]\n", "%YAML 9.9\n---\n{}",
         "[" * 600, "{}\n", "true", "\"\"", "...\n"]


def generate(rng, tier):
    ops = []
    for _ in range(rng.randint(2, 5 if tier == "quick" else 9)):
        r = rng.random()
        if r < 0.3:
            ops.append(["write", gen_file(rng)])
        elif r < 0.52:
            ops += [["write", gen_file(rng)], ["tear", round(rng.random(), 4), rng.choice(["trunc", "trunc", "zeros", "flip"])]]
        elif r < 0.64:
            ops.append(["whole", rng.randrange(len(WHOLE)), rng.random() < 0.1])
        elif r < 0.74:
            ops.append(["place", rng.choice(["missing", "dir", "dangling", "loop", "link", "binary", "nohome", "homefile", "utf16"])])
        else:
            ops.append(["write", gen_file(rng)])
        f = None
        if rng.random() < 0.3:
            f = dict(rng.choice(FAULTS))
            f.update(nth=rng.choice([0, 0, 0, 1, 2, 3]), frac=rng.choice([0.0, 0.2, 0.6]), sticky=rng.random() < 0.5 and f["err"] != "EINTR")
        ops.append(["import", {"yaml": rng.random() < 0.7, "fault": f}])
    return {"ops": ops}


def shrink(plan):
    for i, op in enumerate(plan["ops"]):
        def put(x):
            return dict(plan, ops=plan["ops"][:i] + [x] + plan["ops"][i + 1:])
        if op[0] == "write":
            for j in range(len(op[1]["entries"])):
                yield put(["write", dict(op[1], entries=op[1]["entries"][:j] + op[1]["entries"][j + 1:])])
            for k, v in (("comments", False), ("pad", 0), ("bom", False), ("crlf", False), ("style", "json"), ("trail", "")):
                if op[1].get(k, v) != v:
                    yield put(["write", dict(op[1], **{k: v})])
        elif op[0] == "import" and op[1]["fault"]:
            yield put(["import", dict(op[1], fault=None)])


def scalar(v, trail=""):
    """JSON, with commas behind last entries, or with entries on lines of their own"""
    if not trail or not isinstance(v, (list, dict)) or not v:
        return json.dumps(v)
    ws = "\n    " if trail.endswith("\n") else " "
    xs = [scalar(x, trail) for x in v] if isinstance(v, list) else ["%s: %s" % (json.dumps(k), scalar(x, trail)) for k, x in v.items()]
    a, b = "[]" if isinstance(v, list) else "{}"
    return a + ws + ("," + ws).join(xs) + trail.rstrip("\n") + ("\n  " if ws != " " else "") + b


def text_of(f):
    """the file's text"""
    lines = []
    if f["comments"]:
        lines.append("# settings")
    if f["pad"]:
        lines += ["# " + "x" * 60] * (f["pad"] // 62)
    if f["style"] == "block":
        for k, v in f["entries"]:
            lines.append("%s: %s" % (scalar(k), scalar(v, "," if f.get("trail") else "")) + (" # %s" % "note" if f["comments"] else ""))
        if not f["entries"]:
            lines.append("{}")
    elif f["style"] == "flow":
        tr = f.get("trail", "").rstrip("\n")
        lines.append("{" + ", ".join("%s: %s" % (scalar(k), scalar(v, tr)) for k, v in f["entries"]) + (tr if f["entries"] else "") + "}")
    else:
        lines.append("{")
        for k, v in f["entries"]:
            if f["comments"]:
                lines.append("  # about %s" % (k,))
            lines.append("  %s: %s," % (scalar(k), scalar(v, f.get("trail", ""))))
        lines.append("}")
    s = "\n".join(lines) + "\n"
    if f["crlf"]:
        s = s.replace("\n", "\r\n")
    return ("\ufeff" if f["bom"] else "") + s


# ------------------------------------------------------------------ what a file means
def parse(blob, with_yaml):
    """the entries of a file as a dictionary, or None if it has none"""
    import yaml
    try:
        text = blob.decode("utf-8")
    except UnicodeDecodeError:
        return None
    if with_yaml:
        try:
            text = text.replace("\r\n", "\n").replace("\r", "\n")
            v = yaml.safe_load(text)
        except Exception:       # pylint: disable=broad-except
            return None
    else:
        v = parse_json(text)
    return v if isinstance(v, dict) else None


def parse_json(text):
    """JSON with comments on lines of their own or behind entries, and commas behind last entries"""
    out = []
    for line in text.replace("\r\n", "\n").replace("\r", "\n").split("\n"):
        quoted = False
        for i, c in enumerate(line):
            if c == '"':
                quoted = not quoted
            if not quoted and (c == "#" or line.startswith("//", i)):
                line = line[:i]
                break
        out.append(line.rstrip())
    text = "\n".join(out)
    # commas that nothing but a closing bracket follows
    quoted, comma, res = False, None, []
    for c in text:
        if c == '"':
            quoted = not quoted
        if not quoted and c in "}]" and comma is not None:
            res[comma] = " "
        if not c.isspace():
            comma = len(res) if c == "," and not quoted else None
        res.append(c)
    try:
        return json.loads("".join(res))
    except Exception:           # pylint: disable=broad-except
        return None


def expected(entries, default):
    """{what to look at: value} after those entries were applied to the defaults; None where it isn't said"""
    want = dict(default)
    if entries is None:
        return want
    import matplotlib
    for path, look, vals in SETTINGS:
        if path not in entries:
            continue
        v = entries[path]
        if look is not None:
            want[path] = v
        elif path == "mpl_style.rc_params":
            if isinstance(v, dict):
                for k in v:
                    if k in PARTS[path] and valid_rc(matplotlib, k, v[k]):
                        want[k] = matplotlib.rcParams.validate[k](v[k])
        elif path == "plot.mpl_style.rc":
            if isinstance(v, dict):
                for grp, d in v.items():
                    for k in d if isinstance(d, dict) else ():
                        k2 = "%s.%s" % (grp, k)
                        if k2 in PARTS[path] and valid_rc(matplotlib, k2, d[k]):
                            want[k2] = matplotlib.rcParams.validate[k2](d[k])
        elif path == "mpl_style.use_styles":
            if isinstance(v, list):
                want["dark"] = "dark_background" in v
            elif isinstance(v, (str, tuple)):
                want["dark"] = None
    return want


def valid_rc(matplotlib, k, v):
    try:
        matplotlib.rcParams.validate[k](v)
        return True
    except Exception:           # pylint: disable=broad-except
        return False


def session(home, with_yaml, fault):
    """import the library in a process of its own and show what is set"""
    def go():
        if home is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = home
        os.environ.pop("VISCIDRC", None)
        if not with_yaml:
            sys.modules["yaml"] = None
        simio.reset()
        rule = None
        if fault:
            rule = simio.rule(fault["cls"], fault["nth"], fault["act"], fault["err"], fault["frac"], fault["sticky"], ".viscidrc")
        try:
            import viscid
        except BaseException as e:      # pylint: disable=broad-except
            simio.disarm()
            return {"err": core.exc_str(e), "fired": rule is not None and simio.fired(rule) > 0}
        fired = rule is not None and simio.fired(rule) > 0
        simio.disarm()
        viscid.logger.setLevel(100)
        import importlib
        import matplotlib
        import numpy as np
        out = {}
        for path, look, _ in SETTINGS:
            if look is not None:
                p = path.split(".")
                for n in range(len(p) - 1, 0, -1):
                    try:
                        obj = importlib.import_module(".".join(["viscid"] + p[:n]))
                        break
                    except ImportError:
                        pass
                for a in p[n:]:
                    obj = getattr(obj, a)
                out[path] = obj
        for d in PARTS.values():
            for k in d:
                out[k] = matplotlib.rcParams[k]
        out["dark"] = matplotlib.rcParams["axes.facecolor"] == "black"
        x = np.linspace(0.0, 1.0, 4)
        f = viscid.arrays2field((x, x), np.outer(x, x), name="f")
        works = [float(f["x=0.0j"].data.sum()), [int(n) for n in f.shape]]
        return {"err": None, "fired": fired, "set": json.loads(json.dumps(out)), "names": sorted(set(dir(viscid))), "works": works}
    return core.in_child(go)


# ------------------------------------------------------------------ run
def execute(plan, env):
    simio.set_root(env.root)
    home = env.path("home")
    os.makedirs(home)
    rc = os.path.join(home, ".viscidrc")
    cur = home
    blob = None
    kind = "missing"
    r = session(env.path("none"), True, None)
    if r[0] != "ok" or r[1]["err"]:
        env.bad("import-fails", "without a settings file: %s" % (r[1]["err"] if r[0] == "ok" else r,))
    ref = r[1]
    for k in ("grid.Grid.longterm_field_caches", "readers.openggcm.GGCMGrid.mhd_to_gse_on_read", "calculator.evaluator.enabled"):
        if ref["set"][k] is not False:
            env.bad("wrong-default", "%s is %r without a settings file" % (k, ref["set"][k]))

    def clear():
        if os.path.islink(rc) or os.path.isfile(rc):
            os.unlink(rc)
        elif os.path.isdir(rc):
            os.rmdir(rc)

    def put(b):
        clear()
        with open(rc, "wb") as f:
            f.write(b)

    for op in plan["ops"]:
        env.step(op[0], *op[1:])
        if op[0] == "write":
            cur, blob, kind = home, text_of(op[1]).encode(), "file"
            put(blob)
        elif op[0] == "tear" and blob:
            n = int(op[1] * len(blob))
            if op[2] == "trunc":
                blob = blob[:n]
            elif op[2] == "zeros":
                blob = blob[:n] + b"\0" * (len(blob) - n)
            else:
                blob = blob[:n] + bytes([blob[n] ^ 0x80]) + blob[n + 1:] if n < len(blob) else blob
            put(blob)
            kind = "torn"
            env.hit("torn")
            env.fault("disk:" + op[2])
        elif op[0] == "whole":
            cur, blob, kind = home, WHOLE[op[1]].encode() * (50 if op[2] else 1), "whole"
            put(blob)
        elif op[0] == "place":
            clear()
            cur, blob, kind = home, None, op[1]
            if op[1] == "dir":
                os.mkdir(rc)
            elif op[1] == "dangling":
                os.symlink(env.path("none", "such"), rc)
            elif op[1] == "loop":
                os.symlink(rc, rc)
            elif op[1] == "link":
                blob = b"calculator.evaluator.enabled: true\n"
                with open(env.path("elsewhere"), "wb") as f:
                    f.write(blob)
                os.symlink(env.path("elsewhere"), rc)
            elif op[1] == "binary":
                blob = bytes(range(256)) * 8
                put(blob)
            elif op[1] == "utf16":
                blob = "calculator.evaluator.enabled: true\n".encode("utf-16")
                put(blob)
            elif op[1] == "nohome":
                cur = env.path("nohome", "x")
            elif op[1] == "homefile":
                with open(env.path("afile"), "wb") as f:
                    f.write(b"x")
                cur = env.path("afile")
        elif op[0] == "import":
            check(env, op[1], cur, blob, kind, ref)


def check(env, o, home, blob, kind, ref):
    what = "import with %s" % ("a settings file that is %r" % core.short(blob, 200) if blob is not None else "settings file: " + kind)
    if not o["yaml"]:
        what += ", without PyYAML"
    if o["fault"]:
        what += ", %s of it: %s %s" % (o["fault"]["cls"], o["fault"]["act"], o["fault"]["err"])
    r = session(home, o["yaml"], o["fault"])
    if r[0] != "ok":
        env.bad("import-kills-the-process", "%s: %s" % (what, core.short(r[1], 300)))
    got = r[1]
    env.hit("imports")
    if got["fired"]:
        env.hit("fault_fired")
        env.fault("%s:%s:%s" % (o["fault"]["cls"], o["fault"]["act"], o["fault"]["err"]))
    env.ev("->", got["err"] or "ok", got["fired"])
    if got["err"]:
        env.bad("import-fails", "%s: %s" % (what, got["err"]))
    # an entry may add names, but never take any away
    lost = sorted(set(ref["names"]) - set(got["names"]))
    if lost:
        env.bad("import-incomplete", "%s: viscid has no %s" % (what, lost[:9]))
    if got["works"] != ref["works"]:
        env.bad("import-incomplete", "%s: a field shows %s" % (what, got["works"]))
    entries = parse(blob, o["yaml"]) if blob is not None else None
    may = [expected(json.loads(json.dumps(entries)) if entries is None or all(isinstance(k, str) for k in entries) else
                    {k: v for k, v in entries.items() if isinstance(k, str)}, ref["set"])]
    if got["fired"] and o["fault"]["act"] == "err" and o["fault"]["err"] != "EINTR":
        # a file that can't be read
        may = [dict(ref["set"])] if o["fault"]["cls"] != "close" else may + [dict(ref["set"])]
    diffs = []
    for want in may:
        want = json.loads(json.dumps(want))
        diffs.append(["%s is %r, not %r" % (k, got["set"][k], want[k]) for k in sorted(want) if want[k] is not None and got["set"][k] != want[k]])
    if all(diffs):
        env.bad("wrong-settings", "%s: %s" % (what, "; ".join(diffs[0])))
    # probes
    env.hit("yaml_parser" if o["yaml"] else "json_parser")
    if blob is None:
        env.hit("no_home" if kind in ("nohome", "homefile") else "no_file")
    elif entries is None:
        env.hit("unparsable")
    else:
        if kind == "torn":
            env.hit("torn_but_parsable")
        known = [p for p, _, _ in SETTINGS]
        if any(k not in known for k in entries):
            env.hit("invalid_entries")
        if may[0] != ref["set"]:
            env.hit("settings_applied")
    if kind == "whole":
        env.hit("not_a_mapping")
    env.sig(kind, o["yaml"], entries is None, sorted(str(k) for k in entries or ()), got["fired"] and (o["fault"]["cls"], o["fault"]["act"]))
