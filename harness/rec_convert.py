"""Legacy inputs of Convert.tla written as Python files and converted with the real converter.

usage: rec_convert.py SCRIPTS.json SEED NPROC OUT DIR
"""
import json, random as R, shutil
from env import *
import rec_model
from rec_model import LEGACY, SERIES, TEXTS, num
import ramp.ramp_convert_old_input_files as conv

CWD_PATH = list(sys.path)


def lit(p, s):
    if p in TEXTS:
        return repr(s)
    if p == "power" and s in SERIES:
        return "pd.DataFrame(%r)" % (SERIES[s],)
    return s


def text(f, r):
    imports = dict(core="from core import User, np", two="from core import User\nfrom core import np",
                   comment="from core import User, np\n# formerly it was: from core import *", inside="if True:\n    from core import User, np",
                   ramp="from ramp.core.core import User", short="from ramp import User", inline="import numpy as np; from ramp.core.core import User")[f["look"]]
    out = ["# -*- coding: utf-8 -*-", '"""', "Input data definition \u00e9", '"""', "import pandas as pd", imports, ""]
    many = r.choice(("N", "houses.N"))
    if f["helper"]:
        out.insert(-1, "from houses import N" if many == "N" else "import houses")
    n = lambda u: many if f["helper"] else u["n"]
    if r.random() < 0.5:
        out += ["User_list = []", ""]
        for i, u in enumerate(f["users"]):
            out += ["U%d = User(%r, %s, %s)" % (i + 1, u["name"], n(u), u["pref"]), "User_list.append(U%d)" % (i + 1)]
    else:
        for i, u in enumerate(f["users"]):
            out += ["U%d = User(user_name=%r, num_users=%s, user_preference=%s)" % (i + 1, u["name"], n(u), u["pref"])]
        out += ["User_list = [%s]" % ", ".join("U%d" % (i + 1) for i in range(len(f["users"])))]
    out += ["hidden = []", "every = []", ""]
    for a in f["apps"]:
        args = {} if a["args"] == [] else dict(a["args"])
        give = []
        if a["form"] == "legacy":
            for p in LEGACY[:8]:
                if p not in args:
                    break
                give.append(lit(p, args.pop(p)))
            give += ["%s=%s" % ("thermal_P_var" if p == "thermal_p_var" else p, lit(p, s)) for p, s in args.items()]
            call = "U%d.Appliance(%s)" % (a["u"], ", ".join(give))
        else:
            call = "U%d.add_appliance(%s)" % (a["u"], ", ".join("%s=%s" % (p, lit(p, s)) for p, s in args.items()))
        v = a["var"]
        if v:
            out.append("%s = %s" % (v, call))
        else:
            out.append("hidden.append(%s)" % call)
            v = "hidden[-1]"
        out.append("every.append(%s)" % v)
        w = {} if a["wins"] == [] else a["wins"]
        if w:
            if r.random() < 0.5:
                out.append("%s.windows(%s, %s, %s, %s)" % (v, w["window_1"], w["window_2"], w["random_var_w"], w["window_3"]))
            else:
                out.append("%s.windows(%s)" % (v, ", ".join("%s=%s" % x for x in w.items())))
        for c in a["cyc"]:
            out.append("%s.specific_cycle_%d(%s)" % (v, c["k"], ", ".join("%s=%s" % x for x in ({} if c["args"] == [] else c["args"]).items())))
        if a["beh"]:
            out.append("%s.cycle_behaviour(%s)" % (v, ", ".join("%s=%s" % x for x in a["beh"].items())))
        out.append("")
    for b in f["aliases"]:
        out.append("%s = every[%d]" % (b["var"], b["app"] - 1))
    if r.random() < 0.3:
        out += ['"""The end"""']
    if r.random() < 0.4:
        out.insert(r.choice((0, 5, len(out))), r.choice(("# to be converted with ramp_convert_old_input_files.py", "  # Code automatically added by hand, not by ramp_convert_old_input_files.py",
                                                        "note = 'Code automatically added by ramp_convert_old_input_files.py'", "# a.name = i", "# User_list, Appliance, ramp.core.core")))
    s = "\n".join(out)
    if r.random() < 0.7:
        s += "\n"
    return s.replace("\n", "\r\n") if r.random() < 0.15 else s


def describe(us):
    return [dict(name=u.user_name if isinstance(u.user_name, str) else repr(u.user_name), n=num(u.num_users), pref=num(u.user_preference),
                 apps=[rec_model.par(a) for a in u.App_list]) for u in us]


def content(p):
    with open(p, "rb") as f:
        return f.read()


def play(s, m, seed, out, root):
    r = R.Random("convert%d-%d" % (seed, m))
    top = os.path.join(root, "run%d-%d" % (os.getpid(), m))
    os.makedirs(top)
    os.chdir(top)
    dirs = {1: "", 2: "in put", 3: "x.y", 4: os.path.join("deep", "2024"), 101: "res", 102: "res 2"}
    for d in dirs.values():
        os.makedirs(os.path.join(top, d), exist_ok=True)
    for k, d in dirs.items():
        if k < 100:
            with open(os.path.join(top, d, "houses.py"), "w") as fp:
                fp.write("N = %d\n" % (20 + k))
    sys.modules.pop("houses", None)
    rec = dict(m=m, fs=s["fs"], ev=[])
    try:
        paths = []
        for f in s["fs"]:
            p = os.path.join(dirs[f["place"]], f["stem"] + ".py")
            with open(p, "w", newline="", encoding="utf-8") as fp:
                fp.write(text(f, r))
            paths.append(p)
        for o in s["ops"]:
            e = dict(o, res="ok", altered=[], ran=[[] for _ in paths], xlsx=[], other=[])
            before = [content(p) for p in paths]
            times = {}
            give = [r.choice((paths[i - 1], os.path.join(top, paths[i - 1]), os.path.join(".", paths[i - 1]))) for i in o["which"]]
            outdir = None if o["out"] == 0 else r.choice((dirs[100 + o["out"]], os.path.join(top, dirs[100 + o["out"]])))
            for d, _, ff in os.walk(top):
                for n in ff:
                    if n.endswith(".xlsx"):
                        times[os.path.join(d, n)] = os.stat(os.path.join(d, n)).st_mtime_ns
            try:
                with guard(60):
                    if o["how"] == "cli":
                        sys.argv = ["ramp_convert", "-i"] + give + (["-o", outdir] if outdir else []) + (["--suffix", o["suffix"]] if o["suffix"] else [])
                        conv.cli()
                    else:
                        kw = dict(keep_names=o["keep"]) if not o["keep"] or r.random() < 0.5 else {}
                        if outdir or r.random() < 0.3:
                            kw["output_path"] = outdir
                        if o["suffix"] or r.random() < 0.3:
                            kw["suffix"] = o["suffix"]
                        conv.convert_old_user_input_file(give[0], **kw)
            except (Exception, SystemExit) as x:
                e["res"] = "hang" if isinstance(x, Hang) else "failed"
                e["msg"] = "%s %s" % (type(x).__name__, str(x)[:200])
            sys.path[:] = CWD_PATH
            e["altered"] = [content(p) != b for p, b in zip(paths, before)]
            left = sys.modules.get("houses")
            for i in set(o["which"]):
                sys.modules.pop("houses", None)
                sys.path.insert(0, os.path.join(top, dirs[s["fs"][i - 1]["place"]]))
                try:
                    with guard(60):
                        g = {"__name__": "again", "__file__": paths[i - 1]}
                        exec(compile(content(paths[i - 1]), paths[i - 1], "exec"), g)
                        e["ran"][i - 1] = describe(g["User_list"])
                except Exception as x:
                    e["ran"][i - 1] = [dict(name="%s %s" % (type(x).__name__, str(x)[:100]), n="0", pref="0", apps=[])]
                sys.path[:] = CWD_PATH
            sys.modules.pop("houses", None)
            if left:
                sys.modules["houses"] = left
            for d, _, ff in os.walk(top):
                for n in ff:
                    p = os.path.join(d, n)
                    rel = os.path.relpath(d, top)
                    if n.endswith(".xlsx"):
                        place = [k for k, v in dirs.items() if (v or ".") == rel]
                        x = dict(place=place[0] if place else 0, stem=n[:-5], read=times.get(p) != os.stat(p).st_mtime_ns, users=[])
                        if x["read"]:
                            try:
                                with guard(60):
                                    uc = UseCase()
                                    uc.load(p)
                                    x["users"] = describe(uc.users)
                            except Exception as err:
                                e["res"], e["msg"] = "unreadable", repr(err)[:200]
                        e["xlsx"].append(x)
                    elif os.path.relpath(p, top) not in paths and "__pycache__" not in p and n != "houses.py":
                        e["other"].append(os.path.relpath(p, top))
            rec["ev"].append(e)
            if e["res"] != "ok":
                break
    finally:
        os.chdir(root)
        shutil.rmtree(top, ignore_errors=True)
    out(rec)


def main():
    scripts = json.load(open(sys.argv[1]))
    seed, nproc, path, root = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5]
    os.makedirs(root, exist_ok=True)

    def work(i, part):
        with open("%s.%d" % (path, i), "w") as f:
            for m in part:
                play(scripts[m], m, seed, lambda e: f.write(json.dumps(e) + "\n"), root)

    sys.exit(1 if shards(nproc, work, list(range(len(scripts)))) else 0)


if __name__ == "__main__":
    main()
