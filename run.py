#!/usr/bin/env python3
"""Build the library from /repo's working tree and run one bounded exhaustive check.

  run.py PROP [--tier quick|thorough]      decide one property
  run.py PROP --replay FILE                re-execute one recorded counterexample
  run.py --build                           build only (setup)
"""
import sys, os, subprocess, hashlib, json, glob, time, shutil, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from registry import PROPS

LIB = os.path.join(REPO, "src/tool1cd")
CLI = os.path.join(REPO, "src/ctool1cd")
GUI = os.path.join(REPO, "src/gtool1cd")
BASE = ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-w", "-fPIC",
        "-DBOOST_ALL_NO_LIB", "-I" + LIB, "-I" + os.path.join(LIB, "SystemClasses"), "-I" + CLI, "-include", "cstdint"]
PCH = """#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <array>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <iomanip>
#include <functional>
#include <boost/filesystem.hpp>
#include <boost/filesystem/fstream.hpp>
#include <boost/regex.hpp>
#include <boost/algorithm/string.hpp>
#include <boost/uuid/uuid.hpp>
#include <boost/uuid/uuid_io.hpp>
#include <boost/uuid/uuid_generators.hpp>
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def sources():
    cpp = [p for d in ("", "cfapi", "SystemClasses") for p in glob.glob(os.path.join(LIB, d, "*.cpp"))]
    hdr = [p for ext in ("h", "hpp") for p in glob.glob(os.path.join(LIB, "**", "*." + ext), recursive=True)]
    cli = glob.glob(os.path.join(CLI, "*.cpp"))
    clih = glob.glob(os.path.join(CLI, "*.h"))
    return sorted(cpp), sorted(hdr), sorted(cli), sorted(clih)


def qt_flags(*mods):
    r = subprocess.run(["pkg-config", "--cflags"] + list(mods), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    c = r.stdout.split() if r.returncode == 0 else []
    if not c:
        q = "/usr/include/x86_64-linux-gnu/qt6"
        c = ["-I" + q, "-I" + q + "/QtCore", "-I" + q + "/QtGui", "-I" + q + "/QtWidgets", "-I" + q + "/QtCore5Compat", "-I/usr/lib/x86_64-linux-gnu/qt6/mkspecs/linux-g++"]
    return c


def qt_tool(name):
    t = next((m for m in ("/usr/lib/qt6/libexec/" + name, shutil.which(name)) if m and os.path.exists(m)), None)
    if not t:
        die(name + " not found")
    return t


def gui_sources(tmp, windows=False):
    """The models behind the windows (no widgets) or, with windows, all of gtool1cd but its main.cpp;
    moc output for those headers that need it, uic output for the forms. Returns sources, headers, include flags."""
    if windows:
        dirs = ["", "models", "BlobViewer", "QHexEdit", "QHexEdit/document", "QHexEdit/document/buffer", "QHexEdit/document/commands"]
        src = sorted(p for d in dirs for p in glob.glob(os.path.join(GUI, d, "*.cpp")) if os.path.basename(p) != "main.cpp")
        hdr = sorted(p for d in dirs for p in glob.glob(os.path.join(GUI, d, "*.h")))
    else:
        src = sorted(glob.glob(os.path.join(GUI, "models", "*.cpp"))) + [os.path.join(GUI, "cache.cpp")]
        hdr = sorted(glob.glob(os.path.join(GUI, "models", "*.h"))) + [os.path.join(GUI, "cache.h")]
    jobs, inc = [], []
    for h in hdr:
        with open(h, encoding="utf-8", errors="replace") as f:
            text = f.read()
        if "Q_OBJECT" in text or "Q_GADGET" in text:
            out = os.path.join(tmp, "moc_" + os.path.basename(h).replace(".", "_") + "." + hashlib.sha256((h + text).encode()).hexdigest()[:12] + ".cpp")
            jobs.append(([qt_tool("moc"), h, "-o"], out))
            src.append(out)
    if windows:
        ui = sorted(p for d in dirs for p in glob.glob(os.path.join(GUI, d, "*.ui")))
        ud = os.path.join(tmp, "ui-" + tree_hash(ui, "ui"))
        os.makedirs(ud, exist_ok=True)
        inc = ["-I" + ud] + ["-I" + os.path.join(GUI, d) for d in dirs[2:4]]
        hdr = hdr + ui
        jobs += [([qt_tool("uic"), u, "-o"], os.path.join(ud, "ui_" + os.path.basename(u)[:-3] + ".h")) for u in ui]

    def one(job):
        cmd, out = job
        if not os.path.exists(out):
            r = sh(cmd + [out + ".tmp"])
            if r.returncode:
                return r.stdout[-2000:]
            os.rename(out + ".tmp", out)
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        die("moc or uic: " + errs[0])
    return src, hdr, inc


def die(msg):
    sys.stderr.write("check error: " + msg + "\n")
    sys.exit(3)


def build_one(args):
    src, obj, flags = args
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    r = sh(["g++"] + flags + ["-c", src, "-o", tmp])
    if r.returncode:
        return "%s\n%s" % (src, r.stdout[-4000:])
    os.rename(tmp, obj)
    return None


QTLIBS = {"h_gui": ["-lQt6Gui", "-lQt6Core"], "h_win": ["-lQt6Widgets", "-lQt6Core5Compat", "-lQt6Gui", "-lQt6Core"]}


def qt_pch(flags):
    fl = [f for f in flags if not f.startswith("-I" + BUILD)]
    pd = os.path.join(BUILD, "pchqt-" + hashlib.sha256(" ".join(fl).encode()).hexdigest()[:12])
    h = os.path.join(pd, "qt.hpp")
    if not os.path.exists(os.path.join(pd, "ok")):
        os.makedirs(pd, exist_ok=True)
        with open(h, "w") as f:
            f.write(PCH + "#include <QtCore>\n#include <QtGui>\n#include <QtWidgets>\n")
        r = sh(["g++"] + flags + ["-x", "c++-header", h, "-o", h + ".gch"])
        if r.returncode:
            die("precompiled header: " + r.stdout[-3000:])
        open(os.path.join(pd, "ok"), "w").close()
    return h


def build(harnesses, tolerant=False):
    """Compile library + CLI + harness objects (cached by content) and link; returns {harness: exe}.
    tolerant: a harness that does not compile is reported and left out."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    cpp, hdr, cli, clih = sources()
    if not cpp:
        die("no sources under " + LIB)
    hh = tree_hash(hdr + clih, " ".join(BASE))
    hhdr = glob.glob(os.path.join(VERIF, "harness", "*.hpp"))
    pd = os.path.join(BUILD, "pch-" + hashlib.sha256((" ".join(BASE) + PCH).encode()).hexdigest()[:12])
    lib_flags = ["-std=c++11"] + BASE
    if not os.path.exists(os.path.join(pd, "ok")):
        os.makedirs(pd, exist_ok=True)
        with open(os.path.join(pd, "pch.hpp"), "w") as f:
            f.write(PCH)
        r = sh(["g++"] + lib_flags + ["-x", "c++-header", os.path.join(pd, "pch.hpp"), "-o", os.path.join(pd, "pch.hpp.gch")])
        if r.returncode:
            die("precompiled header: " + r.stdout[-3000:])
        open(os.path.join(pd, "ok"), "w").close()
    inc = ["-include", os.path.join(pd, "pch.hpp")]
    jobs, libobjs, harobjs = [], [], {}

    def obj(src, flags, extra):
        k = tree_hash([src], extra + " ".join(flags))
        return os.path.join(BUILD, os.path.basename(src) + "." + k + ".o")
    for s in cpp:
        o = obj(s, lib_flags, hh); libobjs.append(o); jobs.append((s, o, lib_flags + inc))
    for s in cli:
        fl = lib_flags + (["-Dmain=ctool1cd_main"] if "Main" in s else [])
        o = obj(s, fl, hh); libobjs.append(o); jobs.append((s, o, fl + inc))
    hf = ["-std=c++14"] + BASE
    hk = tree_hash(hhdr, hh)
    extra, needs = {}, {}
    for h in harnesses:
        if h in QTLIBS:
            gs, gh, gi = gui_sources(BUILD, h == "h_win")
            gf = ["-std=c++17"] + BASE + ["-I" + GUI] + gi + qt_flags(*(["Qt6Gui"] if h == "h_gui" else ["Qt6Widgets", "Qt6Core5Compat"]))
            if h == "h_win":
                gf += ["-include", qt_pch(gf)]
            gk = tree_hash(gh, hk)
            extra[h] = []
            for s in gs + [os.path.join(VERIF, "harness", h + ".cpp")]:
                o = obj(s, gf, gk); jobs.append((s, o, gf)); needs[o] = h
                if s.startswith(os.path.join(VERIF, "harness")): harobjs[h] = o
                else: extra[h].append(o)
            continue
        s = os.path.join(VERIF, "harness", h + ".cpp")
        o = obj(s, hf, hk); harobjs[h] = o; jobs.append((s, o, hf))
    jobs.sort(key=lambda j: (j[0].startswith(VERIF), os.path.getsize(j[0])), reverse=True)
    with ThreadPoolExecutor(8) as ex:
        res = list(zip(jobs, ex.map(build_one, jobs)))
    errs = [e for j, e in res if e and not (tolerant and (j[1] in harobjs.values() or j[1] in needs))]
    if errs:
        die("compilation failed:\n" + "\n".join(errs[:3]))
    for j, e in res:
        if e:
            sys.stderr.write("left out: " + e + "\n")
            harnesses = [h for h in harnesses if harobjs[h] != j[1] and needs.get(j[1]) != h]
    exes = {}
    for h in harnesses:
        key = hashlib.sha256(" ".join(libobjs + [harobjs[h]] + extra.get(h, [])).encode()).hexdigest()[:20]
        exe = os.path.join(BUILD, h + "." + key)
        if not os.path.exists(exe):
            r = sh(["g++", "-fsanitize=address", "-o", exe + ".tmp"] + [harobjs[h]] + extra.get(h, []) + libobjs + QTLIBS.get(h, []) +
                   ["-lboost_filesystem", "-lboost_regex", "-lboost_system", "-lz", "-lpthread"])
            if r.returncode:
                die("link failed:\n" + r.stdout[-4000:])
            os.rename(exe + ".tmp", exe)
        exes[h] = exe
    # keep the cache small: drop objects not used for two days
    now = time.time()
    used = set(libobjs) | set(harobjs.values()) | set(exes.values()) | set(needs)
    for p in glob.glob(os.path.join(BUILD, "*")):
        if p in used:
            try:
                os.utime(p)
            except OSError:
                pass
        elif os.path.isfile(p) and now - os.path.getmtime(p) > 2 * 3600 and not p.endswith(".lock"):
            os.unlink(p)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return exes


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            l = l.strip()
            if l.startswith("finding: "):
                # finding: property=ID sig=SIGNATURE scenario=SCENARIO|* :: description
                head, _, desc = l[len("finding: "):].partition(" :: ")
                d = dict(x.split("=", 1) for x in head.split(" ") if "=" in x)
                d["desc"] = desc
                out.append(d)
    return out


def scratch_root():
    for d in ("/dev/shm", os.environ.get("TMPDIR", ""), "/tmp"):
        if d and os.path.isdir(d) and os.access(d, os.W_OK):
            try:
                st = os.statvfs(d)
                if st.f_bavail * st.f_frsize > 3 << 30:
                    return d
            except OSError:
                pass
    return "/tmp"


def run(exe, args):
    root = tempfile.mkdtemp(prefix="vp1cd.", dir=scratch_root())
    out = os.path.join(root, "out.json")
    env = dict(os.environ)
    env.update(LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC", TMPDIR=root,
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=3000:"
                            "symbolize=1:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=6:"
                            "handle_abort=1:alloc_dealloc_mismatch=0:detect_odr_violation=0")
    try:
        os.mkdir(os.path.join(root, "d"))
        r = subprocess.run([exe] + args + ["--out", out, "--dir", os.path.join(root, "d")], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors="replace")
        if r.returncode != 0 or not os.path.exists(out):
            die("harness exited with %d\n%s\n%s" % (r.returncode, r.stdout[-2000:], r.stderr[-4000:]))
        with open(out, encoding="utf-8", errors="replace") as f:
            return json.load(f)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    av = sys.argv[1:]
    if not av:
        print(__doc__); return 2
    if av[0] == "--build":
        build(sorted({p["harness"] for p in PROPS.values() if p["harness"]}), tolerant=True)
        return 0
    prop = av[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = only = None
    jobs = "8"
    i = 1
    while i < len(av):
        if av[i] == "--tier": tier = av[i + 1]; i += 2
        elif av[i] == "--replay": replay = av[i + 1]; i += 2
        elif av[i] == "--only": only = av[i + 1]; i += 2
        elif av[i] == "--jobs": jobs = av[i + 1]; i += 2
        else: die("bad argument " + av[i])
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if prop not in PROPS:
        die("unknown property " + prop)
    P = PROPS[prop]
    t0 = time.time()
    exe = build([P["harness"]])[P["harness"]]
    tb = time.time() - t0
    args = ["--prop", prop, "--tier", tier, "--jobs", jobs]
    if replay:
        with open(replay, encoding="utf-8") as f:
            only = json.load(f)["scenario"]
    if only:
        res = run(exe, args + ["--only", only])
        for f in res["failures"]:
            print("FAILS: [%s] %s\n%s" % (f["sig"], f["scenario"], f["msg"]))
        if not res["scenarios"]:
            print("no such scenario: " + only)
        return 1 if res["failures"] else 0
    res = run(exe, args)
    known = [k for k in known_findings() if k.get("property") == prop]
    bad, seen_known, unconfirmed = [], {}, []
    for f in res["failures"]:
        if not f["confirmed"]:
            unconfirmed.append(f); continue
        k = next((k for k in known if k["sig"] == f["sig"] and k.get("scenario", "*") in ("*", f["scenario"])), None)
        if k: seen_known[k["sig"] + " " + k.get("scenario", "*")] = k
        else: bad.append(f)
    for k in known:
        if k["sig"] + " " + k.get("scenario", "*") in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["desc"]))
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    for old in glob.glob(os.path.join(rdir, prop + "-*.json")):
        os.unlink(old)
    lines = []
    for n, f in enumerate(sorted(bad, key=lambda f: len(f["scenario"]))):
        path = os.path.join(rdir, "%s-%d.json" % (prop, n))
        with open(path, "w", encoding="utf-8") as o:
            json.dump({"property": prop, "tier": tier, "scenario": f["raw"], "signature": f["sig"], "how": f["how"], "message": f["msg"],
                       "replay": "python3 run.py %s --tier %s --replay %s" % (prop, tier, os.path.relpath(path, VERIF))}, o, indent=1, ensure_ascii=False)
        print("counterexample [%s] %s (%d scenario(s)): %s" % (f["sig"], f["scenario"], f["count"], f["msg"][:1500]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
    if res["transitions"] == 0 or res["scenarios"] < P.get("min_scenarios", 2):
        if not bad:
            die("vacuous run: %d scenarios, %d transitions" % (res["scenarios"], res["transitions"]))
    wall = time.time() - t0
    cov = {"states": res["states"], "transitions": res["transitions"], "traces_validated_against_impl": res["scenarios"],
           "samples": res["samples"] or [""], "exhaustive": bool(res["complete"]), "nontrivial_scenarios": res["nontrivial"], "bounds": P["bounds"][tier] if isinstance(P["bounds"], dict) else P["bounds"],
           "explanation": P["explain"], "notes": res["notes"], "build_s": round(tb, 1), "unreproduced": len(unconfirmed)}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P.get("level", "model_checking"), "coverage": cov,
          "assumptions": P.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(bad)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w", encoding="utf-8") as o:
        json.dump(ev, o, indent=1, ensure_ascii=False)
    for f in unconfirmed:
        print("note: not reproduced, ignored: [%s] %s: %s" % (f["sig"], f["scenario"], f["msg"][:300]))
    print("%s %s: %d scenarios, %d transitions, %d distinct states, complete=%s, build %.1fs, total %.1fs, violations=%d" %
          (prop, tier, res["scenarios"], res["transitions"], res["states"], res["complete"], tb, wall, len(bad)))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
