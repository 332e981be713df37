"""Builds a conformance driver from /repo's current working tree (no CMake, no network).

The qcoro sources are taken by glob from /repo/qcoro/<module>; moc is run on every file that
declares Q_OBJECT/Q_GADGET, exactly as CMake's AUTOMOC would; export headers and the CamelCase
forwarding headers, which CMake generates, are generated into the build directory.
"""
import glob, os, re, subprocess, sys, fcntl, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MOC = next((p for p in ("/usr/lib/qt6/libexec/moc", "/usr/lib/qt6/bin/moc") if os.path.exists(p)), "moc")
QTINC = "/usr/include/x86_64-linux-gnu/qt6"

# module -> Qt modules needed
QT = {
    "core": ["Core"], "network": ["Core", "Network"],
    "websockets": ["Core", "Network", "WebSockets"], "dbus": ["Core", "DBus"],
    "qml": ["Core", "Network", "Gui", "Qml"],
    "quick": ["Core", "Network", "Gui", "Qml", "QmlModels", "OpenGL", "Quick"],
    "test": ["Core", "Test"],
}
PRIVATE = {"qml": ["QtQml/6.4.2", "QtQml/6.4.2/QtQml", "QtCore/6.4.2", "QtCore/6.4.2/QtCore"]}
PRIVATE["test"] = ["QtTest/6.4.2", "QtTest/6.4.2/QtTest", "QtCore/6.4.2", "QtCore/6.4.2/QtCore"]
PRIVATE["quick"] = PRIVATE["qml"] + ["QtQuick/6.4.2", "QtQuick/6.4.2/QtQuick", "QtGui/6.4.2", "QtGui/6.4.2/QtGui"]

DEFS = ("-DQT_NO_CAST_FROM_ASCII -DQT_NO_CAST_FROM_BYTEARRAY -DQT_NO_CAST_TO_ASCII -DQT_NO_FOREACH "
        "-DQT_NO_KEYWORDS -DQT_NO_NARROWING_CONVERSIONS_IN_CONNECT -DQT_NO_URL_CAST_FROM_STRING "
        "-DQT_STRICT_ITERATORS -DQT_USE_STRINGBUILDER -DQT_NO_DEBUG -DQT_FORCE_ASSERTS "
        "-D_GLIBCXX_ASSERTIONS")


class BuildError(Exception):
    pass


def _has_moc(path):
    try:
        return re.search(r"^\s*(Q_OBJECT|Q_GADGET|Q_NAMESPACE)\b", open(path, errors="replace").read(), re.M)
    except OSError:
        return None


def _export_header(base):
    u = base.upper()
    return (f"#pragma once\n#define {u}_EXPORT\n#define {u}_NO_EXPORT\n"
            f"#define {u}_DEPRECATED\n#define {u}_DEPRECATED_EXPORT\n#define {u}_DEPRECATED_NO_EXPORT\n")


def _write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def build(driver, modules, sources, san="address", extra_qt=(), extra_flags=(), ldflags=(), builddir=None):
    """Returns the path of the driver binary."""
    bd = builddir or os.path.join(VERIF, "build", driver)
    os.makedirs(bd, exist_ok=True)
    lock = open(os.path.join(bd, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    gen = os.path.join(bd, "gen")
    for m in ("core", "network", "websockets", "dbus", "qml", "quick"):
        _write(f"{gen}/qcoro{m}_export.h", _export_header("qcoro" + m))
    # forwarding headers QCoro/QCoroTask -> "qcorotask.h"
    for h in glob.glob(f"{REPO}/qcoro/*.h") + glob.glob(f"{REPO}/qcoro/*/*.h"):
        n = os.path.basename(h)
        low = n[:-2]
        if not low.startswith("qcoro"):
            continue
        camel = {"qcorotask": "QCoroTask"}.get(low)
        for src in glob.glob(f"{REPO}/qcoro/**/CMakeLists.txt", recursive=True):
            for w in re.findall(r"\bQCoro\w*", open(src).read()):
                if w.lower() == low:
                    camel = w
        _write(f"{gen}/QCoro/{camel or low}", f'#include "{n}"\n')
    qts = []
    for m in modules:
        for q in QT[m]:
            if q not in qts:
                qts.append(q)
    for q in extra_qt:
        if q not in qts:
            qts.append(q)
    inc = [gen, f"{VERIF}/harness/include", f"{VERIF}/harness", REPO, f"{REPO}/qcoro"]
    inc += [f"{REPO}/qcoro/{m}" for m in ("core", "network", "websockets", "dbus", "qml", "quick", "test")
            if os.path.isdir(f"{REPO}/qcoro/{m}")]
    sysinc = [QTINC] + [f"{QTINC}/Qt{q}" for q in qts]
    for m in modules:
        sysinc += [f"{QTINC}/{p}" for p in PRIVATE.get(m, [])]
    defs = DEFS + "".join(f" -DQT_{q.upper()}_LIB" for q in qts)
    sanf = f"-fsanitize={san}" if san else ""
    cxx = (f"-std=gnu++20 -fcoroutines -fPIC -g1 -O0 -w {sanf} {defs} "
           + " ".join(extra_flags) + " "
           + " ".join("-I" + i for i in inc) + " " + " ".join("-isystem " + i for i in sysinc))
    mocinc = " ".join("-I" + i for i in inc + sysinc)
    srcs = []
    for m in modules:
        srcs += sorted(glob.glob(f"{REPO}/qcoro/{m}/**/*.cpp", recursive=True))
    srcs += sorted(glob.glob(f"{REPO}/qcoro/impl/*.cpp")) + sorted(glob.glob(f"{REPO}/qcoro/*.cpp"))
    hdrs = []
    for m in modules:
        hdrs += sorted(glob.glob(f"{REPO}/qcoro/{m}/**/*.h", recursive=True))
    srcs += [s if s.startswith("/") else f"{VERIF}/harness/{s}" for s in sources]
    hdrs += sorted(glob.glob(f"{VERIF}/harness/include/*.h"))
    n = []
    n.append("ninja_required_version = 1.5")
    n.append(f"cxx = {cxx}")
    n.append(f"mocflags = {defs} {mocinc}")
    n.append("rule cc\n command = g++ $cxx -MD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc")
    n.append(f"rule moc\n command = {MOC} $mocflags $in -o $out")
    libs = " ".join(f"-lQt6{q}" for q in qts)
    n.append(f"rule link\n command = g++ {sanf} -rdynamic $in -o $out {libs} {' '.join(ldflags)} -lpthread -ldl")
    objs, mocs = [], []
    for h in hdrs:
        if _has_moc(h):
            o = f"moc_{os.path.basename(h)[:-2]}.cpp"
            n.append(f"build {o}: moc {h}")
            n.append(f"build {o}.o: cc {o} || {{MOCS}}")
            mocs.append(o)
            objs.append(o + ".o")
    seen = set()
    for s in srcs:
        b = os.path.basename(s)
        o = b
        while o in seen:
            o = "_" + o
        seen.add(o)
        txt = open(s, errors="replace").read()
        if re.search(r'#include\s+"%s\.moc"' % re.escape(b[:-4]), txt):
            if f"gen/{b[:-4]}.moc" not in mocs:
                n.append(f"build gen/{b[:-4]}.moc: moc {s}")
                mocs.append(f"gen/{b[:-4]}.moc")
        n.append(f"build {o}.o: cc {s} || {{MOCS}}")
        objs.append(o + ".o")
    n.append(f"build {driver}: link {' '.join(objs)}")
    n.append(f"default {driver}")
    text = "\n".join(n).replace("{MOCS}", " ".join(m for m in mocs)) + "\n"
    # an order-only dependency of a moc output on itself is a cycle only for cc rules of that output: fine
    _write(f"{bd}/build.ninja", text)
    r = subprocess.run(["ninja", "-C", bd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("\n".join(l[:600] for l in r.stdout.splitlines() if not l.startswith(("[","g++ ","ninja: Entering")))[:6000])
    return os.path.join(bd, driver)
