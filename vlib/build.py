"""Build the simulator executables from /repo's current working tree.

Everything goes to /verif/build (git-ignored).  The source lists are found by
globbing /repo/src, so added or split files are picked up.  Objects are kept by
ninja; a stale object is never used because ninja tracks headers by depfile.
"""
import os, subprocess, glob, sys, fcntl, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PLX_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.environ.get("PLX_BUILD", os.path.join(VERIF, "build"))

CONFIG_ON = """CASSERT CERRNO CFLOAT CINTTYPES CLIMITS CMATH CSIGNAL CSTDDEF CSTDINT CSTDIO
CSTDLIB CSTRING CTIME ASSERT_H ERRNO_H FLOAT_H INTTYPES_H LIMITS_H MATH_H SIGNAL_H STDDEF_H
STDINT_H STDIO_H STDLIB_H STRING_H TIME_H GOOD_INTTYPES_H GOOD_STDINT_H DLFCN_H FCNTL_H
PTHREAD_H SEMAPHORE_H UNISTD_H SYS_TIME_H NETDB_H POLL_H ARPA_INET_H NETINET_IN_H SYS_SOCKET_H
SYS_TIMES_H CLOCK_GETTIME CTIME_R GETITIMER GETTIMEOFDAY LOCALTIME_R SETITIMER
TIMER_CREATE GETHOSTBYNAME GETPID ISATTY CEIL FLOOR ROUND SQRT TRUNC SUSECONDS_T
DEBUG_LISTENER LUV_LISTENER UDP_ADAPTER""".split()

CORE = ["utils", "value", "expr", "intfc", "exec", "xml-parser"]
# plexil-config.h is ours: static linking, so neither PIC (dynamic loading of
# adapters) nor the adapters' own init calls are wanted per world.
WORLDS = {}

def world(name, **kw):
    WORLDS[name] = kw

# name -> source dirs, variant flags, harness files, configuration macros
world("exec",  dirs=CORE, variant="plain",
      cfg=[], harness=["world_exec.cc"])
world("leak",  dirs=CORE, variant="plain",
      cfg=[], harness=["world_leak.cc", "simalloc.cc"])
world("app",   dirs=CORE + ["app-framework"], variant="tsan",
      cfg=[], harness=["world_app.cc", "simcore.cc"])

world("udp",   dirs=CORE + ["app-framework", "interfaces/UdpAdapter"], variant="tsan",
      cfg=["UDP_ADAPTER"], harness=["world_udp.cc", "simcore.cc", "simnet.cc"])

world("luv",   dirs=CORE + ["app-framework", "interfaces/LuvListener", "interfaces/Sockets"], variant="tsan",
      cfg=["LUV_LISTENER"], harness=["world_luv.cc", "simcore.cc", "simnet.cc"])

world("sas",   dirs=["utils", "value", "apps/StandAloneSimulator"], variant="tsan", exclude=["IpcCommRelay.cc", "ThreadSemaphore.cc"],
      cfg=[], harness=["world_sas.cc", "simcore.cc"])

world("simprog", dirs=["utils", "value", "interfaces/IpcUtils", "apps/StandAloneSimulator"], variant="tsan", exclude=["ThreadSemaphore.cc"], incs=["third-party/ipc/src"],
      extra=["apps/StandAloneSimulator/PlexilSimulator.cc"], defs={"apps/StandAloneSimulator/PlexilSimulator.cc": "-Dmain=simulator_main"}, hdefs=["SIM_PROGRAM"],
      cfg=["IPC_ADAPTER"], harness=["world_sas.cc", "simcore.cc", "simipc.cc"])

world("ipc",   dirs=CORE + ["app-framework", "interfaces/IpcUtils", "interfaces/IpcAdapter"], variant="tsan", incs=["third-party/ipc/src"],
      cfg=["IPC_ADAPTER"], harness=["world_ipc.cc", "simcore.cc", "simipc.cc"])

world("main",  dirs=CORE + ["app-framework", "interfaces/LuvListener", "interfaces/Sockets"], variant="tsan", extra=["universal-exec/UniversalExec.cc"], defs={"universal-exec/UniversalExec.cc": "-Dmain=universal_main"},
      cfg=["LUV_LISTENER"], harness=["world_main.cc", "simcore.cc", "simnet.cc"])

world("test",  dirs=CORE + ["app-framework", "interfaces/PlanDebugListener"], variant="plain", extra=["apps/TestExec/exec-test-runner.cc", "apps/TestExec/TestExternalInterface.cc"], defs={"apps/TestExec/exec-test-runner.cc": "-Dmain=testexec_main"}, incs=["apps/TestExec"],
      cfg=["DEBUG_LISTENER"], harness=["world_test.cc"])

FLAGS = {
    "plain": "-O1 -g1",
    "tsan":  "-O1 -g1 -fsanitize=thread",
    "asan":  "-O1 -g1 -fsanitize=address -fno-omit-frame-pointer",
}
# Directories whose code can run on more than one thread; only these get
# memory-access scheduling points in the "tsan" variant.
TSAN_DIRS = {"utils", "intfc", "exec", "xml-parser", "app-framework", "interfaces", "apps", "universal-exec"}

def write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)

def config_h(cfgs, threads=True):
    t = "#ifndef PLEXIL_CONFIG_H\n#define PLEXIL_CONFIG_H\n"
    for c in CONFIG_ON:
        if c in ("DEBUG_LISTENER", "LUV_LISTENER", "UDP_ADAPTER") and c not in cfgs:
            continue
        t += "#define HAVE_%s 1\n" % c
    if "IPC_ADAPTER" in cfgs:
        t += "#define HAVE_IPC_ADAPTER 1\n"
    if threads:
        t += "#define PLEXIL_WITH_THREADS 1\n"
    return t + "#endif\n"

def esc(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")

def generate(worlds):
    n = ["ninja_required_version = 1.5",
         "rule cxx\n  command = g++ $flags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
         # templates of the standard library in the harness stay apart from the
         # instrumented ones of the code under test, which may be preempted anywhere
         "rule hcxx\n  command = g++ $flags -MD -MF $out.d -c $in -o $out && nm $out | awk "
         "'$$2 == \"W\" && $$3 ~ /^(_ZNK?St|_ZNK?9__gnu_cxx|_ZSt)/ { print $$3 }' > $out.w && "
         "objcopy --remove-section=.group --localize-symbols=$out.w $out\n  depfile = $out.d\n  deps = gcc",
         "rule cc\n  command = gcc $flags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
         "rule gperf\n  command = gperf -m 8 --output-file=$out $in",
         "rule link\n  command = g++ $lflags -o $out $in $libs"]
    seen = set()
    targets = []
    gp = os.path.join(BUILD, "gen", "ExpressionMap.hh")
    os.makedirs(os.path.dirname(gp), exist_ok=True)
    n.append("build %s: gperf %s" % (esc(gp), esc(SRC + "/xml-parser/ExpressionMap.gperf")))
    for wname in worlds:
        w = WORLDS[wname]
        variant = w["variant"]
        cfgkey = "cfg-" + ("-".join(w.get("cfg", [])) or "base")
        cfgdir = os.path.join(BUILD, cfgkey)
        write_if_changed(cfgdir + "/plexil-config.h", config_h(w.get("cfg", [])))
        incs = "-I%s -I%s/gen " % (cfgdir, BUILD) + " ".join(
            "-I%s/%s" % (SRC, d) for d in w["dirs"] + w.get("incs", []))
        base = "-std=gnu++14 -include cstdint -include cstring -DNDEBUG -w -fno-strict-aliasing"
        objs = []
        files = []
        for d in w["dirs"]:
            for f in sorted(glob.glob("%s/%s/*.cc" % (SRC, d)) + glob.glob("%s/%s/*.cpp" % (SRC, d))
                            + glob.glob("%s/%s/*.c" % (SRC, d))):
                rel = os.path.relpath(f, SRC)
                if os.path.basename(f).startswith("JNI"):
                    continue
                if rel in w.get("exclude", ()) or os.path.basename(f) in w.get("exclude", ()):
                    continue
                files.append((f, rel))
        # sources which are textually included by another source are not compiled alone
        import re
        incd = set()
        for f, rel in files:
            txt = open(f, errors="replace").read()
            if re.search(r'^int\s+main\s*\(', txt, re.M):
                incd.add(os.path.basename(f))
            for m in re.finditer(r'#\s*include\s+"([^"]+\.(?:cc|cpp|c))"', txt):
                incd.add(os.path.basename(m.group(1)))
        files = [(f, rel) for f, rel in files if os.path.basename(f) not in incd]
        for f in w.get("extra", ()):
            files.append((SRC + "/" + f, f))
        for f, rel in files:
            top = rel.split("/")[0]
            vflags = FLAGS[variant]
            vdir = variant
            if variant == "tsan" and top not in TSAN_DIRS:
                vflags, vdir = FLAGS["plain"], "plain"
            isc = f.endswith(".c")
            fl = " ".join([vflags, "-DNDEBUG -w" if isc else base, incs] + ([w["defs"][rel]] if rel in w.get("defs", {}) else []))
            key = hashlib.md5((fl + rel).encode()).hexdigest()[:8]
            o = os.path.join(BUILD, "obj", vdir, rel.replace("/", "_") + "." + key + ".o")
            objs.append(o)
            if o not in seen:
                seen.add(o)
                order = " || " + esc(gp) if top == "xml-parser" else ""
                n.append("build %s: %s %s%s\n  flags = %s" % (
                    esc(o), "cc" if isc else "cxx", esc(f), order, fl))
        for h in w["harness"] + ["runner.cc"]:
            f = os.path.join(VERIF, "sim", h)
            hv = FLAGS["asan"] if variant == "asan" else "-O1 -g1 -fno-gnu-unique"
            fl = "%s %s -Wall -Wno-unused -I%s/sim %s %s" % (hv, base.replace(" -w", ""), VERIF, incs,
                  " ".join("-D%s" % x for x in w.get("hdefs", [])))
            rule = "hcxx" if variant == "tsan" else "cxx"
            key = hashlib.md5((rule + fl + h).encode()).hexdigest()[:8]
            o = os.path.join(BUILD, "obj", "harness", h + "." + key + ".o")
            objs.append(o)
            if o not in seen:
                seen.add(o)
                n.append("build %s: %s %s\n  flags = %s" % (esc(o), rule, esc(f), fl))
        exe = os.path.join(BUILD, "bin", wname)
        targets.append(exe)
        lf = "-rdynamic -pthread" + (" -fsanitize=address" if variant == "asan" else "")
        n.append("build %s: link %s\n  lflags = %s\n  libs = -lpugixml -ldl -lpthread -lrt" % (
            esc(exe), " ".join(esc(o) for o in objs), lf))
    return "\n".join(n) + "\n", targets

def build(worlds, quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        text, targets = generate(worlds)
        nf = os.path.join(BUILD, "build-%s.ninja" % "-".join(worlds))
        write_if_changed(nf, text)
        r = subprocess.run(["ninja", "--quiet", "-C", BUILD, "-f", nf] + targets,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write("\n".join(l[:300] for l in r.stdout.split("\n"))[-4000:])
            return None
        if not quiet:
            sys.stderr.write(r.stdout[-300:])
    return dict(zip(worlds, targets))

if __name__ == "__main__":
    ws = sys.argv[1:] or list(WORLDS)
    r = build(ws, quiet=False)
    sys.exit(0 if r else 2)
