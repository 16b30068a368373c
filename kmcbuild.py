"""Builds the SUT (from /repo's current working tree) + engine + harness into a scratch directory."""
import os, subprocess, shutil, glob, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KMC_REPO", "/repo")
CFG = """#ifndef KASYNC_CONFIG_INCLUDED_H
#define KASYNC_CONFIG_INCLUDED_H
#define KSOCKET_SSL
#define LINUX
#define HAVE_ACCEPT4
#define HAVE_MEMALIGN
#define HAVE_SETMNTENT
#define HAVE_WRITEV
#define HAVE_READV
#define ENABLE_FCONTEXT
%s
#ifdef LINUX
#undef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#endif
"""
SKIP = {"kiocp_selector.c", "kiouring_selector.c", "kkqueue_selector.c", "kmalloc_debug.c", "kmalloc_debug_win32.c"}
TS = ["-fsanitize=thread", "--param", "tsan-distinguish-volatile=1", "-fno-builtin", "-U_FORTIFY_SOURCE", "-O1", "-g", "-w",
      "-fno-exceptions", "-fno-stack-protector", "-fno-omit-frame-pointer"]
class BuildError(Exception): pass
def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])
    return p.stdout
class Build:
    def __init__(self, out, sut_defs=(), cfg_extra="", engine=()):
        self.engine = list(engine); self.out = out; os.makedirs(out, exist_ok=True)
        self.tree = os.path.join(out, "tree"); os.makedirs(self.tree)
        for d in ("src", "include", "fcontext"):
            shutil.copytree(os.path.join(REPO, d), os.path.join(self.tree, d), ignore=shutil.ignore_patterns("*.o", "*.a", "*.so"))
        open(os.path.join(self.tree, "include", "kasync_config.h"), "w").write(CFG % cfg_extra)
        self.inc = ["-I", self.tree + "/include", "-I", self.tree + "/fcontext/src", "-I", V + "/engine", "-I", V + "/h"]
        self.defs = list(sut_defs)
    def run(self, harness, links=()):
        jobs = []; objs = []
        def cc(src, obj, flags): jobs.append((["g++"] + flags + ["-c", src, "-o", obj])); objs.append(obj)
        for f in sorted(glob.glob(self.tree + "/src/*.c")):
            if os.path.basename(f) in SKIP: continue
            cc(f, self.out + "/" + os.path.basename(f) + ".o", ["-x", "c++", "-std=gnu++11"] + TS + self.inc + self.defs)
        cc(self.tree + "/fcontext/src/fcontext.c", self.out + "/fcontext.o", ["-x", "c++", "-std=gnu++11"] + TS + self.inc + self.defs)
        for a in ("make", "jump", "ontop"):
            o = self.out + "/" + a + ".o"; objs.append(o); jobs.append(["gcc", "-c", self.tree + "/fcontext/src/asm/%s_x86_64_sysv_elf_gas.S" % a, "-o", o])
        cc(os.path.join(V, "h", harness), self.out + "/harness.o", ["-x", "c++", "-std=gnu++17"] + TS + self.inc + self.defs)
        cc(V + "/engine/kmc_start.cpp", self.out + "/start.o", ["-O1", "-w"])
        lib = self.out + "/libkmc.so"
        jobs.append(["g++", "-O2", "-g", "-fPIC", "-w", "-fno-builtin", "-std=gnu++17"] + self.engine + ["-c", V + "/engine/kmc.cpp", "-o", self.out + "/kmc.o"])
        jobs.append(["g++", "-O2", "-g", "-fPIC", "-w", "-fno-builtin", "-std=gnu++17"] + self.engine + ["-c", V + "/engine/vk.cpp", "-o", self.out + "/vk.o"])
        with ThreadPoolExecutor(max(4, os.cpu_count() or 4)) as ex: list(ex.map(sh, jobs))
        sh(["g++", "-shared", "-o", lib, self.out + "/kmc.o", self.out + "/vk.o", "-lpthread", "-ldl"])
        syms = [l.split()[2] for l in sh(["nm", "-D", "--defined-only", lib]).splitlines() if "__wrap_" in l]
        wraps = ["-Wl,--wrap=" + s[len("__wrap_"):] for s in syms]
        exe = self.out + "/h.exe"
        sh(["g++", "-no-pie", "-o", exe] + objs + wraps + list(links) + ["-Wl,-z,now", "-L" + self.out, "-Wl,-rpath," + self.out, "-lkmc", "-lssl", "-lcrypto", "-lpthread", "-ldl"])
        return exe
if __name__ == "__main__":
    out = sys.argv[2]; shutil.rmtree(out, ignore_errors=True)
    from run import directives
    d = directives(os.path.join(V, "h", sys.argv[1]))
    print(Build(out, d["DEFS"], "\n".join(d["CFG"]), d["ENGINE"]).run(sys.argv[1], d["LINK"] + sys.argv[3:]))
