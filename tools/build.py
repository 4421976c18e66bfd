#!/usr/bin/env python3
"""Builds the simulator binary from /repo's current working tree into /verif/build.

The code under test (library, command-line tools, adapter) is compiled with AddressSanitizer and
basic-block callbacks; the harness is compiled without.  Nothing is written inside /repo.
"""
import hashlib, json, os, re, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PPSIM_REPO", "/repo")
BUILD = os.environ.get("PPSIM_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++"
TOOLS = ["make_trie_dictionary", "write_glyphs", "show_glyphs", "normalize_glyphs", "write_datas", "ocr2_extract_text", "extract_text6", "extract_text8"]
BASE = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-w"]
LIBF = ["-O1", "-fno-rtti", "-DNDEBUG", "-I" + REPO + "/src", "-I" + REPO + "/includes", "-I" + VERIF + "/sim",
        "-DIMAGE_PATH=\"./tests/images/\"", "-fsanitize=address", "-fsanitize-coverage=trace-pc-guard"]
HARF = ["-O1", "-I" + VERIF + "/sim"]
REDIR = ["malloc", "calloc", "realloc", "aligned_alloc", "posix_memalign", "free"]
WRAPS = """open open64 openat read pread pread64 readv close fstat fstat64 stat stat64 lstat access fopen fopen64 fclose fileno
write writev clock_gettime gettimeofday time nanosleep clock_nanosleep usleep pthread_mutex_lock pthread_rwlock_rdlock
mmap mmap64 munmap getrandom getentropy getpid getenv _ZNSt13random_device9_M_getvalEv pthread_rwlock_wrlock pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort sched_yield
isatty ioctl get_nprocs sysconf getppid getuid geteuid gethostname uname clock getrusage secure_getenv""".split()


def lib_sources():
    jam = open(os.path.join(REPO, "Jamroot")).read()
    m = re.search(r"^create_ppocr_rule\s*\n(.*?);", jam, re.S | re.M)
    return [s for s in m.group(1).split() if s.endswith(".cpp")]


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def stale(obj, key):
    """an object is current if it was made with this key from files that are as they were then"""
    try:
        d = json.load(open(obj + ".key"))
        return not os.path.exists(obj) or d["key"] != key or any(digest([f]) != h for f, h in d["deps"].items())
    except (OSError, ValueError, KeyError):
        return True


def one(job):
    src, obj, flags, key, post = job
    if not stale(obj, key):
        return
    tmp = obj + ".tmp.o"
    run([CXX] + BASE + flags + ["-MMD", "-MF", tmp + ".d", "-c", src, "-o", tmp])
    deps = open(tmp + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    os.remove(tmp + ".d")
    if post:
        post(tmp)
    os.rename(tmp, obj)
    json.dump({"key": key, "deps": {f: digest([f]) for f in deps}}, open(obj + ".key", "w"))


def redirect(obj):
    run(["objcopy"] + [x for s in REDIR for x in ("--redefine-sym", "%s=__sim_%s" % (s, s))] + [obj])


def redirect_main(tool):
    def f(obj):
        strong = [l.split() for l in run(["nm", obj]).splitlines()]
        names = [t[2] for t in strong if len(t) == 3 and t[1] in "TDBR" and t[2] != "main"]
        cmd = ["objcopy"]
        for n in names:
            cmd += ["--localize-symbol", n]
        run(cmd + ["--redefine-sym", "main=tool_%s_main" % tool, obj])
        redirect(obj)
    return f


def build(quiet=False):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    me = os.path.abspath(__file__)
    simh = digest([me]) + REPO
    jobs = []
    libs = lib_sources()
    for s in libs:
        p = os.path.join(REPO, s)
        jobs.append((p, os.path.join(BUILD, s.replace("/", "_") + ".o"), LIBF, simh, redirect))
    for t in TOOLS:
        p = os.path.join(REPO, "main", t + ".cpp")
        jobs.append((p, os.path.join(BUILD, "main_" + t + ".o"), LIBF, simh, redirect_main(t)))
    for f in sorted(os.listdir(VERIF + "/sim")):
        if not f.endswith(".cpp"):
            continue
        p = os.path.join(VERIF, "sim", f)
        o = os.path.join(BUILD, "sim_" + f + ".o")
        if f == "adapter.cpp":
            jobs.append((p, o, LIBF, simh, redirect))
        else:
            jobs.append((p, o, HARF, simh, None))
    # slowest first
    slow = ["extract_text", "adapter", "write_datas"]
    jobs.sort(key=lambda j: (not any(s in j[0] for s in slow), -os.path.getsize(j[0])))
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        list(ex.map(one, jobs))
    objs = sorted(j[1] for j in jobs)
    exe = os.path.join(BUILD, "ppsim")
    key = hashlib.sha256("".join(open(j[1] + ".key").read() for j in sorted(jobs, key=lambda j: j[1])).encode()).hexdigest()
    if not (os.path.exists(exe) and os.path.exists(exe + ".key") and open(exe + ".key").read() == key):
        run([CXX, "-fsanitize=address", "-static-libstdc++", "-no-pie", "-Wl,-z,now", "-o", exe + ".tmp"] + objs + ["-Wl,--wrap=" + w for w in WRAPS] + ["-lpthread"])
        os.rename(exe + ".tmp", exe)
        open(exe + ".key", "w").write(key)
    lock.close()
    return exe, key


if __name__ == "__main__":
    try:
        print(build()[0])
    except Exception as e:
        print(e, file=sys.stderr)
        sys.exit(2)
