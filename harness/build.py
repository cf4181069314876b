"""Build the editor from /repo's current working tree into a scratch directory."""
import glob, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("ED_REPO", "/repo")
LIB = """btowc hard-locale localcharset mbrtowc mbszero regex setlocale_null
setlocale_null-unlocked unistd wctype-h glthread/lock glthread/threadlib
malloc/dynarray_at_failure malloc/dynarray_emplace_enlarge
malloc/dynarray_finalize malloc/dynarray_resize
malloc/dynarray_resize_clear""".split()


class BuildError(Exception):
    pass


def configured(tmp):
    """A tree with the generated headers: /repo itself, or a configured copy."""
    if os.path.exists(os.path.join(REPO, "config.h")):
        return REPO
    dst = os.path.join(tmp, "tree")
    shutil.copytree(REPO, dst, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    if not os.path.exists(os.path.join(dst, "configure")):
        subprocess.run(["./autogen.sh", "--silent"], cwd=dst, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["./configure", "--enable-all-extensions", "--with-included-regex", "CC=gcc", "CXX=g++"], cwd=dst,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if r.returncode:
        raise BuildError("cannot configure a copy of " + REPO)
    subprocess.run(["make", "config.h"], cwd=dst, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.run(["make", "-C", "lib", "-j8", "all"], cwd=dst, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return dst


def build(tmp, name="ed", flags=("-O2", "-D_FORTIFY_SOURCE=3")):
    src = configured(tmp)
    out = os.path.join(tmp, "obj-" + name)
    os.makedirs(out)
    jobs = [(f, ["-I" + src + "/src"]) for f in sorted(glob.glob(src + "/src/*.c"))]
    jobs += [(f"{src}/lib/{l}.c", []) for l in LIB if os.path.exists(f"{src}/lib/{l}.c")]

    def cc(job):
        i, (f, inc) = job
        o = f"{out}/{i}.o"
        r = subprocess.run(
            ["gcc", *flags, "-w", "-DHAVE_CONFIG_H", "-I" + src, "-I" + src + "/lib",
             "-I" + src + "/include", *inc, '-DLOCALEDIR="/usr/local/share/locale"',
             "-c", f, "-o", o], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f + ": " + r.stderr)
        return o

    with ThreadPoolExecutor(8) as p:
        objs = list(p.map(cc, enumerate(jobs)))
    exe = os.path.join(tmp, name)
    r = subprocess.run(["gcc", *flags, *objs, "-o", exe, "-lcrypto"], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr)
    shutil.rmtree(out)
    os.makedirs(os.path.join(tmp, "r"), exist_ok=True)
    shutil.copy(exe, os.path.join(tmp, "r", "red"))
    return exe


if __name__ == "__main__":
    os.makedirs(sys.argv[1], exist_ok=True)
    print(build(sys.argv[1]))
