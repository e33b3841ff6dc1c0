"""Builds the library from /repo's current working tree together with the conformance driver.

Everything goes to $VT_BUILD (default /verif/.build); nothing is written to the repository.
"""
import glob, os, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.environ.get("VT_BUILD", os.path.join(VERIF, ".build"))

FLAGS = "-std=gnu++17 -O0 -g1 -fsanitize=address -fno-omit-frame-pointer -DFMT_SHARED -DLINUX -D_DEBUG -w"


def write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def build(quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    write_if_changed(BUILD + "/fcollada_export.h",
                     "#pragma once\n#define FCOLLADA_EXPORT\n#define FCOLLADA_NO_EXPORT\n#define FCOLLADA_DEPRECATED\n")
    src = []
    for root in ("FCollada", "FColladaPlugins"):
        for f in glob.glob(f"{REPO}/{root}/**/*.cpp", recursive=True):
            if "/FColladaTest/" not in f:
                src.append(f)
    drv = sorted(glob.glob(f"{VERIF}/driver/*.cpp"))
    lines = [f"""cxxflags = {FLAGS} -I{REPO}/FCollada -I{BUILD} -isystem /usr/include/libxml2
rule cxx
  command = g++ $cxxflags -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule drv
  command = g++ $cxxflags -I{VERIF}/driver -I{REPO}/FColladaPlugins -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
rule link
  command = g++ -fsanitize=address $in -o $out -lxml2 -lfmt -ldl
"""]
    objs = []
    dobjs = []
    for s in drv:
        o = "drv_" + os.path.basename(s) + ".o"
        dobjs.append(o)
        lines.append(f"build {o}: drv {s}")
    for s in sorted(src):
        o = "lib_" + os.path.relpath(s, REPO).replace("/", "_") + ".o"
        objs.append(o)
        lines.append(f"build {o}: cxx {s}")
    lines.append("build fcdrv: link " + " ".join(dobjs + objs))
    lines.append("default fcdrv\n")
    write_if_changed(BUILD + "/build.ninja", "\n".join(lines))
    p = subprocess.run(["ninja", "-C", BUILD], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        sys.stderr.write("\nERROR: the library or the conformance driver does not build\n")
        sys.exit(2)
    return BUILD + "/fcdrv"


if __name__ == "__main__":
    print(build())
