#!/usr/bin/env python3
"""Builds and runs the check of one property against /repo's working tree.

    check.py P01 [--tier quick|thorough] [--replay FILE] [--only SUB] [--scale X] [--seed N]

Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Exit 2: the check itself failed.
"""
import argparse, fnmatch, glob, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("EDYN_REPO", "/repo")
BUILD = os.environ.get("EDYN_VBUILD", os.path.join(VERIF, "build"))
INC = os.path.join(REPO, "include")

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

COMMON = "-std=c++17 -w -ffunction-sections -fdata-sections -DEDYN_DEBUG -DEDYN_DISABLE_PROFILING -D_GLIBCXX_ASSERTIONS -pthread"
VARIANTS = {
    # name: (compiler, compile flags, link flags)
    "plain":  ("g++", "-O1 -g1", ""),
    "double": ("g++", "-O1 -g1 -DEDYN_DOUBLE_PRECISION", ""),
    "asan":   ("g++", "-O1 -g1 -fsanitize=address,undefined -fno-sanitize=alignment,vptr -fno-sanitize-recover=undefined", "-fsanitize=address,undefined"),
    "dasan":  ("g++", "-O1 -g1 -DEDYN_DOUBLE_PRECISION -fsanitize=address,undefined -fno-sanitize=alignment,vptr -fno-sanitize-recover=undefined", "-fsanitize=address,undefined"),
    "tsan":   ("g++", "-O1 -g1 -fsanitize=thread", "-fsanitize=thread"),
    "fuzz":   ("clang++", "-O1 -g1 -fsanitize=fuzzer-no-link,address,undefined -fno-sanitize=alignment,vptr", "-fsanitize=fuzzer,address,undefined"),
}

INCLUDE = re.compile(r'^[ \t]*#[ \t]*include[ \t]*([<"])([^>"\n]+)[>"]', re.M)
_memo = {}


def reaches_entt(path, stack=()):
    """Whether a file includes <entt/...>, directly or not."""
    if path in _memo:
        return _memo[path]
    if path in stack:
        return False
    text = re.sub(r"/\*.*?\*/", "", open(path, encoding="utf-8", errors="replace").read(), flags=re.S)
    r = bool(re.search(r"\bentt::", re.sub(r"//.*", "", text)))
    if not r:
        for kind, name in INCLUDE.findall(text):
            if name.startswith("entt/"):
                r = True
                break
            for d in ([os.path.dirname(path)] if kind == '"' else []) + [INC]:
                q = os.path.normpath(os.path.join(d, name))
                if os.path.isfile(q):
                    if reaches_entt(q, stack + (path,)):
                        r = True
                    break
            if r:
                break
    if not stack or r:
        _memo[path] = r
    return r


def sources(part):
    allsrc = sorted(glob.glob(os.path.join(REPO, "src/edyn/**/*.cpp"), recursive=True))
    allsrc = [s for s in allsrc if "/windows/" not in s]
    if part["mode"] == "free":
        return [s for s in allsrc if not reaches_entt(s)]
    pats = part.get("sources")
    if not pats:
        return allsrc
    rel = lambda s: os.path.relpath(s, os.path.join(REPO, "src/edyn"))
    return [s for s in allsrc if any(fnmatch.fnmatch(rel(s), p) for p in pats)]


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def plan(part):
    """Directory, name and ninja statements (general ones, then one per file) of a harness."""
    variant = part["variant"]
    cxx, cflags, lflags = VARIANTS[variant]
    mode = part["mode"]
    name = os.path.splitext(os.path.basename(part["harness"]))[0]
    bdir = os.path.join(BUILD, variant + "-" + mode)
    write_if_changed(os.path.join(BUILD, "gen/edyn/build_settings.h"),
                     "#ifndef EDYN_BUILD_SETTINGS_H\n#define EDYN_BUILD_SETTINGS_H\n#endif\n")
    inc = f"-I{INC} -I{BUILD}/gen -I{VERIF}"
    if mode == "entt":
        inc += f" -I{VERIF}/minientt"
    extra = part.get("flags", "")
    lines = [f"cxx = {cxx}", f"cflags = {COMMON} {cflags} {inc}",
             "rule cc\n  command = $cxx $cflags $xflags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
             "rule ar\n  command = rm -f $out && ar crT $out $in",
             f"rule ld\n  command = $cxx {lflags} -pthread -Wl,--gc-sections $in -o $out $libs"]
    objs = []
    for s in sources(part):
        o = os.path.join("obj", os.path.relpath(s, REPO)[:-4].replace("/", "_") + ".o")
        objs.append(o)
        lines.append(f"build {o}: cc {s}")
    lib = f"lib_{name}.a"
    lines.append(f"build {lib}: ar {' '.join(objs)}")
    ho = f"obj/h_{name}.o"
    lines.append(f"build {ho}: cc {os.path.join(VERIF, part['harness'])}\n  xflags = {extra}")
    lines.append(f"build {name}: ld {ho} {lib}\n  libs = {part.get('libs', '')}")
    return bdir, name, lines


def ninja(bdir, fname, lines, targets):
    write_if_changed(os.path.join(bdir, fname), "\n".join(lines) + "\n")
    return subprocess.run(["ninja", "-C", bdir, "-f", fname, "-k", "0"] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def prebuild(parts):
    """Builds many harnesses at once; failures are left to the individual builds."""
    dirs = {}
    for part in parts:
        bdir, name, lines = plan(part)
        d = dirs.setdefault(bdir, ({}, []))
        for l in lines:
            d[0][l] = 1
        if name not in d[1]:
            d[1].append(name)
    for bdir, (lines, names) in dirs.items():
        ninja(bdir, "all.ninja", list(lines), names)


def build(part):
    variant = part["variant"]
    bdir, name, lines = plan(part)
    r = ninja(bdir, f"{name}.ninja", lines, [name])
    if r.returncode != 0 and "undefined reference" in r.stdout and part.get("sources"):
        return build(dict(part, sources=None))  # a dependency moved: take the whole library
    if r.returncode != 0:
        sys.stdout.write('\n'.join(l[:300] for l in r.stdout.splitlines() if 'error' in l or 'undefined' in l or 'FAILED' in l)[-4000:])
        print(f"check.py: build of {name} ({variant}) failed")
        sys.exit(2)
    return os.path.join(bdir, name)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--part")
    ap.add_argument("--scale", default="1")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    chk = CHECKS[a.property]
    ev_path = os.path.join(VERIF, "evidence", a.property + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    merged = None
    rc = 0
    for part in chk["parts"]:
        if part.get("tier") and part["tier"] != a.tier:
            continue
        name = os.path.splitext(os.path.basename(part["harness"]))[0]
        if a.part and a.part != name and a.part != part["variant"]:
            continue
        exe = build(part)
        if a.build_only:
            continue
        pname = name + "-" + part["variant"]
        tmp = os.path.join(BUILD, f"ev_{a.property}_{pname}.json")
        if os.path.exists(tmp):
            os.unlink(tmp)
        cmd = [exe, "--property", a.property, "--tier", a.tier, "--seed", a.seed, "--out", tmp, "--replay-dir", os.path.join(VERIF, "replays"),
               "--scale", str(float(a.scale) * part.get("scale", 1)), "--budget", "500" if a.tier == "quick" else "14400",
               "--known", os.path.join(VERIF, "known_findings.txt")] + part.get("args", [])
        if a.replay:
            cmd += ["--replay", a.replay]
        if a.only:
            cmd += ["--only", a.only]
        r = subprocess.run(cmd)
        if a.replay:
            rc = rc or r.returncode
            if r.returncode != 2:
                sys.exit(r.returncode)
            continue
        if r.returncode not in (0, 1) or not os.path.exists(tmp):
            print(f"check.py: {exe} exited with {r.returncode}")
            sys.exit(2)
        ev = json.load(open(tmp))
        for s in ev["coverage"]["sub_checks"]:
            s["build"] = part["variant"]
        if merged is None:
            merged = ev
            merged["assumptions"] = chk.get("assumptions", [])
        else:
            c, d = merged["coverage"], ev["coverage"]
            for k in ("evaluations", "distinct_nontrivial", "nontrivial", "discarded"):
                c[k] += d[k]
            c["budget_truncated"] |= d["budget_truncated"]
            if d["rule"] not in c["rule"]:
                c["rule"] += " | " + d["rule"]
            c["samples"] += d["samples"]
            c["sub_checks"] += d["sub_checks"]
            merged["violations"] += ev["violations"]
            merged["violation_details"] += ev["violation_details"]
        if r.returncode == 1:
            rc = 1
            break
    if merged and not a.only and not a.part:
        merged["wall_s"] = time.time() - t0
        merged["coverage"]["violation_details"] = merged.pop("violation_details")
        json.dump(merged, open(ev_path, "w"), indent=1)
    print(f"{a.property}: {'VIOLATED' if rc == 1 else 'held'} tier={a.tier} seed={a.seed} wall={time.time() - t0:.1f}s")
    sys.exit(rc)


if __name__ == "__main__":
    main()
