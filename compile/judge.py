"""Compiles generated functions and says which of them get errors."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import borrows

CODES = borrows.BORROWCK


class CompileErr(Exception):
    pass


def build(out, repo="/repo"):
    """The library and both references, as metadata."""
    os.makedirs(out, exist_ok=True)
    here = os.path.dirname(os.path.abspath(__file__))
    for name, src, ed, fl in [("rc_slice", os.path.join(repo, "src/lib.rs"), "2018", []), ("liberal", os.path.join(here, "refs.rs"), "2021", []), ("strict", os.path.join(here, "refs.rs"), "2021", ["--cfg", "strict"])]:
        r = subprocess.run(["rustc", "--edition", ed, "--crate-type", "rlib", "--crate-name", name, "--emit=metadata,link", "--cap-lints=allow", "--out-dir", out] + fl + [src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CompileErr("%s does not compile: %s" % (name, r.stdout[-2000:]))


def errors(pre, fns, crate, out, tag):
    """fns: list of sources. -> list of sets of error codes"""
    src, where, line = pre, [], pre.count("\n") + 1
    for i, f in enumerate(fns):
        n = f.count("\n") + 1
        where.append((line, line + n))
        src += f + "\n"
        line += n
    path = os.path.join(out, "b%s.rs" % tag)
    with open(path, "w") as h:
        h.write(src)
    r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "b%s" % tag, "--emit=metadata", "--error-format=json", "--cap-lints=allow",
                        "--extern", "%s=%s" % (crate, os.path.join(out, "lib%s.rmeta" % crate)), "-o", os.path.join(out, "b%s.rmeta" % tag), path],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    res = [set() for _ in fns]
    import bisect
    starts = [w[0] for w in where]
    for l in r.stderr.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            if "panicked" in l or "internal compiler error" in l:
                raise CompileErr("rustc crashed: " + r.stderr[-1500:])
            continue
        if d.get("level") != "error" or d["message"].startswith("aborting"):
            continue
        sp = [s for s in d["spans"] if s["is_primary"]] or d["spans"]
        if not sp:
            raise CompileErr("an error without a place: " + d["message"])
        k = bisect.bisect_right(starts, sp[0]["line_start"]) - 1
        if k < 0:
            raise CompileErr("an error outside of the programs: " + d["message"])
        res[k].add((d["code"] or {}).get("code"))
    for f in (path, os.path.join(out, "b%s.rmeta" % tag)):
        try:
            os.remove(f)
        except OSError:
            pass
    return res
