"""Bounded model checking of the real VM's Rust code with Kani (CBMC + SMT/SAT).

A scratch copy of amanda/vm is made from the working tree on every run; a
harness module is appended to its lib.rs and Kani compiles the VM's own
functions to goto programs.  What the copy changes:
 * dependency versions (offline), crate type;
 * rustc-hash and std's HashMap are replaced by an association list with the same interface
   (lib/kani_stubs/fxhash.rs), std::rc::Rc by a pointer that is never freed
   (lib/kani_stubs/ama_leak.rs): neither is part of what is decided;
 * unicode-segmentation is replaced by a stand-in that yields bytes (lib/kani_stubs/graphemes.rs);
 * `small=True`: the initial stack and frame limits are reduced (stated bound)."""
import os, re, json, shutil, subprocess, time, itertools
import realvm

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_N = itertools.count()
FLAGS = ["--no-overflow-checks", "--no-memory-safety-checks", "--no-assertion-reach-checks", "-Z", "unstable-options", "-Z", "stubbing"]


MEM = re.compile(r"rust_dealloc must|rust_realloc called|free argument|double free|free called for|realloc argument")


class BuildError(Exception):
    pass


class Crate:
    def __init__(self, harness, small=False, inject=None):
        """inject: {file under src: text appended to it} (a child module sees private items)"""
        self.d = os.path.join(realvm.scratch(), f"kani{next(_N)}")
        shutil.copytree(os.path.join(realvm.REPO, "amanda/vm"), self.d, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        t = os.path.join(self.d, "Cargo.toml")
        s = open(t).read()
        s = re.sub(r'unicode-segmentation\s*=.*', 'unicode-segmentation = { path = "ucstub" }', s)
        s = re.sub(r'rustc-hash\s*=.*', 'rustc-hash = { path = "fxstub" }', s)
        s = re.sub(r'crate-type\s*=.*', 'crate-type = ["lib"]', s)
        open(t, "w").write(s)
        f = os.path.join(self.d, "fxstub")
        os.makedirs(os.path.join(f, "src"))
        open(os.path.join(f, "Cargo.toml"), "w").write('[package]\nname = "rustc-hash"\nversion = "1.1.0"\nedition = "2018"\n')
        shutil.copy(os.path.join(V, "lib/kani_stubs/fxhash.rs"), os.path.join(f, "src/lib.rs"))
        u = os.path.join(self.d, "ucstub")
        os.makedirs(os.path.join(u, "src"))
        open(os.path.join(u, "Cargo.toml"), "w").write('[package]\nname = "unicode-segmentation"\nversion = "1.0.0"\nedition = "2018"\n')
        shutil.copy(os.path.join(V, "lib/kani_stubs/graphemes.rs"), os.path.join(u, "src/lib.rs"))
        src = os.path.join(self.d, "src")
        for root, _, files in os.walk(src):
            for n in files:
                if n.endswith(".rs"):
                    p = os.path.join(root, n)
                    s = open(p, encoding="utf8").read()
                    s = re.sub(r"std::rc::Rc\b", "crate::ama_leak::Rc", s)
                    s = re.sub(r"use std::rc::\{\s*Rc\s*\}", "use crate::ama_leak::Rc", s)
                    s = re.sub(r"use std::collections::HashMap;", "use rustc_hash::FxHashMap as HashMap;", s)
                    if small:
                        s = re.sub(r"(const\s+\w+\s*:\s*usize\s*=\s*)256\b", r"\g<1>8", s)
                        s = re.sub(r"(const\s+\w+\s*:\s*usize\s*=\s*)1000\b", r"\g<1>6", s)
                    open(p, "w", encoding="utf8").write(s)
        shutil.copy(os.path.join(V, "lib/kani_stubs/ama_leak.rs"), os.path.join(src, "ama_leak.rs"))
        lib = os.path.join(src, "lib.rs")
        s = open(lib, encoding="utf8").read()
        open(lib, "w", encoding="utf8").write(s + "\nmod ama_leak;\n" + harness)
        for n, t in (inject or {}).items():
            with open(os.path.join(src, n), "a", encoding="utf8") as f:
                f.write("\n" + t)
        self.env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
        self.cbmc = ["--cbmc-args", "--max-field-sensitivity-array-size", "64"] if small else []

    def _kani(self, args, timeout):
        import resource, signal
        p = subprocess.Popen(["bash", "-c", 'ulimit -s unlimited; exec "$@"', "x", "cargo", "kani", *args, *self.cbmc], cwd=self.d, env=self.env,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            out = (out or "") + "\nTIMEOUT"
        return p.returncode, out

    def run(self, names, solver, each=60, total=400, jobs=8):
        """-> {name: (verdict, seconds, failed descriptions, stats)}; verdict ok | fail | unknown"""
        js = os.path.join(self.d, f"out{next(_N)}.json")
        sel = list(itertools.chain.from_iterable(["--harness", n] for n in names))
        rc, out = self._kani([*FLAGS, "--exact", *sel, "--solver", solver, "-j", str(jobs), "--output-format", "terse",
                              "--harness-timeout", f"{each}s", "--export-json", js], total)
        if "error: could not compile" in out or re.search(r"^error(\[E\d+\])?:", out, re.M) and "Checking harness" not in out:
            raise BuildError("\n".join(l for l in out.splitlines() if l.startswith("error") or "-->" in l)[:1500])
        res = {n: ("unknown", 0, [], {}) for n in names}
        if os.path.exists(js):
            d = json.load(open(js))
            det = {x["harness_id"]: x["property_details"] for x in d.get("property_details", [])}
            st = {x["harness_id"]: x.get("cbmc_stats", {}) for x in d.get("cbmc", [])}
            for r in d["verification_results"]["results"]:
                n = r["harness_id"]
                # memory safety is not decided here (safe Rust): what is left of it are the allocator's own checks
                cs = [c for c in r.get("checks", []) if not MEM.match(c["description"])]
                bad = [c for c in cs if c["status"].lower().startswith("fail")]
                real = [c for c in bad if c.get("category") not in ("unwind", "unsupported_construct", "unwinding") and "unwinding assertion" not in c["description"]]
                if r["status"] == "Success" or len(cs) < len(r.get("checks", [])) and all(c["status"].lower() in ("success", "satisfied", "unreachable") for c in cs):
                    v = "ok"
                elif real and len(real) == len(bad):
                    v = "fail"
                else:
                    v = "unknown"
                res[n] = (v, r["duration_ms"] / 1000, [c["description"] for c in bad][:4], dict(st.get(n) or {}, **(det.get(n) or {})))
        return res

    def counterexample(self, name, solver="cadical", timeout=250):
        """-> list of byte strings, the values of the kani::any() calls in order"""
        rc, out = self._kani([*FLAGS, "-Z", "concrete-playback", "--concrete-playback=print", "--exact", "--harness", name, "--solver", solver], timeout)
        vals = None
        for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", out, re.S):
            vals = [bytes(int(x) for x in b.split(",") if x.strip()) for b in re.findall(r"vec!\[([\d, ]*)\]", m.group(1))]
            break
        return vals, "VERIFICATION:- FAILED" in out
