"""C04: purity - no written hidden state, inputs never written, no nondeterminism source."""
from ir import *
from effects import Effects, roots
import json, os

NONDET = {  # qualified callee names (prefix match on the qualified name)
 "rand", "std::rand", "random", "drand48", "lrand48", "time", "std::time", "clock", "std::clock", "getenv", "std::getenv", "secure_getenv", "getpid", "gettimeofday",
 "clock_gettime", "pthread_self", "std::this_thread::get_id", "std::thread::hardware_concurrency", "getcwd", "gethostname", "rdtsc", "__rdtsc", "__builtin_ia32_rdtsc",
 "fopen", "open", "read", "std::localtime", "localtime", "gmtime", "arc4random", "getrandom", "tmpnam", "system", "std::async", "omp_get_thread_num",
 "std::chrono::_V2::system_clock::now", "std::chrono::_V2::steady_clock::now", "std::chrono::system_clock::now", "std::chrono::steady_clock::now",
 "std::random_device::random_device", "std::random_device::operator()", "std::random_device::entropy",
 "std::random_shuffle", "std::uncaught_exceptions"}
NONDET_PREFIX = ("std::basic_ifstream", "std::basic_ofstream", "std::basic_fstream", "std::thread::", "std::jthread::", "std::filesystem", "std::random_device", "std::chrono::")
STATE = {"srand", "std::srand", "srandom", "fesetround", "fesetenv", "feclearexcept", "feenableexcept", "feraiseexcept", "setlocale", "std::setlocale", "std::locale::global", "setenv", "putenv", "unsetenv",
         "signal", "std::signal", "atexit", "std::atexit", "std::set_terminate", "std::set_new_handler", "_mm_setcsr", "_controlfp", "__errno_location", "strtok", "std::strtok", "lgamma"}
RANDOM_OK = {"XYZ::CreateRandomOrthogonal"}          # documented arbitrary choice
RANDOM_CALLERS = {"NurbsCurve::ProjectNormal"}       # its only user (start direction of the transported frame)

def run(P, ctx):
    tab = json.load(open(VERIF + "/tables/outputs.json"))
    E = Effects(P)
    nglob = ncall = nstatic = ninput = ncast = 0
    # ---- written globals / statics
    for (q, fl), g in P.globals.items():
        nglob += 1
    written = {}
    for f in P.funcs.values():
        if not f.body: continue
        al = E.al[f.key]
        for c, line in E.sites[f.key].items():
            if isinstance(c, tuple): written.setdefault(c, (f, line))
    for c, (f, line) in sorted(written.items(), key=lambda x: str(x[0])):
        if c[0] == "g":
            g = next((g for (q, _), g in P.globals.items() if q == c[1]), None)
            if g is None and not (c[1] or "").startswith("LNLib"):
                if (c[1] or "").startswith("std::c"): continue
            ctx.violation(f"global:{c[1]}", f"{f.key} writes the global '{c[1]}': hidden state shared by all calls and threads", f"{f.rel()}:{line}")
        else:
            ctx.violation(f"static:{f.q}:{c[2]}", f"{f.key} writes its function-static variable '{c[2]}': the answer can depend on earlier calls", f"{f.rel()}:{line}")
    # globals initialised from run-time state, static locals depending on the arguments of the first call, pointers/escapes of mutable statics
    for f in P.funcs.values():
        if not f.body: continue
        mutated_args = False
        for n in walk(f.body):
            if n["k"] == "Decl":
                for d in n["d"]:
                    if d.get("static"):
                        nstatic += 1
                        dep = [v for v in walk(d.get("init") or {}) if v["k"] in ("Var", "This") and not v.get("global") and not v.get("slocal") and "cv" not in v
                               and not any(v.get("id") == x.get("id") for x in walk_decls(d.get("init")))]
                        if dep: ctx.violation(f"static-init:{f.q}:{d['n']}", f"{f.key}: static '{d['n']}' keeps a value computed from the first call ({dep[0].get('n','this')})", f"{f.rel()}:{d['l']}")
            elif n["k"] == "Cast":
                if n.get("ck") in ("PointerToIntegral", "PointerToBoolean") and n["ck"] == "PointerToIntegral":
                    ctx.violation(f"addr:{f.q}", f"{f.key}: an address is used as a number", f"{f.rel()}:{n['l']}")
                if n.get("constcast") or (n.get("cstyle") and "const" in n.get("from", "") and "const" not in n.get("t", "")): ncast += 1
            elif n["k"] == "Bin" and n["op"] in ("<", ">", "<=", ">=") and n["a"].get("t", "").endswith("*") and n["b"].get("t", "").endswith("*"):
                # ordering of pointers into one array is fine, of heap objects is not
                pass
        for n in calls_in(f.body):
            fd = n["f"]; q = fd.get("q", ""); ncall += 1
            if fd.get("repo"):
                if q.endswith("XYZ::CreateRandomOrthogonal") and f.q not in RANDOM_CALLERS | RANDOM_OK:
                    ctx.violation(f"random-caller:{f.q}", f"{f.key} depends on the randomly chosen direction of XYZ::CreateRandomOrthogonal", f"{f.rel()}:{n['l']}")
                continue
            if (q in NONDET or q.startswith(NONDET_PREFIX)) and f.q not in RANDOM_OK:
                if q.startswith("std::chrono::duration") : continue
                ctx.violation(f"nondet:{f.q}:{q}", f"{f.key} uses {q}: the result depends on something other than the arguments", f"{f.rel()}:{n['l']}")
            if q in STATE:
                ctx.violation(f"state:{f.q}:{q}", f"{f.key} uses {q}: process-wide state is changed", f"{f.rel()}:{n['l']}")
    for (q, fl), g in P.globals.items():
        for n in calls_in(g.get("init") or {}):
            if n["f"].get("q") in NONDET or n["f"].get("q", "").startswith(NONDET_PREFIX):
                ctx.violation(f"nondet:{q}", f"global {q} is initialised from {n['f']['q']}", f"{os.path.relpath(fl, REPO)}:{g['l']}")
    # ---- mutable members
    for t, r in P.records.items():
        for fl in r["fields"]:
            if fl.get("mut"): ctx.violation(f"mutable:{t}.{fl['n']}", f"{t}::{fl['n']} is mutable: const operations can leave state behind", f"{os.path.relpath(r['file'], REPO)}:{r['l']}")
    # ---- inputs untouched
    for f in P.funcs.values():
        if not f.body: continue
        outs = tab.get(f"{f.q}/{len(f.params)}")
        for i, p in enumerate(f.params):
            if not (is_ref(p["t"]) or "*" in p["t"] or "[" in p["t"]): continue
            ninput += 1
            if i not in E.w[f.key]: continue
            line = E.sites[f.key].get(i)
            const = p["t"].startswith("const ")
            if const or (outs is not None and i not in outs):
                ctx.violation(f"input:{f.q}/{len(f.params)}:{i}", f"{f.key}: input argument '{p['n']}' may be modified", f"{f.rel()}:{line}")
        if f.const and "this" in E.w[f.key]:
            ctx.violation(f"input:{f.q}:this", f"{f.key}: a const operation may modify its object", f"{f.rel()}:{E.sites[f.key].get('this')}")
        elif "this" in E.w[f.key] and outs is not None and "this" not in outs and not f.ctor and not f.dtor:
            ctx.violation(f"input:{f.q}:this", f"{f.key}: the object it is called on may be modified", f"{f.rel()}:{E.sites[f.key].get('this')}")
    ctx.rule = ("Rule: interprocedural may-write analysis (references, pointers, const_cast, callees incl. virtual overriders). No global, static member or function-static variable is written after its initialisation; "
        "no function-static is initialised from call arguments; no mutable members; no reference/pointer argument other than the declared outputs (tables/outputs.json) may be written; no call to a clock, randomness, environment, file, "
        "thread or process-state function except XYZ::CreateRandomOrthogonal, used only by NurbsCurve::ProjectNormal; no address-to-integer conversion.")
    ctx.assumptions = ["C++ standard library and Eigen functions other than those listed are deterministic and stateless", "Voronoi generator and octree objects are stateful by design; their reuse is covered by C12"]
    ctx.floor("functions_with_effects", sum(1 for f in P.funcs.values() if f.body), 400)
    ctx.floor("reference_parameters", ninput, 400)
    ctx.cov.update(calls_checked=ncall, globals=nglob, static_locals=nstatic, const_casts=ncast)
    ctx.samples = [{"function": f.key, "may_write": sorted(map(str, E.w[f.key]))} for f in list(P.funcs.values())[:400:60] if f.body]

def walk_decls(n):
    for x in walk(n or {}):
        if x["k"] == "Decl": yield from x["d"]
        elif x["k"] == "RangeFor": yield x["v"]
        elif x["k"] == "Lambda": yield from x["params"]
