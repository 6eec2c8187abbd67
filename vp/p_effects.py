"""Effects of the crate's code: C27 (a parse depends on nothing but its input) and C28 (results can cross threads)."""
import os, re, subprocess, tempfile, shutil
import build

# callee patterns that read or change something other than the arguments
DENY = [
    (r"^std::time::(Instant|SystemTime)::(now|elapsed)|^std::time::(Instant|SystemTime)\b.*::now", "reads the clock"),
    (r"^std::env::", "reads the environment"),
    (r"^std::fs::|^<std::fs::|^std::os::", "uses the file system"),
    (r"^std::net::|^<std::net::", "uses the network"),
    (r"^std::process::|^<std::process::", "uses processes"),
    (r"^std::io::(stdin|stdout|stderr|_print|_eprint|stdio)|^std::io::stdio::", "reads or writes a standard stream"),
    (r"^std::thread::(?!LocalKey)", "depends on threads"),
    (r"^std::thread::LocalKey.*::(set|replace|take|with_borrow_mut|update)\b", "changes a thread local"),
    (r"RandomState(>|\b).*::(new|build_hasher|hash_one|default)\b", "random"),
    (r"^std::sync::atomic::\w+(::<[^>]*>)?::(store|swap|fetch_|compare_|get_mut|as_ptr|try_update|update)", "changes an atomic"),
    (r"^std::sync::(Mutex|RwLock|Condvar|Barrier|mpsc|ReentrantLock|poison)\b", "uses state shared between calls"),
    (r"^std::ptr::(from_exposed|addr|expose)|::(addr|expose_provenance)$", "depends on an address"),
    (r"^core::fmt::rt::Argument.*::new_pointer|^core::fmt::rt::.*new_pointer", "shows an address"),
    (r"^std::backtrace::|^std::panic::(set_hook|take_hook|catch_unwind)|^std::panicking::set_hook", "depends on the process"),
    (r"^rand::|^getrandom::", "random"),
    (r"^std::alloc::System|^std::alloc::(alloc|dealloc|realloc|set_alloc_error_hook)", "allocates by hand"),
]
DENY = [(re.compile(a), b) for a, b in DENY]
SHARED = re.compile(r"^(std|core)::(sync::(atomic::|Mutex|RwLock|OnceLock|LazyLock|Once\b|poison)|cell::|thread::LocalKey)")
# what iterates a map in the order of its hasher
ORDER = re.compile(r"^<?&?(mut )?(std::collections::(hash::map::)?Hash(Map|Set)|std::collections::Hash(Map|Set))\b.*(::(iter|iter_mut|keys|values|values_mut|drain|"
                   r"retain|into_keys|into_values|extract_if|union|intersection|difference)\b|IntoIterator>::into_iter$|fmt::Debug>::fmt$)")


def callees(P, b):
    """(kind, name, instance, span) of the calls and function references of a body"""
    def tys(x, out):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "z" and isinstance(x[1], int):
                out.append(x[1])
            else:
                for y in x:
                    tys(y, out)
    out = []
    for blk in b["bb"]:
        found = []
        tys(blk[0], found)
        tys(blk[1], found)
        sp = blk[2] if len(blk) > 2 else None
        for t in found:
            k = P.kind(t)
            if k[0] == "fndef":
                out.append(("fn", P.tname(t), k[3], sp, k[1]))
            elif k[0] == "closure":
                for i in k[2:]:
                    if i is not None:
                        out.append(("fn", P.tname(t), i, sp, k[1]))
        # closures built in place
    for l in b["locals"]:
        t = l if isinstance(l, int) else (l[0] if isinstance(l, list) and l and isinstance(l[0], int) else None)
        if t is not None and P.kind(t)[0] == "closure":
            for i in P.kind(t)[2:]:
                if i is not None:
                    out.append(("fn", P.tname(t), i, None, P.kind(t)[1]))
    return out


def has_shared(P, t, seen, depth=0):
    """name of a part of the type that can change through a shared reference"""
    if t in seen or depth > 8:
        return None
    seen.add(t)
    k = P.kind(t)
    if k[0] == "adt":
        if SHARED.search(k[1]):
            return k[1]
        for a in k[2]:
            if isinstance(a, int):
                r = has_shared(P, a, seen, depth + 1)
                if r:
                    return r
        for v in (k[3] or []):
            for f in (v if isinstance(v, list) else [v]):
                if isinstance(f, int):
                    r = has_shared(P, f, seen, depth + 1)
                    if r:
                        return r
    elif k[0] in ("array", "slice", "ref", "ptr", "pat"):
        return has_shared(P, k[1], seen, depth + 1)
    elif k[0] == "tuple":
        for a in k[1]:
            r = has_shared(P, a, seen, depth + 1)
            if r:
                return r
    return None


def where(P, i):
    n = P.insts[i]["name"]
    sp = P.insts[i].get("span")
    f = P.d["files"][sp[0]] if sp else ""
    return "%s %s" % (os.path.relpath(f, build.REPO) if f.startswith("/") else f, n)


def c27(rep, P, tier):
    rep.rule("no function of the crate, and none of core it calls into, calls an operation of the standard library that reads or changes something "
             "other than its arguments (clock, environment, files, network, processes, threads, standard streams, random state, shared mutable "
             "state, addresses); no static can change; no map with a random hasher is walked in its order")
    rep.assumption("functions of bitter, encoding_rs, fnv, phf, serde and the rest of core and alloc depend on their arguments only")
    # roots and the call graph
    edges = {}
    ncalls = 0
    roots = [i for _, i in P.d["roots"]]
    parent = {r: None for r in roots}
    todo = list(roots)
    bad, und = [], []

    def path(i):
        out = []
        while i is not None:
            out.append(P.insts[i]["name"])
            i = parent[i]
        return out[::-1]

    def judge(i, name, tname, sp, body_owner, inst):
        full = P.insts[inst]["name"] if inst is not None else tname
        for cand in {name, full, tname}:
            for rx, why in DENY:
                if rx.search(cand):
                    return ("effect", why, full)
        if ORDER.search(full) and inst is not None and random_order(P, inst):
            return ("order", "walks a map in an order that differs between runs", full)
        return None
    while todo:
        i = todo.pop()
        x = P.insts[i]
        b = x.get("body")
        if not b:
            continue
        rep.count("functions")
        if x["local"] and "PointerExpose" in exposes(b):
            bad.append((i, ("effect", "depends on an address", "a cast of a pointer to an integer")))
        for kind, tname, j, sp, dname in callees(P, b):
            ncalls += 1
            v = judge(i, dname, tname, sp, x, j)
            if v:
                bad.append((i, v))
            if j is not None and j not in parent:
                parent[j] = i
                todo.append(j)
    gen = 0
    for g in P.d["generics"]:
        gen += 1
        for kind, tname, j, sp, dname in callees(P, g["body"]):
            ncalls += 1
            for rx, why in DENY:
                if rx.search(dname) or rx.search(tname):
                    bad.append((g["name"], ("effect", why, dname)))
                    break
    rep.count("functions_generic", gen)
    rep.count("call_sites", ncalls)
    seen = set()
    for i, (kind, why, callee) in bad:
        site = where(P, i) if isinstance(i, int) else i
        key = "%s:%s" % (kind, why)
        if (site, why) in seen:
            continue
        seen.add((site, why))
        local = not isinstance(i, int) or P.insts[i]["local"]
        rep.violation(key, site, "%s: calls %s" % (why, callee[:160]), path=path(i)[-8:] if isinstance(i, int) else [])
    # statics
    for n, s in P.statics.items():
        if not n.startswith("boxcars::"):
            continue
        rep.count("statics")
        sh = has_shared(P, s["ty"], set())
        if sh is None:
            rep.count("statics_constant")
        elif "LazyLock" in sh or "lazy_lock" in sh:
            rep.count("statics_constant")
            rep.sample("%s is computed once, from nothing" % n)
        elif "OnceLock" in sh or "OnceCell" in sh:
            caught = captured_once(P)
            if caught:
                rep.violation("static:%s" % n, n, "a static is filled once from the data of a call (%s) and kept for the next" % caught)
            else:
                rep.undecided(n, "a static is filled at run time")
        else:
            # changed only where an operation above changes it
            rep.undecided(n, "a static with shared mutable state: %s" % sh) if not bad else None
    nob = ncalls + rep.counts.get("statics", 0)
    rep.count("obligations", nob)
    rep.count("discharged", nob - len(bad))
    rep.functions.update(P.insts[i]["name"] for i in parent if P.insts[i].get("body") and P.insts[i]["local"])
    rep.floor("functions", 150)
    rep.floor("call_sites", 800)


def exposes(b):
    """kinds of the casts of pointers to integers"""
    out = set()
    for blk in b["bb"]:
        for s in blk[0]:
            if s[0] == "=" and isinstance(s[2], list) and s[2] and s[2][0] == "cast" and "Expose" in str(s[2][1]):
                out.add("PointerExpose")
    return out


def random_order(P, j):
    def go(t, depth=0):
        k = P.kind(t)
        if k[0] == "adt":
            if k[1].endswith("RandomState"):
                return True
            return depth < 3 and any(isinstance(a, int) and go(a, depth + 1) for a in k[2])
        if k[0] in ("ref", "ptr"):
            return go(k[1], depth)
        return False
    return any(isinstance(a, int) and go(a) for a in P.insts[j]["args"])


def captured_once(P):
    for i, x in enumerate(P.insts):
        n = x["name"]
        if re.search(r"^std::(sync::OnceLock|cell::OnceCell).*::set$", n):
            return n[:100]
        if re.search(r"^std::(sync::OnceLock|cell::OnceCell).*::(get_or_init|get_or_try_init|get_mut_or_init)", n):
            for a in x["args"]:
                if isinstance(a, int) and P.kind(a)[0] == "closure":
                    j = P.kind(a)[2]
                    b = P.insts[j].get("body") if j is not None else None
                    if b is None or uses_captures(b):
                        return n[:100]
    return None


def uses_captures(b):
    """does the body of a closure read a captured variable (a field of its first argument)"""
    def go(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == 1 and isinstance(x[1], list) and any(isinstance(p, list) and p and p[0] == "f" for p in x[1]):
                return True
            return any(go(y) for y in x)
        return False
    return any(go(blk[0]) or go(blk[1]) for blk in b["bb"])


# ------------------------------------------------------------------ type-level witnesses
WITNESS = '''#![allow(dead_code)]
fn crosses<T: Send + Sync + Unpin + std::panic::UnwindSafe + std::panic::RefUnwindSafe>() {}
fn owned<T: Send + Sync + Clone + PartialEq + std::fmt::Debug + 'static>() {}
fn error<T: std::error::Error + Send + Sync + 'static>() {}
fn boxed<T: Into<Box<dyn std::error::Error + Send + Sync>>>() {}
fn out<T: serde::Serialize>() {}
fn back<T: serde::Serialize + serde::de::DeserializeOwned>() {}
fn id<T: Copy + Eq + std::hash::Hash + Ord>() {}

%s
'''


def obligations(P):
    """(label, code): each is a function of its own so that a failure names it"""
    out = []
    for t in ("Replay", "HeaderProp", "NetworkFrames", "Frame", "NewActor", "UpdatedAttribute", "Attribute", "ParseError", "NetworkError",
              "FrameError", "AttributeError", "FrameContext"):
        out.append(("owned", t, "owned::<boxcars::%s>()" % t))
        out.append(("crosses", t, "crosses::<boxcars::%s>()" % t))
    for t in ("ParseError", "NetworkError", "FrameError", "AttributeError"):
        out.append(("error", t, "error::<boxcars::%s>(); boxed::<boxcars::%s>()" % (t, t)))
    out.append(("crosses", "ParserBuilder", "crosses::<boxcars::ParserBuilder<'static>>()"))
    for t in ("Replay", "HeaderProp", "NetworkFrames"):
        out.append(("out", t, "out::<boxcars::%s>()" % t))
    for t in ("Frame", "NewActor", "UpdatedAttribute", "Attribute", "Trajectory", "ActorId", "ObjectId", "StreamId"):
        out.append(("back", t, "back::<boxcars::%s>()" % t))
    for t in ("ActorId", "ObjectId", "StreamId"):
        out.append(("id", t, "id::<boxcars::%s>()" % t))
    return out


SAY = {"owned": "is not an owned value that can be cloned, compared, shown and sent to or shared with another thread",
       "crosses": "cannot be sent to, or shared with, another thread (or kept across a caught panic)",
       "error": "is not an error that can be boxed and sent to another thread", "out": "cannot be serialized",
       "back": "cannot be serialized and deserialized", "id": "is not a plain value usable as a key"}


def c28(rep, P, tier):
    rep.rule("a program that states each bound is type-checked against the crate: it compiles exactly when the bounds hold; the types' fields are covered by the "
             "auto traits' own structural rule")
    rep.rule("the crate is type-checked with unsafe code forbidden")
    uses, r = build.unsafe_uses()
    rep.count("obligations")
    if not uses:
        if r.returncode:
            rep.undecided("unsafe", r.stdout[-300:])
        else:
            rep.count("discharged")
    for msg, site in uses[:5]:
        rep.violation("unsafe:%s" % site.rsplit(":", 2)[0], site, msg)
    obs = obligations(P)
    d = tempfile.mkdtemp(prefix="vpw")
    try:
        lib = build.metadata(d)
        src = os.path.join(d, "w.rs")
        body = "\n".join("fn ob%d() { %s; }" % (n, code) for n, (_, _, code) in enumerate(obs))
        with open(src, "w") as f:
            f.write(WITNESS % body)
        r = build.check_witness(src, lib, d)
        head = (WITNESS % "@@").split("@@")[0].count("\n")
        bad = {}
        for m in re.finditer(r"error(\[E\d+\])?: ([^\n]*)\n\s*--> [^\n]*w\.rs:(\d+):", r.stdout):
            n = int(m.group(3)) - head - 1
            if 0 <= n < len(obs):
                bad.setdefault(n, (m.group(1), m.group(2)))
        if r.returncode and not bad:
            rep.undecided("witness", r.stdout[-400:])
            return
        rep.count("obligations", len(obs))
        rep.count("discharged", len(obs) - len(bad))
        rep.count("units")
        for n, (code, msg) in sorted(bad.items()):
            kind, t, _ = obs[n]
            if code not in ("[E0277]", "[E0310]", "[E0597]"):
                rep.undecided(t, msg[:200])        # a type that is not there any more is not a broken bound
                continue
            rep.violation("%s:%s" % (kind, t), "boxcars::%s" % t, "%s %s: %s" % (t, SAY[kind], msg[:200]))
        for k, t, _ in obs:
            rep.functions.add("boxcars::" + t)
        rep.floor("obligations", 30)
    finally:
        shutil.rmtree(d, ignore_errors=True)


CHECKS = {"C27": c27, "C28": c28}
