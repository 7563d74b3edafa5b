"""Loops.

Constant trip counts are unrolled.  A loop with a symbolic range `lo..hi` is treated by
the ghost iteration rule: the body is executed once for a generic iteration (frame run)
to establish that iterations are independent, i.e.

 * every element of a shared array written in the iteration has the loop index as one
   of its coordinates, and elements of such arrays are only read at that coordinate;
 * every other variable that outlives the iteration is an induction variable (constant
   increment), an accumulator (v = v + e with e not depending on accumulators) or a
   scratch variable (assigned before use).

Then the state after the loop, seen at the ghost coordinates, is obtained by executing
only the iteration of the ghost coordinate.  An accumulator becomes v0 + eps*e: eps is
the linear operator "sum over the iterations of this loop", e the contribution of the
ghost iteration.  Values containing eps may not reach a condition or a divisor.
"""
from .term import P, atom, var, cmp, band, bor, bnot, equal
from .ctx import Unsupported, Infeasible


def eps(dim):
    return P.atom(atom("var", "eps_" + dim, (), "R"))


ZERO = P.atom(atom("var", "zero_contribution", (), "R"))


def no_eps(p):
    return not any(a.name.startswith("eps_") for a in p.atoms())


def plain(x):
    while x.get("kind") in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups", "CStyleCastExpr"):
        x = x["inner"][0]
    return x


def names(x):
    """The variables of an expression."""
    out = set()
    if isinstance(x, dict):
        if x.get("kind") == "DeclRefExpr":
            out.add(x["referencedDecl"]["id"])
        for y in x.get("inner", []):
            out |= names(y)
    return out


def is_step(x):
    x = plain(x)
    return (x.get("kind") == "UnaryOperator" and x.get("opcode") in ("++", "--") or x.get("kind") == "CompoundAssignOperator" and x.get("opcode") in ("+=", "-=")
            or x.get("kind") == "BinaryOperator" and x.get("opcode") == "=") and plain(x["inner"][0]).get("kind") == "DeclRefExpr"


def jumps(x):
    """A continue statement of this loop."""
    if x.get("kind") == "ContinueStmt":
        return True
    return x.get("kind") not in ("ForStmt", "WhileStmt", "DoStmt") and any(jumps(y) for y in x.get("inner", []))


def normal_form(c, inc, body):
    """The loop with its index stepped by one increment: `for (..; i < n; i++, j++) B` has the same iterations as
    `for (..; i < n; i++) { B (a continue jumps here); j++; }` and `while (i < n) { B; i++; }` as `for (; i < n; i++) B`,
    the index being a variable of the condition that B does not modify."""
    if inc is not None and plain(inc).get("kind") == "BinaryOperator" and plain(inc)["opcode"] == ",":
        parts, todo = [], [inc]
        while todo:
            x = todo.pop(0)
            y = plain(x)
            if y.get("kind") == "BinaryOperator" and y["opcode"] == ",":
                todo = y["inner"] + todo
            else:
                parts.append(x)
        ix = [k for k, x in enumerate(parts) if is_step(x) and names(plain(x)["inner"][0]) <= names(c)]
        if len(ix) == 1:
            index = names(plain(parts[ix[0]])["inner"][0])
            others = parts[:ix[0]] + parts[ix[0] + 1:]
            if not any(names(x) & index for x in others) and not any((names(plain(x)["inner"][0]) & names(c)) for x in others if is_step(x)) and all(is_step(x) for x in others):
                return parts[ix[0]], dict(kind="DvIteration", id=body.get("id", ""), inner=[body] + others)
    if inc is None and body.get("kind") == "CompoundStmt" and len(body.get("inner", [])) > 1 and not jumps(body):
        # the step: a trailing increment, followed by other increments only
        st = body["inner"]
        k = len(st)
        while k > 0 and is_step(st[k - 1]):
            k -= 1
            if names(plain(st[k])["inner"][0]) <= names(c) and not any(names(x) & names(plain(st[k])["inner"][0]) for x in st[k + 1:]):
                rest = st[:k] + st[k + 1:]
                return st[k], dict(body, inner=rest)
    return inc, body


def for_loop(I, n, c, inc, body, env):
    from .cxx import Break, Continue, Throw, Ret, FLOAT
    count = 0
    while True:
        if c is None:
            b = True
        else:
            b = I.tobool(peek_cond(I, c, env)) if False else loop_cond(I, c, env)
        if b is True or b is False:
            if not b:
                return
            count += 1
            if count > 600:
                raise Unsupported("long loop")
            try:
                if getattr(I, "cut", None) and len(I.fnstack) == 1:
                    cut_iteration(I, n, body, env, count)
                else:
                    I.stmt(body, env)
            except Break:
                return
            except Continue:
                pass
            if inc is not None:
                I.expr(inc, env)
            continue
        # symbolic condition
        if c["kind"] == "BinaryOperator" and c["opcode"] in ("<", "<=", ">", ">=", "!="):
            inc, body = normal_form(c, inc, body)
        if inc is None:
            return search_loop(I, n, c, body, env)
        if getattr(I, "is_scene", False):
            from . import cscene
            if cscene.calls_raster(I, body):
                return cscene.trace_loop(I, n, c, inc, body, env)
        if c["kind"] != "BinaryOperator" or c["opcode"] not in ("<", "<=", ">", ">=", "!="):
            return search_loop(I, n, c, body, env, inc)
        return symbolic_loop(I, n, c, inc, body, env)


def cut_iteration(I, n, body, env, k):
    """Iteration number k of an unrolled loop with an invariant: the body establishes I.cut(I, k),
    and nothing else is known afterwards about what it modifies."""
    from .cxx import is_int
    before = I.snapshot()

    def once(ctx):
        I.store = {o: dict(v) for o, v in before.items()}
        log = dict(reads=[], writes=[], bulk=[], created=set())
        saved, I.logs = I.logs, I.logs + [log]
        try:
            I.stmt(body, dict(env))
        finally:
            I.logs = saved
        for name, b in I.cut(I, k):
            ctx.require(name, b)
        if log["bulk"]:
            raise Unsupported("bulk operation in a loop with an invariant")
        return {(o, key) for o, key in log["writes"] if o.uid not in log["created"]}
    mods = set().union(*I.ctx.sub((n["id"], k), once))
    I.store = {o: dict(v) for o, v in before.items()}
    for o, key in sorted(mods, key=lambda m: (m[0].name, str(m[1]))):
        I.store.setdefault(o, {})[key] = I.ctx.fresh(o.name, "I" if is_int(o.elem) else "R")
    for _, b in I.cut(I, k):
        I.ctx.assume(b)


def loop_cond(I, c, env):
    """The condition without forking when it is not a constant."""
    if c["kind"] == "BinaryOperator" and c["opcode"] in ("&&", "||"):
        a = loop_cond(I, c["inner"][0], env)
        if c["opcode"] == "&&" and a is False or c["opcode"] == "||" and a is True:
            return a
        b = loop_cond(I, c["inner"][1], env)
        return band(a, b) if c["opcode"] == "&&" else bor(a, b)
    if c["kind"] == "ParenExpr":
        return loop_cond(I, c["inner"][0], env)
    b = I.tobool(I.rv(c, env))
    if isinstance(b, tuple):
        # constant on this path?
        if not I.ctx.sat(b):
            return False if False else b
    return b


def search_loop(I, n, c, body, env, inc=None):
    """while (cond(x)) x++ : afterwards cond is false, and x was not incremented or cond
    held for the previous value."""
    from .cxx import LV
    before = I.snapshot()

    def once(ctx):
        I.store = {o: dict(v) for o, v in before.items()}
        e = dict(env)
        log = dict(reads=[], writes=[], bulk=[], created=set())
        saved, I.logs = I.logs, [log]
        try:
            I.stmt(body, e)
            if inc is not None:
                I.expr(inc, e)
        finally:
            I.logs = saved
        ch = {}
        for o, k in log["writes"]:
            if o.uid not in log["created"]:
                ch[(o, k)] = I.store[o].get(k)
        return ch, list(log["bulk"])
    res = I.ctx.sub(n["id"], once)
    I.store = before
    mods = set()
    for ch, bulk in res:
        if bulk:
            raise Unsupported("while loop")
        mods |= set(ch)
    if len(mods) != 1 or len(res) != 1:
        raise Unsupported(f"while loop modifying {sorted(str(m[0]) for m in mods)} at {I.where()}")
    (o, k), = mods
    v0 = before[o][k]
    v1 = res[0][0][(o, k)]
    step = (v1 - v0).const() if isinstance(v1, P) and isinstance(v0, P) else None
    if step not in (1, -1):
        raise Unsupported("while loop that is not a linear search")
    X = I.ctx.fresh("search", "I")
    D = X - v0 if step == 1 else v0 - X
    I.ctx.assume(cmp(">=", D, 0))
    I.store[o][k] = X
    cn = loop_cond(I, c, env)
    I.ctx.assume(bnot(cn) if isinstance(cn, tuple) else (True if cn is False else False))
    I.store[o][k] = X - step
    cp = loop_cond(I, c, env)
    I.ctx.assume(bor(cmp("==", D, 0), cp))
    I.store[o][k] = X
    I.ctx.report.notes.append(f"{I.where()}: linear search rule") if len(I.ctx.report.notes) < 50 else None


def find_var(I, c, inc, env):
    x = inc
    while x["kind"] in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups"):
        x = x["inner"][0]
    if x["kind"] == "UnaryOperator" and x["opcode"] in ("++", "--"):
        step = 1 if x["opcode"] == "++" else -1
        t = x["inner"][0]
    elif x["kind"] == "CompoundAssignOperator" and x["opcode"] in ("+=", "-="):
        s = I.num(I.rv(x["inner"][1], env)).const()
        if s not in (1, -1):
            raise Unsupported("loop step")
        step = s if x["opcode"] == "+=" else -s
        t = x["inner"][0]
    elif x["kind"] == "BinaryOperator" and x["opcode"] == "=":
        t = x["inner"][0]
        lv = I.lvalue(t, env)
        v0 = I.load(lv)
        v1 = I.rv(x["inner"][1], env)
        step = (v1 - v0).const()
        if step not in (1, -1):
            raise Unsupported("loop step")
    else:
        raise Unsupported("loop increment " + x["kind"])
    while t["kind"] == "ParenExpr":
        t = t["inner"][0]
    return t, step


def loop_range(I, c, inc, env):
    """(lvalue of the index, step, first, last inclusive)."""
    t, step = find_var(I, c, inc, env)
    lv = I.lvalue(t, env)
    v0 = I.load(lv)
    a, b = c["inner"]
    op = c["opcode"]
    # linear condition in the index: evaluate both sides with the index as an atom
    probe = P.atom(atom("var", "loopindex", (), "I"))
    key = I.coords(lv.obj, lv.off) + lv.path
    old = I.store[lv.obj][key]
    I.store[lv.obj][key] = probe
    x, y = I.num(I.rv(a, env)), I.num(I.rv(b, env))
    I.store[lv.obj][key] = old
    if not isinstance(x, P) or not isinstance(y, P):
        raise Unsupported("loop bound")
    d = x - y
    pa = next(iter(probe.atoms()))
    co = d.coeff(pa, 1)
    rest = d.coeff(pa, 0)
    if d.degree(pa) != 1 or co.const() not in (1, -1):
        raise Unsupported("loop condition")
    if co.const() == -1:
        rest = -rest
        op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}[op]
    # index op -rest
    bound = -rest
    if op == "!=":
        op = "<" if step == 1 else ">"
    if step == 1 and op == "<":
        last = bound - 1
    elif step == 1 and op == "<=":
        last = bound
    elif step == -1 and op == ">":
        last = bound + 1
    elif step == -1 and op == ">=":
        last = bound
    else:
        raise Unsupported("loop direction")
    if not v0.is_int() and v0.const() is None or not last.is_int() and last.const() is None:
        raise Unsupported("loop over non integers")
    return lv, key, step, v0, last


class Hat:
    pass


def hat_atom(I, o, k, sort="R"):
    return P.atom(atom("var", "hat:" + o.uid + ":" + ",".join(map(str, k)), (), sort))


def has_hat(v, only=None):
    if isinstance(v, P):
        return any(a.name.startswith("hat:") for a in v.all_atoms())
    if isinstance(v, tuple) and v and v[0] in ("<", "<=", "==", "not", "and", "or", "b"):
        from .term import bool_polys
        return any(has_hat(p) for p in bool_polys(v)) or v[0] == "b" and v[1].name.startswith("hat:")
    return False


def shared(o):
    return any(g is not None for g in o.ghosts) or any(d.const() is None for d in o.dims)


def symbolic_loop(I, n, c, inc, body, env):
    from .cxx import Break, Continue, Throw, Ret, FLOAT, Ptr, is_float, is_bool, is_ptr
    ctx = I.ctx
    lv, vkey, step, v0, last = loop_range(I, c, inc, env)
    lo, hi = (v0, last) if step == 1 else (last, v0)
    count = hi - lo + 1
    before = I.snapshot()
    safe = I.mode == "safe"

    # ---- split of a flattened range into the dimensions of the arrays
    split = None
    if lo.const() == 0:
        d, g = I.split_dims(count)
        if len(d) > 1:
            split = (d, g)
    site = n["id"] + ":" + str(len(I.fnstack))

    def index_value(ctx2):
        """A generic iteration; returns (index, list of component atoms)."""
        if split:
            comps, idx = [], P.of(0)
            for s in split[0]:
                if s.const() is not None and s.const() <= 12:
                    q = P.of(ctx2.choose(s.const()))
                else:
                    q = ctx2.fresh("it", "I")
                    ctx2.assume(band(cmp(">=", q, 0), cmp("<", q, s)))
                idx = idx * s + q
                comps.append(q)
            return idx, comps
        q = ctx2.fresh("it", "I")
        ctx2.assume(band(cmp(">=", q, lo), cmp("<=", q, hi)))
        return q, [q]

    def run_generic(hats, ind):
        """hats: cells replaced by unknown values; ind: cells -> per-iteration increment."""
        def once(ctx2):
            I.store = {o: dict(v) for o, v in before.items()}
            e = dict(env)
            idx, comps = index_value(ctx2)
            for (o, k) in hats:
                b = before[o].get(k)
                if (o, k) in ind:
                    I.store[o][k] = b + (idx - lo) * ind[(o, k)] * (1 if step == 1 else 1) if step == 1 else b + (hi - idx) * ind[(o, k)]
                elif isinstance(b, P):
                    I.store[o][k] = hat_atom(I, o, k, "I" if b.is_int() and not is_float(o.elem) else "R")
                elif isinstance(b, (bool, tuple)):
                    I.store[o][k] = ("b", atom("var", "hat:" + o.uid + str(k), (), "B"))
                elif isinstance(b, Ptr):
                    I.store[o][k] = b
                    if not I.tolerant:
                        raise Unsupported("pointer carried by a loop")
                else:
                    I.store[o].pop(k, None)
            # arrays shared between iterations are only known at the ghost coordinates
            I.store[lv.obj][vkey] = idx
            starts = {(o, k): I.store[o].get(k) for o, k in hats}
            base_pc = len(ctx2.pc)
            log = dict(reads=[], writes=[], bulk=[], created=set())
            saved_logs, I.logs = I.logs, [log]
            outcome = "normal"
            ev0 = len(I.events)
            try:
                try:
                    I.stmt(body, e)
                except Continue:
                    pass
            except Break:
                outcome = "break"
            except Throw:
                outcome = "throw"
            except Ret:
                outcome = "return"
            finally:
                I.logs = saved_logs
            events = I.events[ev0:]
            del I.events[ev0:]
            ends = {}
            for o, k in log["writes"]:
                if o.uid not in log["created"]:
                    ends[(o, k)] = I.store.get(o, {}).get(k)
            return dict(outcome=outcome, starts=starts, idx=idx, comps=comps, log=log, ends=ends, pc=list(ctx2.pc[base_pc:]), events=events)
        t = I.tolerant
        return ctx.sub((site, frozenset(hats), frozenset(ind.items()), I.tolerant), once)

    def modified(res):
        m = set()
        for r in res:
            for o, k in r["log"]["writes"]:
                if o.uid not in r["log"]["created"] and (o, k) != (lv.obj, vkey) and not element(o, k, r["comps"]) and not (I.tolerant and I.hatted(k)):
                    m.add((o, k))
        return m

    def complete(cells):
        """Initial values of the cells, read before the loop."""
        for o, k in cells:
            if k not in before.setdefault(o, {}) and (shared(o) or o.init is not None):
                st, I.store, lg, I.logs = I.store, before, I.logs, []
                try:
                    I.read(o, k)
                finally:
                    I.store, I.logs = st, lg

    def element(o, k, comps):
        """An element of a shared array whose coordinates depend on the loop index."""
        if not shared(o):
            return False
        if safe:
            return True
        qs = {a for q in comps if q.const() is None for a in q.atoms()}
        return any(isinstance(x, P) and x.all_atoms() & qs for x in k)

    # ---- phase A: which variables change, which are induction variables
    hats, ind = set(), {}
    I.tolerant += 1
    try:
        for _ in range(10):
            res = run_generic(hats, ind)
            steps = {}
            for (o, k) in hats:
                b = before[o].get(k)
                if isinstance(b, P) and not shared(o):
                    for r in res:
                        if r["outcome"] == "normal":
                            s0 = r["starts"][(o, k)]
                            e = r["ends"].get((o, k), s0)
                            s = (e - s0).const() if isinstance(e, P) and isinstance(s0, P) else None
                            steps.setdefault((o, k), set()).add(s)
            new_ind = {c: next(iter(s)) for c, s in steps.items() if len(s) == 1 and next(iter(s))}
            new = modified(res) - hats
            scal = {c for c in new if not shared(c[0])}
            if scal or new_ind != ind:
                hats |= scal
                complete(scal)
                ind = new_ind
            elif new:
                hats |= new
                complete(new)
            else:
                break
    finally:
        I.tolerant -= 1
        I.store = {o: dict(v) for o, v in before.items()}

    # ---- phase B: frame run
    res = run_generic(hats, ind)
    I.store = {o: dict(v) for o, v in before.items()}
    more = modified(res) - hats
    if more:
        raise Unsupported(f"loop variables changed late: {more}")
    for r in res:
        if r["outcome"] in ("break", "return"):
            raise Unsupported(f"{r['outcome']} inside a loop of symbolic length at {I.where()}")
        if r["log"]["bulk"]:
            raise Unsupported("bulk copy inside a loop")

    for r in res:
        e = r["ends"].get((lv.obj, vkey))
        if e is not None and not (isinstance(e, P) and equal(e, r["idx"])):
            raise Unsupported(f"the body of a loop modifies its index at {I.where()}")
    if safe:
        for (o, k) in hats:
            b = before[o].get(k)
            if isinstance(b, P):
                x = ctx.fresh("after", "I" if not is_float(o.elem) else "R")
                if (o, k) in ind:
                    x = b + (count if step == 1 else count) * ind[(o, k)]
                    if not ctx.valid(cmp(">=", count, 0)):
                        x = ctx.fresh("after", "I")
                I.store[o][k] = x
            elif isinstance(b, (bool, tuple)):
                I.store[o][k] = I.nondet()
            else:
                I.store[o].pop(k, None)
        for r in res:
            for o, k in r["log"]["writes"]:
                if o.uid not in r["log"]["created"] and shared(o):
                    I.store[o] = {"#stale": True}
        I.store[lv.obj][vkey] = ctx.fresh("index", "I")
        return

    # ---- independence of the iterations
    comps_any = any(len(r["comps"]) > 1 for r in res)
    arrays = {}
    scatter = []
    for r in res:
        for o, k in r["log"]["writes"]:
            if o.uid not in r["log"]["created"] and element(o, k, r["comps"]):
                arrays.setdefault(o, []).append((r, k))
    ghost_for = {}

    def depends(cds, q):
        (qa,) = q.atoms()
        return [i for i, x in enumerate(cds) if isinstance(x, P) and qa in x.all_atoms()]

    def note_ghost(o, k, r, write):
        """Coordinates that carry the loop index -> ghost values for the components."""
        found = set()
        for ci, q in enumerate(r["comps"]):
            if q.const() is not None:
                continue
            (qa,) = q.atoms()
            for i, x in enumerate(k):
                if isinstance(x, P) and qa in x.all_atoms():
                    if x.degree(qa) == 1 and x.coeff(qa, 1).const() in (1, -1) and no_other(x.coeff(qa, 0), r["comps"]):
                        g = o.ghosts[i] if i < len(o.ghosts) else None
                        if g is not None:
                            c1 = x.coeff(qa, 1).const()
                            gv = (g - x.coeff(qa, 0)) * c1
                            ghost_for.setdefault(ci, [])
                            if not any(equal(gv, y) for y in ghost_for[ci]):
                                if write:
                                    ghost_for[ci].insert(0, gv)
                                else:
                                    ghost_for[ci].append(gv)
                            found.add(ci)
        return found

    def no_other(p, comps):
        return True

    for o, l in arrays.items():
        for r, k in l:
            f = note_ghost(o, k, r, True)
            want = {ci for ci, q in enumerate(r["comps"]) if q.const() is None}
            if f != want:
                raise Unsupported(f"iterations write to {o.name} at {list(map(str, k))}, which does not identify the iteration ({I.where()})")
    for o, k in hats:
        if o in arrays:
            raise Unsupported(f"{o.name} is written at the loop index and elsewhere in a loop at {I.where()}")
    for r in res:
        for o, k in r["log"]["reads"]:
            if shared(o) and (o, k) not in hats:
                if any(h[0] == o for h in hats):
                    raise Unsupported(f"{o.name} is read at {list(map(str, k))} in a loop that accumulates in it ({I.where()})")
                f = note_ghost(o, k, r, False)
                if o in arrays and f != {ci for ci, q in enumerate(r["comps"]) if q.const() is None}:
                    raise Unsupported(f"an iteration reads {o.name}, written by others, at {list(map(str, k))}")
    # consistency: reads of written arrays in the same iteration at the written coordinate
    for ci, l in ghost_for.items():
        if len(l) > 1 and arrays:
            raise Unsupported(f"shifted accesses in a loop: {list(map(str, l))}")

    # coordinates of the arrays that depend on the iteration
    positions = {}
    for o, l in arrays.items():
        for r, k in l:
            qs = {x for q in r["comps"] if q.const() is None for x in q.atoms()}
            positions.setdefault(o, set()).update(i for i, x in enumerate(k) if isinstance(x, P) and x.all_atoms() & qs)

    # ---- classification of scalars
    acc, scratch = {}, set()
    for (o, k) in hats:
        if (o, k) in ind:
            continue
        b = before[o].get(k)
        if not isinstance(b, P):
            scratch.add((o, k))
            continue
        h = hat_atom(I, o, k, "I" if b.is_int() and not is_float(o.elem) else "R")
        ha = next(iter(h.atoms()))
        kinds = set()
        for r in res:
            if r["outcome"] != "normal":
                continue
            e = r["ends"].get((o, k))
            if (o, k) not in r["ends"]:
                kinds.add("same")
            elif isinstance(e, P) and not has_hat(e):
                kinds.add("set")
            elif isinstance(e, P) and equal(e.coeff(ha, 1), 1) and e.degree(ha) == 1 and not has_hat(e.coeff(ha, 0)):
                kinds.add("add")
            else:
                kinds.add("?")
        if "?" in kinds or {"set", "add"} <= kinds:
            raise Unsupported(f"variable {o.name}{list(map(str, k))} is carried from one iteration to the next at {I.where()}")
        if "add" in kinds:
            acc[(o, k)] = h
        else:
            scratch.add((o, k))
    for r in res:
        if any(has_hat(x) for x in r["pc"]):
            raise Unsupported(f"a condition depends on a value carried by the loop at {I.where()}")
        for o, l in arrays.items():
            pass
        for ev in r["events"]:
            if has_hat_deep(ev):
                raise Unsupported("an event depends on a value carried by the loop")

    # ---- ghost iteration
    if split:
        comps = []
        for ci, s in enumerate(split[0]):
            if s.const() is not None and s.const() <= 12:
                comps.append(None)
            else:
                g = ghost_for.get(ci) or ([split[1][ci]] if split[1][ci] is not None else [])
                if not g:
                    raise Unsupported("no ghost coordinate for a loop")
                comps.append(g[0])
        consts = [(i, s.const()) for i, s in enumerate(split[0]) if comps[i] is None]
        idxs = []
        import itertools
        for combo in itertools.product(*[range(s) for _, s in consts]):
            cs = list(comps)
            for (i, _), v in zip(consts, combo):
                cs[i] = P.of(v)
            x = P.of(0)
            for s, q in zip(split[0], cs):
                x = x * s + q
            idxs.append(x)
        if step == -1:
            idxs.reverse()
        names = [next(iter(s.atoms())).name for s, cst in zip(split[0], comps) if cst is not None]
    else:
        g = ghost_for.get(0)
        if not g:
            d, gs = I.split_dims(count) if lo.const() == 0 else ([], [None])
            g = [gs[0]] if len(d) == 1 and gs[0] is not None else None
        if not g:
            if not arrays and not acc and not any(r["events"] for r in res) and all(r["outcome"] == "normal" for r in res):
                g = None
            else:
                raise Unsupported(f"no ghost coordinate for the loop at {I.where()}")
        idxs = [g[0]] if g else []
        names = []
    # name of the summation operator: the ghost coordinate(s)
    sumname = "*".join(sorted({a.name for x in idxs for a in x.atoms() if a.name.startswith("g_")})) or "?"
    E = eps(sumname)

    def after(ran):
        for (o, k), h in acc.items():
            ha = next(iter(h.atoms()))
            b = before[o][k]
            if ran:
                e = I.store[o][k]
                # contribution
                delta = e - h
                if has_hat(delta):
                    raise Unsupported(f"accumulator {o.name} at {I.where()}")
                I.store[o][k] = b + E * delta
            else:
                I.store[o][k] = b + E * ZERO
        for (o, k) in scratch:
            I.store[o].pop(k, None)
            if shared(o):
                I.store[o]["#stale"] = True
                I.store[o][k] = ctx.fresh("after_" + o.name)
        for (o, k), s in ind.items():
            I.store[o][k] = ctx.fresh("after_" + o.name, "I")
        I.store[lv.obj][vkey] = ctx.fresh("index", "I")
        for o in arrays:
            I.store.setdefault(o, {})
            for k in list(I.store[o]):
                if k != "#stale" and any(i < len(k) and o.ghosts[i] is not None and not equal(k[i], o.ghosts[i]) for i in positions[o]):
                    del I.store[o][k]
            I.store[o]["#stale"] = True

    hooks = getattr(I, "loop_events", None)
    inside = False
    if idxs:
        if split:
            inside = True  # ghost coordinates are valid coordinates of the product range
        else:
            inside = ctx.branch(band(cmp(">=", idxs[0], lo), cmp("<=", idxs[0], hi)))
    if not inside:
        I.store = {o: dict(v) for o, v in before.items()}
        I.events.append(("loop", n["id"], sumname, step, None))
        after(False)
        return
    I.store = {o: dict(v) for o, v in before.items()}
    for (o, k), h in acc.items():
        I.store[o][k] = h
    for (o, k) in scratch:
        I.store[o].pop(k, None)
    ev0 = len(I.events)
    for idx in idxs:
        for (o, k), s in ind.items():
            I.store[o][k] = before[o][k] + ((idx - lo) if step == 1 else (hi - idx)) * s
        I.store[lv.obj][vkey] = idx
        try:
            I.stmt(body, dict(env))
        except Continue:
            pass
    evs = I.events[ev0:]
    del I.events[ev0:]
    I.events.append(("loop", n["id"], sumname, step, evs))
    own = {next(iter(h.atoms())) for h in acc.values()}
    for o in I.store:
        if o in arrays:
            for k, v in I.store[o].items():
                if k != "#stale" and isinstance(v, P) and own & v.all_atoms():
                    raise Unsupported(f"{o.name}{list(map(str, k))} = {v} depends on a value carried by the loop at {I.where()}")
    after(True)


def has_hat_deep(ev):
    if isinstance(ev, P):
        return has_hat(ev)
    if isinstance(ev, (list, tuple)):
        return any(has_hat_deep(x) for x in ev)
    return False
