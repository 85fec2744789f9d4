"""Meaning of the library functions the analysed code calls."""
import terms as T
import seqs as Q
from terms import (
    BOT, F, TR, UNIT, NONE, EMPTY, OPT, RES, ORDT, ORD, NEG, POS, mk, num, agg, tup, some, ok,
    err, lift, switch, discr_switch, leaves, band, bor, bnot, bnorm, bval, ite, add, sub, mul,
    icmp, lit, items, seq, cat, one, ch, as_lit, elem, each, field, vfield, replace, occurs, app,
    merge,
)
from seqs import slen, idx, veq, vcmp, is_some, is_ok, isapp, bind_opt, bind_res, lift_sw
from interp import State, Unsupported
from facts import strip_lt

M = {}


def model(*keys):
    def d(f):
        for k in keys:
            M[k] = f
        return f

    return d


# ---------------------------------------------------------------- helpers

TEXT = ("str", "std::string::String", "std::path::Path", "std::path::PathBuf", "std::ffi::OsStr",
        "std::ffi::OsString")


def base_ty(c, i):
    """type string below references and boxes, with parameters resolved"""
    F_ = c.I.facts
    if i is None:
        return "?"
    for _ in range(6):
        t = F_.types[i]
        if t["k"] in ("ref", "ptr"):
            i = t["to"]
        elif t["k"] == "adt" and t["adt"] in ("std::boxed::Box", "std::borrow::Cow", "std::rc::Rc", "std::sync::Arc"):
            i = t["args"][0]
        else:
            break
    s = strip_lt(F_.ts(i))
    s = c.tyenv.get(s, s)
    while s and s[0] == "&":
        s = s[1:].replace("mut ", "", 1) if s[1:].startswith("mut ") else s[1:]
    for p in ("std::borrow::Cow<", "std::boxed::Box<"):
        if s.startswith(p):
            s = s[len(p):-1]
    return s


def aty(c, i):
    if c.atys and i < len(c.atys):
        return base_ty(c, c.atys[i])
    t = c.targ(0)
    return base_ty(c, t) if t is not None else "?"


def is_text(s):
    return s in TEXT


def is_map(s):
    return s.startswith("std::collections::HashMap") or s.startswith("std::collections::BTreeMap")


def is_set(s):
    return s.startswith("std::collections::HashSet") or s.startswith("std::collections::BTreeSet")


def map_keys(s, m):
    """keys in iteration order: hash maps have any, ordered maps their own"""
    k = app("keys", m)
    if s.startswith("std::collections::BTree"):
        return app("sort", k, Q.vcmp(T.sym("§a"), T.sym("§b")))
    return k


def map_pairs(s, m):
    if s.startswith("std::collections::BTree"):
        S = map_keys(s, m)
        k = Q.bound_level(S, m)
        return each(S, k, one(tup(elem(S, k), app("map_at", m, elem(S, k)))))
    return app("mapiter", m)


def setv(c, i, v):
    """write through the i-th (mutable reference) argument"""
    r = c.args[i]
    # reference to a reference: write the innermost place
    for _ in range(4):
        x = c.I.deref(c.st, r)
        if x.k == "ref":
            r = x
        else:
            break
    c.I.write_ref(c.st, r, v)


def addr(c, i):
    r = c.args[i]
    for _ in range(4):
        x = c.I.deref(c.st, r)
        if x.k == "ref":
            r = x
        else:
            break
    return r


def deep(c, x):
    return c.I.dd(c.st, x)


def fork(c, alts):
    """alts: list of (cond, thunk(state call) -> value); joins states"""
    I = c.I
    st = c.st
    outs = []
    live = [(cd, th) for cd, th in alts if band(st.ctx, st.pc, cd) is not F]
    cell = ("forkret", len(I.stack), c.site)
    for cd, th in live:
        s2 = State(bnorm(cd), dict(st.mem), band(st.ctx, st.pc))
        save = c.st
        c.st = s2
        try:
            r = th()
        finally:
            c.st = save
        if s2.pc is F:
            continue
        s2.mem[cell] = r
        outs.append((s2.pc, s2.mem))
    if not outs:
        st.pc = F
        return BOT
    pc, mem = I.join(outs)
    r = mem.pop(cell)
    st.pc = band(st.pc, pc)
    st.mem = mem
    return r


def match_opt(c, o, fsome, fnone):
    s = bnorm(is_some(o))
    if s is TR:
        return fsome(vfield(o, 1, 0))
    if s is F:
        return fnone()
    return fork(c, [(s, lambda: fsome(under_some(o, s))), (bnot(s), fnone)])


def under_some(o, s):
    return vfield(T.under(s, o) if o.k == "sw" else o, 1, 0)


def match_res(c, o, fok, ferr):
    s = bnorm(is_ok(o))
    if s is TR:
        return fok(vfield(o, 0, 0))
    if s is F:
        return ferr(vfield(o, 1, 0))
    n = bnot(s)
    return fork(c, [
        (s, lambda: fok(vfield(T.under(s, o) if o.k == "sw" else o, 0, 0))),
        (n, lambda: ferr(vfield(T.under(n, o) if o.k == "sw" else o, 1, 0))),
    ])


def opaque_eff(c):
    return None


# ---------------------------------------------------------------- identity


@model(
    "Clone.clone", "Deref.deref", "Into.into#id", "String.as_str", "String.as_bytes", "Vec.as_slice",
    "ToOwned.to_owned", "Cow.into_owned", "str.as_bytes", "String.into_bytes", "hint.must_use",
    "slice.to_vec", "slice.iter", "Iterator.cloned", "Iterator.copied", "Option.as_deref",
    "Option.as_ref", "Option.cloned", "Option.copied", "AsRef.as_ref", "Path.new", "Borrow.borrow",
    "Chars.by_ref", "Cow.as_ref", "slice.into_vec", "str.to_owned", "str.as_str", "String.into_boxed_str",
    "str.into_string", "Vec.into_boxed_slice", "Iterator.fuse", "Iterator.peekable", "slice.as_ref",
    "Path.to_path_buf", "BufReader.new", "BufReader.with_capacity#", "Option.as_slice", "String.clone",
    "str.to_string", "Box.new", "Path.as_os_str", "str.to_ascii#", "Cow.to_mut#", "Vec.shrink_to_fit",
    "slice.as_slice", "bytes.iter", "str.bytes", "String.bytes", "Vec.into_iter", "Result.as_ref",
    "Box.into_inner", "Iterator.into_iter", "Cow.is#", "OsStr.to_os_string", "String.into_string",
    "Result.copied", "Result.cloned", "Result.as_deref", "Vec.iter", "Box.pin#", "mem.ManuallyDrop",
    "ManuallyDrop.new", "Wrapping.#",
)
def m_id(c):
    return c.v(0)


@model("Iterator.by_ref", "DerefMut.deref_mut", "AsMut.as_mut", "Read.by_ref", "Vec.as_mut_slice", "BorrowMut.borrow_mut",
       "Write.by_ref", "Option.as_deref_mut#", "Vec.deref_mut")
def m_idref(c):
    return addr(c, 0)


@model("Path.to_str", "OsStr.to_str")
def m_to_str(c):
    return some(c.v(0))


@model("Path.display", "Path.to_string_lossy")
def m_disp(c):
    return c.v(0)


@model("Box.new_uninit", "Box.new_uninit_in")
def m_box_uninit(c):
    return BOT


@model("boxed.box_assume_init_into_vec_unsafe", "Box.assume_init")
def m_assume(c):
    return c.v(0)


@model("String.reserve", "Vec.reserve", "String.shrink_to_fit", "Vec.reserve_exact")
def m_reserve(c):
    if len(c.args) > 1:
        c.I.event("alloc", c.st, TR, (c.key, c.v(1)), c.at)
    return UNIT


@model("mem.drop", "mem.forget", "drop.drop")
def m_drop(c):
    return UNIT


# ---------------------------------------------------------------- option


@model("Option.is_some")
def m_is_some(c):
    return is_some(c.v(0))


@model("Option.is_none")
def m_is_none(c):
    return bval(bnot(is_some(c.v(0))))


@model("Result.is_ok")
def m_is_ok(c):
    return is_ok(c.v(0))


@model("Result.is_err")
def m_is_err(c):
    return bval(bnot(is_ok(c.v(0))))


@model("Option.as_mut", "Option.as_deref_mut")
def m_as_mut(c):
    r = addr(c, 0)
    v = c.v(0)

    def f(x):
        if x.k != "ref":
            return BOT
        return mk("ref", x.a[0], x.a[1] + (("vf", 1, 0, OPT),))

    s = is_some(v)
    rr = lift(f, r)
    if rr is BOT:
        return lift_sw(lambda x: x, v)
    return ite(s, some(rr), NONE)


@model("Option.unwrap", "Option.expect", "Option.unwrap_unchecked")
def m_unwrap(c):
    v = c.v(0)
    s = bnorm(is_some(v))
    c.panic_unless("unwrap", s, (v,))
    if c.st.pc is F:
        return BOT
    # keep references inside the option
    w = c.d1(0)
    return vfield(T.under(s, w) if w.k == "sw" else w, 1, 0)


@model("Result.unwrap", "Result.expect")
def m_runwrap(c):
    w = c.d1(0)
    s = bnorm(is_ok(w))
    c.panic_unless("unwrap", s, (w,))
    if c.st.pc is F:
        return BOT
    return vfield(T.under(s, w) if w.k == "sw" else w, 0, 0)


@model("Result.unwrap_err", "Result.expect_err")
def m_runwrap_err(c):
    w = c.d1(0)
    s = bnot(is_ok(w))
    c.panic_unless("unwrap", s, (w,))
    if c.st.pc is F:
        return BOT
    return vfield(T.under(s, w) if w.k == "sw" else w, 1, 0)


@model("Option.unwrap_or")
def m_unwrap_or(c):
    d = deep(c, c.args[1])
    return bind_opt(c.v(0), lambda x: deep(c, x), d)


@model("Result.unwrap_or")
def m_runwrap_or(c):
    d = deep(c, c.args[1])
    return bind_res(c.v(0), lambda x: deep(c, x), lambda e: d)


def default_of(c, ty):
    s = base_ty(c, ty)
    return default_s(c, s)


def default_s(c, s):
    if s in ("std::string::String", "str") or s.startswith("std::vec::Vec") or s.startswith("["):
        return EMPTY
    if is_map(s):
        return app("mapnew")
    if s.startswith("std::option::Option"):
        return NONE
    if s in ("usize", "u32", "u64", "u8", "u16", "i32", "i64", "isize", "bool", "char"):
        return F
    if s in ("()", "()"):
        return UNIT
    if s.startswith("(") and s.endswith(")"):
        parts = split_commas(s[1:-1])
        return tup(*[default_s(c, p) for p in parts])
    if s.startswith("f"):
        return mk("flt", 0.0)
    g = c.I.facts.find_impl("std::default::Default", "default", s)
    if g is not None:
        return c.I.exec_fn(g, [], c.st, {}, (c.site, "default"))
    return None


def split_commas(s):
    out = []
    d = 0
    cur = ""
    for x in s:
        if x in "<([":
            d += 1
        elif x in ">)]":
            d -= 1
        if x == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += x
    if cur.strip():
        out.append(cur.strip())
    return out


@model("Option.unwrap_or_default")
def m_unwrap_or_default(c):
    d = default_of(c, c.dty)
    if d is None:
        return None
    return bind_opt(c.v(0), lambda x: x, d)


@model("Result.unwrap_or_default")
def m_runwrap_or_default(c):
    d = default_of(c, c.dty)
    if d is None:
        return None
    return bind_res(c.v(0), lambda x: x, lambda e: d)


@model("Default.default")
def m_default(c):
    s = c.k.get("self")
    return default_of(c, s if s is not None else c.dty)


@model("mem.take")
def m_take_mem(c):
    old = c.d1(0)
    d = default_of(c, c.dty)
    if d is None:
        return None
    setv(c, 0, d)
    return old


@model("Option.take")
def m_opt_take(c):
    old = c.v(0)
    setv(c, 0, NONE)
    return old


@model("Option.replace")
def m_opt_replace(c):
    old = c.v(0)
    setv(c, 0, some(c.args[1]))
    return old


@model("Option.insert")
def m_opt_insert(c):
    setv(c, 0, some(c.args[1]))
    r = addr(c, 0)
    return lift(lambda x: mk("ref", x.a[0], x.a[1] + (("vf", 1, 0, OPT),)) if x.k == "ref" else BOT, r)


@model("Option.get_or_insert_with", "Option.get_or_insert")
def m_opt_goi(c):
    v = c.v(0)
    s = bnorm(is_some(v))

    def none():
        d = c.callf(c.args[1]) if c.key.endswith("with") else c.args[1]
        setv(c, 0, some(d))
        return UNIT

    match_opt(c, v, lambda x: UNIT, none)
    r = addr(c, 0)
    return lift(lambda x: mk("ref", x.a[0], x.a[1] + (("vf", 1, 0, OPT),)) if x.k == "ref" else BOT, r)


@model("mem.replace")
def m_replace_mem(c):
    old = c.d1(0)
    setv(c, 0, deep(c, c.args[1]))
    return old


@model("mem.swap")
def m_swap(c):
    a, b = c.d1(0), c.d1(1)
    setv(c, 0, b)
    setv(c, 1, a)
    return UNIT


@model("Option.map")
def m_opt_map(c):
    return match_opt(c, c.d1(0), lambda x: some(c.callf(c.args[1], x)), lambda: NONE)


@model("Option.inspect")
def m_opt_inspect(c):
    v = c.d1(0)
    match_opt(c, v, lambda x: c.callf(c.args[1], x), lambda: UNIT)
    return v


@model("Option.map_or")
def m_opt_map_or(c):
    return match_opt(c, c.d1(0), lambda x: c.callf(c.args[2], x), lambda: deep(c, c.args[1]))


@model("Option.map_or_else")
def m_opt_map_or_else(c):
    return match_opt(c, c.d1(0), lambda x: c.callf(c.args[2], x), lambda: c.callf(c.args[1]))


@model("Option.is_some_and")
def m_is_some_and(c):
    return match_opt(c, c.d1(0), lambda x: c.callf(c.args[1], x), lambda: F)


@model("Option.is_none_or")
def m_is_none_or(c):
    return match_opt(c, c.d1(0), lambda x: c.callf(c.args[1], x), lambda: TR)


@model("Option.and_then")
def m_opt_and_then(c):
    return match_opt(c, c.d1(0), lambda x: c.callf(c.args[1], x), lambda: NONE)


@model("Option.and")
def m_opt_and(c):
    b = c.args[1]
    return bind_opt(c.d1(0), lambda x: b, NONE)


@model("Option.filter")
def m_opt_filter(c):
    def f(x):
        r = c.callf(c.args[1], x)
        return ite(r, some(x), NONE)

    return match_opt(c, c.d1(0), f, lambda: NONE)


@model("Option.or")
def m_opt_or(c):
    b = c.args[1]
    return bind_opt(c.d1(0), some, b)


@model("Option.or_else")
def m_opt_or_else(c):
    return match_opt(c, c.d1(0), some, lambda: c.callf(c.args[1]))


@model("Option.xor")
def m_opt_xor(c):
    return None


@model("Option.unwrap_or_else")
def m_unwrap_or_else(c):
    return match_opt(c, c.d1(0), lambda x: x, lambda: c.callf(c.args[1]))


@model("Option.ok_or")
def m_ok_or(c):
    return bind_opt(c.d1(0), ok, err(c.args[1]))


@model("Option.ok_or_else")
def m_ok_or_else(c):
    return match_opt(c, c.d1(0), ok, lambda: err(c.callf(c.args[1])))


@model("Option.flatten")
def m_opt_flatten(c):
    return bind_opt(c.d1(0), lambda x: x, NONE)


@model("Option.zip")
def m_opt_zip(c):
    b = c.d1(1)
    return bind_opt(c.d1(0), lambda x: bind_opt(b, lambda y: some(tup(x, y)), NONE), NONE)


@model("Option.iter", "Option.into_iter")
def m_opt_iter(c):
    return bind_opt(c.v(0), one, EMPTY)


@model("Result.map")
def m_res_map(c):
    return match_res(c, c.d1(0), lambda x: ok(c.callf(c.args[1], x)), err)


@model("Result.map_err")
def m_res_map_err(c):
    return match_res(c, c.d1(0), ok, lambda e: err(c.callf(c.args[1], e)))


@model("Result.and_then")
def m_res_and_then(c):
    return match_res(c, c.d1(0), lambda x: c.callf(c.args[1], x), err)


@model("Result.or_else")
def m_res_or_else(c):
    return match_res(c, c.d1(0), ok, lambda x: c.callf(c.args[1], x))


@model("Result.unwrap_or_else")
def m_res_unwrap_or_else(c):
    return match_res(c, c.d1(0), lambda x: x, lambda e: c.callf(c.args[1], e))


@model("Result.map_or")
def m_res_map_or(c):
    return match_res(c, c.d1(0), lambda x: c.callf(c.args[2], x), lambda e: deep(c, c.args[1]))


@model("Result.map_or_else")
def m_res_map_or_else(c):
    return match_res(c, c.d1(0), lambda x: c.callf(c.args[2], x), lambda e: c.callf(c.args[1], e))


@model("Result.is_ok_and")
def m_is_ok_and(c):
    return match_res(c, c.d1(0), lambda x: c.callf(c.args[1], x), lambda e: F)


@model("Result.and")
def m_res_and(c):
    b = c.args[1]
    return bind_res(c.d1(0), lambda x: b, err)


@model("Result.ok")
def m_res_ok(c):
    return bind_res(c.d1(0), some, lambda e: NONE)


@model("Result.err")
def m_res_err(c):
    return bind_res(c.d1(0), lambda x: NONE, some)


@model("Option.transpose")
def m_opt_transpose(c):
    return bind_opt(c.d1(0), lambda r: bind_res(r, lambda x: ok(some(x)), err), ok(NONE))


CF = "std::ops::ControlFlow"


@model("Try.branch")
def m_branch(c):
    v = c.d1(0)
    s = base_ty(c, c.k.get("self")) if c.k.get("self") is not None else ""
    if s.startswith("std::option::Option"):
        return bind_opt(v, lambda x: agg(CF, 0, (x,)), agg(CF, 1, (NONE,)))
    return bind_res(v, lambda x: agg(CF, 0, (x,)), lambda e: agg(CF, 1, (err(e),)))


@model("Try.from_output")
def m_from_output(c):
    s = base_ty(c, c.dty)
    return some(c.args[0]) if s.startswith("std::option::Option") else ok(c.args[0])


@model("FromResidual.from_residual")
def m_from_residual(c):
    v = c.d1(0)
    to = base_ty(c, c.targ(0))
    frm = base_ty(c, c.targ(1))
    if to.startswith("std::option::Option"):
        return NONE
    e1 = split_commas(to[len("std::result::Result<"):-1])
    e2 = split_commas(frm[len("std::result::Result<"):-1])
    x = vfield(v, 1, 0)
    if len(e1) == 2 and len(e2) == 2 and e1[1] != e2[1]:
        return err(convert(c, e1[1], e2[1], x))
    return err(x)


def convert(c, to, frm, x):
    """From::from"""
    to = strip_lt(to)
    frm = strip_lt(frm)
    I = c.I
    for s, ta, f in I.facts.impls.get(("std::convert::From", "from"), ()):
        if s == to and ta[1:] == (frm,):
            return I.exec_fn(f, [x], c.st, {}, (c.site, "from", to, frm))
    for s, ta, f in I.facts.impls.get(("std::convert::From", "from"), ()):
        if s == to and same_mod_param(ta[1], frm):
            return I.exec_fn(f, [x], c.st, {}, (c.site, "from", to, frm))
    return conv_std(c, to, frm, x)


def same_mod_param(a, b):
    return a == b


def conv_std(c, to, frm, x):
    x = deep(c, x)
    if is_map(to):
        if frm.startswith("[") or frm.startswith("std::vec"):
            return app("maplit", x)
        return x
    b = to.split("<")[0]
    if to == "std::string::String" and frm == "char":
        return ch(x)
    if b == "std::option::Option" and not frm.startswith("std::option::Option"):
        return some(x)
    if b.startswith("std::boxed::Box<dyn"):
        return x
    return x


@model("From.from")
def m_from(c):
    to = base_ty(c, c.targ(0))
    frm = strip_lt(c.I.facts.ts(c.targ(1)))
    frm = c.tyenv.get(frm, frm)
    return convert(c, to, frm, c.args[0])


@model("Into.into")
def m_into(c):
    frm = strip_lt(c.I.facts.ts(c.targ(0)))
    frm = c.tyenv.get(frm, frm)
    to = strip_lt(c.I.facts.ts(c.targ(1)))
    to = c.tyenv.get(to, to)
    if frm == to:
        return c.args[0]
    return convert(c, to, frm, c.args[0])


@model("TryFrom.try_from", "TryInto.try_into")
def m_tryfrom(c):
    x = c.v(0)
    to = base_ty(c, c.dty)
    w = {"u8": 1 << 8, "u16": 1 << 16, "u32": 1 << 32}
    for k, lim in w.items():
        if to.startswith("std::result::Result<%s," % k):
            return ite(icmp("lt", x, num(lim)), ok(x), err(mk("sym", "tryfromint")))
    if to.startswith("std::result::Result<usize,") or to.startswith("std::result::Result<u64,"):
        return ok(x)
    return None


# ---------------------------------------------------------------- comparison


@model("PartialEq.eq")
def m_eq(c):
    return local_cmp(c, "std::cmp::PartialEq", "eq") or veq(c.v(0), c.v(1))


@model("PartialEq.ne")
def m_ne(c):
    r = local_cmp(c, "std::cmp::PartialEq", "eq") or veq(c.v(0), c.v(1))
    return bval(bnot(r))


def local_cmp(c, trait, method):
    """comparison of a type of the crate behind references"""
    s = base_ty(c, c.k.get("self")) if c.k.get("self") is not None else None
    if s is None:
        return None
    T.hint(c.v(0), s)
    T.hint(c.v(1), s)
    g = c.I.facts.find_impl(trait, method, s)
    if g is not None and g.get("body"):
        return c.I.exec_fn(g, [c.v(0), c.v(1)], c.st, {}, (c.site, "cmp"))
    return None


def ordv(c):
    if c.k.get("self") is not None:
        s = base_ty(c, c.k.get("self"))
        T.hint(c.v(0), s)
        T.hint(c.v(1), s)
    return vcmp(c.v(0), c.v(1))


@model("Ord.cmp")
def m_cmp(c):
    return local_cmp(c, "std::cmp::Ord", "cmp") or ordv(c)


@model("PartialOrd.partial_cmp")
def m_pcmp(c):
    return local_cmp(c, "std::cmp::PartialOrd", "partial_cmp") or some(ordv(c))


@model("PartialOrd.lt")
def m_lt(c):
    return bval(bnorm(discr_switch(ordv(c), ORDT, (TR, F, F))))


@model("PartialOrd.le")
def m_le(c):
    return bval(bnorm(discr_switch(ordv(c), ORDT, (TR, TR, F))))


@model("PartialOrd.gt")
def m_gt(c):
    return bval(bnorm(discr_switch(ordv(c), ORDT, (F, F, TR))))


@model("PartialOrd.ge")
def m_ge(c):
    return bval(bnorm(discr_switch(ordv(c), ORDT, (F, TR, TR))))


@model("Ord.max", "cmp.max")
def m_max(c):
    return Q.imax(c.v(0), c.v(1))


@model("Ord.min", "cmp.min")
def m_min(c):
    return Q.imin(c.v(0), c.v(1))


@model("Ordering.then_with")
def m_then_with(c):
    o = c.v(0)
    e = bnorm(discr_switch(o, ORDT, (F, TR, F)))
    if e is TR:
        return c.callf(c.args[1])
    if e is F:
        return o
    return fork(c, [(bnot(e), lambda: T.under(bnot(e), o)), (e, lambda: c.callf(c.args[1]))])


@model("Ordering.then")
def m_then(c):
    b = c.v(1)
    return discr_switch(c.v(0), ORDT, (ORD[0], b, ORD[2]))


@model("Ordering.reverse")
def m_ord_rev(c):
    return discr_switch(c.v(0), ORDT, (ORD[2], ORD[1], ORD[0]))


def _ordt(name, t):
    @model("Ordering." + name)
    def f(c):
        return bval(bnorm(discr_switch(c.v(0), ORDT, t)))


_ordt("is_eq", (F, TR, F))
_ordt("is_ne", (TR, F, TR))
_ordt("is_lt", (TR, F, F))
_ordt("is_le", (TR, TR, F))
_ordt("is_gt", (F, F, TR))
_ordt("is_ge", (F, TR, TR))


@model("intrinsics.discriminant_value", "mem.discriminant")
def m_discr(c):
    x = c.v(0)
    t = base_ty(c, c.targ(0))
    a = c.I.facts.adts.get(t)
    if a is None:
        return None
    return discr_switch(x, t, tuple(num(v["discr"]) for v in a["variants"]))


@model("natord.compare")
def m_natord(c):
    t = mk("app", "natord", (c.v(0), c.v(1)))
    T.ENUM_OF.setdefault(t, ORDT)
    return t


# ---------------------------------------------------------------- integers


@model("AddAssign.add_assign")
def m_add_assign(c):
    s = aty(c, 0)
    if s == "std::string::String":
        setv(c, 0, cat(c.v(0), c.v(1)))
    else:
        setv(c, 0, add(c.v(0), c.v(1)))
    return UNIT


@model("SubAssign.sub_assign")
def m_sub_assign(c):
    a, b = c.v(0), c.v(1)
    c.panic_unless("overflow", icmp("ge", a, b), (a, b))
    setv(c, 0, sub(a, b))
    return UNIT


@model("Add.add")
def m_add(c):
    if aty(c, 0) == "std::string::String":
        return cat(c.v(0), c.v(1))
    return add(c.v(0), c.v(1))


@model("Sub.sub")
def m_sub(c):
    a, b = c.v(0), c.v(1)
    c.panic_unless("overflow", icmp("ge", a, b), (a, b))
    return sub(a, b)


@model("Mul.mul")
def m_mul(c):
    return mul(c.v(0), c.v(1))


@model("Not.not")
def m_not(c):
    return bval(bnot(c.v(0)))


for _ty in ("usize", "u32", "u64", "u8"):
    @model(_ty + ".saturating_sub")
    def m_satsub(c):
        return Q.ssub(c.v(0), c.v(1))

    @model(_ty + ".saturating_add", _ty + ".wrapping_add")
    def m_satadd(c):
        return add(c.v(0), c.v(1))

    @model(_ty + ".checked_sub")
    def m_chsub(c):
        a, b = c.v(0), c.v(1)
        return ite(icmp("ge", a, b), some(sub(a, b)), NONE)

    @model(_ty + ".checked_add")
    def m_chadd(c):
        return some(add(c.v(0), c.v(1)))

    @model(_ty + ".checked_mul")
    def m_chmul(c):
        return some(mul(c.v(0), c.v(1)))

    @model(_ty + ".max")
    def m_umax(c):
        return Q.imax(c.v(0), c.v(1))

    @model(_ty + ".min")
    def m_umin(c):
        return Q.imin(c.v(0), c.v(1))


@model("u32.from_le_bytes")
def m_fle(c):
    return app("le32", c.v(0))


@model("u32.from_be_bytes")
def m_fbe(c):
    return app("be32", c.v(0))


@model("u32.to_le_bytes", "u32.to_ne_bytes")
def m_tle(c):
    return app("le_bytes", c.v(0))


@model("u32.to_be_bytes")
def m_tbe(c):
    return app("be_bytes", c.v(0))


@model("u32.swap_bytes")
def m_bswap(c):
    return app("bswap", c.v(0))


@model("u32.to_be", "u32.from_be")
def m_tobe(c):
    return app("bswap", c.v(0))


@model("u32.to_le", "u32.from_le")
def m_tole(c):
    return c.v(0)


# ---------------------------------------------------------------- chars


def chr_in(x, ranges):
    c = bor(*[band(icmp("ge", x, num(a)), icmp("le", x, num(b))) for a, b in ranges])
    return bval(c)


@model("char.is_ascii_digit", "u8.is_ascii_digit")
def m_isdig(c):
    return chr_in(c.v(0), [(48, 57)])


@model("char.is_ascii_alphabetic")
def m_isal(c):
    return chr_in(c.v(0), [(65, 90), (97, 122)])


@model("char.is_ascii_whitespace", "u8.is_ascii_whitespace")
def m_isaws(c):
    return chr_in(c.v(0), [(9, 10), (12, 13), (32, 32)])


@model("char.is_whitespace")
def m_isws(c):
    return chr_in(c.v(0), [(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A),
                           (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)])


@model("char.len_utf8")
def m_lenutf8(c):
    return app("utf8len", c.v(0))


@model("char.is_digit")
def m_isdigit(c):
    if c.v(1) is num(10):
        return chr_in(c.v(0), [(48, 57)])
    return None


@model("char.to_digit")
def m_todigit(c):
    x = c.v(0)
    if c.v(1) is num(10):
        return ite(chr_in(x, [(48, 57)]), some(sub(x, num(48))), NONE)
    return None


# ---------------------------------------------------------------- text


@model("String.new", "Vec.new", "VecDeque.new")
def m_empty(c):
    return EMPTY


@model("String.with_capacity", "Vec.with_capacity")
def m_cap(c):
    c.I.event("alloc", c.st, TR, (c.key, c.v(0)), c.at)
    return EMPTY


@model("vec.from_elem")
def m_from_elem(c):
    n = c.v(1)
    c.I.event("alloc", c.st, TR, (c.key, n), c.at)
    x = c.v(0)
    if n.k == "int" and n.a[0] <= 64:
        return seq([("E", x)] * n.a[0])
    R = app("range", num(0), n)
    return each(R, 0, one(x))


@model("String.len", "str.len", "Vec.len", "slice.len", "ExactSizeIterator.len", "VecDeque.len")
def m_len(c):
    return slen(c.v(0))


@model("String.is_empty", "str.is_empty", "Vec.is_empty", "slice.is_empty", "VecDeque.is_empty")
def m_isempty(c):
    return icmp("eq", slen(c.v(0)), num(0))


@model("String.push")
def m_push(c):
    setv(c, 0, cat(c.v(0), ch(c.v(1))))
    return UNIT


@model("String.push_str")
def m_push_str(c):
    setv(c, 0, cat(c.v(0), c.v(1)))
    return UNIT


@model("Vec.push", "VecDeque.push_back")
def m_vpush(c):
    setv(c, 0, cat(c.v(0), one(deep(c, c.args[1]))))
    return UNIT


@model("Vec.extend_from_slice", "Vec.append", "Vec.extend")
def m_vext(c):
    b = c.v(1)
    setv(c, 0, cat(c.v(0), b))
    if c.key == "Vec.append":
        setv(c, 1, EMPTY)
    return UNIT


@model("Vec.clear", "String.clear")
def m_clear(c):
    setv(c, 0, EMPTY)
    return UNIT


@model("Vec.resize")
def m_resize(c):
    v, n, x = c.v(0), c.v(1), c.v(2)
    c.I.event("alloc", c.st, TR, (c.key, n), c.at)
    l = slen(v)
    more = each(app("range", num(0), sub(n, l)), 0, one(x))
    setv(c, 0, ite(icmp("le", n, l), app("sub", v, num(0), n), cat(v, more)))
    return UNIT


@model("Vec.truncate")
def m_truncate(c):
    setv(c, 0, app("take", c.v(0), c.v(1)))
    return UNIT


@model("String.truncate")
def m_struncate(c):
    s, n = c.v(0), c.v(1)
    setv(c, 0, ite(icmp("le", n, slen(s)), app("sub", s, num(0), n), s))
    return UNIT


@model("Vec.remove")
def m_vremove(c):
    x, i = c.v(0), c.v(1)
    c.panic_unless("bounds", icmp("lt", i, slen(x)), (x, i))
    r = app("nth", x, i)
    setv(c, 0, cat(app("take", x, i), app("skip", x, add(i, TR))))
    return r


@model("Vec.insert")
def m_vinsert(c):
    x, i, v = c.v(0), c.v(1), deep(c, c.args[2])
    c.panic_unless("bounds", icmp("le", i, slen(x)), (x, i))
    setv(c, 0, cat(app("take", x, i), one(v), app("skip", x, i)))
    return UNIT


@model("Vec.swap_remove")
def m_swap_remove(c):
    x, i = c.v(0), c.v(1)
    n = slen(x)
    c.panic_unless("bounds", icmp("lt", i, n), (x, i))
    r = app("nth", x, i)
    last = sub(n, TR)
    moved = cat(app("take", x, i), one(app("nth", x, last)), app("take", app("skip", x, add(i, TR)), sub(sub(n, i), num(2))))
    setv(c, 0, ite(icmp("lt", i, last), moved, app("take", x, i)))
    return r


@model("Vec.pop")
def m_vpop(c):
    x = c.v(0)
    ne = icmp("gt", slen(x), num(0))
    n1 = sub(slen(x), TR)
    r = ite(ne, some(app("nth", x, n1)), NONE)
    setv(c, 0, ite(ne, app("take", x, n1), EMPTY))
    return r


def init_text(s):
    """text without its last character"""
    def f(x):
        l = as_lit(x)
        if l is not None:
            return lit(l[:-1])
        if x.k == "seq":
            it = x.a[0][-1]
            if it[0] == "L":
                return seq(x.a[0][:-1] + (("L", it[1][:-1]),))
            if it[0] == "F":
                _, S, n, b = it
                bi = items(b)
                if bi and bi[-1][0] == "L":
                    p = seq(x.a[0][:-1])
                    e = elem(S, n)
                    last = bi[-1][1][-1]
                    body = seq(list(bi[:-1]) + [("L", bi[-1][1][:-1])])
                    j = cat(ite(icmp("eq", idx(e), num(0)), EMPTY, lit(last)), body)
                    return ite(icmp("eq", slen(S), num(0)), f(p) if p.k != "sw" else app("init", p), cat(p, each(S, n, j)))
            if it[0] == "A":
                y = T.expand(x)
                if y.k == "sw" and T.nleaves(y, 17) <= 16:
                    return lift(f, y)
        return app("init", x)

    return lift(f, s)


@model("String.pop")
def m_spop(c):
    s = c.v(0)
    l = as_lit(s)
    sure = s.k == "seq" and any(it[0] in "LC" for it in s.a[0])
    ne = TR if sure else icmp("gt", slen(s), num(0))
    last = app("lastchar", s) if not l else num(ord(l[-1]))
    setv(c, 0, ite(ne, init_text(s), EMPTY))
    return ite(ne, some(last), NONE)


@model("String.remove")
def m_sremove(c):
    s, i = c.v(0), c.v(1)
    c.panic_unless("bounds", icmp("lt", i, slen(s)), (s, i))
    l = as_lit(s)
    if l and i.k == "int":
        setv(c, 0, lit(l[: i.a[0]] + l[i.a[0] + 1:]))
        return num(ord(l[i.a[0]]))
    if i is F:
        cs = app("chars", s)
        h = app("nth", cs, num(0))
        setv(c, 0, drop_char(s))
        return h
    n1 = sub(slen(s), TR)
    if i is n1:
        setv(c, 0, init_text(s))
        return app("lastchar", s)
    return None


def drop_char(s):
    def f(x):
        if x.k == "seq" and x.a[0] and x.a[0][0][0] == "L":
            return seq((("L", x.a[0][0][1][1:]),) + x.a[0][1:])
        return app("tailchars", x)

    return lift(f, s)


@model("String.insert")
def m_sinsert(c):
    s, i = c.v(0), c.v(1)
    setv(c, 0, cat(app("sub", s, num(0), i), ch(c.v(2)), app("sub", s, i, slen(s))))
    return UNIT


@model("String.insert_str")
def m_sinsert_str(c):
    s, i = c.v(0), c.v(1)
    setv(c, 0, cat(app("sub", s, num(0), i), c.v(2), app("sub", s, i, slen(s))))
    return UNIT


@model("str.chars")
def m_chars(c):
    return app("chars", c.v(0))


@model("str.char_indices")
def m_char_indices(c):
    s = c.v(0)
    S = app("chars", s)
    n = Q.bound_level(S)
    e = elem(S, n)
    return each(S, n, one(tup(app("presum", S, num(n), app("utf8len", e), idx(e)), e)))


@model("Chars.as_str")
def m_as_str(c):
    x = c.v(0)
    return unchars(x)


def unchars(x):
    def f(y):
        if isapp(y, "chars"):
            return y.a[1][0]
        if y is EMPTY:
            return EMPTY
        if isapp(y, "skip"):
            return app("unchars", y)
        if y.k == "seq":
            out = []
            for it in y.a[0]:
                if it[0] == "E":
                    out.append(("C", it[1]))
                elif it[0] == "S":
                    out.append(("S", f(it[1])))
                else:
                    return app("unchars", y)
            return seq(out)
        return app("unchars", y)

    return lift(f, x)


@model("str.lines")
def m_lines(c):
    return app("lines", c.v(0))


def pat_arg(c, i):
    """pattern argument: constant text/char, closure or other"""
    p = c.v(i)
    if p.k == "fn":
        return p
    t = aty(c, i)
    if t == "char" and p.k != "int":
        return ch(p)
    if p.k == "int":
        return lit(chr(p.a[0]))
    return p


@model("str.split")
def m_split(c):
    p = pat_arg(c, 1)
    if p.k == "fn" or p.k == "seq" and p.a[0] and p.a[0][0][0] == "E":
        return None
    return app("split", c.v(0), p)


@model("str.rsplit")
def m_rsplit(c):
    return app("rev", app("split", c.v(0), pat_arg(c, 1)))


@model("str.splitn")
def m_splitn(c):
    n = c.v(1)
    s, p = c.v(0), pat_arg(c, 2)
    if n.k != "int" or p.k == "fn":
        return None
    return splitn(s, n.a[0], p)


def splitn(s, n, p):
    if n == 0:
        return EMPTY
    if n == 1:
        return one(s)
    so = Q.split_once_(s, p)
    return Q.bind_so(so, lambda a, b: cat(one(a), splitn(b, n - 1, p)), one(s))


@model("str.split_once")
def m_split_once(c):
    p = pat_arg(c, 1)
    if p.k == "fn":
        return None
    return Q.split_once_(c.v(0), p)


@model("str.rsplit_once")
def m_rsplit_once(c):
    return Q.rsplit_once(c.v(0), pat_arg(c, 1))


@model("str.find")
def m_find_str(c):
    p = pat_arg(c, 1)
    if p.k == "fn":
        return None
    return Q.find_pos(c.v(0), p)


@model("str.contains")
def m_contains_str(c):
    p = pat_arg(c, 1)
    if p.k == "fn":
        return any_model(c, app("chars", c.v(0)), p)
    return is_some(Q.split_once_(c.v(0), p))


@model("str.starts_with")
def m_starts(c):
    p = pat_arg(c, 1)
    if p.k == "fn":
        return None
    return app("starts", c.v(0), p)


@model("str.ends_with")
def m_ends(c):
    p = pat_arg(c, 1)
    if p.k == "fn":
        return None
    return app("ends", c.v(0), p)


@model("str.strip_prefix")
def m_strip_prefix(c):
    s, p = c.v(0), pat_arg(c, 1)
    if p.k == "fn":
        return None
    return ite(app("starts", s, p), some(app("sub", s, slen(p), slen(s))), NONE)


@model("str.strip_suffix")
def m_strip_suffix(c):
    s, p = c.v(0), pat_arg(c, 1)
    if p.k == "fn":
        return None
    return ite(app("ends", s, p), some(app("sub", s, num(0), sub(slen(s), slen(p)))), NONE)


@model("str.trim")
def m_trim(c):
    return app("trim", c.v(0))


@model("str.trim_start", "str.trim_left")
def m_trim_start(c):
    return app("trim_start", c.v(0))


@model("str.trim_end", "str.trim_right")
def m_trim_end(c):
    return app("trim_end", c.v(0))


@model("str.trim_start_matches", "str.trim_left_matches")
def m_tsm(c):
    p = pat_arg(c, 1)
    if p.k == "fn":
        return None
    return app("trim_start_matches", c.v(0), p)


@model("str.trim_end_matches")
def m_tem(c):
    p = pat_arg(c, 1)
    if p.k == "fn":
        return None
    return app("trim_end_matches", c.v(0), p)


@model("str.trim_matches")
def m_tm(c):
    p = pat_arg(c, 1)
    if p.k == "fn":
        return None
    return app("trim_end_matches", app("trim_start_matches", c.v(0), p), p)


@model("str.split_ascii_whitespace")
def m_saw(c):
    return app("split_aws", c.v(0))


@model("str.split_whitespace")
def m_sw(c):
    return app("split_ws", c.v(0))


@model("str.parse", "FromStr.from_str")
def m_parse(c):
    s = c.v(0)
    t = base_ty(c, c.targ(0)) if c.targ(0) is not None else "?"
    return parse(s, t)


def parse(s, t):
    def f(x):
        l = as_lit(x)
        if l is not None and t in ("usize", "u32", "u64"):
            y = l[1:] if l.startswith("+") else l
            if y and y.isascii() and y.isdigit() and int(y) < (1 << (32 if t == "u32" else 64)):
                return ok(num(int(y)))
            return err(mk("sym", "parse error"))
        if isapp(x, "dec"):
            return ok(x.a[1][0])
        r = mk("app", "parse_" + t, (x,))
        T.ENUM_OF.setdefault(r, RES)
        return r

    return lift(f, s)


@model("str.replace")
def m_replace(c):
    a, b, d = c.v(0), pat_arg(c, 1), c.v(2)
    pa, la = Q.pat(b), as_lit(a)
    if la is not None and pa is not None and as_lit(d) is not None:
        return lit(la.replace(pa, as_lit(d)))
    if pa is not None and len(pa) == 1:
        S = app("chars", a)
        n = Q.bound_level(S, d)
        e = elem(S, n)
        return each(S, n, ite(icmp("eq", e, num(ord(pa))), d, ch(e)))
    return app("strreplace", a, b, d)


@model("str.repeat")
def m_repeat(c):
    s, n = c.v(0), c.v(1)
    if n.k == "int" and n.a[0] <= 64:
        return cat(*([s] * n.a[0])) if n.a[0] else EMPTY
    return app("strrepeat", s, n)


@model("str.split_at")
def m_split_at(c):
    s, i = c.v(0), c.v(1)
    if is_text(aty(c, 0)):
        c.panic_unless("slice", icmp("le", i, slen(s)), (s, i, slen(s)))
        return tup(app("sub", s, num(0), i), app("sub", s, i, slen(s)))
    return None


@model("str.is_char_boundary")
def m_icb(c):
    t = mk("app", "boundary", (c.v(0), c.v(1)))
    T.ENUM_OF.setdefault(t, "bool")
    return t


@model("str.get", "slice.get", "Vec.get")
def m_get(c):
    x, i = c.v(0), c.v(1)
    r = rng(c, i, x)
    if r is not None:
        a, b = r
        if is_text(aty(c, 0)):
            return ite(band(icmp("le", a, b), icmp("le", b, slen(x))), some(app("sub", x, a, b)), NONE)
        return ite(band(icmp("le", a, b), icmp("le", b, slen(x))), some(app("take", app("skip", x, a), sub(b, a))), NONE)
    return ite(icmp("lt", i, slen(x)), some(app("nth", x, i)), NONE)


@model("slice.get_mut", "Vec.get_mut")
def m_get_mut(c):
    x, i = c.v(0), c.v(1)
    r = lift(lambda y: mk("ref", y.a[0], y.a[1] + (("i", i),)) if y.k == "ref" else BOT, addr(c, 0))
    return ite(icmp("lt", i, slen(x)), some(r), NONE)


@model("slice.first", "Vec.first", "VecDeque.front")
def m_first(c):
    x = c.v(0)
    return ite(icmp("gt", slen(x), num(0)), some(app("nth", x, num(0))), NONE)


@model("slice.last", "Vec.last", "VecDeque.back")
def m_last(c):
    x = c.v(0)
    return ite(icmp("gt", slen(x), num(0)), some(app("nth", x, sub(slen(x), TR))), NONE)


@model("slice.last_mut", "slice.first_mut")
def m_last_mut(c):
    x = c.v(0)
    i = sub(slen(x), TR) if c.key.endswith("last_mut") else num(0)
    r = lift(lambda y: mk("ref", y.a[0], y.a[1] + (("i", i),)) if y.k == "ref" else BOT, addr(c, 0))
    return ite(icmp("gt", slen(x), num(0)), some(r), NONE)


@model("slice.split_first")
def m_split_first(c):
    x = c.v(0)
    return ite(icmp("gt", slen(x), num(0)), some(tup(app("nth", x, num(0)), app("skip", x, TR))), NONE)


@model("slice.split_last")
def m_split_last(c):
    x = c.v(0)
    n1 = sub(slen(x), TR)
    return ite(icmp("gt", slen(x), num(0)), some(tup(app("nth", x, n1), app("take", x, n1))), NONE)


RNG = {
    "std::ops::Range": lambda f, n: (f(0), f(1)),
    "std::ops::RangeFrom": lambda f, n: (f(0), n),
    "std::ops::RangeTo": lambda f, n: (num(0), f(0)),
    "std::ops::RangeFull": lambda f, n: (num(0), n),
    "std::ops::RangeInclusive": lambda f, n: (f(0), add(f(1), TR)),
    "std::ops::RangeToInclusive": lambda f, n: (num(0), add(f(0), TR)),
}


def rng(c, i, x):
    if i.k == "agg":
        h = RNG.get(i.a[0])
        if h:
            return h(lambda j: i.a[2][j], slen(x))
    return None


@model("RangeInclusive.new")
def m_ri_new(c):
    return agg("std::ops::RangeInclusive", 0, (c.v(0), c.v(1)))


def index_common(c):
    x, i = c.v(0), c.v(1)
    t = aty(c, 0)
    if is_map(t):
        o = app("map_get", x, i)
        c.panic_unless("unwrap", bnorm(is_some(o)), (o,))
        if c.st.pc is F:
            return BOT
        return vfield(T.under(bnorm(is_some(o)), o) if o.k == "sw" else o, 1, 0)
    r = rng(c, i, x)
    if r is not None:
        a, b = r
        n = slen(x)
        c.panic_unless("slice", band(icmp("le", a, b), icmp("le", b, n)), (x, a, b))
        if is_text(t):
            bnd = bor(char_boundary(x, a)), bor(char_boundary(x, b))
            c.panic_unless("boundary", band(*bnd), (x, a, b))
            return app("sub", x, a, b)
        return app("take", app("skip", x, a), sub(b, a))
    if i.k == "agg":
        return None
    c.panic_unless("bounds", icmp("lt", i, slen(x)), (x, i))
    return app("nth", x, i)


def char_boundary(x, i):
    """is i a char boundary of x: decided or an atom"""
    if i is F:
        return TR
    n = slen(x)

    def f(i):
        if i is F or sub(i, slen(x)) is F:
            return TR
        if x.k == "seq":
            it = Q.drop_front(x.a[0], i)
            if it is not None:
                return TR
            back = sub(n, i)
            it = Q.drop_back(list(x.a[0]), back)
            if it is not None:
                return TR
        for t in Q.len_args(i):
            sp = Q.so_part(t)
            if sp and sp[0] is x and sp[2] == 0:
                d = sub(i, slen(t))
                if d is F or d is slen(sp[1]):
                    return TR
        if i.k == "int" and i.a[0] < 0:
            return F
        # ascii texts in front of the position
        r = mk("app", "boundary", (x, i))
        T.ENUM_OF.setdefault(r, "bool")
        return r

    return lift_sw(f, i)


@model("Index.index")
def m_index(c):
    return index_common(c)


@model("IndexMut.index_mut")
def m_index_mut(c):
    x, i = c.v(0), c.v(1)
    if i.k == "agg":
        return None
    c.panic_unless("bounds", icmp("lt", i, slen(x)), (x, i))
    r = addr(c, 0)
    return lift(lambda y: mk("ref", y.a[0], y.a[1] + (("i", i),)) if y.k == "ref" else BOT, r)


@model("slice.join", "Join.join", "slice.connect")
def m_join(c):
    return Q.join(c.v(0), c.v(1))


@model("slice.concat", "Concat.concat")
def m_concat(c):
    return Q.concat(c.v(0))


@model("String.from_utf8_lossy")
def m_lossy(c):
    return app("lossy", c.v(0))


@model("String.from_utf8", "str.from_utf8", "converts.from_utf8")
def m_from_utf8(c):
    r = mk("app", "from_utf8", (c.v(0),))
    T.ENUM_OF.setdefault(r, RES)
    return r


@model("UnicodeWidthStr.width")
def m_width(c):
    return app("width", c.v(0))


@model("UnicodeWidthChar.width")
def m_cwidth(c):
    t = mk("app", "cwidth", (c.v(0),))
    T.ENUM_OF.setdefault(t, OPT)
    return t


@model("unicode_linebreak.linebreaks")
def m_linebreaks(c):
    return app("linebreaks", c.v(0))


# ---------------------------------------------------------------- iterators

RANGE = "std::ops::Range"
ITERMUT = "IterMut"
T.STRUCT_ARITY[ITERMUT] = 2


@model("slice.iter_mut", "Vec.iter_mut")
def m_iter_mut(c):
    return agg(ITERMUT, 0, (addr(c, 0), num(0)))


@model("IntoIterator.into_iter")
def m_into_iter(c):
    v = c.args[0]
    if c.atys and c.I.facts.types[c.atys[0]]["k"] == "ref" and c.I.facts.types[c.atys[0]].get("mut"):
        s = aty(c, 0)
        if s.startswith("std::vec::Vec") or s.startswith("["):
            return agg(ITERMUT, 0, (addr(c, 0), num(0)))
        return addr(c, 0)
    v = c.v(0)
    s = aty(c, 0)
    if is_map(s):
        return map_pairs(s, v)
    if is_set(s):
        return map_keys(s, v)
    if s.startswith("std::option::Option"):
        return bind_opt(v, one, EMPTY)
    if v.k == "agg" and v.a[0] == "std::ops::RangeInclusive":
        return agg(RANGE, 0, (v.a[2][0], add(v.a[2][1], TR)))
    return v


def seq_of(c, v):
    """iterator value as the sequence of its remaining elements"""
    v = deep(c, v)
    if v.k == "agg":
        if v.a[0] == RANGE:
            return app("range", v.a[2][0], v.a[2][1])
        if v.a[0] == "std::ops::RangeInclusive":
            return app("range", v.a[2][0], add(v.a[2][1], TR))
    if v.k == "sw" and any(x.k == "agg" for x in leaves(v)):
        return lift(lambda x: seq_of(c, x), v)
    return v


@model("Iterator.next")
def m_next(c):
    it = c.v(0)
    if it.k == "agg" and it.a[0] == RANGE:
        a, b = it.a[2]
        lt = icmp("lt", a, b)
        setv(c, 0, agg(RANGE, 0, (ite(lt, add(a, TR), a), b)))
        return ite(lt, some(a), NONE)
    if it.k == "agg" and it.a[0] == ITERMUT:
        r, pos = it.a[2]
        x = deep(c, r)
        lt = icmp("lt", pos, slen(x))
        rr = lift(lambda y: mk("ref", y.a[0], y.a[1] + (("i", pos),)) if y.k == "ref" else BOT, r)
        setv(c, 0, agg(ITERMUT, 0, (r, ite(lt, add(pos, TR), pos))))
        return ite(lt, some(rr), NONE)
    if it.k == "agg" and it.a[0] in c.I.facts.adts and c.I.facts.adts[it.a[0]]["local"]:
        g = c.I.facts.find_impl("std::iter::Iterator", "next", it.a[0])
        if g is None:
            g = next((f for s, ta, f in c.I.facts.impls.get(("std::iter::Iterator", "next"), ()) if s.split("<")[0] == it.a[0]), None)
        if g is not None:
            return c.I.exec_fn(g, [addr(c, 0)], c.st, {}, (c.site, "next"))
    if it.k == "agg":
        return None
    ne = icmp("gt", slen(it), num(0))
    setv(c, 0, ite(ne, app("skip", it, TR), EMPTY if False else it if ne is F else T.under(bnot(ne), it)))
    return ite(ne, some(app("nth", it, num(0))), NONE)


@model("Peekable.peek")
def m_peek(c):
    it = c.v(0)
    ne = icmp("gt", slen(it), num(0))
    return ite(ne, some(app("nth", it, num(0))), NONE)


@model("Peekable.next_if", "Peekable.next_if_eq")
def m_next_if(c):
    return None


@model("DoubleEndedIterator.next_back")
def m_next_back(c):
    it = seq_of(c, c.args[0])
    n = slen(it)
    ne = icmp("gt", n, num(0))
    setv(c, 0, ite(ne, app("take", it, sub(n, TR)), EMPTY))
    return ite(ne, some(app("nth", it, sub(n, TR))), NONE)


def pure_map(c, S, f, build, wrap=lambda x: x):
    """apply closure f to the generic element of S; build(value) gives the
    body of the resulting sequence; None if f has side effects"""
    I = c.I
    depth = I.actS.get(S, 0)
    e = elem(S, -2 - depth)
    I.actS[S] = depth + 1
    try:
        st = c.st
        ne = icmp("gt", slen(S), num(0))
        s2 = State(TR, dict(st.mem), band(st.ctx, st.pc, ne))
        ev0 = len(I.events)
        r = I.call(s2, f, [wrap(e)], c.tyenv, None, None, (c.site, "elt"), c.at)
        r = I.dd(s2, r)
    finally:
        I.actS[S] = depth
    for k, v in st.mem.items():
        w = s2.mem.get(k, BOT)
        if w is not v and w is not BOT and k[0] != "forkret":
            del I.events[ev0:]
            return None
    if r is BOT:
        return None
    body = build(e, r)
    n = Q.bound_level(S, body)
    return S, n, replace(body, {e: elem(S, n)})


def local_iter(c, v):
    """iterator implemented in the crate"""
    x = deep(c, v)
    if x.k == "agg" and x.a[0] in c.I.facts.adts and c.I.facts.adts[x.a[0]]["local"] and x.a[0] != ITERMUT:
        return True
    return False


@model("Iterator.map")
def m_map(c):
    v = c.args[0]
    x = deep(c, v)
    if x.k == "agg" and x.a[0] == ITERMUT or local_iter(c, v):
        return agg("MapIter", 0, (x, c.args[1]))
    S = seq_of(c, v)
    r = map_seq(c, S, c.args[1])
    if r is not None:
        return r
    return agg("MapIter", 0, (x, c.args[1]))


def map_seq(c, S, f):
    if S.k == "sw":
        ls = leaves(S)
        if len(ls) <= 4:
            out = [(l, map_seq(c, l, f)) for l in ls]
            if all(o is not None for _, o in out):
                d = dict(out)
                return lift(lambda x: d[x], S)
        return None
    if S is EMPTY:
        return EMPTY
    if S.k == "seq" and all(i[0] == "E" for i in S.a[0]):
        out = []
        for j, it in enumerate(S.a[0]):
            out.append(("E", deep(c, c.I.call(c.st, f, [it[1]], c.tyenv, None, None, (c.site, "elt", j), c.at))))
        return seq(out)
    r = pure_map(c, S, f, lambda e, v: one(v))
    if r is None:
        return None
    return each(*r)


@model("Iterator.filter")
def m_filter(c):
    S = seq_of(c, c.args[0])
    if S.k == "agg":
        return None
    r = pure_map(c, S, c.args[1], lambda e, v: ite(v, one(e), EMPTY))
    return each(*r) if r else None


@model("Iterator.filter_map")
def m_filter_map(c):
    S = seq_of(c, c.args[0])
    if S.k == "agg":
        return None
    r = pure_map(c, S, c.args[1], lambda e, v: bind_opt(v, one, EMPTY))
    return each(*r) if r else None


@model("Iterator.flat_map")
def m_flat_map(c):
    S = seq_of(c, c.args[0])
    if S.k == "agg":
        return None

    def b(e, v):
        if any(x.k == "agg" and x.a[0] == OPT or T.ENUM_OF.get(x) == OPT for x in leaves(v)):
            return bind_opt(v, one, EMPTY)
        return v

    r = pure_map(c, S, c.args[1], b)
    return each(*r) if r else None


@model("Iterator.flatten")
def m_flatten(c):
    S = seq_of(c, c.args[0])
    if S.k == "agg":
        return None
    n = Q.bound_level(S)
    e = elem(S, n)
    t = c.I.facts.ts(c.targ(0)) if c.targ(0) is not None else ""
    if "Option" in t:
        return each(S, n, bind_opt(e, one, EMPTY))
    if "Result" in t:
        return each(S, n, bind_res(e, one, lambda x: EMPTY))
    return each(S, n, e)


@model("Iterator.enumerate")
def m_enumerate(c):
    x = deep(c, c.args[0])
    if x.k == "agg" and x.a[0] == ITERMUT or local_iter(c, x):
        return agg("EnumIter", 0, (x, num(0)))
    S = seq_of(c, c.args[0])
    if S.k == "agg":
        return None
    return enum_seq(S)


def enum_seq(S):
    if S.k == "sw":
        return lift(enum_seq, S)
    if S.k == "seq" and all(i[0] == "E" for i in S.a[0]):
        return seq([("E", tup(num(j), it[1])) for j, it in enumerate(S.a[0])])
    n = Q.bound_level(S)
    e = elem(S, n)
    return mk("seq", (("F", S, n, one(tup(idx(e), e))),)) if S.k == "seq" and not (
        len(S.a[0]) == 1 and S.a[0][0][0] == "F") else each(S, n, one(tup(idx(e), e)))


@model("Iterator.zip")
def m_zip(c):
    A, B = seq_of(c, c.args[0]), seq_of(c, c.args[1])
    if A.k == "agg" or B.k == "agg":
        return None
    if B.k == "agg" and B.a[0] == "std::ops::RangeFrom":
        return None
    n = Q.bound_level(A, B)
    e = elem(A, n)
    la, lb = slen(A), slen(B)
    if la is lb:
        return each(A, n, one(tup(e, app("nth", B, idx(e)))))
    A2 = app("take", A, lb)
    if A2.k in ("sw",):
        return None
    e = elem(A2, n)
    return each(A2, n, one(tup(e, app("nth", B, idx(e)))))


@model("Iterator.chain")
def m_chain(c):
    A, B = seq_of(c, c.args[0]), seq_of(c, c.args[1])
    if A.k == "agg" or B.k == "agg":
        return None
    return cat(A, B)


@model("Iterator.rev")
def m_rev(c):
    S = seq_of(c, c.args[0])
    return app("rev", S) if S.k != "agg" else None


@model("Iterator.skip")
def m_skip(c):
    S = seq_of(c, c.args[0])
    return app("skip", S, c.v(1)) if S.k != "agg" else None


@model("Iterator.take")
def m_itake(c):
    S = seq_of(c, c.args[0])
    return app("take", S, c.v(1)) if S.k != "agg" else None


@model("Iterator.take_while", "Iterator.map_while")
def m_take_while(c):
    S = seq_of(c, c.args[0])
    if S.k == "agg" or c.key != "Iterator.take_while":
        return None
    r = pure_map(c, S, c.args[1], lambda e, v: bval(bnot(v)))
    if not r:
        return None
    f = Q.find_pair(r[0], num(r[1]), r[2])
    return bind_opt(f, lambda x: app("take", S, field(x, 1, "tuple")), S)


@model("Iterator.skip_while")
def m_skip_while(c):
    S = seq_of(c, c.args[0])
    if S.k == "agg":
        return None
    r = pure_map(c, S, c.args[1], lambda e, v: bval(bnot(v)))
    if not r:
        return None
    f = Q.find_pair(r[0], num(r[1]), r[2])
    return bind_opt(f, lambda x: app("skip", S, field(x, 1, "tuple")), EMPTY)


def any_model(c, S, f):
    if S.k == "agg":
        return None
    if S.k == "sw":
        ls = leaves(S)
        d = {}
        for l in ls:
            d[l] = any_model(c, l, f)
            if d[l] is None:
                return None
        return bval(bnorm(lift_sw(lambda x: d[x], S)))
    if S is EMPTY:
        return F
    r = pure_map(c, S, f, lambda e, v: bval(bnorm(v)))
    if r is None:
        return None
    return is_some(app("find", r[0], num(r[1]), r[2]))


@model("Iterator.any")
def m_any(c):
    return any_model(c, seq_of(c, c.args[0]), c.args[1])


@model("Iterator.all")
def m_all(c):
    S = seq_of(c, c.args[0])
    if S.k == "agg":
        return None
    if S is EMPTY:
        return TR
    r = pure_map(c, S, c.args[1], lambda e, v: bval(bnot(v)))
    if r is None:
        return None
    return bval(bnot(is_some(app("find", r[0], num(r[1]), r[2]))))


@model("Iterator.find")
def m_find(c):
    S = seq_of(c, c.args[0])
    if S.k == "agg":
        return None
    r = pure_map(c, S, c.args[1], lambda e, v: bval(bnorm(v)))
    if r is None:
        return None
    return app("find", r[0], num(r[1]), r[2])


@model("Iterator.find_map")
def m_find_map(c):
    S = seq_of(c, c.args[0])
    if S.k == "agg":
        return None
    r = pure_map(c, S, c.args[1], lambda e, v: v)
    if r is None:
        return None
    S, n, v = r
    e = elem(S, n)
    s = bnorm(is_some(v))
    f = Q.find_pair(S, num(n), bval(s))
    w = vfield(T.under(s, v) if v.k == "sw" else v, 1, 0)
    return bind_opt(f, lambda x: some(replace(w, {e: field(x, 0, "tuple"), idx(e): field(x, 1, "tuple")})), NONE)


@model("Iterator.position")
def m_position(c):
    S = seq_of(c, c.args[0])
    if S.k == "agg":
        return None
    r = pure_map(c, S, c.args[1], lambda e, v: bval(bnorm(v)))
    if r is None:
        return None
    f = Q.find_pair(r[0], num(r[1]), r[2])
    return bind_opt(f, lambda x: some(field(x, 1, "tuple")), NONE)


@model("Iterator.last")
def m_ilast(c):
    S = seq_of(c, c.args[0])
    if S.k == "agg":
        return None
    n = slen(S)
    return ite(icmp("gt", n, num(0)), some(app("nth", S, sub(n, TR))), NONE)


@model("Iterator.nth")
def m_inth(c):
    S = seq_of(c, c.args[0])
    if S.k == "agg":
        return None
    i = c.v(1)
    setv(c, 0, app("skip", S, add(i, TR)))
    return ite(icmp("gt", slen(S), i), some(app("nth", S, i)), NONE)


@model("Iterator.count")
def m_count(c):
    S = seq_of(c, c.args[0])
    return slen(S) if S.k != "agg" else None


@model("Iterator.sum")
def m_sum(c):
    S = seq_of(c, c.args[0])
    if S.k == "agg":
        return None
    n = Q.bound_level(S)
    return app("sum", S, num(n), elem(S, n))


@model("Iterator.max", "Iterator.min")
def m_imax(c):
    S = seq_of(c, c.args[0])
    r = mk("app", c.key.split(".")[1] + "of", (S,))
    T.ENUM_OF.setdefault(r, OPT)
    return r


def run_loop(c, it0, step, name):
    """general loop over an iterator with a body that may have effects.
    step(x) -> list of (label, value|None); label 'back' continues"""
    I = c.I
    st = c.st
    cell = ("loop", I.fid_of(I.stack), c.site, name)
    st.mem[cell] = it0

    def body(s):
        save = c.st, c.args
        res = []
        c.st = s
        c.args = [I.ref(cell, ())]
        k2 = dict(c.k)
        try:
            o = next_of(c, s, cell)
            some_ = bnorm(is_some(o))
            if some_ is not TR:
                s1 = State(band(s.pc, bnot(some_)), dict(s.mem), s.ctx)
                res.append(("done", s1.pc, s1.mem))
            if some_ is not F:
                s2 = State(some_, dict(s.mem), band(s.ctx, s.pc))
                c.st = s2
                x = vfield(T.under(some_, o) if o.k == "sw" else o, 1, 0)
                for lab in step(x):
                    label, cond, mem = lab
                    p = band(s.pc, some_, cond)
                    if p is not F:
                        res.append((label, p, mem))
        finally:
            c.st, c.args = save
        return res

    outs = I.loop_solve((I.fid_of(I.stack), c.site, name), st.pc, st.mem, st.ctx, body, I.stack[-1][0])
    for l, p, m in outs:
        m.pop(cell, None)
    return outs


def next_of(c, s, cell):
    """advance the iterator stored in a cell"""
    I = c.I
    it = s.mem[cell]
    r = I.ref(cell, ())
    it = deep(c, it)
    if it.k == "agg" and it.a[0] == "MapIter":
        inner = I.ref(cell, (("f", 0, "MapIter", 2),))
        s.mem[("nx",)] = inner
        o = next_at(c, s, inner)
        f = it.a[2][1]
        return match_opt(c, o, lambda x: some(I.call(c.st, f, [x], c.tyenv, None, None, (c.site, "mapf"), c.at)), lambda: NONE)
    if it.k == "agg" and it.a[0] == "EnumIter":
        inner = I.ref(cell, (("f", 0, "EnumIter", 2),))
        o = next_at(c, s, inner)
        n = it.a[2][1]
        I.write_ref(s, I.ref(cell, (("f", 1, "EnumIter", 2),)), add(n, TR))
        return bind_opt(o, lambda x: some(tup(n, x)), NONE)
    return next_at(c, s, r)


T.STRUCT_ARITY["MapIter"] = 2
T.STRUCT_ARITY["EnumIter"] = 2


def next_at(c, s, r):
    save = c.st, c.args
    c.st, c.args = s, [r]
    try:
        o = m_next(c)
        if o is None:
            raise Unsupported("iterator")
        return o
    finally:
        c.st, c.args = save


@model("Iterator.for_each")
def m_for_each(c):
    f = c.args[1]
    it = deep(c, c.args[0])

    def step(x):
        c.I.call(c.st, f, [x], c.tyenv, None, None, (c.site, "fe"), c.at)
        return [("back", c.st.pc, c.st.mem)]

    outs = run_loop(c, it, step, "for_each")
    pc, mem = c.I.join([(p, m) for l, p, m in outs])
    c.st.pc, c.st.mem = pc, mem
    return UNIT


@model("Iterator.fold")
def m_fold(c):
    f = c.args[2]
    it = deep(c, c.args[0])
    acc = ("foldacc", c.I.fid_of(c.I.stack), c.site)
    c.st.mem[acc] = c.args[1]

    def step(x):
        a = c.st.mem[acc]
        v = c.I.call(c.st, f, [a, x], c.tyenv, None, None, (c.site, "fold"), c.at)
        c.st.mem[acc] = deep(c, v)
        return [("back", c.st.pc, c.st.mem)]

    outs = run_loop(c, it, step, "fold")
    pc, mem = c.I.join([(p, m) for l, p, m in outs])
    c.st.pc, c.st.mem = pc, mem
    return mem.pop(acc)


def try_loop(c, it, f, acc0, name):
    """loop that stops at the first failure of a fallible step"""
    t = base_ty(c, c.dty)
    res = t.startswith("std::result::Result<")
    if not res and not t.startswith("std::option::Option<"):
        return None
    acc = ("tryacc", c.I.fid_of(c.I.stack), c.site)
    ret = ("tryret", c.I.fid_of(c.I.stack), c.site)
    c.st.mem[acc] = acc0 if acc0 is not None else UNIT
    good = 0 if res else 1

    def step(x):
        a = c.st.mem[acc]
        v = deep(c, c.I.call(c.st, f, [a, x] if acc0 is not None else [x], c.tyenv, None, None, (c.site, name), c.at))
        k = bnorm(is_ok(v) if res else is_some(v))
        m1, m2 = dict(c.st.mem), dict(c.st.mem)
        out = []
        if k is not F:
            m1[acc] = vfield(T.under(k, v) if v.k == "sw" else v, good, 0)
            out.append(("back", band(c.st.pc, k), m1))
        if k is not TR:
            n = bnot(k)
            m2[ret] = err(vfield(T.under(n, v) if v.k == "sw" else v, 1, 0)) if res else NONE
            out.append(("stop", band(c.st.pc, n), m2))
        return out

    outs = run_loop(c, it, step, name)
    edges = []
    for l, p, m in outs:
        if l == "done":
            m[ret] = ok(m[acc]) if res else some(m[acc])
        m.pop(acc, None)
        edges.append((p, m))
    pc, mem = c.I.join(edges)
    if pc is F:
        c.st.pc = F
        return BOT
    c.st.pc, c.st.mem = pc, mem
    return mem.pop(ret)


@model("Iterator.try_for_each")
def m_try_for_each(c):
    return try_loop(c, deep(c, c.args[0]), c.args[1], None, "tfe")


@model("Iterator.try_fold")
def m_try_fold(c):
    return try_loop(c, deep(c, c.args[0]), c.args[2], c.args[1], "tfold")


@model("Iterator.partition")
def m_partition(c):
    S = seq_of(c, c.args[0])
    if S.k == "agg":
        return None
    a = pure_map(c, S, c.args[1], lambda e, v: ite(v, one(e), EMPTY))
    b = pure_map(c, S, c.args[1], lambda e, v: ite(v, EMPTY, one(e)))
    if a is None or b is None:
        return None
    return tup(each(*a), each(*b))


@model("Iterator.unzip")
def m_unzip(c):
    S = seq_of(c, c.args[0])
    if S.k == "agg":
        return None
    n = Q.bound_level(S)
    e = elem(S, n)
    return tup(each(S, n, one(field(e, 0, "tuple"))), each(S, n, one(field(e, 1, "tuple"))))


@model("iter.once")
def m_once(c):
    return one(deep(c, c.args[0]))


@model("iter.empty")
def m_iempty(c):
    return EMPTY


@model("slice.chunks", "slice.chunks_exact#")
def m_chunks(c):
    return app("chunks", c.v(0), c.v(1))


@model("Iterator.step_by")
def m_step_by(c):
    S = seq_of(c, c.args[0])
    return app("step_by", S, c.v(1)) if S.k != "agg" else None


@model("str.to_lowercase", "str.to_uppercase", "str.to_ascii_lowercase", "str.to_ascii_uppercase", "str.repeat")
def m_textfn(c):
    return app(c.key.split(".")[1], *[c.v(i) for i in range(len(c.args))])


@model("Iterator.collect", "FromIterator.from_iter")
def m_collect(c):
    t = base_ty(c, c.dty)
    x = deep(c, c.args[0])
    return collect(c, x, t)


def collect(c, x, t):
    S = seq_of(c, x)
    if t.startswith("std::result::Result<") or t.startswith("std::option::Option<"):
        inner = split_commas(t[t.index("<") + 1:-1])
        if S.k == "seq" and all(i[0] == "E" for i in S.a[0]) and len(S.a[0]) <= 4:
            pass
        return collect_try(c, x, t, inner[0])
    if S.k == "agg":
        # materialise
        vec = loop_collect(c, x)
        if vec is None:
            return None
        S = vec
    return collect_into(c, S, t)


def collect_into(c, S, t):
    t = strip_lt(t)
    if t.startswith("std::borrow::Cow<"):
        t = t[len("std::borrow::Cow<"):-1]
    if t in ("std::string::String", "str"):
        # elements are chars or texts
        return collect_text(c, S)
    if is_map(t):
        if S.k == "seq" and all(i[0] == "E" for i in S.a[0]):
            return app("maplit", S)
        return app("mapfrom", S)
    if is_set(t):
        k = Q.bound_level(S)
        return app("mapfrom", each(S, k, one(tup(elem(S, k), UNIT))))
    return S


def collect_text(c, S):
    def f(x):
        if x is EMPTY:
            return EMPTY
        if isapp(x, "chars"):
            return x.a[1][0]
        if x.k == "app" and x.a[0] in ("skip", "take", "rev") and under_chars(x):
            return unchars(x)
        if x.k == "seq":
            out = []
            for it in x.a[0]:
                if it[0] == "E":
                    out.extend(items(elem_text(it[1])))
                elif it[0] == "S":
                    out.extend(items(f(it[1])))
                elif it[0] == "F":
                    _, S2, n, b = it
                    out.append(("F", S2, n, lift(f, b)))
                elif it[0] == "A":
                    out.append(("A", lift(f, it[1])))
                else:
                    out.append(it)
            return seq(out)
        n = Q.bound_level(x)
        return each(x, n, elem_text(elem(x, n)))

    return lift(f, S)


def under_chars(x):
    while x.k == "app" and x.a[0] in ("skip", "take", "rev"):
        x = x.a[1][0]
    return isapp(x, "chars")


def elem_text(v):
    def f(x):
        if x.k == "int" or is_char(x):
            return ch(x)
        return x

    return lift(f, v)


def is_char(x):
    if x.k == "elem" or isapp(x, "nth"):
        S = x.a[0] if x.k == "elem" else x.a[1][0]
        while S.k == "app" and S.a[0] in ("skip", "take", "rev"):
            S = S.a[1][0]
        return isapp(S, "chars")
    return x in CHARS


CHARS = set()


def loop_collect(c, x):
    acc = ("colacc", c.I.fid_of(c.I.stack), c.site)
    c.st.mem[acc] = EMPTY

    def step(v):
        c.st.mem[acc] = cat(c.st.mem[acc], one(deep(c, v)))
        return [("back", c.st.pc, c.st.mem)]

    outs = run_loop(c, x, step, "collect")
    pc, mem = c.I.join([(p, m) for l, p, m in outs])
    c.st.pc, c.st.mem = pc, mem
    return mem.pop(acc)


def collect_try(c, x, t, inner):
    """collect into Result/Option: stops at the first failure"""
    res = t.startswith("std::result")
    acc = ("colacc", c.I.fid_of(c.I.stack), c.site)
    ret = ("colret", c.I.fid_of(c.I.stack), c.site)
    c.st.mem[acc] = EMPTY
    text = strip_lt(inner) in ("std::string::String", "str", "std::borrow::Cow<str>")

    def step(v):
        v = deep(c, v)
        good = bnorm(is_ok(v) if res else is_some(v))
        out = []
        if good is not F:
            y = vfield(T.under(good, v) if v.k == "sw" else v, 0 if res else 1, 0)
            m = dict(c.st.mem)
            m[acc] = cat(m[acc], elem_text_ty(y) if text else one(y))
            out.append(("back", band(c.st.pc, good), m))
        if good is not TR:
            bad = bnot(good)
            m = dict(c.st.mem)
            if res:
                m[ret] = err(vfield(T.under(bad, v) if v.k == "sw" else v, 1, 0))
            else:
                m[ret] = NONE
            out.append(("fail", band(c.st.pc, bad), m))
        return out

    def elem_text_ty(y):
        return lift(lambda z: ch(z) if not (z.k == "seq") else z, y)

    outs = run_loop(c, x, step, "collect")
    edges = []
    for l, p, m in outs:
        m = dict(m)
        if l == "done":
            v = m[acc]
            if not text:
                v = collect_into(c, v, inner)
            m[ret] = ok(v) if res else some(v)
        m.pop(acc, None)
        edges.append((p, m))
    pc, mem = c.I.join(edges)
    if pc is F:
        c.st.pc = F
        return BOT
    c.st.pc, c.st.mem = pc, mem
    return mem.pop(ret)


@model("Extend.extend")
def m_extend(c):
    s = aty(c, 0)
    S = seq_of(c, c.args[1])
    if S.k == "agg":
        S = loop_collect(c, S)
    t1 = c.I.facts.ts(c.atys[1]) if c.atys and len(c.atys) > 1 else ""
    if c.atys and is_map(aty(c, 1)):
        S = map_pairs(aty(c, 1), S)
    if is_set(s):
        return None
    if is_map(s):
        m = c.v(0)
        if S.k == "seq" and all(i[0] == "E" for i in S.a[0]):
            for it in S.a[0]:
                m = app("map_insert", m, field(it[1], 0, "tuple"), field(it[1], 1, "tuple"))
            setv(c, 0, m)
        else:
            import loops

            e, a = elem(S, -1), T.sym("§all")
            setv(c, 0, loops.fold_of(S, e, [(a, m, app("map_insert", a, field(e, 0, "tuple"), field(e, 1, "tuple")))])[0])
        return UNIT
    if is_text(s):
        setv(c, 0, cat(c.v(0), collect_text(c, S)))
        return UNIT
    setv(c, 0, cat(c.v(0), S))
    return UNIT


@model("slice.contains", "Vec.contains")
def m_contains(c):
    x = c.v(1)
    s = aty(c, 0)
    if s.startswith("std::ops::Range"):
        r = rng(c, c.v(0), EMPTY)
        return bval(band(icmp("ge", x, r[0]), icmp("lt", x, r[1])))

    def f(S):
        if S.k == "seq" and all(i[0] == "E" for i in S.a[0]):
            return bval(bor(*[veq(x, it[1]) for it in S.a[0]]) if S.a[0] else F)
        n = Q.bound_level(S, x)
        return is_some(app("find", S, num(n), veq(elem(S, n), x)))

    return bval(bnorm(lift_sw(f, c.v(0))))


@model("Range.contains", "RangeInclusive.contains", "RangeBounds.contains")
def m_rcontains(c):
    x = c.v(1)
    r = rng(c, c.v(0), EMPTY)
    if r is None:
        return None
    return bval(band(icmp("ge", x, r[0]), icmp("lt", x, r[1])))


A, B = mk("sym", "§a"), mk("sym", "§b")


def sort_common(c, cmp):
    x = c.v(0)

    def f(y):
        if y is EMPTY:
            return y
        if y.k == "seq" and len(y.a[0]) == 1 and y.a[0][0][0] == "E":
            return y
        return app("sort", y, cmp)

    setv(c, 0, lift(f, x))
    return UNIT


@model("slice.sort", "slice.sort_unstable")
def m_sort(c):
    return sort_common(c, vcmp(A, B))


@model("slice.sort_by", "slice.sort_unstable_by")
def m_sort_by(c):
    s2 = State(TR, dict(c.st.mem), c.st.absolute())
    r = c.I.call(s2, c.args[1], [A, B], c.tyenv, None, None, (c.site, "cmp"), c.at)
    return sort_common(c, r)


@model("slice.sort_by_key", "slice.sort_unstable_by_key", "slice.sort_by_cached_key")
def m_sort_by_key(c):
    s2 = State(TR, dict(c.st.mem), c.st.absolute())
    a = c.I.dd(s2, c.I.call(s2, c.args[1], [A], c.tyenv, None, None, (c.site, "ka"), c.at))
    b = c.I.dd(s2, c.I.call(s2, c.args[1], [B], c.tyenv, None, None, (c.site, "kb"), c.at))
    return sort_common(c, vcmp(a, b))


@model("Vec.dedup_by")
def m_dedup_by(c):
    s2 = State(TR, dict(c.st.mem), c.st.absolute())
    r = c.I.call(s2, c.args[1], [A, B], c.tyenv, None, None, (c.site, "same"), c.at)
    setv(c, 0, app("dedupby", c.v(0), bval(bnorm(r))))
    return UNIT


@model("Vec.dedup_by_key")
def m_dedup_by_key(c):
    s2 = State(TR, dict(c.st.mem), c.st.absolute())
    a = c.I.dd(s2, c.I.call(s2, c.args[1], [A], c.tyenv, None, None, (c.site, "ka"), c.at))
    b = c.I.dd(s2, c.I.call(s2, c.args[1], [B], c.tyenv, None, None, (c.site, "kb"), c.at))
    setv(c, 0, app("dedupby", c.v(0), bval(veq(a, b))))
    return UNIT


@model("slice.reverse")
def m_reverse(c):
    setv(c, 0, app("rev", c.v(0)))
    return UNIT


@model("Vec.retain")
def m_retain(c):
    S = c.v(0)
    r = pure_map(c, S, c.args[1], lambda e, v: ite(v, one(e), EMPTY))
    if r is None:
        return None
    setv(c, 0, each(*r))
    return UNIT


@model("Vec.drain")
def m_drain(c):
    x = c.v(0)
    r = rng(c, c.v(1), x)
    if r is None:
        return None
    a, b = r
    out = app("take", app("skip", x, a), sub(b, a))
    if is_text(aty(c, 0)):
        return None
    setv(c, 0, cat(app("take", x, a), app("skip", x, b)))
    return out


@model("Vec.dedup")
def m_dedup(c):
    setv(c, 0, app("dedup", c.v(0)))
    return UNIT


@model("Fn.call", "FnMut.call_mut", "FnOnce.call_once")
def m_fncall(c):
    f = c.args[0]
    t = c.args[1] if c.args[1].k == "agg" else deep(c, c.args[1])
    args = list(t.a[2]) if t.k == "agg" and t.a[0] == "tuple" else [t]
    return c.I.call(c.st, f, args, c.tyenv, None, c.dty, (c.site, "fn"), c.at)


# ---------------------------------------------------------------- maps


@model("HashMap.new", "BTreeMap.new", "HashMap.with_capacity", "HashSet.new", "BTreeSet.new")
def m_mapnew(c):
    return app("mapnew")


@model("HashMap.insert", "BTreeMap.insert")
def m_insert(c):
    m, k, v = c.v(0), deep(c, c.args[1]), deep(c, c.args[2])
    old = app("map_get", m, k)
    setv(c, 0, app("map_insert", m, k, v))
    return old


@model("HashMap.remove", "BTreeMap.remove")
def m_mremove(c):
    m, k = c.v(0), c.v(1)
    old = app("map_get", m, k)
    setv(c, 0, app("map_remove", m, k))
    return old


@model("HashMap.get", "BTreeMap.get")
def m_mget(c):
    return app("map_get", c.v(0), c.v(1))


@model("HashMap.contains_key", "BTreeMap.contains_key", "HashSet.contains", "BTreeSet.contains")
def m_mcontains(c):
    return is_some(app("map_get", c.v(0), c.v(1)))


@model("HashMap.keys", "HashMap.into_keys", "HashSet.iter")
def m_keys(c):
    return app("keys", c.v(0))


@model("BTreeMap.keys", "BTreeMap.into_keys", "BTreeSet.iter")
def m_bkeys(c):
    return map_keys("std::collections::BTreeMap", c.v(0))


@model("HashMap.values", "HashMap.into_values")
def m_values(c):
    return app("values", c.v(0))


@model("BTreeMap.values", "BTreeMap.into_values")
def m_bvalues(c):
    m = c.v(0)
    S = map_keys("std::collections::BTreeMap", m)
    k = Q.bound_level(S, m)
    return each(S, k, one(app("map_at", m, elem(S, k))))


@model("HashMap.iter", "HashMap.into_iter")
def m_miter(c):
    return app("mapiter", c.v(0))


@model("BTreeMap.iter", "BTreeMap.into_iter")
def m_bmiter(c):
    return map_pairs("std::collections::BTreeMap", c.v(0))


@model("HashMap.len", "BTreeMap.len", "HashSet.len", "BTreeSet.len")
def m_mlen(c):
    return app("map_len", c.v(0))


@model("HashMap.is_empty", "BTreeMap.is_empty", "HashSet.is_empty", "BTreeSet.is_empty")
def m_mempty(c):
    return icmp("eq", app("map_len", c.v(0)), num(0))


@model("HashMap.clear", "BTreeMap.clear")
def m_mclear(c):
    setv(c, 0, app("mapnew"))
    return UNIT


def slot(c, r, k):
    """reference to the value of a key"""
    return lift(lambda x: mk("ref", x.a[0], x.a[1] + (("mk", k),)) if x.k == "ref" else BOT, r)


@model("HashMap.get_mut", "BTreeMap.get_mut")
def m_mgetmut(c):
    k = c.v(1)
    r = slot(c, addr(c, 0), k)
    if r is BOT:
        return None
    return ite(is_some(app("map_get", c.v(0), k)), some(r), NONE)


# an entry of a map: the map and the key
@model("HashMap.entry", "BTreeMap.entry")
def m_mentry(c):
    r = addr(c, 0)
    if r.k != "ref":
        return None
    return agg("mapentry", 0, [r, deep(c, c.args[1])])


def entry_parts(c):
    e = c.d1(0)
    if e.k != "agg" or e.a[0] != "mapentry":
        return None, None
    return e.a[2]


@model("Entry.or_insert", "Entry.or_insert_with", "Entry.or_default", "Entry.or_insert_with_key")
def m_or_insert(c):
    r, k = entry_parts(c)
    if r is None or c.key.endswith("_key"):
        return None
    m = c.I.deref(c.st, r)

    def none():
        if c.key.endswith("with"):
            d = c.callf(c.args[1])
        elif c.key.endswith("default"):
            t = c.I.facts.types[c.dty]
            s = c.I.facts.ts(t["to"]) if t["k"] == "ref" else ""
            d = F if s in ("usize", "u32", "u64", "i32", "i64", "bool") else app("mapnew") if is_map(s) else EMPTY
        else:
            d = deep(c, c.args[1])
        c.I.write_ref(c.st, r, app("map_insert", c.I.deref(c.st, r), k, d))
        return UNIT

    match_opt(c, app("map_get", m, k), lambda x: UNIT, none)
    return slot(c, r, k)


@model("Entry.and_modify")
def m_and_modify(c):
    r, k = entry_parts(c)
    if r is None:
        return None
    m = c.I.deref(c.st, r)
    match_opt(c, app("map_get", m, k), lambda x: c.callf(c.args[1], slot(c, r, k)), lambda: UNIT)
    return c.d1(0)


@model("Entry.key")
def m_entry_key(c):
    r, k = entry_parts(c)
    return k


@model("HashSet.insert", "BTreeSet.insert")
def m_set_insert(c):
    m, k = c.v(0), deep(c, c.args[1])
    old = is_some(app("map_get", m, k))
    setv(c, 0, app("map_insert", m, k, UNIT))
    return bval(bnot(old))


@model("Lazy.get", "LazyLock.force", "OnceLock.get_or_init", "OnceCell.get_or_init")
def m_lazy(c):
    f = c.args[1] if len(c.args) > 1 else None
    if f is None:
        return None
    key = ("lazy", f)
    r = c.I.consts.get(key)
    if r is None:
        s2 = State(TR, {}, TR)
        save = c.I.events
        c.I.events = []
        try:
            r = c.I.dd(s2, c.I.call(s2, f, [], {}, None, None, "lazy", None))
        finally:
            c.I.events = save
        c.I.consts[key] = r
    return r


# ---------------------------------------------------------------- formatting


def display(c, x, s, st=None):
    """text of `{}` for a value of the type s"""
    I = c.I
    st = st or c.st
    x = I.dd(st, x)
    s = strip_lt(s)
    while s.startswith("&"):
        s = s[1:]
        if s.startswith("mut "):
            s = s[4:]
    s = c.tyenv.get(s, s)
    for p in ("std::borrow::Cow<", "std::boxed::Box<"):
        if s.startswith(p):
            s = s[len(p):-1]
    if s in TEXT or s.startswith("std::path::Display"):
        return x
    if s == "char":
        return lift(ch, x)
    if s in ("usize", "u32", "u64", "u8", "u16", "i32", "i64", "isize"):
        return app("dec", x)
    if s == "bool":
        return ite(x, lit("true"), lit("false"))
    for t in ("std::fmt::Display", "std::string::ToString"):
        m = "fmt" if t.endswith("Display") else "to_string"
        g = I.facts.find_impl(t, m, s)
        if g is not None and g.get("body"):
            if m == "to_string":
                return I.exec_fn(g, [x], st, {}, (c.site, "to_string", s))
            cell = I.new_cell(st, EMPTY)
            I.exec_fn(g, [x, I.ref(cell)], st, {}, (c.site, "fmt", s))
            if st.pc is F:
                return BOT
            return st.mem.pop(cell)
    if s.startswith("std::fmt::Arguments"):
        return fmt_text(c, x)
    return app("display", x)


@model("ToString.to_string")
def m_to_string(c):
    s = c.I.facts.ts(c.k["self"]) if c.k.get("self") is not None else "?"
    s = strip_lt(s)
    s = c.tyenv.get(s, s)
    return display(c, c.args[0], s)


FA = "FmtArg"
FAS = "FmtArgs"


@model("Argument.new_display")
def m_new_display(c):
    s = strip_lt(c.I.facts.ts(c.targ(0))) if c.targ(0) is not None else "?"
    s = c.tyenv.get(s, s)
    return mk("agg", FA, 0, (c.args[0], mk("sym", "ty:" + s)))


@model("Argument.new_debug", "Argument.new_lower_hex", "Argument.new_upper_hex", "Argument.new_pointer")
def m_new_debug(c):
    return mk("agg", FA, 1, (c.args[0], mk("sym", c.key)))


@model("Argument.from_usize")
def m_from_usize(c):
    return mk("agg", FA, 2, (c.args[0],))


@model("Arguments.new", "Arguments.new_v1", "Arguments.new_v1_formatted")
def m_args_new(c):
    return mk("agg", FAS, 0, (c.v(0), c.v(1)))


@model("Arguments.from_str", "Arguments.new_const", "Arguments.from_str_nonconst")
def m_args_str(c):
    return mk("agg", FAS, 1, (c.v(0),))


def fmt_text(c, x):
    if x.k == "sw":
        return lift(lambda y: fmt_text(c, y), x)
    if x.k != "agg" or x.a[0] != FAS:
        return app("fmt", x)
    if x.a[1] == 1:
        v = x.a[2][0]
        return v
    tpl, args = x.a[2]
    bs = []
    for it in tpl.a[0]:
        if it[0] == "E":
            bs.append(it[1].a[0])
        elif it[0] == "L":
            bs.extend(it[1].encode("utf-8"))
        else:
            return app("fmt", x)
    al = [it[1] for it in args.a[0]] if args.k == "seq" else None
    if al is None:
        return app("fmt", x)
    out = []
    i = 0
    nexta = 0
    while i < len(bs):
        b = bs[i]
        if b == 0:
            break
        if b < 0x80:
            out.extend(items(lit(bytes(bs[i + 1: i + 1 + b]).decode("utf-8"))))
            i += 1 + b
            continue
        if b == 0x80:
            n = bs[i + 1] | (bs[i + 2] << 8)
            out.extend(items(lit(bytes(bs[i + 3: i + 3 + n]).decode("utf-8"))))
            i += 3 + n
            continue
        if b == 0xC0:
            out.extend(items(fmt_arg(c, al[nexta])))
            nexta += 1
            i += 1
            continue
        if b == 0xC8:
            # explicit argument index
            n = bs[i + 1] | (bs[i + 2] << 8)
            out.extend(items(fmt_arg(c, al[n])))
            nexta = n + 1
            i += 3
            continue
        return app("fmt", x, *[c.I.dd(c.st, a.a[2][0]) for a in al])
    return seq(out)


def fmt_arg(c, a):
    if a.k == "agg" and a.a[0] == FA:
        if a.a[1] == 0:
            return display(c, a.a[2][0], a.a[2][1].a[0][3:])
        return app("debug", deep(c, a.a[2][0]))
    return app("fmtarg", a)


@model("fmt.format")
def m_format(c):
    return fmt_text(c, c.v(0))


@model("Formatter.write_fmt", "Write.write_fmt")
def m_write_fmt(c):
    t = fmt_text(c, c.v(1))
    return sink(c, t)


@model("Formatter.write_str", "Write.write_str")
def m_write_str(c):
    return sink(c, c.v(1))


@model("Formatter.write_char", "Write.write_char")
def m_write_char(c):
    return sink(c, ch(c.v(1)))


@model("Formatter.pad", "Formatter.pad_integral")
def m_pad(c):
    return sink(c, c.v(1))


def sink(c, t):
    x = c.v(0)
    if x.k == "agg" and x.a[0] == HANDLE:
        return write_handle(c, t)
    setv(c, 0, cat(x, t))
    return ok(UNIT)


@model("Display.fmt")
def m_display_fmt(c):
    s = strip_lt(c.I.facts.ts(c.k["self"]))
    s = c.tyenv.get(s, s)
    t = display(c, c.args[0], s)
    save = c.args
    c.args = [save[1], t]
    try:
        return sink(c, t)
    finally:
        c.args = save


@model("Debug.fmt")
def m_debug_fmt(c):
    save = c.args
    t = app("debug", c.v(0))
    c.args = [save[1], t]
    try:
        return sink(c, t)
    finally:
        c.args = save


# ---------------------------------------------------------------- files

HANDLE = "Handle"
TAKE = "TakeReader"
T.STRUCT_ARITY[HANDLE] = 2


@model("Path.is_file", "Path.exists", "fs.exists")
def m_is_file(c):
    r = mk("app", "is_file", (c.v(0),))
    T.ENUM_OF.setdefault(r, "bool")
    return r


@model("File.open")
def m_open(c):
    return m_open_at(c, c.v(0))


def m_open_at(c, p):
    o = mk("app", "opens", (p,))
    T.ENUM_OF.setdefault(o, "bool")
    c.I.event("open", c.st, TR, (p,), c.at)
    return ite(o, ok(agg(HANDLE, 0, (mk("app", "file", (p,)), num(0)))), err(mk("app", "openerr", (p,))))


@model("File.create")
def m_create(c):
    p = c.v(0)
    c.I.event("create", c.st, TR, (p,), c.at)
    o = mk("app", "creates", (p,))
    T.ENUM_OF.setdefault(o, "bool")
    return ite(o, ok(agg(HANDLE, 0, (mk("app", "out", (p,)), num(0)))), err(mk("app", "createerr", (p,))))


OPENOPT = "std::fs::OpenOptions"
OPTS = ("read", "write", "append", "truncate", "create", "create_new")


@model("OpenOptions.new", "File.options")
def m_oo_new(c):
    return agg(OPENOPT, 0, [F] * len(OPTS))


@model(*["OpenOptions." + x for x in OPTS])
def m_oo_set(c):
    o = c.v(0)
    i = OPTS.index(c.key.split(".")[-1])
    xs = [field(o, j, OPENOPT) for j in range(len(OPTS))]
    xs[i] = c.v(1)
    setv(c, 0, agg(OPENOPT, 0, xs))
    return c.args[0]


@model("OpenOptions.open")
def m_oo_open(c):
    o, p = c.v(0), c.v(1)
    x = dict(zip(OPTS, [field(o, j, OPENOPT) for j in range(len(OPTS))]))
    if x["write"] is F and x["append"] is F:
        return m_open_at(c, p)
    kind = "create" if x["write"] is TR and x["truncate"] is TR and x["create"] is TR and x["append"] is F else "openw"
    c.I.event(kind, c.st, TR, (p, x["truncate"], x["append"], x["create"], x["create_new"]), c.at)
    ok_ = mk("app", "creates", (p,))
    T.ENUM_OF.setdefault(ok_, "bool")
    return ite(ok_, ok(agg(HANDLE, 0, (mk("app", "out", (p,)), num(0)))), err(mk("app", "createerr", (p,))))


@model("fs.rename", "fs.copy", "fs.remove_file", "fs.hard_link", "fs.create_dir_all", "fs.create_dir")
def m_fsop(c):
    k = c.key.split(".")[-1]
    a = tuple(c.v(i) for i in range(len(c.args)))
    c.I.event("fs:" + k, c.st, TR, a, c.at)
    r = mk("app", "fsop", (lit(k),) + a)
    T.ENUM_OF.setdefault(r, RES)
    return r


@model("fs.write")
def m_fswrite(c):
    p, d = c.v(0), c.v(1)
    c.I.event("create", c.st, TR, (p,), c.at)
    o = mk("app", "creates", (p,))
    T.ENUM_OF.setdefault(o, "bool")
    w = mk("app", "writes", (mk("app", "out", (p,)), d))
    T.ENUM_OF.setdefault(w, "bool")
    c.I.event("write", c.st, bnorm(o), (mk("app", "out", (p,)), d), c.at)
    return ite(band(o, w), ok(UNIT), ite(o, err(mk("app", "writeerr", (p,))), err(mk("app", "createerr", (p,)))))


@model("Write.write_all")
def m_write_all(c):
    return write_handle(c, c.v(1))


@model("Write.write")
def m_write(c):
    x = c.v(0)
    d = c.v(1)
    c.I.event("partialwrite", c.st, TR, (x, d), c.at)
    r = mk("app", "write_some", (x, d))
    T.ENUM_OF.setdefault(r, RES)
    return r


def write_handle(c, d):
    x = c.v(0)
    if x.k == "seq" or not (x.k == "agg" and x.a[0] == HANDLE):
        if x.k != "agg":
            setv(c, 0, cat(x, d))
            return ok(UNIT)
        return None
    w = mk("app", "writes", (x.a[2][0], d))
    T.ENUM_OF.setdefault(w, "bool")
    c.I.event("write", c.st, TR, (x.a[2][0], d), c.at)
    return ite(w, ok(UNIT), err(mk("app", "writeerr", (x.a[2][0],))))


@model("Write.flush", "BufWriter.into_inner")
def m_flush(c):
    x = c.v(0)
    c.I.event("flush", c.st, TR, (x.a[2][0] if x.k == "agg" and x.a[0] == HANDLE else x,), c.at)
    if not (x.k == "agg" and x.a[0] == HANDLE and isapp(x.a[2][0], "buf")):
        return ok(UNIT)
    w = mk("app", "flushes", (x.a[2][0],))
    T.ENUM_OF.setdefault(w, "bool")
    r = agg(HANDLE, 0, (x.a[2][0].a[1][0], x.a[2][1])) if c.key.endswith("into_inner") else UNIT
    return ite(w, ok(r), err(mk("app", "flusherr", (x,))))


@model("File.sync_all", "File.sync_data")
def m_sync(c):
    return ok(UNIT)


@model("BufWriter.new", "LineWriter.new", "BufWriter.with_capacity", "LineWriter.with_capacity")
def m_bufw(c):
    x = c.v(1 if c.key.endswith("with_capacity") else 0)
    if x.k == "agg" and x.a[0] == HANDLE:
        o = mk("app", "buf", (x.a[2][0],))
        c.I.event("bufwriter", c.st, TR, (o,), c.at)
        return agg(HANDLE, 0, (o, x.a[2][1]))
    return x


@model("Cursor.new")
def m_cursor(c):
    return agg(HANDLE, 0, (c.v(0), num(0)))


def io_src(v):
    def f(x):
        if x.k == "agg" and x.a[0] == HANDLE:
            return app("sub", x.a[2][0], x.a[2][1], slen(x.a[2][0])) if x.a[2][1] is not F else x.a[2][0]
        return x

    return lift(f, v)


@model("BufRead.lines")
def m_iolines(c):
    return app("iolines", io_src(c.v(0)))


def bool_atom(name, *a):
    t = mk("app", name, a)
    T.ENUM_OF.setdefault(t, "bool")
    return t


def here(c, v):
    """the value on the paths that come here"""
    return T.under(band(c.st.ctx, c.st.pc), v)


@model("Read.read_exact")
def m_read_exact(c):
    h = c.v(0)
    buf = c.v(1)
    n = slen(buf)
    if h.k == "sw":
        src = field(h, 0, HANDLE)
        pos = field(h, 1, HANDLE)
    elif h.k == "agg" and h.a[0] == HANDLE:
        src, pos = h.a[2]
    else:
        src, pos = field(h, 0, HANDLE), field(h, 1, HANDLE)
    pos = here(c, pos)
    o = app("read_ok", src, pos, n)
    T.ENUM_OF.setdefault(o, "bool") if o.k == "app" else None
    data = app("rd", src, pos, n)
    c.I.event("read", c.st, TR, (src, pos, n), c.at)
    setv(c, 1, ite(o, data, app("partial", src, pos, n)))
    setv(c, 0, agg(HANDLE, 0, (src, ite(o, add(pos, n), app("badpos", src, pos, n)))))
    return ite(o, ok(UNIT), err(app("readerr", src, pos, n)))


@model("Read.read")
def m_read(c):
    h = c.v(0)
    buf = c.v(1)
    src, pos = field(h, 0, HANDLE), here(c, field(h, 1, HANDLE))
    n = slen(buf)
    o = bool_atom("rte_ok", src, pos, n)
    k = app("rdsome", src, pos, n)
    c.I.event("read", c.st, TR, (src, pos, n), c.at)
    setv(c, 1, ite(o, cat(app("rdupto", src, pos, k), app("sub", buf, k, n)), app("partial", src, pos, n)))
    setv(c, 0, agg(HANDLE, 0, (src, ite(o, add(pos, k), app("badpos", src, pos, n)))))
    return ite(o, ok(k), err(app("readerr", src, pos, n)))


@model("Seek.seek")
def m_seek(c):
    h = c.v(0)
    src = field(h, 0, HANDLE)
    w = c.v(1)
    if w.k == "agg" and w.a[1] == 0:
        x = w.a[2][0]
    elif w.k == "agg" and w.a[1] == 2:
        x = add(here(c, field(h, 1, HANDLE)), w.a[2][0])
    else:
        x = app("seekpos", w)
    o = app("seek_ok", src, x)
    if o.k == "app":
        T.ENUM_OF.setdefault(o, "bool")
    c.I.event("seek", c.st, TR, (src, x), c.at)
    old = here(c, field(h, 1, HANDLE))
    setv(c, 0, agg(HANDLE, 0, (src, ite(o, x, old))))
    return ite(o, ok(x), err(app("seekerr", src, x)))


@model("Seek.rewind")
def m_rewind(c):
    h = c.v(0)
    src = field(h, 0, HANDLE)
    setv(c, 0, agg(HANDLE, 0, (src, num(0))))
    return ok(UNIT)


@model("Read.take")
def m_take(c):
    return mk("agg", TAKE, 0, (addr(c, 0), c.v(1)))


@model("Read.read_to_end", "Read.read_to_string")
def m_read_to_end(c):
    h = c.v(0)
    if h.k == "agg" and h.a[0] == TAKE:
        r, n = h.a[2]
        g = deep(c, r)
    else:
        r, n = addr(c, 0), num(1 << 64)
        g = h
    src, pos = field(g, 0, HANDLE), here(c, field(g, 1, HANDLE))
    n = here(c, n)
    o = app("rte_ok", src, pos, n)
    if o.k == "app":
        T.ENUM_OF.setdefault(o, "bool")
    data = src if n is num(1 << 64) and pos is num(0) else app("rdupto", src, pos, n)
    c.I.event("read_to_end", c.st, TR, (src, pos, n), c.at)
    setv(c, 1, cat(c.v(1), ite(o, data, app("partial", src, pos, n))))
    c.I.write_ref(c.st, r, agg(HANDLE, 0, (src, ite(o, add(pos, slen(data)), app("badpos", src, pos, n)))))
    return ite(o, ok(slen(data)), err(app("readerr", src, pos, n)))


@model("fs.read_to_string", "fs.read")
def m_fsread(c):
    p = c.v(0)
    r = mk("app", c.key, (p,))
    T.ENUM_OF.setdefault(r, RES)
    return r


# ---------------------------------------------------------------- panics


@model("panicking.panic", "panicking.panic_fmt", "panicking.panic_display", "rt.begin_panic", "panicking.unreachable_display", "panicking.unreachable_default_msg", "panicking.panic_nounwind",
       "panicking.panic_explicit", "panicking.assert_failed", "option.unwrap_failed", "option.expect_failed", "result.unwrap_failed",
       "rt.panic_fmt", "process.exit", "process.abort", "panicking.panic_const_div_by_zero", "panicking.panic_str_2015")
def m_panic(c):
    c.panic_unless("panic", F, tuple())
    return BOT
