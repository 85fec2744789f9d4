//! Compiler driver that type-checks one workspace crate and writes the
//! resolved program (types, ADTs, MIR bodies with resolved callees) as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER.  Nothing of the analysed crate is run.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use std::collections::HashMap;
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_ast::attr::AttributeExt;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{
    AggregateKind, AssertKind, BinOp, Body, BorrowKind, CastKind, Const, ConstValue, Operand,
    Place, PlaceElem, PlaceTy, RawPtrKind, Rvalue, StatementKind, TerminatorKind, UnOp,
    VarDebugInfoContents,
};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    ty_ix: HashMap<Ty<'tcx>, usize>,
    adts: Vec<(String, String)>,
    adt_seen: HashMap<DefId, ()>,
}

impl<'tcx> Dumper<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("[{},{},{}]", esc(&f), lo.line, lo.col.0 + 1)
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let did = def.did();
        if self.adt_seen.contains_key(&did) {
            return;
        }
        self.adt_seen.insert(did, ());
        let mut s = String::new();
        let p = self.path(did);
        let _ = write!(
            s,
            "{{\"kind\":{},\"local\":{},\"variants\":[",
            esc(if def.is_enum() {
                "enum"
            } else if def.is_struct() {
                "struct"
            } else {
                "union"
            }),
            did.is_local()
        );
        let mut first = true;
        for (vi, v) in def.variants().iter_enumerated() {
            if !first {
                s.push(',');
            }
            first = false;
            let discr = if def.is_enum() {
                format!("{}", def.discriminant_for_variant(self.tcx, vi).val)
            } else {
                "0".into()
            };
            let _ = write!(s, "{{\"name\":{},\"discr\":{},\"fields\":[", esc(v.name.as_str()), discr);
            let mut ff = true;
            for f in v.fields.iter() {
                if !ff {
                    s.push(',');
                }
                ff = false;
                let fty = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let ft = if did.is_local() { self.ty(fty) } else { usize::MAX };
                let _ = write!(
                    s,
                    "{{\"name\":{},\"pub\":{},\"ty\":{}}}",
                    esc(f.name.as_str()),
                    f.vis.is_public(),
                    if ft == usize::MAX { "null".to_string() } else { ft.to_string() }
                );
            }
            s.push_str("]}");
        }
        s.push(']');
        if let Some(l) = did.as_local() {
            let t = self.tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let env = TypingEnv::non_body_analysis(self.tcx, did);
            let send = self.tcx.get_diagnostic_item(rustc_span::sym::Send);
            let sync = self.tcx.lang_items().sync_trait();
            let _ = write!(
                s,
                ",\"reachable\":{},\"generic\":{},\"send\":{},\"sync\":{}",
                self.tcx.effective_visibilities(()).is_reachable(l),
                self.tcx.generics_of(did).own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)),
                self.implements(t, env, send),
                self.implements(t, env, sync)
            );
        }
        s.push('}');
        self.adts.push((p, s));
    }

    fn implements(&self, t: Ty<'tcx>, env: TypingEnv<'tcx>, tr: Option<DefId>) -> bool {
        let Some(tr) = tr else { return true };
        let (infcx, param_env) = self.tcx.infer_ctxt().build_with_typing_env(env);
        infcx.type_implements_trait(tr, [t], param_env).may_apply()
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.ty_ix.get(&t) {
            return *i;
        }
        let ix = self.tys.len();
        self.tys.push(String::new());
        self.ty_ix.insert(t, ix);
        let name = with_no_trimmed_paths!(t.to_string());
        let mut s = format!("{{\"s\":{}", esc(&name));
        match t.kind() {
            ty::Adt(def, args) => {
                self.adt(*def);
                let a: Vec<String> =
                    args.types().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(
                    s,
                    ",\"k\":\"adt\",\"adt\":{},\"args\":[{}]",
                    esc(&self.path(def.did())),
                    a.join(",")
                );
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                let _ = write!(s, ",\"k\":\"ref\",\"mut\":{},\"to\":{}", m.is_mut(), i);
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(*inner);
                let _ = write!(s, ",\"k\":\"ptr\",\"mut\":{},\"to\":{}", m.is_mut(), i);
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(s, ",\"k\":\"tuple\",\"args\":[{}]", a.join(","));
            }
            ty::Array(e, n) => {
                let i = self.ty(*e);
                let n = n.try_to_target_usize(self.tcx);
                let _ = write!(
                    s,
                    ",\"k\":\"array\",\"to\":{},\"len\":{}",
                    i,
                    n.map(|n| n.to_string()).unwrap_or("null".into())
                );
            }
            ty::Slice(e) => {
                let i = self.ty(*e);
                let _ = write!(s, ",\"k\":\"slice\",\"to\":{}", i);
            }
            ty::Closure(d, _) => {
                let _ = write!(s, ",\"k\":\"closure\",\"def\":{}", esc(&self.path(*d)));
            }
            ty::FnDef(d, _) => {
                let _ = write!(s, ",\"k\":\"fndef\",\"def\":{}", esc(&self.path(*d)));
            }
            ty::Bool => s.push_str(",\"k\":\"bool\""),
            ty::Char => s.push_str(",\"k\":\"char\""),
            ty::Str => s.push_str(",\"k\":\"str\""),
            ty::Int(_) | ty::Uint(_) => s.push_str(",\"k\":\"int\""),
            ty::Float(_) => s.push_str(",\"k\":\"float\""),
            ty::Never => s.push_str(",\"k\":\"never\""),
            ty::Dynamic(..) => s.push_str(",\"k\":\"dyn\""),
            ty::Param(_) => s.push_str(",\"k\":\"param\""),
            ty::FnPtr(..) => s.push_str(",\"k\":\"fnptr\""),
            _ => s.push_str(",\"k\":\"other\""),
        }
        s.push('}');
        self.tys[ix] = s;
        ix
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut s = format!("[{},[", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut first = true;
        for e in p.projection.iter() {
            if !first {
                s.push(',');
            }
            first = false;
            match e {
                PlaceElem::Deref => s.push_str("\"*\""),
                PlaceElem::Field(f, fty) => {
                    let t = self.ty(fty);
                    let mut name = f.as_usize().to_string();
                    let mut owner = String::new();
                    if let ty::Adt(def, _) = pt.ty.kind() {
                        self.adt(*def);
                        owner = self.path(def.did());
                        let v = match pt.variant_index {
                            Some(v) => def.variant(v),
                            None => {
                                if def.is_enum() {
                                    def.variant(rustc_abi::VariantIdx::from_usize(0))
                                } else {
                                    def.non_enum_variant()
                                }
                            }
                        };
                        name = v.fields[f].name.to_string();
                    } else if let ty::Tuple(_) = pt.ty.kind() {
                        owner = "(tuple)".into();
                    } else if let ty::Closure(..) = pt.ty.kind() {
                        owner = "(closure)".into();
                    }
                    let _ = write!(
                        s,
                        "[\"f\",{},{},{},{}]",
                        f.as_usize(),
                        esc(&name),
                        esc(&owner),
                        t
                    );
                }
                PlaceElem::Index(l) => {
                    let _ = write!(s, "[\"i\",{}]", l.as_usize());
                }
                PlaceElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(s, "[\"ci\",{},{},{}]", offset, min_length, from_end);
                }
                PlaceElem::Subslice { from, to, from_end } => {
                    let _ = write!(s, "[\"ss\",{},{},{}]", from, to, from_end);
                }
                PlaceElem::Downcast(n, v) => {
                    let _ = write!(
                        s,
                        "[\"v\",{},{}]",
                        v.as_usize(),
                        esc(&n.map(|n| n.to_string()).unwrap_or_default())
                    );
                }
                _ => s.push_str("\"?\""),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        s.push_str("]]");
        s
    }

    fn const_json(&mut self, env: TypingEnv<'tcx>, c: &Const<'tcx>) -> String {
        let cty = c.ty();
        let t = self.ty(cty);
        if let ty::FnDef(d, args) = cty.kind() {
            return self.fn_json(env, *d, args.no_bound_vars().unwrap(), t);
        }
        // unevaluated constants with a local body: hand the body over
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return format!(
                    "{{\"c\":\"promoted\",\"of\":{},\"ix\":{},\"ty\":{}}}",
                    esc(&self.path(u.def)),
                    p.as_usize(),
                    t
                );
            }
            if u.def.is_local() {
                let scalar = matches!(
                    cty.kind(),
                    ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_)
                );
                if !scalar {
                    return format!(
                        "{{\"c\":\"item\",\"def\":{},\"ty\":{}}}",
                        esc(&self.path(u.def)),
                        t
                    );
                }
            }
        }
        let val = match c {
            Const::Val(v, _) => Some(*v),
            _ => c.eval(self.tcx, env, rustc_span::DUMMY_SP).ok(),
        };
        if let Some(v) = val {
            match cty.kind() {
                ty::Ref(_, inner, _) if inner.is_str() => {
                    if let ConstValue::Slice { .. } | ConstValue::Indirect { .. } = v {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                            return format!(
                                "{{\"c\":\"str\",\"v\":{},\"ty\":{}}}",
                                esc(&String::from_utf8_lossy(b)),
                                t
                            );
                        }
                    }
                }
                ty::Ref(_, inner, _) => {
                    // &[u8; N] byte strings
                    if let ty::Array(e, n) = inner.kind() {
                        if *e == self.tcx.types.u8 {
                            if let (ConstValue::Scalar(Scalar::Ptr(ptr, _)), Some(n)) =
                                (v, n.try_to_target_usize(self.tcx))
                            {
                                let (prov, off) = ptr.into_raw_parts();
                                if let GlobalAlloc::Memory(a) =
                                    self.tcx.global_alloc(prov.alloc_id())
                                {
                                    let o = off.bytes() as usize;
                                    let bytes = a
                                        .inner()
                                        .inspect_with_uninit_and_ptr_outside_interpreter(
                                            o..o + n as usize,
                                        );
                                    let l: Vec<String> =
                                        bytes.iter().map(|b| b.to_string()).collect();
                                    return format!(
                                        "{{\"c\":\"bytes\",\"v\":[{}],\"ty\":{}}}",
                                        l.join(","),
                                        t
                                    );
                                }
                            }
                        }
                    }
                    if let ty::Slice(e) = inner.kind() {
                        if *e == self.tcx.types.u8 {
                            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                                let l: Vec<String> = b.iter().map(|b| b.to_string()).collect();
                                return format!(
                                    "{{\"c\":\"bytes\",\"v\":[{}],\"ty\":{}}}",
                                    l.join(","),
                                    t
                                );
                            }
                        }
                    }
                    if let ConstValue::Scalar(Scalar::Ptr(ptr, _)) = v {
                        let (prov, _) = ptr.into_raw_parts();
                        if let GlobalAlloc::Static(d) = self.tcx.global_alloc(prov.alloc_id()) {
                            return format!(
                                "{{\"c\":\"static\",\"def\":{},\"ty\":{}}}",
                                esc(&self.path(d)),
                                t
                            );
                        }
                    }
                }
                ty::RawPtr(..) => {
                    if let ConstValue::Scalar(Scalar::Ptr(ptr, _)) = v {
                        let (prov, _) = ptr.into_raw_parts();
                        if let GlobalAlloc::Static(d) = self.tcx.global_alloc(prov.alloc_id()) {
                            return format!(
                                "{{\"c\":\"static\",\"def\":{},\"ty\":{}}}",
                                esc(&self.path(d)),
                                t
                            );
                        }
                    }
                }
                ty::Bool => {
                    if let Some(b) = v.try_to_bool() {
                        return format!("{{\"c\":\"bool\",\"v\":{},\"ty\":{}}}", b, t);
                    }
                }
                ty::Char => {
                    if let Some(b) = v.try_to_scalar_int() {
                        return format!(
                            "{{\"c\":\"char\",\"v\":{},\"ty\":{}}}",
                            b.to_u32(),
                            t
                        );
                    }
                }
                ty::Int(_) => {
                    if let Some(b) = v.try_to_scalar_int() {
                        let sz = b.size();
                        return format!(
                            "{{\"c\":\"int\",\"v\":{},\"ty\":{}}}",
                            b.to_int(sz),
                            t
                        );
                    }
                }
                ty::Uint(_) => {
                    if let Some(b) = v.try_to_scalar_int() {
                        let sz = b.size();
                        return format!(
                            "{{\"c\":\"int\",\"v\":{},\"ty\":{}}}",
                            b.to_uint(sz),
                            t
                        );
                    }
                }
                ty::Float(_) => {
                    if let Some(b) = v.try_to_scalar_int() {
                        let sz = b.size();
                        let bits = b.to_uint(sz);
                        let txt = if sz.bytes() == 4 {
                            f32::from_bits(bits as u32).to_string()
                        } else {
                            f64::from_bits(bits as u64).to_string()
                        };
                        return format!("{{\"c\":\"float\",\"v\":{},\"ty\":{}}}", esc(&txt), t);
                    }
                }
                ty::Tuple(ts) if ts.is_empty() => {
                    return format!("{{\"c\":\"unit\",\"ty\":{}}}", t);
                }
                ty::Adt(def, _) if def.is_enum() => {
                    // fieldless enum constants
                    if let Some(b) = v.try_to_scalar_int() {
                        let sz = b.size();
                        let bits = b.to_uint(sz);
                        for (vi, d) in def.discriminants(self.tcx) {
                            let m = if sz.bits() >= 128 { u128::MAX } else { (1u128 << sz.bits()) - 1 };
                            if d.val & m == bits && def.variant(vi).fields.is_empty() {
                                return format!(
                                    "{{\"c\":\"enum\",\"variant\":{},\"ty\":{}}}",
                                    vi.as_usize(),
                                    t
                                );
                            }
                        }
                    }
                }
                ty::Adt(def, _) if def.is_struct() => {
                    if let ConstValue::ZeroSized = v {
                        return format!("{{\"c\":\"zst\",\"ty\":{}}}", t);
                    }
                }
                ty::Closure(..) => {
                    return format!("{{\"c\":\"zst\",\"ty\":{}}}", t);
                }
                _ => {}
            }
        }
        format!(
            "{{\"c\":\"other\",\"d\":{},\"ty\":{}}}",
            esc(&with_no_trimmed_paths!(format!("{}", c))),
            t
        )
    }

    fn fn_json(
        &mut self,
        env: TypingEnv<'tcx>,
        d: DefId,
        args: ty::GenericArgsRef<'tcx>,
        t: usize,
    ) -> String {
        let tcx = self.tcx;
        let gargs: Vec<String> = args.types().map(|a| self.ty(a).to_string()).collect();
        let mut s = format!(
            "{{\"c\":\"fn\",\"def\":{},\"args\":[{}],\"local\":{},\"ty\":{}",
            esc(&self.path(d)),
            gargs.join(","),
            d.is_local(),
            t
        );
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(
                s,
                ",\"trait\":{},\"self\":{},\"method\":{}",
                esc(&self.path(tr)),
                self.ty(args.type_at(0)),
                esc(tcx.item_name(d).as_str())
            );
        } else if let Some(imp) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(imp).instantiate(tcx, args).skip_norm_wip();
            let _ = write!(s, ",\"self\":{}", self.ty(st));
        }
        let eargs = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, eargs) {
            let rd = inst.def_id();
            let kind = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                ty::InstanceKind::Intrinsic(_) => "intrinsic",
                ty::InstanceKind::Shim(_) => "shim",
                _ => "other",
            };
            let ra: Vec<String> = inst.args.types().map(|a| self.ty(a).to_string()).collect();
            let _ = write!(
                s,
                ",\"res\":{{\"def\":{},\"local\":{},\"kind\":{},\"args\":[{}]}}",
                esc(&self.path(rd)),
                rd.is_local(),
                esc(kind),
                ra.join(",")
            );
        }
        s.push('}');
        s
    }

    fn operand(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(body, p)),
            Operand::Constant(c) => {
                format!("{{\"o\":\"const\",\"k\":{}}}", self.const_json(env, &c.const_))
            }
            #[allow(unreachable_patterns)]
            _ => "{\"o\":\"other\"}".to_string(),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"a\":{}}}", self.operand(body, env, o)),
            Rvalue::Repeat(o, n) => format!(
                "{{\"r\":\"repeat\",\"a\":{},\"n\":{}}}",
                self.operand(body, env, o),
                n.try_to_target_usize(self.tcx).map(|n| n.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Ref(_, bk, p) => format!(
                "{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}",
                matches!(bk, BorrowKind::Mut { .. }),
                self.place(body, p)
            ),
            Rvalue::RawPtr(k, p) => format!(
                "{{\"r\":\"rawref\",\"mut\":{},\"p\":{}}}",
                matches!(k, RawPtrKind::Mut),
                self.place(body, p)
            ),
            Rvalue::Reborrow(_, m, p) => format!(
                "{{\"r\":\"reborrow\",\"mut\":{},\"p\":{}}}",
                m.is_mut(),
                self.place(body, p)
            ),
            Rvalue::Cast(k, o, t) => {
                let kk = match k {
                    CastKind::IntToInt => "int".to_string(),
                    CastKind::IntToFloat => "inttofloat".to_string(),
                    CastKind::FloatToInt => "floattoint".to_string(),
                    CastKind::FloatToFloat => "float".to_string(),
                    CastKind::PointerCoercion(c, _) => format!("coerce:{:?}", c),
                    CastKind::Transmute => "transmute".to_string(),
                    k => format!("{:?}", k),
                };
                let from = o.ty(&body.local_decls, self.tcx);
                format!(
                    "{{\"r\":\"cast\",\"k\":{},\"a\":{},\"from\":{},\"to\":{}}}",
                    esc(&kk),
                    self.operand(body, env, o),
                    self.ty(from),
                    self.ty(*t)
                )
            }
            Rvalue::BinaryOp(op, ab) => {
                let (a, b) = &**ab;
                let n = match op {
                    BinOp::Add => "add",
                    BinOp::AddUnchecked => "add",
                    BinOp::AddWithOverflow => "addo",
                    BinOp::Sub => "sub",
                    BinOp::SubUnchecked => "sub",
                    BinOp::SubWithOverflow => "subo",
                    BinOp::Mul => "mul",
                    BinOp::MulUnchecked => "mul",
                    BinOp::MulWithOverflow => "mulo",
                    BinOp::Div => "div",
                    BinOp::Rem => "rem",
                    BinOp::BitXor => "xor",
                    BinOp::BitAnd => "and",
                    BinOp::BitOr => "or",
                    BinOp::Shl | BinOp::ShlUnchecked => "shl",
                    BinOp::Shr | BinOp::ShrUnchecked => "shr",
                    BinOp::Eq => "eq",
                    BinOp::Lt => "lt",
                    BinOp::Le => "le",
                    BinOp::Ne => "ne",
                    BinOp::Ge => "ge",
                    BinOp::Gt => "gt",
                    BinOp::Cmp => "cmp",
                    BinOp::Offset => "offset",
                };
                let t = a.ty(&body.local_decls, self.tcx);
                format!(
                    "{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{},\"ty\":{}}}",
                    esc(n),
                    self.operand(body, env, a),
                    self.operand(body, env, b),
                    self.ty(t)
                )
            }
            Rvalue::UnaryOp(op, a) => {
                let n = match op {
                    UnOp::Not => "not",
                    UnOp::Neg => "neg",
                    UnOp::PtrMetadata => "ptrmeta",
                };
                format!("{{\"r\":\"un\",\"op\":{},\"a\":{}}}", esc(n), self.operand(body, env, a))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                format!(
                    "{{\"r\":\"discr\",\"p\":{},\"ty\":{}}}",
                    self.place(body, p),
                    self.ty(t)
                )
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(body, env, o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(t) => {
                        format!("{{\"a\":\"array\",\"ty\":{}}}", self.ty(*t))
                    }
                    AggregateKind::Tuple => "{\"a\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        format!(
                            "{{\"a\":\"adt\",\"def\":{},\"variant\":{},\"active\":{}}}",
                            esc(&self.path(*d)),
                            v.as_usize(),
                            active.map(|a| a.as_usize().to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("{{\"a\":\"closure\",\"def\":{}}}", esc(&self.path(*d)))
                    }
                    AggregateKind::RawPtr(..) => "{\"a\":\"rawptr\"}".to_string(),
                    _ => "{\"a\":\"other\"}".to_string(),
                };
                format!("{{\"r\":\"agg\",\"k\":{},\"ops\":[{}]}}", kk, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!(
                "{{\"r\":\"use\",\"a\":{{\"o\":\"copy\",\"p\":{}}}}}",
                self.place(body, p)
            ),
            Rvalue::ThreadLocalRef(d) => {
                format!("{{\"r\":\"tls\",\"def\":{}}}", esc(&self.path(*d)))
            }
            _ => format!("{{\"r\":\"other\",\"d\":{}}}", esc(&format!("{:?}", r))),
        }
    }

    fn body(&mut self, owner: DefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, owner);
        let mut s = String::new();
        let _ = write!(s, "{{\"argc\":{},\"span\":{},\"locals\":[", body.arg_count, self.span(body.span));
        let mut first = true;
        for d in body.local_decls.iter() {
            if !first {
                s.push(',');
            }
            first = false;
            let t = self.ty(d.ty);
            let _ = write!(s, "{}", t);
        }
        s.push_str("],\"names\":{");
        let mut first = true;
        let mut seen: HashMap<usize, ()> = HashMap::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() && !seen.contains_key(&p.local.as_usize()) {
                    seen.insert(p.local.as_usize(), ());
                    if !first {
                        s.push(',');
                    }
                    first = false;
                    let _ = write!(s, "\"{}\":{}", p.local.as_usize(), esc(v.name.as_str()));
                }
            }
        }
        let _ = write!(
            s,
            "}},\"spread\":{},\"blocks\":[",
            body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into())
        );
        let mut firstb = true;
        for bb in body.basic_blocks.iter() {
            if !firstb {
                s.push(',');
            }
            firstb = false;
            let _ = write!(s, "{{\"cleanup\":{},\"st\":[", bb.is_cleanup);
            let mut fs = true;
            for st in bb.statements.iter() {
                let j = match &st.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        let pj = self.place(body, p);
                        let rj = self.rvalue(body, env, r);
                        format!("{{\"s\":\"=\",\"p\":{},\"v\":{},\"at\":{}}}", pj, rj, self.span(st.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => format!(
                        "{{\"s\":\"setdiscr\",\"p\":{},\"variant\":{}}}",
                        self.place(body, place),
                        variant_index.as_usize()
                    ),
                    StatementKind::StorageDead(l) => {
                        format!("{{\"s\":\"dead\",\"l\":{}}}", l.as_usize())
                    }
                    _ => continue,
                };
                if !fs {
                    s.push(',');
                }
                fs = false;
                s.push_str(&j);
            }
            s.push_str("],\"t\":");
            let term = bb.terminator();
            let at = self.span(term.source_info.span);
            let tj = match &term.kind {
                TerminatorKind::Goto { target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", target.as_usize())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let ts: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| {
                            // sign-extend signed switch values
                            let v = match dt.kind() {
                                ty::Int(it) => {
                                    let bits = it.bit_width().unwrap_or(64) as u32;
                                    let sh = 128 - bits;
                                    (((v << sh) as i128) >> sh).to_string()
                                }
                                _ => v.to_string(),
                            };
                            format!("[{},{}]", v, b.as_usize())
                        })
                        .collect();
                    format!(
                        "{{\"t\":\"switch\",\"d\":{},\"ty\":{},\"cases\":[{}],\"else\":{},\"at\":{}}}",
                        self.operand(body, env, discr),
                        self.ty(dt),
                        ts.join(","),
                        targets.otherwise().as_usize(),
                        at
                    )
                }
                TerminatorKind::Return => "{\"t\":\"return\"}".to_string(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".to_string(),
                TerminatorKind::UnwindResume => "{\"t\":\"resume\"}".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    format!(
                        "{{\"t\":\"drop\",\"p\":{},\"to\":{},\"ty\":{}}}",
                        self.place(body, place),
                        target.as_usize(),
                        self.ty(t)
                    )
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, env, func);
                    let a: Vec<String> =
                        args.iter().map(|x| self.operand(body, env, &x.node)).collect();
                    let at_: Vec<String> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&body.local_decls, tcx);
                            self.ty(t).to_string()
                        })
                        .collect();
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    format!(
                        "{{\"t\":\"call\",\"f\":{},\"args\":[{}],\"atys\":[{}],\"dest\":{},\"dty\":{},\"to\":{},\"at\":{},\"exp\":{}}}",
                        f,
                        a.join(","),
                        at_.join(","),
                        self.place(body, destination),
                        self.ty(dt),
                        target.map(|b| b.as_usize().to_string()).unwrap_or("null".into()),
                        at,
                        term.source_info.span.from_expansion()
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![len, index])
                        }
                        AssertKind::Overflow(op, a, b) => {
                            (format!("overflow:{:?}", op), vec![a, b])
                        }
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![a]),
                        AssertKind::DivisionByZero(a) => ("divzero".into(), vec![a]),
                        AssertKind::RemainderByZero(a) => ("remzero".into(), vec![a]),
                        _ => ("other".into(), vec![]),
                    };
                    let o: Vec<String> = ops.iter().map(|x| self.operand(body, env, x)).collect();
                    format!(
                        "{{\"t\":\"assert\",\"c\":{},\"exp\":{},\"k\":{},\"ops\":[{}],\"to\":{},\"at\":{}}}",
                        self.operand(body, env, cond),
                        expected,
                        esc(&k),
                        o.join(","),
                        target.as_usize(),
                        at
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize())
                }
                k => format!("{{\"t\":\"other\",\"d\":{}}}", esc(&format!("{:?}", k))),
            };
            s.push_str(&tj);
            s.push('}');
        }
        s.push_str("]}");
        s
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = Dumper {
            tcx,
            tys: vec![],
            ty_ix: HashMap::new(),
            adts: vec![],
            adt_seen: HashMap::new(),
        };
        let mut fns: Vec<String> = vec![];
        let mut bodies: Vec<DefId> = vec![];
        for ldid in tcx.hir_body_owners() {
            bodies.push(ldid.to_def_id());
        }
        for did in bodies {
            let kind = tcx.def_kind(did);
            let ldid = did.expect_local();
            let is_const = matches!(
                kind,
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst
            );
            let (bj, pj) = if is_const {
                let b = tcx.mir_for_ctfe(did).clone();
                let p = tcx.promoted_mir(did);
                let pj: Vec<String> = p.iter().map(|pb| d.body(did, pb)).collect();
                (d.body(did, &b), pj)
            } else {
                let b = tcx.mir_drops_elaborated_and_const_checked(ldid).borrow().clone();
                let p = tcx.promoted_mir(did);
                let pj: Vec<String> = p.iter().map(|pb| d.body(did, pb)).collect();
                (d.body(did, &b), pj)
            };
            let vis = match kind {
                DefKind::Closure => false,
                _ => tcx.effective_visibilities(()).is_reachable(ldid),
            };
            let mut extra = String::new();
            if let Some(imp) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let _ = write!(extra, ",\"impl_self\":{}", d.ty(st));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let args: Vec<String> = tr.args.types().map(|x| d.ty(x).to_string()).collect();
                    let _ = write!(
                        extra,
                        ",\"impl_trait\":{},\"impl_trait_args\":[{}]",
                        esc(&d.path(tr.def_id)),
                        args.join(",")
                    );
                }
            } else if let Some(tr) = tcx.trait_of_assoc(did) {
                let _ = write!(extra, ",\"of_trait\":{}", esc(&d.path(tr)));
            }
            if let DefKind::Static { .. } = kind {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let _ = write!(
                    extra,
                    ",\"static\":{{\"mut\":{},\"freeze\":{},\"thread_local\":{},\"ty\":{}}}",
                    tcx.is_mutable_static(did),
                    t.is_freeze(tcx, TypingEnv::fully_monomorphized()),
                    tcx.is_thread_local_static(did),
                    d.ty(t)
                );
            }
            let name = tcx.opt_item_name(did).map(|n| n.to_string()).unwrap_or_default();
            let derived = tcx.def_span(did).from_expansion();
            let attrs: Vec<String> = tcx
                .hir_attrs(tcx.local_def_id_to_hir_id(ldid))
                .iter()
                .filter_map(|a| {
                    let p = a.path();
                    if p.is_empty() { None } else {
                        Some(esc(&p.iter().map(|s| s.to_string()).collect::<Vec<_>>().join("::")))
                    }
                })
                .collect();
            let sig_unsafe = match kind {
                DefKind::Fn | DefKind::AssocFn => tcx.fn_sig(did).skip_binder().safety().is_unsafe(),
                _ => false,
            };
            fns.push(format!(
                "{{\"id\":{},\"name\":{},\"kind\":{},\"reachable\":{},\"expanded\":{},\"unsafe\":{},\"attrs\":[{}]{},\"body\":{},\"promoted\":[{}]}}",
                esc(&d.path(did)),
                esc(&name),
                esc(&format!("{:?}", kind)),
                vis,
                derived,
                sig_unsafe,
                attrs.join(","),
                extra,
                bj,
                pj.join(",")
            ));
        }
        // reachable enums/structs of the public API
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Struct | DefKind::Enum = tcx.def_kind(id) {
                let def = tcx.adt_def(id.to_def_id());
                d.adt(def);
            }
        }
        let adts: Vec<String> = d.adts.iter().map(|(p, s)| format!("{}:{}", esc(p), s)).collect();
        let o = format!(
            "{{\"crate\":{},\"types\":[\n{}\n],\"adts\":{{\n{}\n}},\"fns\":[\n{}\n]}}\n",
            esc(tcx.crate_name(LOCAL_CRATE).as_str()),
            d.tys.join(",\n"),
            adts.join(",\n"),
            fns.join(",\n")
        );
        std::fs::write(&self.out, o).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as: driver <rustc> <args...>
    args.remove(0);
    let outdir = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let mut name = String::new();
    let mut is_lib = false;
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "--crate-name" {
            name = it.next().cloned().unwrap_or_default();
        } else if a == "--crate-type" {
            let t = it.next().cloned().unwrap_or_default();
            if t == "lib" || t == "cdylib" || t == "rlib" {
                is_lib = true;
            }
        }
    }
    let test = args.iter().any(|a| a == "--test");
    if !outdir.is_empty() && is_lib && !test && name != "___" && !name.starts_with("build_script") {
        let py = std::env::var("CARGO_PKG_NAME").unwrap_or(name.clone());
        let mut cb = Cb { out: format!("{}/{}.json", outdir, py) };
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=on".into());
        args.push("-Awarnings".into());
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        struct N;
        impl Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
