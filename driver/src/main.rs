//! rustc driver: dumps, as JSON, the resolved MIR (debug build, unoptimised,
//! overflow checks on) of every function of the crate under analysis and of
//! every std function reachable from it that we chose to interpret rather than
//! to model, plus the type, trait-impl and vtable tables the analyser needs.
//! It executes nothing of the analysed crate.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::DUMMY_SP;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

// ---------------------------------------------------------------- tiny JSON
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn o(v: Vec<(&str, J)>) -> J {
    J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
impl J {
    fn w(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::I(i) => out.push_str(&i.to_string()),
            J::S(st) => {
                out.push('"');
                for c in st.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        '\t' => out.push_str("\\t"),
                        '\r' => out.push_str("\\r"),
                        c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.w(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    J::S(k.clone()).w(out);
                    out.push(':');
                    x.w(out);
                }
                out.push('}');
            }
        }
    }
}

// Crate-relative module prefixes of std code whose MIR is interpreted.
const DESCEND: &[&str] = &[
    "core::option::",
    "core::result::",
    "core::iter::",
    "core::cmp::",
    "core::convert::",
    "core::ops::",
    "core::clone::",
    "core::default::",
    "core::bool::",
    "core::tuple::",
    "core::borrow::",
];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: BTreeMap<String, J>,
    tyqueue: VecDeque<Ty<'tcx>>,
    tyseen: HashMap<Ty<'tcx>, String>,
    fns: Vec<(String, J)>,
    seen: HashSet<String>,
    queue: VecDeque<(Instance<'tcx>, DefId)>,
    vtables: BTreeMap<String, J>,
}

fn clean<T>(f: impl FnOnce() -> T) -> T {
    ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(f()))
}

impl<'tcx> Cx<'tcx> {
    fn dp(&self, d: DefId) -> String {
        let p = self.tcx.def_path(d);
        format!("{}{}", self.tcx.crate_name(p.krate), p.to_string_no_crate_verbose())
    }
    fn pretty(&self, d: DefId) -> String {
        clean(|| self.tcx.def_path_str(d))
    }
    fn env(&self, root: DefId) -> ty::TypingEnv<'tcx> {
        ty::TypingEnv::post_analysis(self.tcx, root)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        s(self.tyk(t))
    }
    fn tyk(&mut self, t: Ty<'tcx>) -> String {
        let t = if t.has_escaping_bound_vars() { t } else { self.tcx.erase_and_anonymize_regions(t) };
        if let Some(k) = self.tyseen.get(&t) {
            return k.clone();
        }
        let k = match t.kind() {
            ty::Closure(d, a) => format!(
                "closure:{}:{}",
                self.dp(*d),
                clean(|| format!("{:?}", a.as_closure().parent_args()))
            ),
            ty::FnDef(d, a) => format!("fndef:{}:{}", self.dp(*d), clean(|| format!("{:?}", a))),
            _ => clean(|| format!("{}", t)),
        };
        self.tyseen.insert(t, k.clone());
        self.tyqueue.push_back(t);
        k
    }
    fn flush_types(&mut self) {
        while let Some(t) = self.tyqueue.pop_front() {
            let k = self.tyseen[&t].clone();
            if self.types.contains_key(&k) {
                continue;
            }
            let d = self.describe(t);
            self.types.insert(k, d);
        }
    }
    fn describe(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool => o(vec![("k", s("bool"))]),
            ty::Char => o(vec![("k", s("char"))]),
            ty::Int(i) => o(vec![("k", s("int")), ("bits", J::I(i.bit_width().unwrap_or(64) as i128))]),
            ty::Uint(i) => o(vec![("k", s("uint")), ("bits", J::I(i.bit_width().unwrap_or(64) as i128))]),
            ty::Float(f) => o(vec![("k", s("float")), ("bits", J::I(f.bit_width() as i128))]),
            ty::Str => o(vec![("k", s("str"))]),
            ty::Never => o(vec![("k", s("never"))]),
            ty::Slice(e) => {
                let e = self.ty(*e);
                o(vec![("k", s("slice")), ("elem", e)])
            }
            ty::Array(e, n) => {
                let e = self.ty(*e);
                let n = match n.try_to_target_usize(tcx) {
                    Some(n) => J::I(n as i128),
                    None => J::Null,
                };
                o(vec![("k", s("array")), ("elem", e), ("len", n)])
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                o(vec![("k", s("ref")), ("to", e), ("mut", J::B(m.is_mut()))])
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(*e);
                o(vec![("k", s("ptr")), ("to", e), ("mut", J::B(m.is_mut()))])
            }
            ty::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|x| self.ty(x)).collect();
                o(vec![("k", s("tuple")), ("fields", J::A(v))])
            }
            ty::Adt(def, args) => {
                let mut vs = vec![];
                let local = def.did().is_local();
                for (i, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let raw = f.ty(tcx, args).skip_norm_wip();
                        let ft = if raw.has_param() || raw.has_escaping_bound_vars() {
                            raw
                        } else {
                            tcx.try_normalize_erasing_regions(
                                ty::TypingEnv::fully_monomorphized(),
                                f.ty(tcx, args),
                            )
                            .unwrap_or(raw)
                        };
                        let descend = local || !def.did().is_local();
                        let tk = if descend { self.ty(ft) } else { J::Null };
                        fs.push(o(vec![("name", s(f.name.to_string())), ("ty", tk)]));
                    }
                    let discr = if def.is_enum() {
                        J::I(def.discriminant_for_variant(tcx, i).val as i128)
                    } else {
                        J::I(0)
                    };
                    vs.push(o(vec![
                        ("name", s(v.name.to_string())),
                        ("discr", discr),
                        ("fields", J::A(fs)),
                    ]));
                }
                let targs: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o(vec![
                    ("k", s("adt")),
                    ("def", s(self.pretty(def.did()))),
                    ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
                    ("local", J::B(local)),
                    ("args", J::A(targs)),
                    ("variants", J::A(vs)),
                ])
            }
            ty::Closure(d, a) => {
                let ups: Vec<J> = a.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                let dp = self.dp(*d);
                o(vec![("k", s("closure")), ("def", s(dp)), ("fields", J::A(ups))])
            }
            ty::FnDef(d, _) => {
                let dp = self.dp(*d);
                o(vec![("k", s("fndef")), ("def", s(dp)), ("path", s(self.pretty(*d)))])
            }
            ty::FnPtr(..) => o(vec![("k", s("fnptr"))]),
            ty::Dynamic(preds, _) => {
                let tr = preds.principal_def_id().map(|d| self.pretty(d)).unwrap_or_default();
                o(vec![("k", s("dyn")), ("trait", s(tr))])
            }
            ty::Param(p) => o(vec![("k", s("param")), ("name", s(p.name.to_string()))]),
            _ => o(vec![("k", s("other")), ("dbg", s(clean(|| format!("{:?}", t))))]),
        }
    }

    fn key(&self, inst: Instance<'tcx>, root: DefId) -> String {
        let tcx = self.tcx;
        let base = match inst.def {
            InstanceKind::Item(d) if tcx.is_closure_like(d) => {
                format!("{}<{}>", self.dp(d), clean(|| format!("{:?}", inst.args.as_closure().parent_args())))
            }
            InstanceKind::Item(d) | InstanceKind::Intrinsic(d) => {
                clean(|| tcx.def_path_str_with_args(d, inst.args))
            }
            _ => clean(|| format!("{:?}", inst)),
        };
        let has_param = inst.args.has_param();
        if has_param {
            // identity instances need no tag
            let d = inst.def_id();
            let ident = ty::GenericArgs::identity_for_item(tcx, d);
            if d.is_local() && inst.args == ident {
                return base;
            }
            format!("{} @{}", base, self.dp(root))
        } else {
            base
        }
    }

    fn should_descend(&self, inst: Instance<'tcx>) -> bool {
        let d = inst.def_id();
        match inst.def {
            InstanceKind::Item(_) => {
                if !self.tcx.is_mir_available(d) {
                    return false;
                }
                if d.is_local() {
                    return true;
                }
                let p = self.dp(d);
                DESCEND.iter().any(|x| p.starts_with(x))
            }
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. })
            | InstanceKind::Shim(ty::ShimKind::FnPtr(..))
            | InstanceKind::Shim(ty::ShimKind::VTable(..))
            | InstanceKind::Shim(ty::ShimKind::Reify(..)) => true,
            _ => false,
        }
    }

    fn enqueue(&mut self, inst: Instance<'tcx>, root: DefId) -> Option<String> {
        if !self.should_descend(inst) {
            return None;
        }
        // non-generic instances do not depend on the root's param env
        let k = self.key(inst, root);
        if self.seen.insert(k.clone()) {
            self.queue.push_back((inst, root));
        }
        Some(k)
    }

    fn callee(&mut self, fty: Ty<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let (d, args) = match fty.kind() {
            ty::FnDef(d, a) => (*d, a.no_bound_vars().unwrap_or(a.skip_binder())),
            _ => return o(vec![("kind", s("indirect"))]),
        };
        self.callee_of(d, args, root)
    }
    fn callee_of(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let mut v = vec![
            ("path", s(self.pretty(d))),
            ("dp", s(self.dp(d))),
            ("name", s(tcx.item_name(d).to_string())),
        ];
        let targs: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        v.push(("targs", J::A(targs)));
        let cargs: Vec<J> = args
            .consts()
            .map(|c| c.try_to_target_usize(tcx).map(|x| J::I(x as i128)).unwrap_or(J::Null))
            .collect();
        if !cargs.is_empty() {
            v.push(("cargs", J::A(cargs)));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            v.push(("trait", s(self.pretty(tr))));
        }
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
        if tcx.is_constructor(d) {
            if let ty::Adt(adt, _) = sig.output().skip_binder().kind() {
                let vi = adt.variant_index_with_ctor_id(d);
                let tn = self.pretty(adt.did());
                v.push(("ctor", J::A(vec![s(tn), J::I(vi.as_u32() as i128)])));
            }
        }
        v.push(("never", J::B(sig.output().skip_binder().is_never())));
        match Instance::try_resolve(tcx, self.env(root), d, args) {
            Ok(Some(inst)) => {
                let rd = inst.def_id();
                v.push(("rpath", s(self.pretty(rd))));
                v.push(("rdp", s(self.dp(rd))));
                if let Some(im) = tcx.trait_impl_of_assoc(rd) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    v.push(("implself", s(clean(|| format!("{}", st)))));
                } else if let Some(im) = tcx.inherent_impl_of_assoc(rd) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    v.push(("implself", s(clean(|| format!("{}", st)))));
                }
                let rtargs: Vec<J> = inst.args.types().map(|x| self.ty(x)).collect();
                v.push(("rtargs", J::A(rtargs)));
                match inst.def {
                    InstanceKind::Virtual(..) => v.push(("kind", s("virtual"))),
                    InstanceKind::Intrinsic(_) => v.push(("kind", s("intrinsic"))),
                    InstanceKind::Item(_) => v.push(("kind", s("item"))),
                    _ => {
                        v.push(("kind", s("shim")));
                        v.push(("shim", s(format!("{:?}", inst.def))));
                    }
                }
                if let Some(k) = self.enqueue(inst, root) {
                    v.push(("key", s(k)));
                }
            }
            _ => v.push(("kind", s("unresolved"))),
        }
        o(v)
    }

    // ------------------------------------------------------------ constants
    fn cval(&mut self, val: ConstValue, t: Ty<'tcx>, root: DefId, depth: u32) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return o(vec![("opaque", s("depth"))]);
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                if let Some(sc) = val.try_to_scalar_int() {
                    let sz = sc.size();
                    let bits = sc.to_bits(sz);
                    let n: i128 = match t.kind() {
                        ty::Int(_) => sz.sign_extend(bits) as i128,
                        _ => bits as i128,
                    };
                    return o(vec![("int", J::I(n))]);
                }
                if let ConstValue::Indirect { alloc_id, offset } = val {
                    if let Some(j) = self.read_prim(alloc_id, offset.bytes() as usize, t) {
                        return j;
                    }
                }
                o(vec![("opaque", s("prim"))])
            }
            ty::FnDef(..) => {
                let c = self.callee(t, root);
                o(vec![("fn", c)])
            }
            ty::Closure(d, a) => {
                let key = self.enqueue(Instance::new_raw(*d, a), root).map(s).unwrap_or(J::Null);
                o(vec![("zst", J::B(true)), ("key", key)])
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => self.cref(val, *inner, root, depth),
            ty::Array(..) | ty::Tuple(..) | ty::Adt(..) => {
                if t.has_param() {
                    return o(vec![("opaque", s("param"))]);
                }
                if let ty::Array(e, n) = t.kind() {
                    if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                        if let ConstValue::Indirect { alloc_id, offset } = val {
                            let n = n.try_to_target_usize(tcx).unwrap_or(0) as usize;
                            if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                                let off = offset.bytes() as usize;
                                let by = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(off..off + n);
                                return o(vec![("bytes", J::A(by.iter().map(|b| J::I(*b as i128)).collect()))]);
                            }
                        }
                    }
                }
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_union() {
                        return o(vec![("opaque", s("union"))]);
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(val, t) {
                    Some(dc) => {
                        let fs: Vec<J> = dc
                            .fields
                            .iter()
                            .map(|(v, ft)| self.cval(*v, *ft, root, depth + 1))
                            .collect();
                        o(vec![
                            ("agg", J::A(fs)),
                            ("variant", J::I(dc.variant.map(|x| x.as_u32() as i128).unwrap_or(0))),
                        ])
                    }
                    None => o(vec![("opaque", s("adt"))]),
                }
            }
            _ => o(vec![("opaque", s(clean(|| format!("{:?}", t))))]),
        }
    }
    fn read_prim(&mut self, id: rustc_middle::mir::interpret::AllocId, off: usize, t: Ty<'tcx>) -> Option<J> {
        let n = match t.kind() {
            ty::Bool => 1,
            ty::Char => 4,
            ty::Int(i) => (i.bit_width().unwrap_or(64) / 8) as usize,
            ty::Uint(i) => (i.bit_width().unwrap_or(64) / 8) as usize,
            ty::Float(f) => (f.bit_width() / 8) as usize,
            _ => return None,
        };
        if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(id) {
            let m = m.inner();
            if off + n > m.len() {
                return None;
            }
            let by = m.inspect_with_uninit_and_ptr_outside_interpreter(off..off + n);
            let mut v: u128 = 0;
            for (i, b) in by.iter().enumerate() {
                v |= (*b as u128) << (8 * i);
            }
            let r = match t.kind() {
                ty::Int(_) => {
                    let sh = 128 - 8 * n as u32;
                    ((v << sh) as i128) >> sh
                }
                _ => v as i128,
            };
            return Some(o(vec![("int", J::I(r))]));
        }
        None
    }
    fn cref(&mut self, val: ConstValue, inner: Ty<'tcx>, root: DefId, depth: u32) -> J {
        let tcx = self.tcx;
        let (id, off, meta) = match val {
            ConstValue::Slice { alloc_id, meta } => (alloc_id, 0usize, Some(meta as usize)),
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                (prov.alloc_id(), off.bytes() as usize, None)
            }
            ConstValue::Indirect { alloc_id, offset } => {
                // a (possibly wide) pointer stored in memory
                if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                    let m = m.inner();
                    let base = offset;
                    let ps = tcx.data_layout.pointer_size();
                    let sc = m.read_scalar(&tcx, AllocRange { start: base, size: ps }, true);
                    let meta = if matches!(inner.kind(), ty::Slice(_) | ty::Str) {
                        m.read_scalar(&tcx, AllocRange { start: base + ps, size: ps }, false)
                            .ok()
                            .and_then(|x| x.to_target_usize(&tcx).discard_err())
                    } else {
                        None
                    };
                    match sc {
                        Ok(Scalar::Ptr(p, _)) => {
                            let (prov, off) = p.into_raw_parts();
                            (prov.alloc_id(), off.bytes() as usize, meta.map(|x| x as usize))
                        }
                        _ => return o(vec![("opaque", s("ptr"))]),
                    }
                } else {
                    return o(vec![("opaque", s("ptr"))]);
                }
            }
            _ => return o(vec![("opaque", s("ref"))]),
        };
        let ga = tcx.global_alloc(id);
        let (st, mem_id) = match ga {
            GlobalAlloc::Static(d) => {
                let nm = self.pretty(d);
                let fixed = tcx.type_of(d).instantiate_identity().skip_norm_wip().is_freeze(tcx, ty::TypingEnv::fully_monomorphized());
                if tcx.is_mutable_static(d) || !fixed {
                    return o(vec![("opaque", s("static")), ("static", s(nm))]);
                }
                match tcx.eval_static_initializer(d) {
                    Ok(a) => (Some(nm), tcx.reserve_and_set_memory_alloc(a)),
                    Err(_) => return o(vec![("opaque", s("static")), ("static", s(nm))]),
                }
            }
            GlobalAlloc::Memory(_) => (None, id),
            _ => return o(vec![("opaque", s("galloc"))]),
        };
        let v = match inner.kind() {
            ty::Str => {
                if let GlobalAlloc::Memory(m) = tcx.global_alloc(mem_id) {
                    let n = meta.unwrap_or(0);
                    let by = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(off..off + n);
                    o(vec![("str", s(String::from_utf8_lossy(by).to_string()))])
                } else {
                    J::Null
                }
            }
            ty::Slice(e) => {
                let n = meta.unwrap_or(0) as u64;
                let at = Ty::new_array(tcx, *e, n);
                self.cval(
                    ConstValue::Indirect { alloc_id: mem_id, offset: rustc_abi::Size::from_bytes(off as u64) },
                    at,
                    root,
                    depth + 1,
                )
            }
            ty::Dynamic(..) => o(vec![("opaque", s("dyn"))]),
            _ => self.cval(
                ConstValue::Indirect { alloc_id: mem_id, offset: rustc_abi::Size::from_bytes(off as u64) },
                inner,
                root,
                depth + 1,
            ),
        };
        let mut r = vec![("ref", v)];
        if let Some(n) = st {
            r.push(("static", s(n)));
        }
        o(r)
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut out = vec![("ty", self.ty(t))];
        if let ty::FnDef(..) = t.kind() {
            let cl = self.callee(t, root);
            out.push(("v", o(vec![("fn", cl)])));
            return o(out);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                out.push(("name", s(self.pretty(u.def))));
            }
        }
        match c.const_.eval(tcx, self.env(root), DUMMY_SP) {
            Ok(v) => {
                let j = self.cval(v, t, root, 0);
                out.push(("v", j));
            }
            Err(_) => {
                let mut pk = J::Null;
                if let Const::Unevaluated(u, _) = c.const_ {
                    if let Some(p) = u.promoted {
                        // too generic to evaluate: dump the promoted body
                        let pm = tcx.promoted_mir(u.def);
                        let b = &pm[p];
                        let k = format!("promoted:{}:{}@{}", self.dp(u.def), p.as_u32(), self.dp(root));
                        if self.seen.insert(k.clone()) {
                            let inst = Instance::new_raw(u.def, u.args);
                            let jb = self.body(&k, inst, b, root);
                            self.fns.push((k.clone(), jb));
                        }
                        pk = s(k);
                    }
                }
                out.push(("v", o(vec![("opaque", s("uneval")), ("promoted", pk)])));
            }
        }
        o(out)
    }

    // ------------------------------------------------------------ bodies
    fn place(&mut self, p: Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, t) => {
                    let tk = self.ty(t);
                    J::A(vec![s("f"), J::I(f.as_u32() as i128), tk])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_u32() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("c"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("s"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), J::I(v.as_u32() as i128)]),
                other => J::A(vec![s("x"), s(format!("{:?}", other))]),
            });
        }
        J::A(vec![J::I(p.local.as_u32() as i128), J::A(v)])
    }
    fn operand(&mut self, op: &Operand<'tcx>, root: DefId) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(*p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(*p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(c, root)]),
            other => J::A(vec![s("rc"), s(format!("{:?}", other))]),
        }
    }
    fn unsize(&mut self, from: Ty<'tcx>, to: Ty<'tcx>, root: DefId) {
        let tcx = self.tcx;
        let (Some(a), Some(b)) = (from.builtin_deref(true), to.builtin_deref(true)) else {
            return;
        };
        let (src, dst) = tcx.struct_lockstep_tails_for_codegen(a, b, self.env(root));
        if let ty::Dynamic(preds, _) = dst.kind() {
            if src.is_trait() {
                return;
            }
            self.vtable(src, preds, root);
        }
    }
    fn vtable(&mut self, src: Ty<'tcx>, preds: &'tcx ty::List<ty::PolyExistentialPredicate<'tcx>>, root: DefId) {
        let tcx = self.tcx;
        if let Some(pr) = preds.principal() {
            let srck = self.tyk(src);
            let trn = self.pretty(pr.def_id());
            let k = format!("{}|{}", srck, trn);
            if self.vtables.contains_key(&k) {
                return;
            }
            self.vtables.insert(k.clone(), J::Null);
            let mut ms = vec![];
            let poly = pr.with_self_ty(tcx, src);
            let tref = tcx.instantiate_bound_regions_with_erased(poly);
            let tref = tcx.erase_and_anonymize_regions(tref);
            let mut todo = vec![tref];
            let mut seen = HashSet::new();
            while let Some(t) = todo.pop() {
                if !seen.insert(t) {
                    continue;
                }
                for it in tcx.associated_items(t.def_id).in_definition_order() {
                    if !it.is_fn() {
                        continue;
                    }
                    if tcx.generics_of(it.def_id).own_counts().types > 0 {
                        continue;
                    }
                    let args = ty::GenericArgs::for_item(tcx, it.def_id, |p, _| {
                        if (p.index as usize) < t.args.len() {
                            t.args[p.index as usize]
                        } else {
                            tcx.lifetimes.re_erased.into()
                        }
                    });
                    let c = self.callee_of(it.def_id, args, root);
                    ms.push((it.name().to_string(), c));
                }
                for (p, _) in tcx.explicit_super_clauses_of(t.def_id).iter_identity_copied().map(|x| x.skip_norm_wip()) {
                    if let ty::ClauseKind::Trait(tp) = p.kind().skip_binder() {
                        if tcx.trait_is_auto(tp.def_id()) {
                            continue;
                        }
                        let np = ty::EarlyBinder::bind(tcx, tp.trait_ref).instantiate(tcx, t.args).skip_norm_wip();
                        if !np.has_escaping_bound_vars() {
                            todo.push(tcx.erase_and_anonymize_regions(np));
                        }
                    }
                }
            }
            self.vtables.insert(k, J::O(ms));
        }
    }

    fn rvalue(&mut self, rv: &Rvalue<'tcx>, body: &Body<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        match rv {
            Rvalue::Use(op, _) => J::A(vec![s("use"), self.operand(op, root)]),
            Rvalue::Repeat(op, n) => {
                let n = n.try_to_target_usize(tcx).map(|x| J::I(x as i128)).unwrap_or(J::Null);
                J::A(vec![s("repeat"), self.operand(op, root), n])
            }
            Rvalue::Ref(_, k, p) => {
                J::A(vec![s("ref"), J::B(matches!(k, BorrowKind::Mut { .. })), self.place(*p)])
            }
            Rvalue::RawPtr(k, p) => {
                J::A(vec![s("raw"), J::B(matches!(k, RawPtrKind::Mut)), self.place(*p)])
            }
            Rvalue::Reborrow(_, _, p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(*p)])]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(*p)])]),
            Rvalue::Cast(k, op, t) => {
                let from = op.ty(body, tcx);
                let kn = match k {
                    CastKind::PointerCoercion(c, _) => {
                        if let ty::adjustment::PointerCoercion::Unsize = c {
                            self.unsize(from, *t, root);
                        }
                        format!("{:?}", c)
                    }
                    k => format!("{:?}", k),
                };
                let f = self.ty(from);
                let tt = self.ty(*t);
                J::A(vec![s("cast"), s(kn), self.operand(op, root), f, tt])
            }
            Rvalue::BinaryOp(b, ab) => {
                let t = ab.0.ty(body, tcx);
                let tk = self.ty(t);
                J::A(vec![
                    s("bin"),
                    s(format!("{:?}", b)),
                    self.operand(&ab.0, root),
                    self.operand(&ab.1, root),
                    tk,
                ])
            }
            Rvalue::UnaryOp(u, a) => {
                let t = a.ty(body, tcx);
                let tk = self.ty(t);
                J::A(vec![s("un"), s(format!("{:?}", u)), self.operand(a, root), tk])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                let tk = self.ty(t);
                J::A(vec![s("discr"), self.place(*p), tk])
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|x| self.operand(x, root)).collect();
                let kk = match &**k {
                    AggregateKind::Array(t) => o(vec![("k", s("array")), ("elem", self.ty(*t))]),
                    AggregateKind::Tuple => o(vec![("k", s("tuple"))]),
                    AggregateKind::Adt(d, var, ..) => {
                        let t = rv.ty(body, tcx);
                        o(vec![
                            ("k", s("adt")),
                            ("def", s(self.pretty(*d))),
                            ("variant", J::I(var.as_u32() as i128)),
                            ("ty", self.ty(t)),
                        ])
                    }
                    AggregateKind::Closure(d, a) => {
                        let dp = self.dp(*d);
                        let inst = Instance::new_raw(*d, a);
                        let key = self.enqueue(inst, root).map(s).unwrap_or(J::Null);
                        let t = rv.ty(body, tcx);
                        o(vec![("k", s("closure")), ("def", s(dp)), ("key", key), ("ty", self.ty(t))])
                    }
                    other => o(vec![("k", s("other")), ("dbg", s(format!("{:?}", other)))]),
                };
                J::A(vec![s("agg"), kk, J::A(v)])
            }
            other => J::A(vec![s("other"), s(format!("{:?}", other))]),
        }
    }

    fn loc(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return J::Null;
        }
        let l = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        J::A(vec![s(f), J::I(l.line as i128)])
    }

    fn body(&mut self, key: &str, inst: Instance<'tcx>, raw: &Body<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let env = self.env(root);
        let body: Body<'tcx> =
            match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, raw.clone())) {
                Ok(b) => b,
                Err(_) => raw.clone(),
            };
        let body = &body;
        let mut names: HashMap<u32, String> = HashMap::new();
        for vdi in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = vdi.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_u32(), vdi.name.to_string());
                }
            }
        }
        let locals: Vec<J> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                J::A(vec![t, names.get(&l.as_u32()).map(|x| s(x.clone())).unwrap_or(J::Null)])
            })
            .collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        let (p, rv) = &**pr;
                        let a = self.place(*p);
                        let b = self.rvalue(rv, body, root);
                        st.push(J::A(vec![s("="), a, b, self.loc(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let a = self.place(**place);
                        st.push(J::A(vec![s("setd"), a, J::I(variant_index.as_u32() as i128)]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), J::I(l.as_u32() as i128)])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), J::I(l.as_u32() as i128)])),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(op) => {
                            let op = self.operand(op, root);
                            st.push(J::A(vec![s("assume"), op]));
                        }
                        other => st.push(J::A(vec![s("intr"), s(format!("{:?}", other))])),
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let lo = self.loc(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), J::I(target.as_u32() as i128)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(body, tcx);
                    let tk = self.ty(ty);
                    let d = self.operand(discr, root);
                    let v: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![s(v.to_string()), J::I(b.as_u32() as i128)]))
                        .collect();
                    J::A(vec![s("switch"), d, tk, J::A(v), J::I(targets.otherwise().as_u32() as i128)])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreach")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(*place);
                    let dt = place.ty(body, tcx).ty;
                    let tk = self.ty(dt);
                    J::A(vec![s("drop"), p, J::I(target.as_u32() as i128), tk])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(body, tcx);
                    let mut c = self.callee(fty, root);
                    if !matches!(fty.kind(), ty::FnDef(..)) {
                        let fo = self.operand(func, root);
                        c = o(vec![("kind", s("indirect")), ("op", fo)]);
                    }
                    let av: Vec<J> = args.iter().map(|x| self.operand(&x.node, root)).collect();
                    let dst = self.place(*destination);
                    let dty = destination.ty(body, tcx).ty;
                    let dty = self.ty(dty);
                    J::A(vec![
                        s("call"),
                        c,
                        J::A(av),
                        dst,
                        target.map(|t| J::I(t.as_u32() as i128)).unwrap_or(J::Null),
                        lo.clone(),
                        dty,
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, root);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(b, ..) => format!("overflow-{:?}", b),
                        AssertKind::OverflowNeg(_) => "overflow-Neg".into(),
                        AssertKind::DivisionByZero(_) => "div-zero".into(),
                        AssertKind::RemainderByZero(_) => "rem-zero".into(),
                        _ => "other-assert".into(),
                    };
                    J::A(vec![
                        s("assert"),
                        c,
                        J::B(*expected),
                        s(m),
                        J::I(target.as_u32() as i128),
                        lo.clone(),
                    ])
                }
                other => J::A(vec![s("other"), s(format!("{:?}", other))]),
            };
            blocks.push(J::A(vec![J::A(st), tj]));
        }
        let d = inst.def_id();
        let mut v = vec![
            ("key", s(key)),
            ("dp", s(self.dp(d))),
            ("path", s(self.pretty(d))),
            ("local", J::B(d.is_local())),
            ("argc", J::I(body.arg_count as i128)),
            ("loc", self.loc(tcx.def_span(d))),
            ("closure", J::B(tcx.is_closure_like(d))),
            ("spread", body.spread_arg.map(|l| J::I(l.as_u32() as i128)).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ];
        if let InstanceKind::Item(_) = inst.def {
        } else {
            v.push(("shim", s(format!("{:?}", inst.def))));
        }
        let ra: Vec<J> = inst.args.types().map(|x| self.ty(x)).collect();
        v.push(("targs", J::A(ra)));
        o(v)
    }

    fn run_queue(&mut self) {
        while let Some((inst, root)) = self.queue.pop_front() {
            let tcx = self.tcx;
            let k = self.key(inst, root);
            let raw = tcx.instance_mir(inst.def);
            let raw = raw.clone();
            let j = self.body(&k, inst, &raw, root);
            self.fns.push((k, j));
        }
    }
}

struct Cb {
    out: String,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let mut cx = Cx {
            tcx,
            types: BTreeMap::new(),
            tyqueue: VecDeque::new(),
            tyseen: HashMap::new(),
            fns: vec![],
            seen: HashSet::new(),
            queue: VecDeque::new(),
            vtables: BTreeMap::new(),
        };
        let mut items = vec![];
        let mut statics = vec![];
        let mut consts = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    if !tcx.is_mir_available(d) {
                        continue;
                    }
                    let args = ty::GenericArgs::identity_for_item(tcx, d);
                    let inst = Instance::new_raw(d, args);
                    let k = cx.enqueue(inst, d).unwrap_or_default();
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                    let sig_s = clean(|| format!("{}", sig));
                    let mut v = vec![
                        ("key", s(k)),
                        ("path", s(cx.pretty(d))),
                        ("dp", s(cx.dp(d))),
                        ("name", s(tcx.item_name(d).to_string())),
                        ("vis", J::B(tcx.visibility(d).is_public())),
                        ("sig", s(sig_s)),
                        ("unsafe", J::B(!sig.safety().is_safe())),
                        ("loc", cx.loc(tcx.def_span(d))),
                    ];
                    if let Some(im) = tcx.trait_impl_of_assoc(d) {
                        let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                        v.push(("impl_trait", s(cx.pretty(tr.def_id))));
                        let st = clean(|| format!("{}", tr.self_ty()));
                        v.push(("impl_self", s(st)));
                    } else if let Some(im) = tcx.inherent_impl_of_assoc(d) {
                        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        let st = clean(|| format!("{}", st));
                        v.push(("impl_self", s(st)));
                    } else if let Some(tr) = tcx.trait_of_assoc(d) {
                        v.push(("trait_default", s(cx.pretty(tr))));
                    }
                    items.push(o(v));
                }
                DefKind::Static { .. } => statics.push(o(vec![
                    ("path", s(cx.pretty(d))),
                    ("mutable", J::B(tcx.is_mutable_static(d))),
                    ("thread_local", J::B(tcx.is_thread_local_static(d))),
                    ("ty", s(clean(|| format!("{}", tcx.type_of(d).instantiate_identity().skip_norm_wip())))),
                    ("freeze", J::B(tcx.type_of(d).instantiate_identity().skip_norm_wip().is_freeze(tcx, ty::TypingEnv::fully_monomorphized()))),
                    ("loc", cx.loc(tcx.def_span(d))),
                ])),
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let gen = tcx.generics_of(d).count() > 0;
                    let mut v = vec![("path", s(cx.pretty(d))), ("ty", cx.ty(t))];
                    if !gen {
                        if let Ok(val) = tcx.const_eval_poly(d) {
                            let j = cx.cval(val, t, d, 0);
                            v.push(("v", j));
                        }
                    }
                    consts.push(o(v));
                }
                _ => {}
            }
        }
        // trait impls: every trait method as seen through each impl
        let mut impls = vec![];
        for (tr, ims) in tcx.all_local_trait_impls(()).iter() {
            for im in ims {
                let imd = im.to_def_id();
                let tref = tcx.impl_trait_ref(imd).instantiate_identity().skip_norm_wip();
                let st = tref.self_ty();
                let mut v = vec![
                    ("unsafe", J::B(!tcx.impl_trait_header(imd).safety.is_safe())),
                    ("trait", s(cx.pretty(*tr))),
                    ("self", s(clean(|| format!("{}", st)))),
                    ("selfty", cx.ty(st)),
                    ("loc", cx.loc(tcx.def_span(imd))),
                ];
                let mut ms = vec![];
                for it in tcx.associated_items(*tr).in_definition_order() {
                    if !it.is_fn() {
                        continue;
                    }
                    let own = ty::GenericArgs::identity_for_item(tcx, it.def_id);
                    let args = ty::GenericArgs::for_item(tcx, it.def_id, |p, _| {
                        if (p.index as usize) < tref.args.len() {
                            tref.args[p.index as usize]
                        } else {
                            own[p.index as usize]
                        }
                    });
                    if tcx.generics_of(it.def_id).own_counts().types > 0 {
                        continue;
                    }
                    let args = tcx.erase_and_anonymize_regions(args);
                    let c = cx.callee_of(it.def_id, args, imd);
                    ms.push((it.name().to_string(), c));
                }
                v.push(("methods", J::O(ms)));
                impls.push(o(v));
            }
        }
        // local types: fields, Send/Sync
        let mut adts = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let k = cx.ty(t);
                let def = tcx.adt_def(d);
                let mut fs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    for f in v.fields.iter() {
                        fs.push(o(vec![
                            ("variant", J::I(vi.as_u32() as i128)),
                            ("name", s(f.name.to_string())),
                            ("pub", J::B(f.vis.is_public())),
                            ("ty", s(clean(|| format!("{}", tcx.type_of(f.did).instantiate_identity().skip_norm_wip())))),
                        ]));
                    }
                }
                let (send, sync) = auto_traits(tcx, d, t);
                adts.push(o(vec![
                    ("send", J::B(send)),
                    ("sync", J::B(sync)),
                    ("path", s(cx.pretty(d))),
                    ("ty", k),
                    ("vis", J::B(tcx.visibility(d).is_public())),
                    ("fields", J::A(fs)),
                    ("loc", cx.loc(tcx.def_span(d))),
                ]));
            }
        }
        let mut traits = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Trait) {
                let ms: Vec<J> = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .filter(|i| i.is_fn())
                    .map(|i| {
                        o(vec![
                            ("name", s(i.name().to_string())),
                            ("default", J::B(i.defaultness(tcx).has_value())),
                        ])
                    })
                    .collect();
                let sup: Vec<J> = tcx
                    .explicit_super_clauses_of(d)
                    .iter_identity_copied()
                    .map(|x| x.skip_norm_wip())
                    .filter_map(|(p, _)| match p.kind().skip_binder() {
                        ty::ClauseKind::Trait(tp) => Some(s(cx.pretty(tp.def_id()))),
                        _ => None,
                    })
                    .collect();
                traits.push(o(vec![
                    ("path", s(cx.pretty(d))),
                    ("methods", J::A(ms)),
                    ("supers", J::A(sup)),
                    ("unsafe", J::B(!tcx.trait_def(d).safety.is_safe())),
                ]));
            }
        }
        cx.run_queue();
        cx.flush_types();
        let top = J::O(vec![
            ("items".into(), J::A(items)),
            ("statics".into(), J::A(statics)),
            ("consts".into(), J::A(consts)),
            ("impls".into(), J::A(impls)),
            ("adts".into(), J::A(adts)),
            ("traits".into(), J::A(traits)),
            ("vtables".into(), J::O(cx.vtables.clone().into_iter().collect())),
            ("types".into(), J::O(cx.types.clone().into_iter().collect())),
            ("fns".into(), J::O(cx.fns.clone())),
        ]);
        let mut st = String::new();
        top.w(&mut st);
        std::fs::write(&self.out, st).expect("write dump");
        let _ = LOCAL_CRATE;
        rustc_driver::Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("ILDUMP_OUT").unwrap_or_default();
    let want = std::env::var("ILDUMP_CRATE").unwrap_or_default();
    let mut is = false;
    for w in args.windows(2) {
        if w[0] == "--crate-name" && w[1] == want {
            is = true;
        }
    }
    let code = rustc_driver::catch_with_exit_code(move || {
        if is && !out.is_empty() {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        }
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}

/// whether a local type is Send and Sync (for a generic one: under its own bounds)
fn auto_traits<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, t: Ty<'tcx>) -> (bool, bool) {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let env = tcx.param_env(d);
    let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
    let has = |tr: Option<DefId>| match tr {
        Some(tr) => infcx.type_implements_trait(tr, [t], env).must_apply_modulo_regions(),
        None => false,
    };
    (
        has(tcx.get_diagnostic_item(rustc_span::Symbol::intern("Send"))),
        has(tcx.lang_items().sync_trait()),
    )
}
