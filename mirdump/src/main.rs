//! rustc driver that dumps monomorphic MIR of the crate being compiled (and of the
//! callees it can reach) as JSON.  Used as RUSTC_WORKSPACE_WRAPPER by /verif/vc.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

use rustc_hir::def::DefKind;
use rustc_middle::mir::{self, interpret::GlobalAlloc, ConstValue};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name};
use rustc_span::def_id::{DefId, LOCAL_CRATE};

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if let Ok(dir) = std::env::var("MIRDUMP_OUT") {
            let name = tcx.crate_name(LOCAL_CRATE).to_string();
            let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
            if want.split(',').any(|c| c == name) {
                let text = Dumper::new(tcx).run();
                std::fs::write(format!("{}/{}.json", dir, name), text).unwrap();
            }
        }
        rustc_driver::Compilation::Continue
    }
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_list: Vec<Instance<'tcx>>,
    queue: VecDeque<usize>,
    inst_out: Vec<String>,
    mods: Vec<String>,
    shims: HashMap<String, DefId>,
}

/// modules of the standard library whose bodies are dumped (everything else is a model or opaque)
const STD_BODIES: &[&str] = &[
    "core::option", "core::result", "core::ops", "core::convert", "core::iter", "core::cmp", "core::clone",
    "core::bool", "core::mem", "core::array", "core::default", "core::pin", "core::future", "core::task", "core::borrow", "core::any",
    "core::marker", "core::hint", "core::tuple", "core::iter::adapters", "core::iter::traits", "core::char", "core::slice::iter", "core::time",
    "alloc::borrow", "alloc::boxed", "alloc::slice", "core::hash", "core::ops::function", "core::async_iter",
];

impl<'tcx> Dumper<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        let mut shims = HashMap::new();
        for &c in tcx.crates(()) {
            if tcx.crate_name(c).as_str() != "vcshim" { continue; }
            for m in tcx.module_children(c.as_def_id()) {
                if let Some(d) = m.res.opt_def_id() { shims.insert(m.ident.to_string(), d); }
            }
        }
        Dumper { tcx, shims, tys: HashMap::new(), ty_out: vec![], insts: HashMap::new(), inst_list: vec![], queue: VecDeque::new(), inst_out: vec![],
            mods: STD_BODIES.iter().map(|s| s.to_string()).collect() }
    }

    fn path(&self, d: DefId) -> String {
        with_resolve_crate_name!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }
    /// path along definition structure (not through re-exports)
    fn raw_path(&self, d: DefId) -> String {
        let dp = self.tcx.def_path(d);
        format!("{}{}", self.tcx.crate_name(dp.krate), dp.to_string_no_crate_verbose())
    }

    fn want_body(&self, inst: &Instance<'tcx>) -> bool {
        let d = inst.def_id();
        match inst.def {
            InstanceKind::Virtual(..) | InstanceKind::Intrinsic(..) | InstanceKind::LlvmIntrinsic(..) => return false,
            InstanceKind::Shim(ShimKind::DropGlue(..)) => return false,
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) | InstanceKind::Shim(ShimKind::FnPtr(..)) => return true,
            InstanceKind::Shim(ShimKind::Clone(..)) => return true,
            InstanceKind::Shim(..) => return false,
            InstanceKind::Item(_) => {}
        }
        if !self.tcx.is_mir_available(d) { return false; }
        let kn = self.tcx.crate_name(d.krate);
        let k = kn.as_str();
        if k == "core" || k == "alloc" || k == "std" {
            let p = self.raw_path(d);
            return self.mods.iter().any(|m| p.starts_with(m.as_str()));
        }
        d.is_local() || k == "server" || k == "vcshim"
    }

    /// reference code to execute in the place of a library function that has no model
    fn shim(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        let tcx = self.tcx;
        let kn = tcx.crate_name(d.krate);
        if !matches!(kn.as_str(), "core" | "alloc" | "std") || self.shims.is_empty() { return None; }
        let p = self.raw_path(d);
        let adt = |t: Ty<'tcx>| -> Option<(String, ty::GenericArgsRef<'tcx>)> { match t.kind() { ty::Adt(a, s) => Some((tcx.item_name(a.did()).to_string(), *s)), _ => None } };
        let tys: Vec<Ty<'tcx>> = args.types().collect();
        let mut name = "";
        let mut targs: Vec<Ty<'tcx>> = vec![];
        if p == "core::iter::traits::collect::FromIterator::from_iter" && tys.len() == 3 {
            let (s, sa) = adt(tys[0])?;
            match s.as_str() {
                "Vec" => { name = "vec_from_iter"; targs = vec![tys[1], tys[2]]; }
                "HashMap" => { name = "map_from_iter"; targs = vec![sa.type_at(0), sa.type_at(1), tys[2]]; }
                "String" => match tys[1].kind() {
                    ty::Char => { name = "string_from_chars"; targs = vec![tys[2]]; }
                    ty::Ref(_, t, _) if t.is_char() => { name = "string_from_char_refs"; targs = vec![tys[2]]; }
                    _ => return None,
                },
                "Result" | "Option" => {
                    let (v, va) = adt(sa.type_at(0))?;
                    if v != "Vec" { return None; }
                    if s == "Result" { name = "result_vec_from_iter"; targs = vec![va.type_at(0), sa.type_at(1), tys[2]]; }
                    else { name = "option_vec_from_iter"; targs = vec![va.type_at(0), tys[2]]; }
                }
                _ => return None,
            }
        } else if p == "core::iter::traits::collect::Extend::extend" && tys.len() == 3 {
            let (s, sa) = adt(tys[0])?;
            match s.as_str() {
                "Vec" => {
                    if sa.type_at(0) == tys[1] { name = "vec_extend"; } else { name = "vec_extend_ref"; }
                    targs = vec![sa.type_at(0), tys[2]];
                }
                "HashMap" => { name = "map_extend"; targs = vec![sa.type_at(0), sa.type_at(1), tys[2]]; }
                "String" if tys[1].is_char() => { name = "string_extend"; targs = vec![tys[2]]; }
                _ => return None,
            }
        } else if p.starts_with("core::slice::") && p.ends_with("}::contains") && tys.len() == 1 {
            name = "slice_contains"; targs = tys.clone();
        } else if p.starts_with("alloc::vec::") && p.ends_with("}::retain") && tys.len() == 3 {
            name = "vec_retain"; targs = vec![tys[0], tys[2]];
        } else if p == "core::iter::traits::iterator::Iterator::position" && tys.len() == 2 {
            name = "position"; targs = tys.clone();
        } else if p.starts_with("core::iter::traits::iterator::Iterator::") && !p.ends_with("::next") && !p.ends_with("::size_hint") && tcx.is_mir_available(d) {
            // the trait's own version instead of the specialised one
            let (s, _) = adt(tys[0])?;
            if !matches!(s.as_str(), "Iter" | "IterMut" | "IntoIter" | "Chars" | "CharIndices") { return None; }
            return Some(Instance::new_raw(d, tcx.erase_and_anonymize_regions(args)));
        }
        let f = *self.shims.get(name)?;
        // lifetime parameters come first
        let g = ty::GenericArgs::for_item(tcx, f, |param, _| match param.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            _ => { let lts = tcx.generics_of(f).own_params.iter().filter(|q| matches!(q.kind, ty::GenericParamDefKind::Lifetime)).count(); targs[param.index as usize - lts].into() }
        });
        match Instance::try_resolve(tcx, ty::TypingEnv::fully_monomorphized(), f, g) { Ok(Some(i)) => Some(i), _ => None }
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&n) = self.insts.get(&i) { return n; }
        let n = self.inst_list.len();
        self.insts.insert(i, n);
        self.inst_list.push(i);
        self.queue.push_back(n);
        n
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&n) = self.tys.get(&t) { return n; }
        let n = self.ty_out.len();
        self.tys.insert(t, n);
        self.ty_out.push(String::new());
        let name = with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", t)));
        let body = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"signed\":true,\"bits\":{}", i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("\"k\":\"int\",\"signed\":false,\"bits\":{}", i.bit_width().unwrap_or(64)),
            ty::Float(_) => format!("\"k\":\"float\""),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Ref(_, t, m) => { let x = self.ty(t); format!("\"k\":\"ref\",\"mut\":{},\"to\":{}", m.is_mut(), x) }
            ty::RawPtr(t, m) => { let x = self.ty(t); format!("\"k\":\"ptr\",\"mut\":{},\"to\":{}", m.is_mut(), x) }
            ty::Slice(t) => { let x = self.ty(t); format!("\"k\":\"slice\",\"elem\":{}", x) }
            ty::Array(t, l) => { let x = self.ty(t); let l = l.try_to_target_usize(self.tcx).map(|v| v as i64).unwrap_or(-1); format!("\"k\":\"array\",\"elem\":{},\"len\":{}", x, l) }
            ty::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect(); format!("\"k\":\"tuple\",\"fields\":[{}]", v.join(",")) }
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let a: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                let kind = if def.is_enum() { "enum" } else if def.is_struct() { "struct" } else { "union" };
                let kn = self.tcx.crate_name(def.did().krate);
                let k = kn.as_str();
                let descend = !matches!(k, "std" | "hashbrown") && !(k == "alloc" && !p.starts_with("alloc::boxed") && !p.starts_with("std::boxed")) && !def.is_union()
                    && !(k == "core" && (p.contains("fmt::") || p.contains("cell::") || p.contains("::str::")))
                    && (def.did().is_local() || matches!(k, "core" | "alloc" | "server" | "std"));
                // enums, and structs whose fields are all public, have a meaning of their own
                let descend = descend || (k != "hashbrown" && !def.is_union() && !p.contains("fmt::") && (def.is_enum()
                    || (def.is_struct() && def.all_fields().count() > 0 && def.all_fields().all(|f| f.vis.is_public()))));
                let vs: Vec<String> = if descend {
                    let discrs: Vec<String> = if def.is_enum() { def.discriminants(self.tcx).map(|(_, d)| {
                        d.to_string()
                    }).collect() } else { vec!["0".into()] };
                    def.variants().iter_enumerated().map(|(vi, v)| {
                        let fs: Vec<String> = v.fields.iter().map(|f| {
                            let ft = self.tcx.try_normalize_erasing_regions(ty::TypingEnv::fully_monomorphized(), f.ty(self.tcx, args));
                            let ft = match ft { Ok(t) => t, Err(_) => return format!("[{},-1]", js(f.name.as_str())) };
                            format!("[{},{}]", js(f.name.as_str()), self.ty(ft))
                        }).collect();
                        format!("{{\"name\":{},\"discr\":{},\"fields\":[{}]}}", js(v.name.as_str()), js(&discrs[vi.as_usize()]), fs.join(","))
                    }).collect()
                } else { vec![] };
                format!("\"k\":\"adt\",\"adt\":{},\"path\":{},\"args\":[{}],\"variants\":[{}],\"local\":{}", js(kind), js(&p), a.join(","), vs.join(","), k == "server" || def.did().is_local())
            }
            ty::FnDef(d, args) => {
                let args = self.tcx.erase_and_anonymize_regions(args.skip_binder());
                let c = self.callee(d.into(), args);
                format!("\"k\":\"fndef\",\"callee\":{}", c)
            }
            ty::Closure(d, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let d: DefId = d.into();
                let b = if args.as_closure().kind_ty().to_opt_closure_kind().is_some() { self.inst(Instance::new_raw(d, self.tcx.erase_and_anonymize_regions(args))) as i64 } else { -1 };
                format!("\"k\":\"closure\",\"path\":{},\"upvars\":[{}],\"body\":{}", js(&self.path(d)), ups.join(","), b)
            }
            ty::Coroutine(d, args) => {
                let ups: Vec<String> = args.as_coroutine().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let d: DefId = d.into();
                let cargs = self.tcx.erase_and_anonymize_regions(args);
                let b = self.inst(Instance::new_raw(d, cargs)) as i64;
                // where the locals that live across a suspension are kept: per state, the saved locals; their types
                let mut vars = vec![];
                let mut saved = vec![];
                if let Ok(l) = self.tcx.coroutine_layout(d, cargs) {
                    for vf in l.variant_fields.iter() { vars.push(format!("[{}]", vf.iter().map(|x| x.as_usize().to_string()).collect::<Vec<_>>().join(","))); }
                    for st in l.field_tys.iter() {
                        let t = ty::EarlyBinder::bind(self.tcx, st.ty).instantiate(self.tcx, cargs);
                        let n = match self.tcx.try_normalize_erasing_regions(ty::TypingEnv::fully_monomorphized(), t) { Ok(t) => self.ty(t) as i64, Err(_) => -1 };
                        saved.push(n.to_string());
                    }
                }
                format!("\"k\":\"coroutine\",\"path\":{},\"upvars\":[{}],\"body\":{},\"states\":[{}],\"saved\":[{}]", js(&self.path(d)), ups.join(","), b, vars.join(","), saved.join(","))
            }
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.ty_out[n] = format!("{{\"name\":{},{}}}", js(&name), body);
        n
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let def = self.path(d);
        let a: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let r = Instance::try_resolve(self.tcx, ty::TypingEnv::fully_monomorphized(), d, args);
        let id = match r { Ok(Some(i)) => self.inst(i) as i64, _ => -1 };
        let sh = match self.shim(d, args) { Some(i) => self.inst(i) as i64, None => -1 };
        format!("{{\"def\":{},\"args\":[{}],\"inst\":{},\"shim\":{}}}", js(&def), a.join(","), id, sh)
    }

    fn cnst(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tid = self.ty(t);
        let opaque = |s: String| format!("{{\"k\":\"opaque\",\"ty\":{},\"s\":{}}}", tid, js(&s));
        if depth > 12 { return opaque("deep".into()); }
        let tcx = self.tcx;
        match *t.kind() {
            ty::FnDef(..) | ty::Closure(..) => return format!("{{\"k\":\"zst\",\"ty\":{}}}", tid),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let sc = match v {
                    ConstValue::Scalar(mir::interpret::Scalar::Int(s)) => Some(s),
                    ConstValue::Indirect { alloc_id, offset } => {
                        match tcx.global_alloc(alloc_id) {
                            GlobalAlloc::Memory(m) => {
                                let size = tcx.layout_of(ty::TypingEnv::fully_monomorphized().as_query_input(t)).unwrap().size;
                                match m.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset, size), false) {
                                    Ok(mir::interpret::Scalar::Int(s)) => Some(s), _ => None }
                            }
                            _ => None,
                        }
                    }
                    _ => None,
                };
                let s = match sc { Some(s) => s, None => return opaque(format!("{:?}", v)) };
                let bits = s.to_bits(s.size());
                let val = match *t.kind() { ty::Int(_) => s.to_int(s.size()).to_string(), _ => bits.to_string() };
                return format!("{{\"k\":\"int\",\"ty\":{},\"v\":{}}}", tid, js(&val));
            }
            ty::Ref(_, to, _) | ty::RawPtr(to, _) => {
                // string / byte slices
                match (v, to.kind()) {
                    (ConstValue::Slice { alloc_id, meta }, k) => {
                        if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                            match k {
                                ty::Str => {
                                    let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                                    return format!("{{\"k\":\"str\",\"ty\":{},\"v\":{}}}", tid, js(&String::from_utf8_lossy(b)));
                                }
                                ty::Slice(e) => {
                                    let at = Ty::new_array(tcx, *e, meta);
                                    let inner = self.cnst(ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::ZERO }, at, depth + 1);
                                    return format!("{{\"k\":\"ref\",\"ty\":{},\"v\":{}}}", tid, inner);
                                }
                                _ => return opaque(format!("{:?}", v)),
                            }
                        }
                        return opaque(format!("{:?}", v));
                    }
                    (ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)), _) => {
                        let (prov, off) = p.prov_and_relative_offset();
                        match tcx.global_alloc(prov.alloc_id()) {
                            GlobalAlloc::Memory(m) => {
                                if let ty::Array(e, _) = to.kind() {
                                    if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                                        let len = m.inner().len();
                                        let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(off.bytes() as usize..len);
                                        return format!("{{\"k\":\"bytes\",\"ty\":{},\"v\":[{}]}}", tid, b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
                                    }
                                }
                                let inner = self.cnst(ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off }, to, depth + 1);
                                return format!("{{\"k\":\"ref\",\"ty\":{},\"v\":{}}}", tid, inner);
                            }
                            _ => return opaque(format!("{:?}", v)),
                        }
                    }
                    (ConstValue::Indirect { alloc_id, offset }, _) => {
                        // a reference stored in memory: read the pointer (thin) and follow it
                        if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                            let psz = rustc_abi::Size::from_bytes(8);
                            if let Ok(mir::interpret::Scalar::Ptr(p, _)) = m.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset, psz), true) {
                                let (prov, off) = p.prov_and_relative_offset();
                                match to.kind() {
                                    ty::Str | ty::Slice(_) => {
                                        if let Ok(mir::interpret::Scalar::Int(n)) = m.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset + psz, psz), false) {
                                            if off.bytes() == 0 {
                                                return self.cnst(ConstValue::Slice { alloc_id: prov.alloc_id(), meta: n.to_u64() }, t, depth + 1);
                                            }
                                        }
                                    }
                                    _ => {
                                        let inner = self.cnst(ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off }, *&to, depth + 1);
                                        return format!("{{\"k\":\"ref\",\"ty\":{},\"v\":{}}}", tid, inner);
                                    }
                                }
                            }
                        }
                        return opaque(format!("{:?}", v));
                    }
                    _ => return opaque(format!("{:?}", v)),
                }
            }
            ty::Adt(def, _) if def.is_union() => return opaque(format!("{:?}", v)),
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let ty::Adt(def, _) = t.kind() { if def.variants().is_empty() { return opaque("empty".into()); } }
                if let ty::Array(_, l) = t.kind() { if l.try_to_target_usize(tcx).unwrap_or(1 << 40) > 4096 { return opaque("big".into()); } }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let fs: Vec<String> = d.fields.iter().map(|&(fv, ft)| self.cnst(fv, ft, depth + 1)).collect();
                        let var = d.variant.map(|x| x.as_usize()).unwrap_or(0);
                        return format!("{{\"k\":\"agg\",\"ty\":{},\"variant\":{},\"fields\":[{}]}}", tid, var, fs.join(","));
                    }
                    None => return opaque(format!("{:?}", v)),
                }
            }
            _ => {}
        }
        match v {
            ConstValue::ZeroSized => format!("{{\"k\":\"zst\",\"ty\":{}}}", tid),
            _ => opaque(format!("{:?}", v)),
        }
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> String {
        let pr: Vec<String> = p.projection.iter().map(|e| match e {
            mir::ProjectionElem::Deref => "[\"d\"]".to_string(),
            mir::ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
            mir::ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
            mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{},{}]", offset, min_length, from_end),
            mir::ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
            mir::ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
            mir::ProjectionElem::OpaqueCast(_) => "[\"o\"]".to_string(),
            other => format!("[\"x\",{}]", js(&format!("{:?}", other))),
        }).collect();
        format!("{{\"l\":{},\"p\":[{}]}}", p.local.as_usize(), pr.join(","))
    }

    fn operand(&mut self, o: &mir::Operand<'tcx>) -> String {
        match o {
            mir::Operand::Copy(p) => format!("{{\"k\":\"copy\",\"p\":{}}}", self.place(p)),
            mir::Operand::Move(p) => format!("{{\"k\":\"move\",\"p\":{}}}", self.place(p)),
            mir::Operand::Constant(c) => {
                let t = c.const_.ty();
                let tcx = self.tcx;
                let env = ty::TypingEnv::fully_monomorphized();
                // the promoted constants of this very body (resolving the item of a default method gives the overriding one)
                let r = match c.const_ {
                    mir::Const::Unevaluated(u, _) if u.promoted.is_some() => {
                        let p = u.promoted.unwrap();
                        if p.as_usize() < tcx.promoted_mir(u.def).len() {
                            let instance = Instance::new_raw(u.def, tcx.erase_and_anonymize_regions(u.args));
                            tcx.const_eval_global_id(env, mir::interpret::GlobalId { instance, promoted: Some(p) }, c.span).ok()
                        } else { None }
                    }
                    k => k.eval(tcx, env, c.span).ok(),
                };
                let v = match r {
                    Some(v) => self.cnst(v, t, 0),
                    None => { let tid = self.ty(t); format!("{{\"k\":\"opaque\",\"ty\":{},\"s\":\"err\"}}", tid) }
                };
                format!("{{\"k\":\"const\",\"c\":{}}}", v)
            }
            mir::Operand::RuntimeChecks(r) => format!("{{\"k\":\"rtcheck\",\"w\":{}}}", js(&format!("{:?}", r))),
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>) -> String {
        match r {
            mir::Rvalue::Use(o, _) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(o)),
            mir::Rvalue::Repeat(o, c) => format!("{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(o), c.try_to_target_usize(self.tcx).map(|v| v as i64).unwrap_or(-1)),
            mir::Rvalue::Ref(_, bk, p) => format!("{{\"k\":\"ref\",\"mut\":{},\"p\":{}}}", matches!(bk, mir::BorrowKind::Mut { .. }), self.place(p)),
            mir::Rvalue::RawPtr(_, p) => format!("{{\"k\":\"addr\",\"p\":{}}}", self.place(p)),
            mir::Rvalue::Cast(k, o, t) => format!("{{\"k\":\"cast\",\"ck\":{},\"o\":{},\"ty\":{}}}", js(&format!("{:?}", k)), self.operand(o), self.ty(*t)),
            mir::Rvalue::BinaryOp(b, ops) => format!("{{\"k\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}", js(&format!("{:?}", b)), self.operand(&ops.0), self.operand(&ops.1)),
            mir::Rvalue::UnaryOp(u, o) => format!("{{\"k\":\"un\",\"op\":{},\"o\":{}}}", js(&format!("{:?}", u)), self.operand(o)),
            mir::Rvalue::Discriminant(p) => format!("{{\"k\":\"discr\",\"p\":{}}}", self.place(p)),
            mir::Rvalue::CopyForDeref(p) => format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"p\":{}}}}}", self.place(p)),
            mir::Rvalue::Aggregate(k, fs) => {
                let f: Vec<String> = fs.iter().map(|o| self.operand(o)).collect();
                let head = match **k {
                    mir::AggregateKind::Array(t) => format!("\"ak\":\"array\",\"elem\":{}", self.ty(t)),
                    mir::AggregateKind::Tuple => "\"ak\":\"tuple\"".to_string(),
                    mir::AggregateKind::Adt(d, v, args, _, field) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(d), args);
                        format!("\"ak\":\"adt\",\"ty\":{},\"variant\":{},\"field\":{}", self.ty(t), v.as_usize(), field.map(|f| f.as_usize() as i64).unwrap_or(-1))
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, d.try_into().unwrap_or_else(|_| panic!()), args);
                        format!("\"ak\":\"closure\",\"ty\":{}", self.ty(t))
                    }
                    mir::AggregateKind::Coroutine(d, args) => {
                        let t = Ty::new_coroutine(self.tcx, d.try_into().unwrap_or_else(|_| panic!()), args);
                        format!("\"ak\":\"coroutine\",\"ty\":{}", self.ty(t))
                    }
                    mir::AggregateKind::RawPtr(..) => "\"ak\":\"rawptr\"".to_string(),
                    _ => "\"ak\":\"other\"".to_string(),
                };
                format!("{{\"k\":\"agg\",{},\"f\":[{}]}}", head, f.join(","))
            }
            other => format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{:?}", other))),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let t = sm.span_to_diagnostic_string(sp);
        let mut it = t.splitn(3, ':');
        let f = it.next().unwrap_or("");
        let l = it.next().unwrap_or("");
        let f = f.rsplit('/').take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/");
        format!("{}:{}", f, l)
    }

    fn body(&mut self, inst: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let body = tcx.instance_mir(inst.def).clone();
        let body: mir::Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx, ty::TypingEnv::fully_monomorphized(), ty::EarlyBinder::bind(tcx, body));
        let locals: Vec<String> = body.local_decls.iter().map(|d| self.ty(d.ty).to_string()).collect();
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                let ps = self.place(&p);
                dbg.push(format!("[{},{}]", js(v.name.as_str()), ps));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    mir::StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let rs = self.rvalue(r);
                        let ps = self.place(p);
                        st.push(format!("{{\"k\":\"assign\",\"p\":{},\"r\":{},\"s\":{}}}", ps, rs, js(&self.line(s.source_info.span))));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("{{\"k\":\"setdiscr\",\"p\":{},\"v\":{}}}", self.place(place), variant_index.as_usize()));
                    }
                    mir::StatementKind::Intrinsic(i) => {
                        match &**i {
                            mir::NonDivergingIntrinsic::Assume(_) => {}
                            o => st.push(format!("{{\"k\":\"intrinsic\",\"s\":{}}}", js(&format!("{:?}", o)))),
                        }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = js(&self.line(t.source_info.span));
            let tt = match &t.kind {
                mir::TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_usize()),
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let dt = self.ty(discr.ty(&body.local_decls, tcx));
                    let vs: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", js(&v.to_string()), b.as_usize())).collect();
                    format!("{{\"k\":\"switch\",\"d\":{},\"dty\":{},\"ts\":[{}],\"o\":{},\"s\":{}}}", d, dt, vs.join(","), targets.otherwise().as_usize(), ln)
                }
                mir::TerminatorKind::Return => "{\"k\":\"return\"}".to_string(),
                mir::TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".to_string(),
                mir::TerminatorKind::Drop { place, target, .. } => {
                    let t = self.ty(place.ty(&body.local_decls, tcx).ty);
                    format!("{{\"k\":\"drop\",\"p\":{},\"ty\":{},\"t\":{}}}", self.place(place), t, target.as_usize())
                }
                mir::TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let fty = func.ty(&body.local_decls, tcx);
                    let ft = self.ty(fty);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let at: Vec<String> = args.iter().map(|x| self.ty(x.node.ty(&body.local_decls, tcx)).to_string()).collect();
                    let dty = self.ty(destination.ty(&body.local_decls, tcx).ty);
                    format!("{{\"k\":\"call\",\"f\":{},\"fty\":{},\"a\":[{}],\"aty\":[{}],\"d\":{},\"dty\":{},\"t\":{},\"s\":{}}}", f, ft, a.join(","), at.join(","), self.place(destination), dty,
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1), ln)
                }
                mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let m = format!("{:?}", msg);
                    format!("{{\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"t\":{},\"s\":{}}}", c, expected, js(&m), target.as_usize(), ln)
                }
                mir::TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize()),
                mir::TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize()),
                other => format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{:?}", other))),
            };
            blocks.push(format!("{{\"st\":[{}],\"t\":{},\"cleanup\":{}}}", st.join(","), tt, bb.is_cleanup));
        }
        format!("\"argc\":{},\"spread\":{},\"locals\":[{}],\"dbg\":[{}],\"blocks\":[{}],\"span\":{}", body.arg_count,
            body.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1), locals.join(","), dbg.join(","), blocks.join(",\n"), js(&self.line(body.span)))
    }

    /// Concrete arguments for a generic local function: each type parameter gets the implementing
    /// type of its local-trait bound.
    fn concrete_args(&self, d: DefId) -> Option<ty::GenericArgsRef<'tcx>> {
        let tcx = self.tcx;
        let gens = tcx.generics_of(d);
        let mut ok = true;
        let preds = tcx.clauses_of(d).instantiate_identity(tcx);
        let mut pairs: Vec<(String, DefId)> = vec![];
        for c in preds.clauses.iter() {
            let c = c.skip_normalization();
            if let Some(tp) = c.as_trait_clause() {
                let tr = tp.skip_binder();
                if let ty::Param(p) = tr.self_ty().kind() { pairs.push((p.name.to_string(), tr.def_id())); }
            }
        }
        let args = ty::GenericArgs::for_item(tcx, d, |p, _| {
            match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                ty::GenericParamDefKind::Type { .. } => {
                    for (n, tr) in &pairs {
                        if *n == p.name.as_str() {
                            let k = tcx.crate_name(tr.krate);
                            let hasher = self.path(*tr).ends_with("hash::Hasher");
                            if hasher {
                                for im in tcx.all_impls(*tr) {
                                    let st = tcx.type_of(im).instantiate_identity().skip_normalization();
                                    if let ty::Adt(ad, _) = st.kind() { if self.path(ad.did()).ends_with("DefaultHasher") { return st.into(); } }
                                }
                            }
                            if tr.is_local() || k.as_str() == "server" {
                                for im in tcx.all_impls(*tr) {
                                    let st = tcx.type_of(im).instantiate_identity().skip_normalization();
                                    if let ty::Adt(_, a) = st.kind() { if a.types().next().is_none() { return st.into(); } }
                                }
                            }
                        }
                    }
                    ok = false;
                    tcx.types.unit.into()
                }
                ty::GenericParamDefKind::Const { .. } => { ok = false; tcx.types.unit.into() }
            }
        });
        let _ = gens;
        if ok { Some(args) } else { None }
    }

    fn run(mut self) -> String {
        let tcx = self.tcx;
        let mut roots = vec![];
        for &ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            match tcx.def_kind(d) { DefKind::Fn | DefKind::AssocFn => {} _ => continue }
            if let Some(args) = self.concrete_args(d) {
                if let Ok(Some(i)) = Instance::try_resolve(tcx, ty::TypingEnv::fully_monomorphized(), d, args) {
                    // a trait method without a body resolves to an impl only for concrete Self
                    let n = self.inst(i);
                    roots.push(n.to_string());
                }
            }
        }
        while let Some(n) = self.queue.pop_front() {
            let i = self.inst_list[n];
            let name = with_resolve_crate_name!(with_no_trimmed_paths!(tcx.def_path_str_with_args(i.def_id(), i.args)));
            let def = self.path(i.def_id());
            let kind = match i.def {
                InstanceKind::Item(d) => if tcx.is_closure_like(d) { "closure" } else { "item" },
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Intrinsic(..) => "intrinsic",
                InstanceKind::LlvmIntrinsic(..) => "llvm",
                InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
                InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr_shim",
                InstanceKind::Shim(ShimKind::Clone(..)) => "clone_shim",
                InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop",
                _ => "shim",
            };
            let a: Vec<String> = i.args.types().map(|t| self.ty(t).to_string()).collect();
            let b = if self.want_body(&i) {
                let s = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.body(i)));
                match s { Ok(s) => format!(",{}", s), Err(_) => ",\"body_error\":true".to_string() }
            } else { String::new() };
            self.inst_out.push(format!("{{\"id\":{},\"name\":{},\"def\":{},\"raw\":{},\"kind\":{},\"args\":[{}]{}}}", n, js(&name), js(&def), js(&self.raw_path(i.def_id())), js(kind), a.join(","), b));
        }
        format!("{{\"roots\":[{}],\n\"types\":[{}],\n\"insts\":[{}]}}\n", roots.join(","), self.ty_out.join(",\n"), self.inst_out.join(",\n"))
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER calls us as: mirdump <rustc> <args...>
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) { args.remove(1); }
    let _ = arr::<Vec<String>>;
    // the reference code is loaded beside the crate that is dumped
    if let (Ok(shim), Ok(want)) = (std::env::var("MIRDUMP_SHIM"), std::env::var("MIRDUMP_CRATES")) {
        let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
        if !name.is_empty() {
            args.push("-L".into());
            args.push(format!("dependency={}", std::path::Path::new(&shim).parent().unwrap().display()));
        }
        if want.split(',').any(|c| c == name) && !args.iter().any(|a| a.contains("vcshim")) {
            args.push("-Zunstable-options".into());
            args.push("--extern".into());
            args.push(format!("force:vcshim={}", shim));
        }
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
