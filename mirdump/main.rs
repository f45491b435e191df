// mirdump: a rustc driver that writes, for every function of the crate being compiled, the MIR that
// rustc builds from it (`mir_built`: after type checking, before borrow checking and before any
// optimisation or coroutine transformation) as JSON, together with the bodies of the closures,
// coroutines, local callees and a few core-library modules it reaches, instantiated for the call.
// It only reads compiler data structures; it changes nothing of what is compiled.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths};
use rustc_middle::ty::{
    self, EarlyBinder, GenericArg, GenericArgs, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt,
    TypeVisitableExt, TypingEnv, Unnormalized,
};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

/// Modules of core/alloc/std whose bodies are followed instead of being treated as external.
const FOLLOW: &[&str] = &[
    "::option::",
    "::result::",
    "::ops::control_flow::",
    "::task::poll::",
    "::bool::",
    "::tuple::",
    "::cmp::",
    "::convert::",
    "::clone::impls::",
];

macro_rules! pp { ($e:expr) => { with_crate_prefix!(with_no_trimmed_paths!($e)) } }

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn bytes_js(b: &[u8]) -> String {
    // latin-1 rendering: one char per byte
    let s: String = b.iter().map(|&x| x as char).collect();
    js(&s)
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    built: HashMap<LocalDefId, Body<'tcx>>,
    types: Vec<String>,
    type_ix: HashMap<(String, Ty<'tcx>), usize>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, String, String)>,
    seen: HashSet<String>,
    bodies: Vec<String>,
    dups: std::cell::RefCell<HashMap<(char, String), Vec<DefId>>>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = pp!(self.tcx.def_path_str(d));
        // items of one name in different blocks of a function body: numbered
        if !d.is_local() { return p; }
        let cat = match self.tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => 't',
            DefKind::Fn | DefKind::AssocFn => 'f',
            _ => return p,
        };
        let mut m = self.dups.borrow_mut();
        let v = m.entry((cat, p.clone())).or_default();
        let i = match v.iter().position(|x| *x == d) {
            Some(i) => i,
            None => { v.push(d); v.len() - 1 }
        };
        if i == 0 { p } else { format!("{p}#{i}") }
    }
    /// Numbers of the numbered local types within a type.
    fn dup_suffix(&self, g: GenericArg<'tcx>) -> String {
        let mut o = String::new();
        for x in g.walk() {
            if let Some(t) = x.as_type() {
                if let ty::Adt(def, _) = t.kind() {
                    if def.did().is_local() {
                        let p = self.path(def.did());
                        if let Some(i) = p.rfind('#') {
                            if p[i + 1..].bytes().all(|b| b.is_ascii_digit()) { o.push_str(&p[i..]); }
                        }
                    }
                }
            }
        }
        o
    }
    fn norm(&self, env: TypingEnv<'tcx>, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        match self.tcx.try_normalize_erasing_regions(env, Unnormalized::new(t)) {
            Ok(t) => t,
            Err(_) => t,
        }
    }
    fn norm_args(&self, env: TypingEnv<'tcx>, a: GenericArgsRef<'tcx>) -> GenericArgsRef<'tcx> {
        let a = self.tcx.erase_and_anonymize_regions(a);
        match self.tcx.try_normalize_erasing_regions(env, Unnormalized::new(a)) {
            Ok(t) => t,
            Err(_) => a,
        }
    }
    fn ctxt(&self, root: &str, has_param: bool) -> String {
        if has_param { root.to_string() } else { String::new() }
    }
    fn ty_str(&self, t: Ty<'tcx>) -> String {
        let s = pp!(t.to_string());
        s + &self.dup_suffix(t.into())
    }
    fn args_js(&mut self, env: TypingEnv<'tcx>, root: &str, a: &[GenericArg<'tcx>]) -> String {
        let v: Vec<String> = a
            .iter()
            .filter_map(|g| {
                if let Some(t) = g.as_type() {
                    Some(self.ty(env, root, t).to_string())
                } else if let Some(c) = g.as_const() {
                    Some(js(&format!("{}", pp!(c.to_string()))))
                } else {
                    None
                }
            })
            .collect();
        format!("[{}]", v.join(","))
    }
    fn adt_fields_wanted(&self, def: ty::AdtDef<'tcx>) -> bool {
        let k = self.tcx.crate_name(def.did().krate);
        let k = k.as_str();
        def.did().is_local() || k.starts_with("openid4vp")
            || (def.is_enum() && matches!(k, "core" | "alloc" | "std" | "serde_json" | "ciborium" | "x509_cert"))
            || matches!(k, "josekit")
    }
    fn ty(&mut self, env: TypingEnv<'tcx>, root: &str, t0: Ty<'tcx>) -> usize {
        let t = self.norm(env, t0);
        let ctx = self.ctxt(root, t.has_param());
        if let Some(i) = self.type_ix.get(&(ctx.clone(), t)) {
            return *i;
        }
        let ix = self.types.len();
        self.types.push(String::new());
        self.type_ix.insert((ctx.clone(), t), ix);
        let s = self.ty_str(t);
        let body = match t.kind() {
            ty::Bool => r#""k":"bool""#.to_string(),
            ty::Char => r#""k":"char""#.to_string(),
            ty::Int(i) => format!(r#""k":"int","bits":{},"signed":true"#, i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!(r#""k":"int","bits":{},"signed":false"#, i.bit_width().unwrap_or(64)),
            ty::Float(_) => r#""k":"float""#.to_string(),
            ty::Str => r#""k":"str""#.to_string(),
            ty::Never => r#""k":"never""#.to_string(),
            ty::Array(e, n) => {
                let e = self.ty(env, root, *e);
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!(r#""k":"array","e":{e},"n":{n}"#)
            }
            ty::Slice(e) => {
                let e = self.ty(env, root, *e);
                format!(r#""k":"slice","e":{e}"#)
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(env, root, *e);
                format!(r#""k":"ptr","e":{e},"mut":{}"#, m.is_mut())
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(env, root, *e);
                format!(r#""k":"ref","e":{e},"mut":{}"#, m.is_mut())
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(env, root, x).to_string()).collect();
                format!(r#""k":"tuple","es":[{}]"#, v.join(","))
            }
            ty::Adt(def, args) => {
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let p = self.path(def.did());
                let a = self.args_js(env, root, args);
                let mut vs = Vec::new();
                if def.is_enum() || self.adt_fields_wanted(*def) {
                    let want = self.adt_fields_wanted(*def);
                    let discrs: Vec<String> = if def.is_enum() {
                        def.discriminants(self.tcx).map(|(_, d)| d.val.to_string()).collect()
                    } else { vec!["0".into()] };
                    for (i, v) in def.variants().iter().enumerate() {
                        let mut fs = Vec::new();
                        for f in v.fields.iter() {
                            let ft = if want {
                                let ft = f.ty(self.tcx, args).skip_normalization();
                                self.ty(env, root, ft).to_string()
                            } else { "null".into() };
                            fs.push(format!(r#"{{"n":{},"t":{}}}"#, js(f.name.as_str()), ft));
                        }
                        vs.push(format!(r#"{{"n":{},"d":{},"fs":[{}]}}"#, js(v.name.as_str()), discrs.get(i).map(|s| s.as_str()).unwrap_or("0"), fs.join(",")));
                    }
                }
                format!(r#""k":"adt","ak":"{kind}","path":{},"args":{a},"vs":[{}]"#, js(&p), vs.join(","))
            }
            ty::Closure(d, args) => {
                let a = self.norm_args(env, args);
                let k = self.enqueue(Instance::new_raw(*d, a), env, root);
                let ups: Vec<String> = a.as_closure().upvar_tys().iter().map(|x| self.ty(env, root, x).to_string()).collect();
                format!(r#""k":"closure","key":{},"ups":[{}]"#, js(&k), ups.join(","))
            }
            ty::Coroutine(d, args) => {
                let a = self.norm_args(env, args);
                let k = self.enqueue(Instance::new_raw(*d, a), env, root);
                let ups: Vec<String> = a.as_coroutine().upvar_tys().iter().map(|x| self.ty(env, root, x).to_string()).collect();
                format!(r#""k":"coroutine","key":{},"path":{},"ups":[{}]"#, js(&k), js(&self.path(*d)), ups.join(","))
            }
            ty::FnDef(d, _) => {
                let c = self.callee(env, root, t);
                format!(r#""k":"fndef","path":{},"callee":{}"#, js(&self.path(*d)), c)
            }
            ty::Dynamic(preds, _) => {
                let tr = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!(r#""k":"dyn","trait":{}"#, js(&tr))
            }
            ty::Param(_) => r#""k":"param""#.to_string(),
            ty::Alias(_, al) => {
                let _ = al;
                r#""k":"alias""#.to_string()
            }
            ty::FnPtr(..) => r#""k":"fnptr""#.to_string(),
            _ => r#""k":"other""#.to_string(),
        };
        self.types[ix] = format!(r#"{{"s":{},"ctx":{},{}}}"#, js(&s), js(&ctx), body);
        ix
    }

    fn has_body(&self, d: DefId) -> bool {
        if let Some(l) = d.as_local() {
            return self.built.contains_key(&l);
        }
        let k = self.tcx.crate_name(d.krate);
        let ok = match k.as_str() {
            "core" | "alloc" | "std" => {
                let p = self.tcx.def_path(d).to_string_no_crate_verbose();
                FOLLOW.iter().any(|f| p.starts_with(f))
            }
            x => x.starts_with("openid4vp"),
        };
        ok && self.tcx.is_mir_available(d)
    }

    fn enqueue(&mut self, i: Instance<'tcx>, env: TypingEnv<'tcx>, root: &str) -> String {
        let d = i.def_id();
        let p = self.path(d);
        let has_param = i.args.has_param();
        let targs: Vec<String> = i.args.iter().filter(|g| g.as_region().is_none()).map(|g| pp!(g.to_string()) + &self.dup_suffix(g)).collect();
        let ident = p == root && {
            let id = GenericArgs::identity_for_item(self.tcx, d);
            self.tcx.erase_and_anonymize_regions(id) == self.tcx.erase_and_anonymize_regions(i.args)
        };
        let key = if ident {
            p.clone()
        } else if targs.is_empty() {
            p.clone()
        } else if has_param {
            format!("{p}<{}>@{root}", targs.join(", "))
        } else {
            format!("{p}<{}>", targs.join(", "))
        };
        if self.has_body(d) && self.seen.insert(key.clone()) {
            self.queue.push_back((i, env, root.to_string(), key.clone()));
        }
        key
    }

    /// JSON description of a callee given as an FnDef type.
    fn callee(&mut self, env: TypingEnv<'tcx>, root: &str, fnty: Ty<'tcx>) -> String {
        let fnty = self.norm(env, fnty);
        let (d, args) = match fnty.kind() {
            ty::FnDef(d, a) => (*d, a.skip_binder()),
            _ => return r#"{"kind":"indirect"}"#.to_string(),
        };
        let args = self.norm_args(env, args);
        let p = self.path(d);
        let kr = self.tcx.crate_name(d.krate).to_string();
        let mut out = format!(r#"{{"path":{},"crate":{},"args":{}"#, js(&p), js(&kr), self.args_js(env, root, args));
        match self.tcx.def_kind(d) {
            DefKind::Ctor(..) => {
                let variant_did = self.tcx.parent(d);
                let adt_did = match self.tcx.def_kind(variant_did) {
                    DefKind::Variant => self.tcx.parent(variant_did),
                    _ => variant_did,
                };
                let adt = self.tcx.adt_def(adt_did);
                let vi = adt.variant_index_with_ctor_id(d).as_usize();
                let sig = self.tcx.fn_sig(d).instantiate(self.tcx, args).skip_normalization();
                let ret = self.tcx.instantiate_bound_regions_with_erased(sig).output();
                let r = self.ty(env, root, ret);
                let _ = write!(out, r#","kind":"ctor","ty":{r},"variant":{vi}}}"#);
                return out;
            }
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
            k => {
                let _ = write!(out, r#","kind":"other:{k:?}"}}"#);
                return out;
            }
        }
        let tr = self.tcx.trait_of_assoc(d);
        if let Some(t) = tr {
            let _ = write!(out, r#","trait":{},"method":{}"#, js(&self.path(t)), js(self.tcx.item_name(d).as_str()));
        }
        let sig = self.tcx.fn_sig(d).instantiate(self.tcx, args).skip_normalization();
        let sig = self.tcx.instantiate_bound_regions_with_erased(sig);
        let ret = self.ty(env, root, sig.output());
        let ins: Vec<String> = sig.inputs().iter().map(|x| self.ty(env, root, *x).to_string()).collect();
        let _ = write!(out, r#","ret":{ret},"ins":[{}]"#, ins.join(","));
        match Instance::try_resolve(self.tcx, env, d, args) {
            Ok(Some(inst)) => match inst.def {
                InstanceKind::Item(rd) => {
                    let rargs = self.norm_args(env, inst.args);
                    let inst = Instance::new_raw(rd, rargs);
                    let rp = self.path(rd);
                    let rk = self.tcx.crate_name(rd.krate).to_string();
                    let ra = self.args_js(env, root, rargs);
                    let _ = write!(out, r#","kind":"item","rpath":{},"rcrate":{},"rargs":{ra}"#, js(&rp), js(&rk));
                    if rd != d {
                        // impl self type, for readable names
                        if let Some(imp) = self.tcx.impl_of_assoc(rd) {
                            let st = self.tcx.type_of(imp).instantiate(self.tcx, &rargs[..self.tcx.generics_of(imp).count().min(rargs.len())]).skip_normalization();
                            let st = self.ty(env, root, st);
                            let _ = write!(out, r#","implself":{st}"#);
                        }
                    }
                    if let Some(imp) = self.tcx.impl_of_assoc(rd) {
                        if self.tcx.is_automatically_derived(imp) { out.push_str(r#","derived":true"#); }
                    }
                    let rpn = self.tcx.def_path(rd).to_string_no_crate_verbose();
                    if rk == "core" || rk == "alloc" {
                        // Display-based formatting: name the Display impl that will run
                        let want = if rpn.contains("::rt::") && rpn.ends_with("::new_display") { Some("Display") }
                            else if rpn.ends_with("::to_string") && rpn.contains("string::") { Some("Display") }
                            else { None };
                        if let (Some(_), Some(t)) = (want, rargs.types().last()) {
                            let mut t = t;
                            while let ty::Ref(_, i, _) = t.kind() { t = *i; }
                            if let Some(tr) = self.tcx.get_diagnostic_item(rustc_span::Symbol::intern("Display")) {
                                let m = self.tcx.associated_item_def_ids(tr)[0];
                                let a = self.tcx.mk_args(&[t.into()]);
                                let a2 = self.tcx.erase_and_anonymize_regions(a);
                                let n = self.tcx.generics_of(m).count();
                                let mut full: Vec<GenericArg<'tcx>> = a2.to_vec();
                                while full.len() < n { full.push(self.tcx.lifetimes.re_erased.into()); }
                                let full = self.tcx.mk_args(&full);
                                if let Ok(Some(di)) = Instance::try_resolve(self.tcx, env, m, full) {
                                    if let InstanceKind::Item(dd) = di.def {
                                        let it = self.ty(env, root, t);
                                        let _ = write!(out, r#","disp_ty":{it},"disp_path":{}"#, js(&self.path(dd)));
                                        if dd.is_local() && self.has_body(dd) {
                                            let ra = self.norm_args(env, di.args);
                                            let k = self.enqueue(Instance::new_raw(dd, ra), env, root);
                                            let _ = write!(out, r#","disp":{}"#, js(&k));
                                        }
                                    }
                                }
                            }
                        }
                    }
                    if self.has_body(rd) {
                        let k = self.enqueue(inst, env, root);
                        let _ = write!(out, r#","key":{}"#, js(&k));
                    }
                }
                InstanceKind::Virtual(..) => {
                    let _ = write!(out, r#","kind":"virtual""#);
                }
                InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => {
                    let _ = write!(out, r#","kind":"intrinsic""#);
                }
                InstanceKind::Shim(_) => {
                    let _ = write!(out, r#","kind":"shim""#);
                }
            },
            Ok(None) => {
                let _ = write!(out, r#","kind":"unresolved""#);
            }
            Err(_) => {
                let _ = write!(out, r#","kind":"error""#);
            }
        }
        out.push('}');
        out
    }

    fn alloc_bytes(&self, id: interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let end = off.checked_add(len)?;
                if end > a.size().bytes() { return None; }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end as usize).to_vec())
            }
            _ => None,
        }
    }

    fn const_js(&mut self, env: TypingEnv<'tcx>, root: &str, c: &Const<'tcx>, span: rustc_span::Span) -> String {
        let t = self.norm(env, c.ty());
        let tix = self.ty(env, root, t);
        if let ty::FnDef(..) = t.kind() {
            let cal = self.callee(env, root, t);
            return format!(r#"{{"o":"const","t":{tix},"fn":{cal}}}"#);
        }
        let mut name = String::new();
        let mut cc = *c;
        if let Const::Unevaluated(u, ty0) = c {
            let args = self.norm_args(env, u.args);
            let mut def = u.def;
            // resolve associated consts to the impl's item where possible
            if u.promoted.is_none() {
                if let Ok(Some(i)) = Instance::try_resolve(self.tcx, env, u.def, args) {
                    def = i.def_id();
                }
                let a = self.args_js(env, root, args);
                name = format!(r#","def":{},"trait_def":{},"dargs":{a}"#, js(&self.path(def)), js(&self.path(u.def)));
            }
            cc = Const::Unevaluated(UnevaluatedConst { def: u.def, args, promoted: u.promoted }, *ty0);
        }
        let v = if matches!(cc, Const::Unevaluated(u, _) if u.args.has_param()) || t.has_param() {
            // may be too generic to evaluate
            match cc {
                Const::Unevaluated(..) => {
                    if t.has_param() { None } else { cc.eval(self.tcx, env, span).ok() }
                }
                Const::Val(v, _) => Some(v),
                _ => None,
            }
        } else {
            cc.eval(self.tcx, env, span).ok()
        };
        let val = match v {
            None => r#""v":null"#.to_string(),
            Some(v) => self.cval_js(env, root, v, t),
        };
        format!(r#"{{"o":"const","t":{tix}{name},{val}}}"#)
    }

    fn cval_js(&mut self, env: TypingEnv<'tcx>, root: &str, v: ConstValue, t: Ty<'tcx>) -> String {
        match v {
            ConstValue::ZeroSized => r#""v":"zst""#.to_string(),
            ConstValue::Slice { alloc_id, meta } => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    let unit = matches!(inner.kind(), ty::Str) || matches!(inner.kind(), ty::Slice(e) if *e == self.tcx.types.u8);
                    if unit {
                        if let Some(b) = self.alloc_bytes(alloc_id, 0, meta) {
                            return format!(r#""v":"bytes","b":{}"#, bytes_js(&b));
                        }
                    }
                }
                r#""v":"opaque""#.to_string()
            }
            ConstValue::Scalar(Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                format!(r#""v":"int","i":"{bits}","size":{}"#, i.size().bytes())
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                match self.tcx.try_get_global_alloc(id) {
                    Some(GlobalAlloc::Static(d)) => {
                        format!(r#""v":"static","path":{}"#, js(&self.path(d)))
                    }
                    Some(GlobalAlloc::Memory(a)) => {
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if let ty::Array(e, n) = inner.kind() {
                                if *e == self.tcx.types.u8 {
                                    if let Some(n) = n.try_to_target_usize(self.tcx) {
                                        if let Some(b) = self.alloc_bytes(id, off.bytes(), n) {
                                            return format!(r#""v":"bytes","b":{}"#, bytes_js(&b));
                                        }
                                    }
                                }
                            }
                            // reference to some other constant memory: decode it structurally
                            let it = self.ty(env, root, *inner);
                            if let Some(x) = self.mem_js(env, root, a.inner(), off.bytes(), *inner, 0) {
                                return format!(r#""v":"ref","it":{it},"to":{x}"#);
                            }
                        }
                        r#""v":"opaque""#.to_string()
                    }
                    _ => r#""v":"opaque""#.to_string(),
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let Some(GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(alloc_id) {
                    if let Some(x) = self.mem_js(env, root, a.inner(), offset.bytes(), t, 0) {
                        return format!(r#""v":"mem","to":{x}"#);
                    }
                }
                r#""v":"opaque""#.to_string()
            }
        }
    }

    /// Structural decoding of constant memory: strings, byte arrays, slices/arrays of those.
    fn mem_js(&mut self, env: TypingEnv<'tcx>, root: &str, a: &interpret::Allocation, off: u64, t: Ty<'tcx>, depth: usize) -> Option<String> {
        if depth > 4 { return None; }
        let tcx = self.tcx;
        let layout = tcx.layout_of(env.as_query_input(t)).ok()?;
        let rd = |o: u64, n: u64| -> Option<u128> {
            let e = o.checked_add(n)?;
            if e > a.size().bytes() { return None; }
            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o as usize..e as usize);
            let mut x = 0u128;
            for (i, v) in b.iter().enumerate() { x |= (*v as u128) << (8 * i); }
            Some(x)
        };
        match t.kind() {
            ty::Bool | ty::Uint(_) | ty::Int(_) | ty::Char => {
                let n = layout.size.bytes();
                Some(format!(r#"{{"v":"int","i":"{}"}}"#, rd(off, n)?))
            }
            ty::Ref(_, inner, _) => {
                let prov = a.provenance().get_ptr(rustc_abi::Size::from_bytes(off))?;
                let id = prov.alloc_id();
                let po = rd(off, 8)? as u64;
                match inner.kind() {
                    ty::Str => {
                        let len = rd(off + 8, 8)? as u64;
                        let b = self.alloc_bytes(id, po, len)?;
                        Some(format!(r#"{{"v":"bytes","b":{}}}"#, bytes_js(&b)))
                    }
                    ty::Slice(e) => {
                        let len = rd(off + 8, 8)? as u64;
                        if *e == tcx.types.u8 {
                            let b = self.alloc_bytes(id, po, len)?;
                            return Some(format!(r#"{{"v":"bytes","b":{}}}"#, bytes_js(&b)));
                        }
                        let es = tcx.layout_of(env.as_query_input(*e)).ok()?.size.bytes();
                        match tcx.try_get_global_alloc(id)? {
                            GlobalAlloc::Memory(m) => {
                                let mut v = Vec::new();
                                for i in 0..len { v.push(self.mem_js(env, root, m.inner(), po + i * es, *e, depth + 1)?); }
                                let et = self.ty(env, root, *e);
                                Some(format!(r#"{{"v":"ref","to":{{"v":"seq","et":{et},"es":[{}]}}}}"#, v.join(",")))
                            }
                            _ => None,
                        }
                    }
                    _ => match tcx.try_get_global_alloc(id)? {
                        GlobalAlloc::Memory(m) => {
                            let x = self.mem_js(env, root, m.inner(), po, *inner, depth + 1)?;
                            Some(format!(r#"{{"v":"ref","to":{x}}}"#))
                        }
                        GlobalAlloc::Static(d) => Some(format!(r#"{{"v":"static","path":{}}}"#, js(&self.path(d)))),
                        _ => None,
                    },
                }
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx)?;
                if *e == tcx.types.u8 {
                    let end = off.checked_add(n)?;
                    if end > a.size().bytes() { return None; }
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end as usize);
                    return Some(format!(r#"{{"v":"bytes","b":{}}}"#, bytes_js(b)));
                }
                let es = tcx.layout_of(env.as_query_input(*e)).ok()?.size.bytes();
                let mut v = Vec::new();
                for i in 0..n { v.push(self.mem_js(env, root, a, off + i * es, *e, depth + 1)?); }
                let et = self.ty(env, root, *e);
                Some(format!(r#"{{"v":"seq","et":{et},"es":[{}]}}"#, v.join(",")))
            }
            ty::Tuple(ts) => {
                let mut v = Vec::new();
                for (i, e) in ts.iter().enumerate() {
                    let o = layout.fields.offset(i).bytes();
                    v.push(self.mem_js(env, root, a, off + o, e, depth + 1)?);
                }
                Some(format!(r#"{{"v":"tuple","es":[{}]}}"#, v.join(",")))
            }
            _ => None,
        }
    }

    fn place_js(&mut self, env: TypingEnv<'tcx>, root: &str, p: &Place<'tcx>) -> String {
        let mut v = Vec::new();
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => r#"["*"]"#.to_string(),
                ProjectionElem::Field(f, t) => format!(r#"["f",{},{}]"#, f.as_usize(), self.ty(env, root, t)),
                ProjectionElem::Index(l) => format!(r#"["i",{}]"#, l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!(r#"["c",{offset},{min_length},{from_end}]"#),
                ProjectionElem::Subslice { from, to, from_end } => format!(r#"["s",{from},{to},{from_end}]"#),
                ProjectionElem::Downcast(_, vi) => format!(r#"["d",{}]"#, vi.as_usize()),
                ProjectionElem::OpaqueCast(t) => format!(r#"["oc",{}]"#, self.ty(env, root, t)),
                _ => r#"["?"]"#.to_string(),
            });
        }
        format!("[{},[{}]]", p.local.as_usize(), v.join(","))
    }
    fn operand_js(&mut self, env: TypingEnv<'tcx>, root: &str, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!(r#"{{"o":"copy","p":{}}}"#, self.place_js(env, root, p)),
            Operand::Move(p) => format!(r#"{{"o":"move","p":{}}}"#, self.place_js(env, root, p)),
            Operand::Constant(c) => self.const_js(env, root, &c.const_, c.span),
            Operand::RuntimeChecks(_) => r#"{"o":"rtcheck"}"#.to_string(),
        }
    }
    fn rvalue_js(&mut self, env: TypingEnv<'tcx>, root: &str, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!(r#"{{"r":"use","a":{}}}"#, self.operand_js(env, root, o)),
            Rvalue::Repeat(o, n) => {
                let n = self.tcx.try_normalize_erasing_regions(env, Unnormalized::new(*n)).unwrap_or(*n);
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!(r#"{{"r":"repeat","a":{},"n":{n}}}"#, self.operand_js(env, root, o))
            }
            Rvalue::Ref(_, bk, p) => format!(r#"{{"r":"ref","mut":{},"p":{}}}"#, matches!(bk, BorrowKind::Mut { .. }), self.place_js(env, root, p)),
            Rvalue::RawPtr(_, p) => format!(r#"{{"r":"ref","mut":true,"raw":true,"p":{}}}"#, self.place_js(env, root, p)),
            Rvalue::Reborrow(_, m, p) => format!(r#"{{"r":"use","a":{{"o":"copy","p":{}}},"m":{}}}"#, self.place_js(env, root, p), m.is_mut()),
            Rvalue::Cast(k, o, t) => format!(r#"{{"r":"cast","k":{},"a":{},"t":{}}}"#, js(&format!("{k:?}")), self.operand_js(env, root, o), self.ty(env, root, *t)),
            Rvalue::BinaryOp(b, x) => format!(r#"{{"r":"bin","op":"{b:?}","a":{},"b":{}}}"#, self.operand_js(env, root, &x.0), self.operand_js(env, root, &x.1)),
            Rvalue::UnaryOp(b, x) => format!(r#"{{"r":"un","op":"{b:?}","a":{}}}"#, self.operand_js(env, root, x)),
            Rvalue::Discriminant(p) => format!(r#"{{"r":"discr","p":{}}}"#, self.place_js(env, root, p)),
            Rvalue::CopyForDeref(p) => format!(r#"{{"r":"use","a":{{"o":"copy","p":{}}}}}"#, self.place_js(env, root, p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand_js(env, root, o)).collect();
                let k = match &**k {
                    AggregateKind::Array(t) => format!(r#""k":"array","t":{}"#, self.ty(env, root, *t)),
                    AggregateKind::Tuple => r#""k":"tuple""#.to_string(),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_normalization();
                        format!(r#""k":"adt","t":{},"v":{}"#, self.ty(env, root, t), vi.as_usize())
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        format!(r#""k":"closure","t":{}"#, self.ty(env, root, t))
                    }
                    AggregateKind::Coroutine(d, args) => {
                        let t = Ty::new_coroutine(self.tcx, *d, args);
                        format!(r#""k":"coroutine","t":{}"#, self.ty(env, root, t))
                    }
                    _ => r#""k":"other""#.to_string(),
                };
                format!(r#"{{"r":"agg",{k},"ops":[{}]}}"#, v.join(","))
            }
            _ => r#"{"r":"other"}"#.to_string(),
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, root: &str, key: &str) {
        let d = inst.def_id();
        let raw: Body<'tcx> = if let Some(l) = d.as_local() {
            match self.built.get(&l) {
                Some(b) => b.clone(),
                None => return,
            }
        } else {
            if !self.tcx.is_mir_available(d) { return; }
            self.tcx.instance_mir(InstanceKind::Item(d)).clone()
        };
        let b = EarlyBinder::bind(self.tcx, raw).instantiate(self.tcx, inst.args).skip_normalization();
        let mut out = String::new();
        let span = self.tcx.sess.source_map().span_to_diagnostic_string(self.tcx.def_span(d));
        let kind = if self.tcx.is_coroutine(d) { "coroutine" } else if self.tcx.is_closure_like(d) { "closure" } else { "fn" };
        let parent = if kind != "fn" { self.path(self.tcx.typeck_root_def_id(d)) } else { String::new() };
        let imp = self.tcx.impl_of_assoc(d).map(|i| {
            let st = self.tcx.type_of(i).instantiate_identity().skip_normalization();
            let st = self.ty_str(st);
            let tr = self.tcx.impl_opt_trait_ref(i).map(|t| pp!(t.instantiate_identity().skip_normalization().to_string())).unwrap_or_default();
            format!(r#","impl_self":{},"impl_trait":{},"derived":{}"#, js(&st), js(&tr), self.tcx.is_automatically_derived(i))
        }).unwrap_or_default();
        let vis = kind == "fn" && self.tcx.visibility(d).is_public();
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(env, root, l.ty).to_string()).collect();
        let mut names = Vec::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(format!(r#"[{},{}]"#, js(v.name.as_str()), self.place_js(env, root, &p)));
            }
        }
        let _ = write!(out, r#"{{"key":{},"path":{},"root":{},"kind":"{kind}","pub":{vis},"krate":{},"parent":{},"span":{}{imp},"nargs":{},"locals":[{}],"names":[{}],"args":{}"#,
            js(key), js(&self.path(d)), js(root), js(self.tcx.crate_name(d.krate).as_str()), js(&parent), js(&span), b.arg_count, locals.join(","), names.join(","), self.args_js(env, root, inst.args));
        let _ = write!(out, r#","spread":{}"#, b.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()));
        out.push_str(",\"blocks\":[");
        let sm = self.tcx.sess.source_map();
        for (i, bb) in b.basic_blocks.iter().enumerate() {
            if i > 0 { out.push(','); }
            if bb.is_cleanup { out.push_str("null"); continue; }
            let mut st = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place_js(env, root, &x.0);
                        let r = self.rvalue_js(env, root, &x.1);
                        st.push(format!(r#"["=",{p},{r}]"#));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place_js(env, root, place);
                        st.push(format!(r#"["sd",{p},{}]"#, variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!(r#"["dead",{}]"#, l.as_usize())),
                    StatementKind::Intrinsic(_) => st.push(r#"["intr"]"#.into()),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = sm.lookup_char_pos(t.source_info.span.source_callsite().lo()).line;
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!(r#""t":"goto","to":{}"#, target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!(r#"["{v}",{}]"#, b.as_usize())).collect();
                    format!(r#""t":"switch","a":{},"cases":[{}],"otherwise":{}"#, self.operand_js(env, root, discr), v.join(","), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => r#""t":"return""#.into(),
                TerminatorKind::Unreachable => r#""t":"unreachable""#.into(),
                TerminatorKind::Drop { place, target, .. } => format!(r#""t":"drop","p":{},"to":{}"#, self.place_js(env, root, place), target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|o| self.operand_js(env, root, &o.node)).collect();
                    let f = self.operand_js(env, root, func);
                    format!(r#""t":"call","f":{f},"args":[{}],"dst":{},"to":{}"#, a.join(","), self.place_js(env, root, destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{msg:?}");
                    let k = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(_) => "overflow",
                        AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => "div",
                        _ => "other",
                    };
                    format!(r#""t":"assert","c":{},"exp":{expected},"k":"{k}","msg":{},"to":{}"#, self.operand_js(env, root, cond), js(&m), target.as_usize())
                }
                TerminatorKind::Yield { resume, .. } => format!(r#""t":"yield","to":{}"#, resume.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!(r#""t":"goto","to":{}"#, real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!(r#""t":"goto","to":{}"#, real_target.as_usize()),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) | TerminatorKind::CoroutineDrop => r#""t":"dead""#.into(),
                _ => r#""t":"other""#.into(),
            };
            let _ = write!(out, r#"{{"s":[{}],"line":{line},{tj}}}"#, st.join(","));
        }
        out.push_str("]}");
        self.bodies.push(out);
    }
}

fn derived_skip(tcx: TyCtxt<'_>, d: DefId) -> bool {
    let p = pp!(tcx.def_path_str(d));
    // derive-generated deserializers and debug printers are not analysed (see DESIGN.md)
    if let Some(imp) = tcx.impl_of_assoc(d) {
        if let Some(t) = tcx.impl_opt_trait_ref(imp) {
            let tn = pp!(tcx.def_path_str(t.skip_binder().def_id));
            if tn.ends_with("::Debug") || tn.ends_with("::Hash") { return true; }
        }
    }
    false
}

struct Cb { out: String }
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut built = HashMap::new();
        let mut fns = Vec::new();
        let mut consts = Vec::new();
        for l in tcx.hir_body_owners() {
            let k = tcx.def_kind(l);
            if matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody) {
                let s = tcx.mir_built(l);
                if !s.is_stolen() {
                    built.insert(l, s.borrow().clone());
                }
                if matches!(k, DefKind::Fn | DefKind::AssocFn) { fns.push(l); }
            }
            if matches!(k, DefKind::Const { .. } | DefKind::AssocConst { .. }) { consts.push(l); }
        }
        // stop here, quietly, if the crate has errors: cargo reports them
        if tcx.dcx().has_errors().is_some() { return Compilation::Continue; }
        let mut dump = Dump { tcx, built, types: vec![], type_ix: HashMap::new(), queue: VecDeque::new(), seen: HashSet::new(), bodies: vec![], dups: Default::default() };
        for l in tcx.iter_local_def_id() { if !matches!(tcx.def_kind(l), DefKind::Closure | DefKind::SyntheticCoroutineBody) { dump.path(l.to_def_id()); } }
        for l in fns {
            let d = l.to_def_id();
            if derived_skip(tcx, d) { continue; }
            let env = TypingEnv::post_analysis(tcx, d);
            let args = GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let p = dump.path(d);
            dump.enqueue(Instance::new_raw(d, args), env, &p);
            while let Some((i, e, r, k)) = dump.queue.pop_front() {
                dump.body(i, e, &r, &k);
            }
        }
        // values of the crate's constants
        let mut cs = Vec::new();
        for l in consts {
            let d = l.to_def_id();
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            if tcx.generics_of(d).requires_monomorphization(tcx) { continue; }
            let env = TypingEnv::post_analysis(tcx, d);
            let args = tcx.erase_and_anonymize_regions(GenericArgs::identity_for_item(tcx, d));
            let p = dump.path(d);
            let c = Const::Unevaluated(UnevaluatedConst { def: d, args, promoted: None }, tcx.erase_and_anonymize_regions(t));
            let j = dump.const_js(env, &p, &c, tcx.def_span(d));
            cs.push(format!("{{\"path\":{},\"c\":{}}}", js(&p), j));
        }
        let mut o = String::new();
        o.push_str("{\"types\":[\n");
        o.push_str(&dump.types.join(",\n"));
        o.push_str("\n],\"bodies\":[\n");
        o.push_str(&dump.bodies.join(",\n"));
        o.push_str("\n],\"consts\":[\n");
        o.push_str(&cs.join(",\n"));
        o.push_str("\n]}\n");
        std::fs::write(&self.out, o).expect("mirdump: cannot write output");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    // Used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc.
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(1);
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1].contains("lib"));
    let dir = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    if !dir.is_empty() && is_lib && name.starts_with("openid4vp") {
        let out = format!("{dir}/{name}.json");
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
