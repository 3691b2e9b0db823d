//! rustc wrapper: compiles the crate exactly as cargo asked, and for the crates named in
//! HT_FACTS_CRATES also writes the type-checked program (MIR before drop elaboration, types,
//! impls, ADTs, resolved callees) as JSON to $HT_FACTS_OUT/<crate>.json.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.trimmed_def_paths = false;
    }
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        emit(tcx, &self.out);
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER / RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let wanted = std::env::var("HT_FACTS_CRATES").unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    if !is_test && wanted.split(',').any(|w| w == name) {
        let dir = std::env::var("HT_FACTS_OUT").expect("HT_FACTS_OUT");
        let out = format!("{}/{}.json", dir, name);
        let mut cb = Cb { out };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        struct Plain;
        impl rustc_driver::Callbacks for Plain {}
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    defs: BTreeMap<String, String>,
    adts: BTreeMap<String, String>,
    defkeys: HashMap<DefId, String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }
    fn span(&self, sp: rustc_span::Span) -> (String, usize) {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        (f, loc.line)
    }
    fn line(&self, sp: rustc_span::Span) -> usize {
        self.span(sp).1
    }
    fn def(&mut self, d: DefId) -> String {
        if let Some(k) = self.defkeys.get(&d) {
            return q(k);
        }
        let tcx = self.tcx;
        let key = format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose());
        self.defkeys.insert(d, key.clone());
        let mut o = String::from("{");
        let kind = tcx.def_kind(d);
        let _ = write!(o, "\"path\":{},\"kind\":{},\"krate\":{}", q(&self.path(d)), q(&format!("{:?}", kind)), q(tcx.crate_name(d.krate).as_str()));
        if let Some(n) = tcx.opt_item_name(d) {
            let _ = write!(o, ",\"name\":{}", q(n.as_str()));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::AssocConst | DefKind::AssocTy) {
            if let Some(p) = tcx.opt_parent(d) {
                match tcx.def_kind(p) {
                    DefKind::Trait => {
                        let _ = write!(o, ",\"trait\":{}", q(&self.path(p)));
                    }
                    DefKind::Impl { of_trait } => {
                        let s = self.ty(tcx.type_of(p).instantiate_identity().skip_norm_wip());
                        let pk = self.def(p);
                        let _ = write!(o, ",\"impl\":{},\"self_ty\":{}", pk, s);
                        if of_trait {
                            let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                            let _ = write!(o, ",\"impl_trait\":{}", q(&self.path(tr.def_id)));
                            let a = self.args(tr.args);
                            let _ = write!(o, ",\"impl_trait_args\":{}", a);
                        }
                    }
                    _ => {}
                }
            }
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let _ = write!(o, ",\"unsafe\":{}", !sig.safety().is_safe());
            if d.is_local() {
                let ins: Vec<String> = sig.inputs().iter().map(|t| self.ty(*t).to_string()).collect();
                let out = self.ty(sig.output());
                let _ = write!(o, ",\"inputs\":[{}],\"output\":{}", ins.join(","), out);
                let g = tcx.generics_of(d);
                let mut names = vec![];
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        names.push(q(p.name.as_str()));
                    }
                }
                let _ = write!(o, ",\"generics\":[{}]", names.join(","));
                let _ = write!(o, ",\"async\":{}", tcx.asyncness(d).is_async());
                let ps: Vec<String> = with_no_trimmed_paths!(tcx.param_env(d).caller_bounds().map(|c| q(&format!("{:?}", c))).collect());
                let _ = write!(o, ",\"preds\":[{}]", ps.join(","));
            }
        }
        if d.is_local() {
            let (f, l) = self.span(tcx.def_span(d));
            let _ = write!(o, ",\"file\":{},\"line\":{}", q(&f), l);
            let ev = tcx.effective_visibilities(());
            let l = d.expect_local();
            let _ = write!(o, ",\"reachable\":{},\"exported\":{}", ev.is_reachable(l), ev.is_exported(l));
            if !matches!(kind, DefKind::Closure | DefKind::Impl { .. } | DefKind::AnonConst | DefKind::SyntheticCoroutineBody) {
                let _ = write!(o, ",\"pub\":{}", tcx.visibility(d).is_public());
            }
        }
        if matches!(kind, DefKind::Closure) {
            if let Some(p) = tcx.opt_parent(d) {
                let pk = self.def(p);
                let _ = write!(o, ",\"parent\":{}", pk);
            }
            let ck = format!("{:?}", tcx.coroutine_kind(d));
            let _ = write!(o, ",\"coroutine\":{}", q(&ck));
            if d.is_local() {
                let (f, l) = self.span(tcx.def_span(d));
                let _ = write!(o, ",\"file2\":{},\"line2\":{}", q(&f), l);
            }
        }
        o.push('}');
        self.defs.insert(key.clone(), o);
        q(&key)
    }
    fn args(&mut self, a: &[ty::GenericArg<'tcx>]) -> String {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t).to_string()),
                GenericArgKind::Const(c) => v.push(format!("{{\"const\":{}}}", q(&format!("{}", c)))),
                _ => {}
            }
        }
        format!("[{}]", v.join(","))
    }
    /// Marker traits the (lifetime-only generic) type implements according to the trait solver.
    fn autos(&mut self, d: DefId) -> Vec<String> {
        let tcx = self.tcx;
        let li = tcx.lang_items();
        let mut ts: Vec<(&str, Option<DefId>)> = vec![("Send", tcx.get_diagnostic_item(rustc_span::sym::Send)), ("Sync", li.sync_trait()), ("Unpin", li.unpin_trait()), ("Clone", li.clone_trait()), ("Copy", li.copy_trait())];
        ts.retain(|x| x.1.is_some());
        let g = tcx.generics_of(d);
        let has_ty = (0..g.count()).any(|i| !matches!(g.param_at(i, tcx).kind, ty::GenericParamDefKind::Lifetime));
        if has_ty {
            return vec![q("?")];
        }
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let env = tcx.param_env(d);
        let mut out = vec![];
        for (n, tr) in ts {
            let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
            if infcx.type_implements_trait(tr.unwrap(), [t], env).must_apply_modulo_regions() {
                out.push(q(n));
            }
        }
        out
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let tcx = self.tcx;
        let d = def.did();
        let p = self.path(d);
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), String::new());
        let mut vs = vec![];
        let is_enum = def.is_enum();
        let generics: Vec<String> = {
            let g = tcx.generics_of(d);
            (0..g.count()).map(|i| g.param_at(i, tcx)).filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)).map(|p| q(p.name.as_str())).collect()
        };
        let discrs: Vec<u128> = if is_enum { def.discriminants(tcx).map(|(_, x)| x.val).collect() } else { vec![0] };
        for (i, v) in def.variants().iter().enumerate() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = if d.is_local() { self.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()).to_string() } else { "null".into() };
                let vis = if d.is_local() { f.vis.is_public() } else { false };
                fs.push(format!("{{\"name\":{},\"ty\":{},\"pub\":{}}}", q(f.name.as_str()), t, vis));
            }
            vs.push(format!("{{\"name\":{},\"discr\":\"{}\",\"ctor\":{},\"fields\":[{}]}}", q(v.name.as_str()), discrs.get(i).copied().unwrap_or(0), q(&format!("{:?}", v.ctor_kind())), fs.join(",")));
        }
        let key = self.def(d);
        let mut o = format!("{{\"def\":{},\"enum\":{},\"local\":{},\"generics\":[{}],\"variants\":[{}]", key, is_enum, d.is_local(), generics.join(","), vs.join(","));
        if d.is_local() {
            let _ = write!(o, ",\"auto\":[{}]", self.autos(d).join(","));
            let ex = tcx.effective_visibilities(()).is_exported(d.expect_local());
            let _ = write!(o, ",\"exported\":{}", ex);
        }
        o.push('}');
        self.adts.insert(p, o);
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tyidx.get(&t) {
            return *i;
        }
        let idx = self.types.len();
        self.types.push(String::new());
        self.tyidx.insert(t, idx);
        let tcx = self.tcx;
        let s = match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                format!("{{\"k\":\"prim\",\"n\":{}}}", q(&t.to_string()))
            }
            ty::Adt(d, a) => {
                self.adt(*d);
                let p = self.path(d.did());
                let a = self.args(a);
                format!("{{\"k\":\"adt\",\"d\":{},\"a\":{}}}", q(&p), a)
            }
            ty::Ref(_, t, m) => {
                let i = self.ty(*t);
                format!("{{\"k\":\"ref\",\"t\":{},\"m\":{}}}", i, m.is_mut())
            }
            ty::RawPtr(t, m) => {
                let i = self.ty(*t);
                format!("{{\"k\":\"ptr\",\"t\":{},\"m\":{}}}", i, m.is_mut())
            }
            ty::Slice(t) => {
                let i = self.ty(*t);
                format!("{{\"k\":\"slice\",\"t\":{}}}", i)
            }
            ty::Array(t, c) => {
                let i = self.ty(*t);
                format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", i, q(&c.to_string()))
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"a\":[{}]}}", v.join(","))
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{},\"i\":{}}}", q(p.name.as_str()), p.index),
            ty::FnDef(d, a) => {
                let k = self.def(*d);
                let a = self.args(a.skip_binder());
                format!("{{\"k\":\"fndef\",\"d\":{},\"a\":{}}}", k, a)
            }
            ty::Closure(d, a) => {
                let k = self.def(*d);
                let a = self.args(a.as_closure().parent_args());
                format!("{{\"k\":\"closure\",\"d\":{},\"a\":{}}}", k, a)
            }
            ty::Coroutine(d, _) => {
                let k = self.def(*d);
                format!("{{\"k\":\"coroutine\",\"d\":{}}}", k)
            }
            ty::Dynamic(preds, ..) => {
                let p = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!("{{\"k\":\"dyn\",\"d\":{},\"s\":{}}}", q(&p), q(&with_no_visible_paths!(with_no_trimmed_paths!(t.to_string()))))
            }
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{}}}", q(&t.to_string())),
            ty::Alias(..) => {
                format!("{{\"k\":\"alias\",\"s\":{}}}", q(&with_no_visible_paths!(with_no_trimmed_paths!(t.to_string()))))
            }
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", q(&with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())))),
        };
        self.types[idx] = s;
        idx
    }

    fn bytes_json(b: &[u8]) -> String {
        match std::str::from_utf8(b) {
            Ok(s) => q(s),
            Err(_) => format!("[{}]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
        }
    }

    fn constant(&mut self, c: mir::Const<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        let mut o = format!("{{\"ty\":{}", ti);
        if let ty::FnDef(d, a) = t.kind() {
            let call = self.callee(*d, a.skip_binder(), env);
            let _ = write!(o, ",\"fn\":{}", call);
            o.push('}');
            return o;
        }
        if let mir::Const::Unevaluated(u, _) = c {
            let k = self.def(u.def);
            let a = self.args(u.args);
            let _ = write!(o, ",\"uneval\":{},\"args\":{}", k, a);
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"promoted\":{}", p.index());
                o.push('}');
                return o;
            }
        }
        if let mir::Const::Ty(_, ct) = c {
            let _ = write!(o, ",\"tyconst\":{}", q(&ct.to_string()));
        }
        let scalar_ty = t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point();
        let str_like = matches!(t.kind(), ty::Ref(_, x, _) if x.is_str() || matches!(x.kind(), ty::Slice(e) if *e == tcx.types.u8));
        let arr_ref = matches!(t.kind(), ty::Ref(_, x, _) if matches!(x.kind(), ty::Array(e, _) if *e == tcx.types.u8));
        if scalar_ty || str_like || arr_ref {
            if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                if scalar_ty {
                    if let Some(s) = v.try_to_scalar_int() {
                        let bits = s.to_bits(s.size());
                        let _ = write!(o, ",\"bits\":\"{}\",\"size\":{}", bits, s.size().bytes());
                    }
                } else if str_like {
                    if !matches!(v, ConstValue::Scalar(_) | ConstValue::ZeroSized) {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            let _ = write!(o, ",\"str\":{}", Self::bytes_json(b));
                        }
                    }
                } else if let Some(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v.try_to_scalar() {
                    let (prov, off) = p.prov_and_relative_offset();
                    if let GlobalAlloc::Memory(m) = tcx.global_alloc(prov.alloc_id()) {
                        let m = m.inner();
                        let b = m.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes() as usize..m.len());
                        let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                        let _ = write!(o, ",\"bytes\":[{}]", v.join(","));
                    }
                }
            }
        } else if let mir::Const::Val(v, _) = c {
            if let ConstValue::ZeroSized = v {
                o.push_str(",\"zst\":true");
            } else if let Some(s) = v.try_to_scalar_int() {
                // enum or newtype constants: raw bits
                let bits = s.to_bits(s.size());
                let _ = write!(o, ",\"rawbits\":\"{}\",\"size\":{}", bits, s.size().bytes());
            } else {
                o.push_str(",\"opaque\":true");
            }
        }
        o.push('}');
        o
    }

    fn callee(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let k = self.def(d);
        let aj = self.args(a);
        let mut o = format!("{{\"d\":{},\"a\":{}", k, aj);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, tcx.erase_and_anonymize_regions(a)) {
            let rd = inst.def_id();
            if rd != d {
                let rk = self.def(rd);
                let ra = self.args(inst.args);
                let _ = write!(o, ",\"r\":{},\"ra\":{}", rk, ra);
            } else {
                o.push_str(",\"same\":true");
            }
            match inst.def {
                ty::InstanceKind::Virtual(..) => o.push_str(",\"virtual\":true"),
                _ => {}
            }
        }
        o.push('}');
        o
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.index(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(n, i) => format!("[\"v\",{},{}]", i.index(), q(n.map(|s| s.to_string()).unwrap_or_default().as_str())),
                _ => "[\"x\"]".to_string(),
            };
            v.push(s);
        }
        format!("[{},[{}]]", p.local.index(), v.join(","))
    }
    fn operand(&mut self, op: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c.const_, env)),
            Operand::RuntimeChecks(_) => "[\"rc\"]".to_string(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, env)),
            Rvalue::Repeat(o, c) => format!("[\"repeat\",{},{}]", self.operand(o, env), q(&c.to_string())),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", self.def(*d)),
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", q(&format!("{:?}", k)), self.operand(o, env), t)
            }
            Rvalue::BinaryOp(b, x) => format!("[\"bin\",{},{},{}]", q(&format!("{:?}", b)), self.operand(&x.0, env), self.operand(&x.1, env)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", q(&format!("{:?}", u)), self.operand(o, env)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(o, env)).collect();
                let k = match &**k {
                    AggregateKind::Array(t) => format!("{{\"k\":\"array\",\"t\":{}}}", self.ty(*t)),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        let p = self.path(*d);
                        let a = self.args(a);
                        format!("{{\"k\":\"adt\",\"d\":{},\"v\":{},\"vn\":{},\"a\":{},\"uf\":{}}}", q(&p), v.index(), q(def.variant(*v).name.as_str()), a, f.map(|f| f.index() as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, a) => {
                        let k = self.def(*d);
                        let a = self.args(a.as_closure().parent_args());
                        format!("{{\"k\":\"closure\",\"d\":{},\"a\":{}}}", k, a)
                    }
                    AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        format!("{{\"k\":\"coroutine\",\"d\":{}}}", self.def(*d))
                    }
                    AggregateKind::RawPtr(..) => "{\"k\":\"rawptr\"}".to_string(),
                };
                format!("[\"agg\",{},[{}]]", k, ops.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o, env)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(p)),
        }
    }
    fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(o, "{{\"argc\":{},\"locals\":[{}]", b.arg_count, locals.join(","));
        if let Some(sp) = b.spread_arg {
            let _ = write!(o, ",\"spread\":{}", sp.index());
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.index(), q(v.name.as_str())));
                }
            }
        }
        let _ = write!(o, ",\"names\":[{}],\"blocks\":[", names.join(","));
        for (bi, bb) in b.basic_blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(&x.0);
                        let r = self.rvalue(&x.1, env);
                        ss.push(format!("[\"=\",{},{},{}]", p, r, self.line(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        ss.push(format!("[\"sd\",{},{}]", p, variant_index.index()));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let op = self.operand(discr, env);
                    let dt = discr.ty(&b.local_decls, tcx);
                    let dt = self.ty(dt);
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.index())).collect();
                    format!("[\"switch\",{},{},[{}],{}]", op, dt, v.join(","), targets.otherwise().index())
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { target, place, .. } => {
                    let p = self.place(place);
                    format!("[\"drop\",{},{}]", target.index(), p)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, env);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let d = self.place(destination);
                    let user = !t.source_info.span.from_expansion();
                    let exp = t.source_info.span.ctxt().outer_expn_data();
                    let mac = match exp.kind {
                        rustc_span::ExpnKind::Macro(_, n) => n.to_string(),
                        rustc_span::ExpnKind::Desugaring(k) => format!("desugar:{:?}", k),
                        _ => String::new(),
                    };
                    format!("[\"call\",{},[{}],{},{},{},{}]", f, a.join(","), d, target.map(|t| t.index() as i64).unwrap_or(-1), user, q(&mac))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, env);
                    let (n, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![self.operand(len, env), self.operand(index, env)]),
                        AssertKind::Overflow(op, a, b) => (format!("Overflow:{:?}", op), vec![self.operand(a, env), self.operand(b, env)]),
                        AssertKind::OverflowNeg(a) => ("OverflowNeg".into(), vec![self.operand(a, env)]),
                        AssertKind::DivisionByZero(a) => ("DivisionByZero".into(), vec![self.operand(a, env)]),
                        AssertKind::RemainderByZero(a) => ("RemainderByZero".into(), vec![self.operand(a, env)]),
                        _ => ("Other".into(), vec![]),
                    };
                    format!("[\"assert\",{},{},{},[{}],{}]", c, expected, q(&n), ops.join(","), target.index())
                }
                TerminatorKind::Yield { resume, resume_arg, .. } => {
                    let p = self.place(resume_arg);
                    format!("[\"yield\",{},{}]", resume.index(), p)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                _ => "[\"other\"]".into(),
            };
            let _ = write!(o, "{{\"s\":[{}],\"t\":{},\"l\":{},\"c\":{}}}", ss.join(","), tj, line, bb.is_cleanup);
        }
        o.push_str("]}");
        o
    }
}

fn emit(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx { tcx, types: vec![], tyidx: HashMap::new(), defs: BTreeMap::new(), adts: BTreeMap::new(), defkeys: HashMap::new() };
    // 1. clone every body before anything steals it
    let mut bodies = vec![];
    for d in tcx.hir_body_owners() {
        let (b, p) = tcx.mir_promoted(d);
        let b = b.borrow().clone();
        let p = p.borrow().clone();
        bodies.push((d, b, p));
    }
    let mut bj: BTreeMap<String, String> = BTreeMap::new();
    for (d, b, proms) in &bodies {
        let env = TypingEnv::non_body_analysis(tcx, tcx.typeck_root_def_id(d.to_def_id()));
        let key = cx.def(d.to_def_id());
        let main = cx.body(b, env);
        let ps: Vec<String> = proms.iter().map(|p| cx.body(p, env)).collect();
        bj.insert(key, format!("{{\"body\":{},\"promoted\":[{}]}}", main, ps.join(",")));
    }
    // 2. impls and items
    let mut impls = vec![];
    let mut traits = vec![];
    let mut consts = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Impl { of_trait } => {
                let st = cx.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                let key = cx.def(d);
                let mut o = format!("{{\"def\":{},\"self_ty\":{}", key, st);
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let tp = cx.path(tr.def_id);
                    let a = cx.args(tr.args);
                    let _ = write!(o, ",\"trait\":{},\"trait_args\":{},\"neg\":{},\"unsafe\":{}", q(&tp), a,
                        tcx.impl_polarity(d) == ty::ImplPolarity::Negative, false);
                }
                let derived = rustc_middle::ty::TyCtxt::is_automatically_derived(tcx, d);
                let mut items = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    let k = cx.def(it.def_id);
                    let mut extra = String::new();
                    if matches!(it.kind, ty::AssocKind::Type { .. }) {
                        let t = cx.ty(tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip());
                        extra = format!(",\"ty\":{}", t);
                    }
                    let nm = it.opt_name().map(|n| n.to_string()).unwrap_or_default();
                    let tid = match it.trait_item_def_id() { Some(t) => cx.def(t), None => "null".to_string() };
                    items.push(format!("{{\"name\":{},\"def\":{},\"trait_item\":{}{}}}", q(&nm), k, tid, extra));
                }
                let _ = write!(o, ",\"derived\":{},\"items\":[{}]}}", derived, items.join(","));
                impls.push(o);
            }
            DefKind::Trait => {
                let key = cx.def(d);
                let mut items = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    let k = cx.def(it.def_id);
                    items.push(format!("{{\"name\":{},\"def\":{},\"default\":{}}}", q(&it.opt_name().map(|n| n.to_string()).unwrap_or_default()), k, it.defaultness(tcx).has_value()));
                }
                traits.push(format!("{{\"def\":{},\"items\":[{}]}}", key, items.join(",")));
            }
            DefKind::Const { .. } | DefKind::Static { .. } => {
                let t = cx.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                let k = cx.def(d);
                consts.push(format!("[{},{}]", k, t));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(d);
                cx.adt(def);
            }
            DefKind::Fn | DefKind::AssocFn => {
                cx.def(d);
            }
            _ => {}
        }
    }
    let mut o = String::new();
    let _ = write!(o, "{{\"crate\":{},\n\"bodies\":{{", q(tcx.crate_name(LOCAL_CRATE).as_str()));
    let v: Vec<String> = bj.iter().map(|(k, v)| format!("{}:{}", k, v)).collect();
    o.push_str(&v.join(",\n"));
    let _ = write!(o, "}},\n\"impls\":[{}],\n\"traits\":[{}],\n\"consts\":[{}],\n\"types\":[{}],\n", impls.join(",\n"), traits.join(",\n"), consts.join(","), cx.types.join(",\n"));
    let v: Vec<String> = cx.defs.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
    let _ = write!(o, "\"defs\":{{{}}},\n", v.join(",\n"));
    let v: Vec<String> = cx.adts.iter().filter(|x| !x.1.is_empty()).map(|(k, v)| format!("{}:{}", q(k), v)).collect();
    let _ = write!(o, "\"adts\":{{{}}}}}\n", v.join(",\n"));
    std::fs::write(out, o).expect("write facts");
}
