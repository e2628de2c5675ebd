// MIR fact extractor: a rustc driver (used as RUSTC_WORKSPACE_WRAPPER) that writes, for every
// workspace crate it compiles, the monomorphic MIR of all of its non-generic functions and of
// everything (closures, generic instances, selected std functions) reachable from them.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_structures;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write;

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        if let Ok(dir) = std::env::var("MIRDUMP_OUT") {
            let ty = if tcx.crate_types().iter().any(|t| *t == rustc_structures::CrateType::Executable) { "bin" } else { "lib" };
            if !tcx.sess.is_test_crate() {
                let mut d = Dumper::new(tcx);
                d.run();
                let out = d.finish();
                std::fs::write(format!("{dir}/{krate}.{ty}.json"), out).unwrap();
            }
        }
        Compilation::Continue
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => { write!(o, "\\u{:04x}", c as u32).unwrap() }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: VecDeque<(Instance<'tcx>, Option<DefId>)>,
    seen: HashSet<Instance<'tcx>>,
    seen_const: HashSet<DefId>,
    bodies: Vec<String>,
    tys: Vec<String>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, String>,
}

const WS: &[&str] = &["wat_syntax", "wat_parser", "wat_formatter", "wat_service", "wat_server"];

impl<'tcx> Dumper<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Dumper { tcx, queue: VecDeque::new(), seen: HashSet::new(), seen_const: HashSet::new(), bodies: vec![], tys: vec![], ty_ids: HashMap::new(), adts: BTreeMap::new() }
    }
    fn env(&self) -> TypingEnv<'tcx> { TypingEnv::fully_monomorphized() }
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_crate_prefix!(rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)))).replace("crate::", &format!("{}::", self.tcx.crate_name(LOCAL_CRATE)))
    }
    fn ty_str(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_crate_prefix!(rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(t.to_string()))).replace("crate::", &format!("{}::", self.tcx.crate_name(LOCAL_CRATE)))
    }
    fn krate(&self, d: DefId) -> String { self.tcx.crate_name(d.krate).to_string() }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.ty_ids.get(&t) { return *i; }
        let id = self.tys.len();
        self.tys.push(String::new());
        self.ty_ids.insert(t, id);
        let s = match t.kind() {
            ty::Adt(def, args) => {
                self.adt(*def);
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                format!("{{\"k\":\"adt\",\"p\":{},\"a\":[{}]}}", esc(&self.path(def.did())), a.join(","))
            }
            ty::Closure(d, _) => format!("{{\"k\":\"closure\",\"p\":{}}}", esc(&self.path(*d))),
            ty::FnDef(d, args) => {
                let s = self.callee(*d, args.skip_binder());
                format!("{{\"k\":\"fndef\",\"c\":{}}}", s)
            }
            ty::Ref(_, x, m) => { let i = self.ty(*x); format!("{{\"k\":\"ref\",\"t\":{i},\"m\":{}}}", m.is_mut()) }
            ty::RawPtr(x, _) => { let i = self.ty(*x); format!("{{\"k\":\"ptr\",\"t\":{i}}}") }
            ty::Tuple(l) => { let a: Vec<String> = l.iter().map(|x| self.ty(x).to_string()).collect(); format!("{{\"k\":\"tuple\",\"a\":[{}]}}", a.join(",")) }
            ty::Array(x, n) => { let i = self.ty(*x); let n = n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into()); format!("{{\"k\":\"array\",\"t\":{i},\"n\":{n}}}") }
            ty::Slice(x) => { let i = self.ty(*x); format!("{{\"k\":\"slice\",\"t\":{i}}}") }
            _ => format!("{{\"k\":\"o\",\"s\":{}}}", esc(&self.ty_str(t))),
        };
        self.tys[id] = s;
        id
    }

    fn field_types(&self, v: &ty::VariantDef) -> String {
        let l: Vec<String> = v.fields.iter().map(|f| esc(&self.ty_str(self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))).collect();
        l.join(",")
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let p = self.path(def.did());
        if self.adts.contains_key(&p) { return; }
        self.adts.insert(p.clone(), String::new());
        let mut vs = vec![];
        if def.is_enum() {
            for (i, dis) in def.discriminants(self.tcx) {
                let v = def.variant(i);
                let f: Vec<String> = v.fields.iter().map(|f| esc(f.name.as_str())).collect();
                let ft = self.field_types(v);
                vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}],\"ft\":[{}]}}", esc(v.name.as_str()), dis.val as i128, f.join(","), ft));
            }
        } else if def.is_struct() {
            let v = def.non_enum_variant();
            let f: Vec<String> = v.fields.iter().map(|f| esc(f.name.as_str())).collect();
            let ft = self.field_types(v);
            vs.push(format!("{{\"n\":{},\"d\":0,\"f\":[{}],\"ft\":[{}]}}", esc(v.name.as_str()), f.join(","), ft));
        }
        let repr = def.repr().int.map(|i| format!("{:?}", i)).unwrap_or_default();
        let s = format!("{{\"enum\":{},\"repr\":{},\"v\":[{}]}}", def.is_enum(), esc(&repr), vs.join(","));
        self.adts.insert(p, s);
        // field types of the protocol and workspace crates, so that fields can be named
        for v in def.variants() {
            for f in v.fields.iter() {
                let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                for a in t.walk() {
                    if let Some(t) = a.as_type() {
                        if let ty::Adt(d, _) = t.kind() {
                            let k = self.krate(d.did());
                            if k.starts_with("wat_") || matches!(k.as_str(), "lsp_types" | "lsp_server" | "line_index") { self.adt(*d); }
                        }
                    }
                }
            }
        }
    }

    fn interesting_std(&self, d: DefId) -> bool {
        let p = self.path(d);
        let ok = ["core::option::", "core::result::", "core::iter::", "core::bool::", "core::ops::control_flow", "core::ops::try_trait", "core::mem::maybe", "core::cmp::", "core::convert::", "core::ops::function", "core::array::"];
        ok.iter().any(|x| p.contains(x))
    }

    fn sym(&self, i: Instance<'tcx>) -> String { self.tcx.symbol_name(i).name.to_string() }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = String::new();
        write!(s, "{{\"p\":{},\"cr\":{}", esc(&self.path(d)), esc(&self.krate(d))).unwrap();
        let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let cargs: Vec<String> = args.consts().map(|c| c.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into())).collect();
        write!(s, ",\"ta\":[{}],\"ca\":[{}]", targs.join(","), cargs.join(",")).unwrap();
        if let Some(tr) = tcx.trait_of_assoc(d) { write!(s, ",\"tr\":{},\"m\":{}", esc(&self.path(tr)), esc(tcx.item_name(d).as_str())).unwrap(); }
        else if let Some(n) = tcx.opt_item_name(d) { write!(s, ",\"m\":{}", esc(n.as_str())).unwrap(); }
        if tcx.is_intrinsic(d, tcx.item_name(d)) { s.push_str(",\"intr\":true"); }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let v = tcx.parent(d);
            // constructor of a tuple struct / variant used as a function
            let (adt, idx) = if matches!(tcx.def_kind(v), DefKind::Variant) { let a = tcx.parent(v); let ad = tcx.adt_def(a); self.adt(ad); (a, ad.variant_index_with_id(v).as_usize()) } else { self.adt(tcx.adt_def(v)); (v, 0) };
            write!(s, ",\"ctor\":[{},{}]", esc(&self.path(adt)), idx).unwrap();
        }
        match Instance::try_resolve(tcx, self.env(), d, args) {
            Ok(Some(inst)) => {
                let rd = inst.def_id();
                match inst.def {
                    InstanceKind::Virtual(..) => { s.push_str(",\"virt\":true"); }
                    InstanceKind::Item(_) => {
                        let k = self.krate(rd);
                        write!(s, ",\"rp\":{},\"rcr\":{}", esc(&self.path(rd)), esc(&k)).unwrap();
                        if let Some(im) = tcx.impl_of_assoc(rd) { let st = self.ty(tcx.type_of(im).instantiate_identity().skip_norm_wip()); write!(s, ",\"self\":{}", st).unwrap(); }
                        let ws = WS.contains(&k.as_str());
                        let want = ws || (matches!(k.as_str(), "core" | "alloc" | "std") && self.interesting_std(rd));
                        if want && !matches!(tcx.def_kind(rd), DefKind::Ctor(..)) && !tcx.is_foreign_item(rd) {
                            let generic = inst.args.non_erasable_generics().next().is_some();
                            if rd.is_local() || (tcx.is_mir_available(rd) && (generic || !ws)) {
                                self.enqueue(inst);
                            }
                            write!(s, ",\"s\":{}", esc(&self.sym(inst))).unwrap();
                        }
                    }
                    _ => { write!(s, ",\"shim\":{}", esc(&format!("{:?}", inst.def).split('(').next().unwrap_or(""))).unwrap(); }
                }
            }
            _ => {}
        }
        s.push('}');
        s
    }

    fn enqueue(&mut self, i: Instance<'tcx>) {
        if self.seen.insert(i) { self.queue.push_back((i, None)); }
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        for d in tcx.hir_body_owners() {
            let did = d.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => {
                    if tcx.generics_of(did).requires_monomorphization(tcx) { continue; }
                    self.enqueue(Instance::mono(tcx, did));
                }
                DefKind::Static { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. } => { self.const_body(did); }
                _ => {}
            }
        }
        while let Some((i, _)) = self.queue.pop_front() {
            self.dump_instance(i);
        }
    }

    fn const_body(&mut self, d: DefId) {
        let tcx = self.tcx;
        if !self.seen_const.insert(d) { return; }
        if !d.is_local() { return; }
        if tcx.generics_of(d).requires_monomorphization(tcx) { return; }
        let body = tcx.mir_for_ctfe(d).clone();
        let inst = Instance::mono(tcx, d);
        let key = format!("const:{}", self.path(d));
        let prom = tcx.promoted_mir(d).iter().cloned().collect::<Vec<_>>();
        self.dump_body(inst, body, prom, key, d);
    }

    fn dump_instance(&mut self, i: Instance<'tcx>) {
        let tcx = self.tcx;
        let d = i.def_id();
        let body = tcx.instance_mir(i.def).clone();
        let prom = if let InstanceKind::Item(d) = i.def { tcx.promoted_mir(d).iter().cloned().collect() } else { vec![] };
        let key = self.sym(i);
        self.dump_body(i, body, prom, key, d);
    }

    fn dump_body(&mut self, i: Instance<'tcx>, body: Body<'tcx>, prom: Vec<Body<'tcx>>, key: String, d: DefId) {
        let tcx = self.tcx;
        let env = self.env();
        let body = i.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, body));
        let b = self.body(&body);
        let mut ps = vec![];
        for p in prom {
            let p = i.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, p));
            ps.push(self.body(&p));
        }
        let loc = tcx.sess.source_map().lookup_char_pos(body.span.lo());
        let hi = tcx.sess.source_map().lookup_char_pos(body.span.hi());
        let file = loc.file.name.prefer_local_unconditionally().to_string();
        let mut extra = String::new();
        if let Some(im) = tcx.impl_of_assoc(d) {
            if tcx.is_automatically_derived(im) { extra.push_str(",\"derived\":true"); }
            let st = self.ty_str(tcx.type_of(im).instantiate_identity().skip_norm_wip());
            write!(extra, ",\"self\":{}", esc(&st)).unwrap();
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                write!(extra, ",\"tr\":{}", esc(&self.path(tr.skip_binder().def_id))).unwrap();
            }
        }
        if let Some(n) = tcx.opt_item_name(d) { write!(extra, ",\"m\":{}", esc(n.as_str())).unwrap(); }
        if tcx.is_closure_like(d) { write!(extra, ",\"parent\":{}", esc(&self.path(tcx.typeck_root_def_id(d)))).unwrap(); }
        let targs: Vec<String> = i.args.types().map(|t| self.ty(t).to_string()).collect();
        let isgen = if tcx.is_closure_like(d) { tcx.generics_of(tcx.typeck_root_def_id(d)).requires_monomorphization(tcx) } else { tcx.generics_of(d).requires_monomorphization(tcx) };
        let s = format!("{}:{{\"p\":{},\"cr\":{},\"file\":{},\"lo\":{},\"hi\":{},\"exp\":{},\"gen\":{},\"ta\":[{}]{},\"b\":{},\"prom\":[{}]}}",
            esc(&key), esc(&self.path(d)), esc(&self.krate(d)), esc(&file), loc.line, hi.line, body.span.from_expansion(), isgen, targs.join(","), extra, b, ps.join(","));
        self.bodies.push(s);
    }

    fn body(&mut self, b: &Body<'tcx>) -> String {
        let mut s = String::new();
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        write!(s, "{{\"n\":{},\"l\":[{}],\"bb\":[", b.arg_count, locals.join(",")).unwrap();
        let sm = self.tcx.sess.source_map();
        for (bi, bb) in b.basic_blocks.iter().enumerate() {
            if bi > 0 { s.push(','); }
            s.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let x = match &st.kind {
                    StatementKind::Assign(bx) => {
                        let (p, r) = &**bx;
                        let p = self.place(p);
                        let r = self.rvalue(b, r);
                        format!("[\"=\",{p},{r}]")
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        format!("[\"sd\",{p},{}]", variant_index.as_usize())
                    }
                    _ => continue,
                };
                if !first { s.push(','); }
                first = false;
                s.push_str(&x);
            }
            s.push_str("],\"t\":");
            let term = bb.terminator();
            let line = { let sp = term.source_info.span.source_callsite(); sm.lookup_char_pos(sp.lo()).line };
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr);
                    let ts: Vec<String> = targets.iter().map(|(v, t)| format!("[{},{}]", v, t.as_usize())).collect();
                    format!("[\"sw\",{o},[{}],{},{line}]", ts.join(","), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unr\"]".into(),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place); format!("[\"drop\",{p},{}]", target.as_usize()) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let dd = self.place(destination);
                    format!("[\"call\",{f},[{}],{dd},{},{line}]", a.join(","), target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let c = self.operand(cond);
                    let m = format!("{:?}", msg);
                    format!("[\"assert\",{c},{expected},{},{},{line}]", target.as_usize(), esc(m.split('(').next().unwrap_or("")))
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unw\"]".into(),
                _ => "[\"other\"]".into(),
            };
            s.push_str(&t);
            write!(s, ",\"c\":{}}}", bb.is_cleanup).unwrap();
        }
        s.push_str("]}");
        s
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut s = format!("[{}", p.local.as_usize());
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => s.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => write!(s, ",{}", f.as_usize()).unwrap(),
                ProjectionElem::Downcast(_, v) => write!(s, ",[\"d\",{}]", v.as_usize()).unwrap(),
                ProjectionElem::Index(l) => write!(s, ",[\"i\",{}]", l.as_usize()).unwrap(),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => write!(s, ",[\"ci\",{},{},{}]", offset, min_length, from_end).unwrap(),
                ProjectionElem::Subslice { from, to, from_end } => write!(s, ",[\"ss\",{},{},{}]", from, to, from_end).unwrap(),
                _ => {}
            }
        }
        s.push(']');
        s
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"p\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"c\",{}]", self.cnst(&c.const_)),
            #[allow(unreachable_patterns)]
            _ => "[\"c\",{\"k\":\"bool_rt\"}]".into(),
        }
    }

    fn cnst(&mut self, c: &mir::Const<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        if let ty::FnDef(..) = t.kind() { return format!("{{\"k\":\"fn\",\"t\":{ti}}}"); }
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return format!("{{\"k\":\"prom\",\"i\":{},\"t\":{ti}}}", p.as_usize());
            }
            let p = self.path(u.def);
            let k = self.krate(u.def);
            if WS.contains(&k.as_str()) {
                if !tcx.generics_of(u.def).requires_monomorphization(tcx) {
                    self.const_body(u.def);
                    return format!("{{\"k\":\"const\",\"p\":{},\"t\":{ti}}}", esc(&p));
                }
            }
        }
        match c.eval(tcx, self.env(), rustc_span::DUMMY_SP) {
            Ok(v) => {
                match v {
                    ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                        let bits = i.to_bits(i.size());
                        let (k, v) = match t.kind() {
                            ty::Bool => ("bool", if bits == 0 { "false".into() } else { "true".into() }),
                            ty::Char => ("char", bits.to_string()),
                            ty::Int(_) => { let sz = i.size().bits(); let sh = 128 - sz; let sv = ((bits << sh) as i128) >> sh; ("int", sv.to_string()) }
                            ty::Uint(_) => ("int", bits.to_string()),
                            _ => ("scalar", bits.to_string()),
                        };
                        format!("{{\"k\":\"{k}\",\"v\":{v},\"t\":{ti}}}")
                    }
                    ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) => {
                        let aid = p.provenance.alloc_id();
                        match tcx.try_get_global_alloc(aid) {
                            Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) => {
                                let pp = self.path(d);
                                format!("{{\"k\":\"static\",\"p\":{},\"t\":{ti}}}", esc(&pp))
                            }
                            Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(a)) => {
                                let a = a.inner();
                                let n = a.size().bytes_usize();
                                if a.provenance().ptrs().is_empty() && n <= 4096 {
                                    let by = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                                    let l: Vec<String> = by.iter().map(|b| b.to_string()).collect();
                                    format!("{{\"k\":\"bytes\",\"v\":[{}],\"t\":{ti}}}", l.join(","))
                                } else { format!("{{\"k\":\"mem\",\"t\":{ti}}}") }
                            }
                            _ => format!("{{\"k\":\"ptr\",\"t\":{ti}}}"),
                        }
                    }
                    ConstValue::ZeroSized => format!("{{\"k\":\"zst\",\"t\":{ti}}}"),
                    ConstValue::Slice { .. } => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            if matches!(t.builtin_deref(true).map(|x| x.kind().clone()), Some(ty::Str)) {
                                return format!("{{\"k\":\"str\",\"v\":{},\"t\":{ti}}}", esc(&String::from_utf8_lossy(b)));
                            }
                            let l: Vec<String> = b.iter().map(|b| b.to_string()).collect();
                            return format!("{{\"k\":\"bytes\",\"v\":[{}],\"t\":{ti}}}", l.join(","));
                        }
                        format!("{{\"k\":\"slice\",\"t\":{ti}}}")
                    }
                    ConstValue::Indirect { .. } => {
                        if matches!(t.builtin_deref(true).map(|x| x.kind().clone()), Some(ty::Str)) {
                            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                return format!("{{\"k\":\"str\",\"v\":{},\"t\":{ti}}}", esc(&String::from_utf8_lossy(b)));
                            }
                        }
                        // try to destructure simple ADT constants (e.g. None::<T>)
                        let okk = match t.kind() { ty::Adt(a, _) => !a.is_union(), ty::Tuple(_) | ty::Array(..) => true, _ => false };
                        if let Some(dc) = if okk { tcx.try_destructure_mir_constant_for_user_output(v, t) } else { None } {
                            let mut fs = vec![];
                            for (fv, ft) in dc.fields.iter() {
                                let fc = mir::Const::Val(*fv, *ft);
                                fs.push(self.cnst(&fc));
                            }
                            return format!("{{\"k\":\"agg\",\"vi\":{},\"f\":[{}],\"t\":{ti}}}", dc.variant.map(|x| x.as_usize().to_string()).unwrap_or("null".into()), fs.join(","));
                        }
                        format!("{{\"k\":\"indirect\",\"t\":{ti}}}")
                    }
                }
            }
            Err(_) => format!("{{\"k\":\"err\",\"t\":{ti}}}"),
        }
    }

    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.operand(o), n.try_to_target_usize(self.tcx).unwrap_or(0)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(k, BorrowKind::Mut { .. })),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(p)),
            Rvalue::Cast(k, o, t) => { let o = self.operand(o); let t = self.ty(*t); format!("[\"cast\",{},{o},{t}]", esc(&format!("{:?}", k))) }
            Rvalue::BinaryOp(op, ops) => { let x = self.operand(&ops.0); let y = self.operand(&ops.1); format!("[\"bin\",\"{:?}\",{x},{y}]", op) }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o)),
            Rvalue::Discriminant(p) => {
                let pt = p.ty(&b.local_decls, self.tcx).ty;
                let t = self.ty(pt);
                format!("[\"discr\",{},{t}]", self.place(p))
            }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|x| self.operand(x)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, _, _, _) => { let ad = self.tcx.adt_def(*d); self.adt(ad); format!("[\"adt\",{},{}]", esc(&self.path(*d)), v.as_usize()) }
                    AggregateKind::Closure(d, args) => {
                        let inst = Instance::new_raw(*d, args);
                        self.enqueue(inst);
                        format!("[\"closure\",{},{}]", esc(&self.sym(inst)), esc(&self.path(*d)))
                    }
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{kk},[{}]]", o.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"p\",{}]]", self.place(p)),
            _ => { let s = format!("{:?}", r); format!("[\"other\",{}]", esc(&s)) }
        }
    }

    fn finish(mut self) -> String {
        let tcx = self.tcx;
        // function inventory
        let mut fns = vec![];
        for d in tcx.hir_body_owners() {
            let did = d.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) { continue; }
            let sp = tcx.def_span(did);
            let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
            let gen = tcx.generics_of(did).requires_monomorphization(tcx);
            fns.push(format!("{{\"p\":{},\"file\":{},\"line\":{},\"gen\":{},\"exp\":{}}}", esc(&self.path(did)), esc(&loc.file.name.prefer_local_unconditionally().to_string()), loc.line, gen, sp.from_expansion()));
        }
        let mut s = String::from("{\"bodies\":{\n");
        s.push_str(&self.bodies.join(",\n"));
        s.push_str("},\n\"tys\":[");
        s.push_str(&self.tys.join(",\n"));
        s.push_str("],\n\"adts\":{");
        let a: Vec<String> = std::mem::take(&mut self.adts).iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        s.push_str(&a.join(",\n"));
        s.push_str("},\n\"fns\":[");
        s.push_str(&fns.join(",\n"));
        s.push_str("]}");
        s
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    if std::env::var("MIRDUMP_OUT").is_ok() && args.iter().any(|a| a == "--crate-name") {
        for a in ["-Zmir-opt-level=0", "-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums", "-Coverflow-checks=off", "-Cdebug-assertions=off"] { args.push(a.into()); }
        args.push("--cap-lints=allow".into());
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
