// MIR exporter: a rustc driver that dumps the monomorphic MIR of every contract harness of the crate being compiled and
// of everything they reach, as JSON (PTV_OUT).  Nothing is dropped except: drop glue bodies, unwind edges, debug scopes.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate serde_json;
extern crate rustc_public_bridge;
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::{CrateDef, CrateDefType};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

struct Ex {
    tys: BTreeMap<String, J>, // debug key -> desc
    tyid: HashMap<Ty, usize>,
    tylist: Vec<J>,
    insts: HashMap<Instance, usize>,
    queue: VecDeque<(Instance, usize)>,
    out: Vec<J>,
    vtables: BTreeMap<String, J>,
    vt_done: HashSet<(Ty, Ty)>,
    redirect: HashMap<String, FnDef>,
    allow: Vec<String>,
}

fn strip(s: &str) -> String { s.to_string() }

impl Ex {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tyid.get(&t) { return *i; }
        let id = self.tylist.len();
        self.tyid.insert(t, id);
        self.tylist.push(J::Null);
        let d = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => json!({"k":"bool"}),
                RigidTy::Char => json!({"k":"char"}),
                RigidTy::Int(i) => json!({"k":"int","w":i.num_bytes()*8,"p":matches!(i, IntTy::Isize)}),
                RigidTy::Uint(i) => json!({"k":"uint","w":i.num_bytes()*8,"p":matches!(i, UintTy::Usize)}),
                RigidTy::Float(f) => json!({"k":"float","w":match f {FloatTy::F16=>16,FloatTy::F32=>32,FloatTy::F64=>64,FloatTy::F128=>128}}),
                RigidTy::Str => json!({"k":"str"}),
                RigidTy::Never => json!({"k":"never"}),
                RigidTy::Array(e, n) => { let e = self.ty(e); json!({"k":"array","e":e,"n":n.eval_target_usize().unwrap_or(0)}) }
                RigidTy::Slice(e) => { let e = self.ty(e); json!({"k":"slice","e":e}) }
                RigidTy::RawPtr(e, m) => { let e = self.ty(e); json!({"k":"ptr","e":e,"m":matches!(m, Mutability::Mut)}) }
                RigidTy::Ref(_, e, m) => { let e = self.ty(e); json!({"k":"ref","e":e,"m":matches!(m, Mutability::Mut)}) }
                RigidTy::Tuple(v) => { let v: Vec<usize> = v.iter().map(|t| self.ty(*t)).collect(); json!({"k":"tuple","f":v}) }
                RigidTy::FnDef(d, a) => { let i = Instance::resolve(d, &a).ok().map(|i| self.inst(i)); json!({"k":"fndef","n":strip(&d.name()),"inst":i}) }
                RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
                RigidTy::Closure(d, args) => {
                    let mut ups = vec![];
                    // last generic arg of a closure is the tuple of upvars
                    if let Some(GenericArgKind::Type(t)) = args.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(v)) = t.kind() { for u in v { ups.push(self.ty(u)); } }
                    }
                    json!({"k":"closure","n":strip(&d.name()),"f":ups})
                }
                RigidTy::Dynamic(preds, ..) => {
                    let mut n = String::new();
                    for p in preds.iter() { if let ExistentialPredicate::Trait(tr) = &p.value { n = tr.def_id.name(); } }
                    json!({"k":"dyn","n":n})
                }
                RigidTy::Adt(d, args) => {
                    let mut targs = vec![];
                    for a in args.0.iter() { if let GenericArgKind::Type(t) = a { targs.push(self.ty(*t)); } }
                    let mut vs = vec![];
                    for v in d.variants_iter() {
                        let mut fs = vec![];
                        for f in v.fields() { let ft = self.ty(f.ty_with_args(&args)); fs.push(json!([f.name.to_string(), ft])); }
                        let disc = if d.kind() == AdtKind::Enum { d.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                        vs.push(json!({"n":v.name(),"f":fs,"d":disc}));
                    }
                    json!({"k":"adt","n":strip(&d.name()),"kind":format!("{}",d.kind()),"args":targs,"v":vs})
                }
                o => json!({"k":"other","n":format!("{:?}",o)}),
            },
            o => json!({"k":"other","n":format!("{:?}",o)}),
        };
        let mut d = d;
        d["s"] = json!(format!("{}", t));
        self.tylist[id] = d;
        id
    }
    fn uint(bytes: &[Option<u8>], off: usize, n: usize) -> Option<u128> {
        let mut r: u128 = 0;
        for i in (0..n).rev() { r = (r << 8) | (*bytes.get(off + i)?)? as u128; }
        Some(r)
    }
    fn decode(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> J {
        if depth > 12 { return json!({"op":"deep"}); }
        let k = match t.kind() { TyKind::RigidTy(r) => r, o => return json!({"op":format!("{:?}",o)}) };
        match k {
            RigidTy::Bool => json!({"b": Self::uint(&a.bytes, off, 1).map(|x| x != 0)}),
            RigidTy::Char => json!({"i": Self::uint(&a.bytes, off, 4).unwrap_or(0).to_string()}),
            RigidTy::Int(i) => { let n = i.num_bytes(); match Self::uint(&a.bytes, off, n) { Some(u) => {
                let v: i128 = if n == 16 { u as i128 } else { let sh = 128 - 8 * n; ((u << sh) as i128) >> sh }; json!({"i": v.to_string()}) } None => json!({"op":"undef"}) } }
            RigidTy::Uint(i) => { let n = i.num_bytes(); match Self::uint(&a.bytes, off, n) { Some(u) => json!({"i": u.to_string()}), None => json!({"op":"undef"}) } }
            RigidTy::Float(f) => { let n = match f { FloatTy::F32 => 4, FloatTy::F64 => 8, FloatTy::F16 => 2, FloatTy::F128 => 16 };
                match Self::uint(&a.bytes, off, n) { Some(u) => json!({"f": u.to_string(), "w": n * 8}), None => json!({"op":"undef"}) } }
            RigidTy::Tuple(v) if v.is_empty() => json!({"a": []}),
            RigidTy::FnDef(..) => json!({"a": []}),
            RigidTy::Ref(_, p, _) | RigidTy::RawPtr(p, _) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| *p);
                let addr = Self::uint(&a.bytes, off, 8).unwrap_or(0) as usize;
                match prov {
                    None => json!({"op":"intptr"}),
                    Some(p0) => match GlobalAlloc::from(p0.0) {
                        GlobalAlloc::Memory(m) => match p.kind() {
                            TyKind::RigidTy(RigidTy::Str) => { let n = Self::uint(&a.bytes, off + 8, 8).unwrap_or(0) as usize;
                                let s: Vec<u8> = m.bytes[addr..addr + n].iter().map(|b| b.unwrap_or(0)).collect();
                                json!({"str": String::from_utf8_lossy(&s)}) }
                            TyKind::RigidTy(RigidTy::Slice(e)) => { let n = Self::uint(&a.bytes, off + 8, 8).unwrap_or(0) as usize;
                                let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                let v: Vec<J> = (0..n).map(|i| self.decode(e, &m, addr + i * sz, depth + 1)).collect();
                                json!({"refslice": v}) }
                            _ => { let v = self.decode(p, &m, addr, depth + 1); let pt = self.ty(p); json!({"ref": v, "ty": pt}) }
                        },
                        GlobalAlloc::Static(s) => match s.eval_initializer() {
                            Ok(m) => { let v = self.decode(p, &m, addr, depth + 1); let pt = self.ty(p); json!({"ref": v, "ty": pt, "static": s.name()}) }
                            Err(_) => json!({"op":"static"}),
                        },
                        GlobalAlloc::Function(i) => { let id = self.inst(i); json!({"fn": id}) }
                        _ => json!({"op":"vtable"}),
                    },
                }
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let v: Vec<J> = (0..n).map(|i| self.decode(e, a, off + i * sz, depth + 1)).collect();
                json!({"a": v})
            }
            RigidTy::Tuple(_) | RigidTy::Adt(..) | RigidTy::Closure(..) => {
                let sh = match t.layout() { Ok(l) => l.shape(), Err(_) => return json!({"op":"layout"}) };
                // pick variant
                let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Single { index } => {
                        let o = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|s| s.bytes()).collect(), FieldsShape::Union(_) => return json!({"op":"union"}), _ => vec![] };
                        (index.to_index(), o)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                        let n = match tag { rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => value.size(&rustc_public::target::MachineInfo::target()).bytes() };
                        let is_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let tv = Self::uint(&a.bytes, off + toff, n).unwrap_or(0);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let mut r = 0;
                                if let RigidTy::Adt(d, _) = t.kind().rigid().unwrap() {
                                    for v in d.variants_iter() { let m = if n == 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                        if d.discriminant_for_variant(v.idx()).val & m == tv { r = v.idx().to_index(); } }
                                }
                                r
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let m = if n == 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                let rel = tv.wrapping_sub(*niche_start) & m;
                                let s = niche_variants.start().to_index(); let e = niche_variants.end().to_index();
                                if !is_ptr && rel <= (e - s) as u128 { s + rel as usize } else { untagged_variant.to_index() }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|s| s.bytes()).collect())
                    }
                    VariantsShape::Empty => return json!({"op":"empty"}),
                };
                let ftys: Vec<Ty> = match t.kind().rigid().unwrap() {
                    RigidTy::Tuple(v) => v.clone(),
                    RigidTy::Adt(d, args) => d.variants()[vi].fields().iter().map(|f| f.ty_with_args(args)).collect(),
                    _ => vec![],
                };
                let v: Vec<J> = ftys.iter().enumerate().map(|(i, ft)| self.decode(*ft, a, off + offs.get(i).cloned().unwrap_or(0), depth + 1)).collect();
                json!({"a": v, "v": vi})
            }
            o => json!({"op": format!("{:?}", o)}),
        }
    }
    fn konst(&mut self, c: &MirConst) -> J {
        let t = c.ty();
        let tid = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.decode(t, a, 0, 0),
            ConstantKind::ZeroSized => json!({"a": [], "v": 0}),
            ConstantKind::Ty(tc) => match tc.kind() { TyConstKind::Value(_, a) => self.decode(t, a, 0, 0), _ => json!({"op":"tyconst"}) },
            o => json!({"op": format!("{:?}", o)}),
        };
        json!({"ty": tid, "v": v})
    }
    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => json!("*"),
                ProjectionElem::Field(i, t) => { let t = self.ty(*t); json!(["f", i, t]) }
                ProjectionElem::Index(l) => json!(["i", l]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => json!(["ci", offset, from_end]),
                ProjectionElem::Subslice { from, to, from_end } => json!(["sub", from, to, from_end]),
                ProjectionElem::Downcast(v) => json!(["v", v.to_index()]),
                ProjectionElem::OpaqueCast(_) => json!("oc"),
            });
        }
        json!([p.local, v])
    }
    fn oper(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => json!(["c", self.place(p)]),
            Operand::Move(p) => json!(["m", self.place(p)]),
            Operand::Constant(c) => json!(["k", self.konst(&c.const_)]),
            Operand::RuntimeChecks(_) => json!(["rc"]),
        }
    }
    fn vtable(&mut self, src: Ty, dst: Ty) {
        // walk pointers in parallel to find (concrete, dyn)
        if !self.vt_done.insert((src, dst)) { return; }
        let (s, d) = match (src.kind(), dst.kind()) {
            (TyKind::RigidTy(RigidTy::Ref(_, a, _)), TyKind::RigidTy(RigidTy::Ref(_, b, _)))
            | (TyKind::RigidTy(RigidTy::RawPtr(a, _)), TyKind::RigidTy(RigidTy::RawPtr(b, _)))
            | (TyKind::RigidTy(RigidTy::Ref(_, a, _)), TyKind::RigidTy(RigidTy::RawPtr(b, _))) => (a, b),
            (TyKind::RigidTy(RigidTy::Adt(_, x)), TyKind::RigidTy(RigidTy::Adt(_, y))) => {
                match (x.0.first(), y.0.first()) { (Some(GenericArgKind::Type(a)), Some(GenericArgKind::Type(b))) => (*a, *b), _ => return }
            }
            _ => return,
        };
        if let TyKind::RigidTy(RigidTy::Dynamic(preds, ..)) = d.kind() {
            if let TyKind::RigidTy(RigidTy::Dynamic(..)) = s.kind() { return; }
            for p in preds.iter() {
                if let ExistentialPredicate::Trait(tr) = &p.value {
                    if !tr.def_id.name().starts_with("pt::") { continue; }
                    let tref = tr.with_self_ty(s);
                    let mut m = serde_json::Map::new();
                    for it in tr.def_id.associated_items() {
                        if let AssocKind::Fn { name, .. } = &it.kind {
                            let fd = FnDef_from(&it);
                            let mut args = tref.args().clone();
                            // methods with own (late-bound only) generics need no extra args
                            let _ = &mut args;
                            if let Ok(i) = Instance::resolve(fd, &args) { let id = self.inst(i); m.insert(name.to_string(), json!(id)); }
                        }
                    }
                    let sid = self.ty(s);
                    let key = format!("{}", sid);
                    let e = self.vtables.entry(key).or_insert(json!({}));
                    for (k, v) in m { e[k] = v; }
                }
            }
        }
    }
    fn rval(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> J {
        match r {
            Rvalue::Use(o, _) => json!(["use", self.oper(o)]),
            Rvalue::Ref(_, bk, p) => json!(["ref", self.place(p), matches!(bk, BorrowKind::Mut{..})]),
            Rvalue::Reborrow(_, _, p) => { let p = self.place(p); json!(["use", ["c", p]]) }
            Rvalue::AddressOf(_, p) => json!(["ref", self.place(p), true]),
            Rvalue::BinaryOp(op, a, b) => { let t = self.ty(a.ty(locals).unwrap()); json!(["bin", format!("{:?}", op), self.oper(a), self.oper(b), t]) }
            Rvalue::CheckedBinaryOp(op, a, b) => { let t = self.ty(a.ty(locals).unwrap()); json!(["cbin", format!("{:?}", op), self.oper(a), self.oper(b), t]) }
            Rvalue::UnaryOp(op, a) => { let t = self.ty(a.ty(locals).unwrap()); json!(["un", format!("{:?}", op), self.oper(a), t]) }
            Rvalue::Cast(k, o, t) => {
                let st = o.ty(locals).unwrap();
                if let CastKind::PointerCoercion(PointerCoercion::Unsize) = k { self.vtable(st, *t); }
                let mut extra = J::Null;
                if let CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) = k {
                    if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = st.kind() { if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a) { extra = json!(self.inst(i)); } }
                }
                if let CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) = k {
                    if let TyKind::RigidTy(RigidTy::Closure(d, a)) = st.kind() { if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) { extra = json!(self.inst(i)); } }
                }
                let (s, d) = (self.ty(st), self.ty(*t));
                json!(["cast", format!("{:?}", k), self.oper(o), s, d, extra])
            }
            Rvalue::Discriminant(p) => { let t = self.ty(p.ty(locals).unwrap()); json!(["disc", self.place(p), t]) }
            Rvalue::Len(p) => json!(["len", self.place(p)]),
            Rvalue::CopyForDeref(p) => { let p = self.place(p); json!(["use", ["c", p]]) }
            Rvalue::Repeat(o, n) => json!(["rep", self.oper(o), n.eval_target_usize().unwrap_or(0)]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.oper(o)).collect();
                let kd = match k {
                    AggregateKind::Array(t) => json!(["array", self.ty(*t)]),
                    AggregateKind::Tuple => json!(["tuple"]),
                    AggregateKind::Adt(d, vi, args, _, fi) => { let t = self.ty(d.ty_with_args(args)); json!(["adt", t, vi.to_index(), fi]) }
                    AggregateKind::Closure(d, args) => { let _ = Instance::resolve_closure(*d, args, ClosureKind::Fn).map(|i| self.inst(i)); let t = self.ty(Ty::new_closure(*d, args.clone())); json!(["closure", t]) }
                    AggregateKind::RawPtr(t, _) => json!(["rawptr", self.ty(*t)]),
                    o => json!(["other", format!("{:?}", o)]),
                };
                json!(["agg", kd, v])
            }
            Rvalue::ThreadLocalRef(_) => json!(["tls"]),
        }
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.insts.get(&i) { return *x; }
        let id = self.out.len();
        self.insts.insert(i, id);
        self.out.push(J::Null);
        self.queue.push_back((i, id));
        id
    }
    fn allowed(&self, i: &Instance, name: &str) -> bool {
        // contract primitives have no body for the verifier
        if name.starts_with("pt::ptv::") && !name.starts_with("pt::ptv::m_") { return false; }
        // bodies of functions outside the local crate are exported only when allow-listed (by prefix of the pretty name)
        if i.def_is_local() { return true; }
        self.allow.iter().any(|a| if let Some(s) = a.strip_prefix('*') { name.contains(s) } else { name.starts_with(a.as_str()) })
    }
    fn run_queue(&mut self) {
        while let Some((i, id)) = self.queue.pop_front() {
            let name = i.name().to_string();
            let tname = i.trimmed_name().to_string();
            let kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim" };
            let mut targs = vec![];
            for a in i.args().0.iter() { if let GenericArgKind::Type(t) = a { targs.push(self.ty(*t)); } }
            let mut f = json!({"id": id, "name": name, "tname": tname, "kind": kind, "local": i.def_is_local(), "targs": targs});
            if let Some(n) = i.intrinsic_name() { f["intrinsic"] = json!(n.to_string()); }
            if kind != "virtual" && kind != "intrinsic" && (self.allowed(&i, &name) || kind == "shim" && !name.contains("drop_in_place")) {
                if let Some(b) = i.body() { f["body"] = self.body(&b); }
            }
            self.out[id] = f;
        }
    }
    fn body(&mut self, b: &Body) -> J {
        let locals = b.locals().to_vec();
        let ltys: Vec<usize> = locals.iter().map(|l| self.ty(l.ty)).collect();
        let mut names = serde_json::Map::new();
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value { if p.projection.is_empty() { names.insert(p.local.to_string(), json!(v.name.to_string())); } }
        }
        let mut blocks = vec![];
        for bb in b.blocks.iter() {
            let mut ss = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(p, r) => { let line = s.source_info.span.get_lines().start_line; let p = self.place(p); let r = self.rval(r, &locals); ss.push(json!(["=", p, r, line])); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); ss.push(json!(["sd", p, variant_index.to_index()])); }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => ss.push(json!(["cno"])),
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => json!(["goto", target]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<J> = targets.branches().map(|(v, t)| json!([v.to_string(), t])).collect();
                    let ty = self.ty(discr.ty(&locals).unwrap());
                    json!(["switch", self.oper(discr), br, targets.otherwise(), ty])
                }
                TerminatorKind::Return => json!(["ret"]),
                TerminatorKind::Resume | TerminatorKind::Abort => json!(["resume"]),
                TerminatorKind::Unreachable => json!(["unreach"]),
                TerminatorKind::Drop { place, target, .. } => { let t = self.ty(place.ty(&locals).unwrap()); json!(["drop", self.place(place), target, t]) }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = msg.description().map(|s| s.to_string()).unwrap_or_else(|_| format!("{:?}", msg).chars().take(24).collect());
                    json!(["assert", self.oper(cond), expected, m, target])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&locals).unwrap();
                    let aty: Vec<usize> = args.iter().map(|a| self.ty(a.ty(&locals).unwrap())).collect();
                    let rt = self.ty(destination.ty(&locals).unwrap());
                    let av: Vec<J> = args.iter().map(|a| self.oper(a)).collect();
                    let callee = match fty.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, ga)) => {
                            let dn = d.name();
                            let gt: Vec<usize> = ga.0.iter().filter_map(|a| if let GenericArgKind::Type(t) = a { Some(self.ty(*t)) } else { None }).collect();
                            let r = self.redirect.get(&dn).cloned();
                            let inst = match r { Some(rd) => Instance::resolve(rd, &ga).or_else(|_| Instance::resolve(d, &ga)), None => Instance::resolve(d, &ga) };
                            match inst { Ok(i) => { let id = self.inst(i); json!({"f": id, "dn": dn, "ga": gt}) } Err(_) => json!({"dn": dn, "ga": gt}) }
                        }
                        _ => json!({"ptr": self.oper(func)}),
                    };
                    json!(["call", callee, av, self.place(destination), target, aty, rt])
                }
                o => json!(["other", format!("{:?}", o).chars().take(60).collect::<String>()]),
            };
            blocks.push(json!({"s": ss, "t": t, "l": line}));
        }
        let li = b.span.get_lines();
        json!({"argc": b.arg_locals().len(), "spread": b.spread_arg(), "locals": ltys, "names": names, "blocks": blocks,
               "file": b.span.get_filename().to_string(), "line": li.start_line, "eline": li.end_line})
    }
}

#[allow(non_snake_case)]
fn FnDef_from(it: &AssocItem) -> FnDef { FnDef::try_from_def(it) }
trait TryFromDef { fn try_from_def(it: &AssocItem) -> FnDef; }
impl TryFromDef for FnDef { fn try_from_def(it: &AssocItem) -> FnDef { FnDef(it.def_id.def_id()) } }
trait IsLocal { fn def_is_local(&self) -> bool; }
impl IsLocal for Instance {
    fn def_is_local(&self) -> bool {
        use rustc_public::ty::RigidTy::*;
        match self.ty().kind() { TyKind::RigidTy(FnDef(d, _)) => d.krate().is_local, TyKind::RigidTy(Closure(d, _)) => d.krate().is_local, _ => true }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut rargs = args.clone();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    if rargs.len() > 1 && (rargs[1].ends_with("rustc")) { rargs.remove(1); }
    let out = std::env::var("PTV_OUT").unwrap_or_default();
    let is_target = rargs.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "pt") && !out.is_empty();
    if !is_target {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&args[1]).args(&args[2..]).exec();
        eprintln!("{}", e);
        std::process::exit(1);
    }
    let r = run!(&rargs, || -> ControlFlow<()> {
        if !is_target { return ControlFlow::Continue(()); }
        let allow = std::env::var("PTV_ALLOW").unwrap_or_default().split('\n').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        let mut ex = Ex { tys: BTreeMap::new(), tyid: HashMap::new(), tylist: vec![], insts: HashMap::new(), queue: VecDeque::new(), out: vec![],
            vtables: BTreeMap::new(), vt_done: HashSet::new(), redirect: HashMap::new(), allow };
        let red = std::env::var("PTV_REDIRECT").unwrap_or_default();
        let mut by: HashMap<String, FnDef> = HashMap::new();
        for f in rustc_public::local_crate().fn_defs() { by.insert(f.name().to_string(), f); }
        for l in red.lines() { let mut p = l.split_whitespace(); if let (Some(a), Some(b)) = (p.next(), p.next()) { if let Some(f) = by.get(b) { ex.redirect.insert(a.to_string(), *f); } } }
        let filt = std::env::var("PTV_FILTER").unwrap_or_default();
        let filt: Vec<&str> = filt.split(',').filter(|s| !s.is_empty()).collect();
        let mut roots = vec![];
        for it in rustc_public::all_local_items() {
            let n = it.name().to_string();
            let short = n.rsplit("::").next().unwrap_or("").to_string();
            if std::env::var("PTV_ALL").is_ok() || n.contains("ptv_spec") && short.starts_with("h_") && (filt.is_empty() || filt.iter().any(|f| short.starts_with(f))) {
                if let Ok(i) = Instance::try_from(it) { let id = ex.inst(i); roots.push(json!([n, id])); }
            }
        }
        ex.run_queue();
        let _ = &ex.tys;
        let j = json!({"roots": roots, "fns": ex.out, "tys": ex.tylist, "vt": ex.vtables});
        std::fs::write(&out, serde_json::to_string(&j).unwrap()).unwrap();
        std::process::exit(0);
        #[allow(unreachable_code)]
        ControlFlow::Continue(())
    });
    match r { Ok(_) => {} Err(_) => std::process::exit(1) }
}
