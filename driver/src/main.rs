//! A rustc driver that dumps the monomorphic MIR reachable from the entry functions of a crate.
//!
//! Entry functions are the non-generic functions of the crate being compiled whose name starts
//! with `h_`.  The output (JSON, path taken from `MIRDUMP_OUT`) holds, for every reachable
//! function instance, its body with resolved callees, plus tables of types and constants.
//! `MIRDUMP_STOP` names a file of `prefix` lines: instances whose readable name starts with (or,
//! for lines starting with `~`, contains) one of them are listed but not descended into.
#![feature(rustc_private)]

extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate serde_json;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::ops::ControlFlow;

struct Cx {
    types: BTreeMap<usize, Value>,
    tyq: Vec<Ty>,
    tyids: HashMap<Ty, usize>,
    insts: BTreeMap<String, Value>,
    queue: VecDeque<Instance>,
    seen: HashMap<String, ()>,
    stop: Vec<String>,
    files: BTreeMap<String, usize>,
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tyids.get(&t) {
            return *i;
        }
        let i = self.tyids.len();
        self.tyids.insert(t, i);
        self.tyq.push(t);
        i
    }

    fn flush_types(&mut self) {
        while let Some(t) = self.tyq.pop() {
            let v = self.describe(t);
            let i = self.tyids[&t];
            self.types.insert(i, v);
        }
    }

    fn describe(&mut self, t: Ty) -> Value {
        let s = format!("{}", t);
        let kind = match t.kind() {
            TyKind::RigidTy(r) => r,
            k => return json!({"k": "other", "s": s, "d": format!("{:?}", k)}),
        };
        match kind {
            RigidTy::Bool => json!({"k":"bool","s":s}),
            RigidTy::Char => json!({"k":"char","s":s}),
            RigidTy::Int(_) => json!({"k":"int","s":s}),
            RigidTy::Uint(_) => json!({"k":"uint","s":s}),
            RigidTy::Float(_) => json!({"k":"float","s":s}),
            RigidTy::Str => json!({"k":"str","s":s}),
            RigidTy::Never => json!({"k":"never","s":s}),
            RigidTy::Array(e, n) => {
                let e = self.ty(e);
                json!({"k":"array","s":s,"e":e,"n":n.eval_target_usize().ok()})
            }
            RigidTy::Slice(e) => {
                let e = self.ty(e);
                json!({"k":"slice","s":s,"e":e})
            }
            RigidTy::Pat(e, _) => {
                let e = self.ty(e);
                json!({"k":"pat","s":s,"e":e})
            }
            RigidTy::RawPtr(e, _) => {
                let e = self.ty(e);
                json!({"k":"ptr","s":s,"e":e})
            }
            RigidTy::Ref(_, e, m) => {
                let e = self.ty(e);
                json!({"k":"ref","s":s,"e":e,"m":matches!(m, Mutability::Mut)})
            }
            RigidTy::Tuple(ts) => {
                let ts: Vec<usize> = ts.into_iter().map(|t| self.ty(t)).collect();
                json!({"k":"tuple","s":s,"f":ts})
            }
            RigidTy::FnDef(def, args) => {
                let mut inst = Value::Null;
                if let Ok(i) = Instance::resolve(def, &args) {
                    inst = self.inst(i);
                }
                json!({"k":"fndef","s":s,"n":def.name(),"i":inst})
            }
            RigidTy::FnPtr(_) => json!({"k":"fnptr","s":s}),
            RigidTy::Dynamic(..) => json!({"k":"dyn","s":s}),
            RigidTy::Closure(def, args) => {
                // Upvars are the tuple in the last generic argument.
                let ups: Vec<usize> = match args.0.last() {
                    Some(GenericArgKind::Type(t)) => match t.kind() {
                        TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                            ts.into_iter().map(|t| self.ty(t)).collect()
                        }
                        _ => vec![],
                    },
                    _ => vec![],
                };
                json!({"k":"closure","s":s,"n":def.name(),"f":ups})
            }
            RigidTy::Adt(def, args) => {
                let mut vs = vec![];
                for v in def.variants() {
                    let fs: Vec<Value> = v
                        .fields()
                        .iter()
                        .map(|f| {
                            let ft = f.ty_with_args(&args);
                            let ft = self.ty(ft);
                            json!([f.name.to_string(), ft])
                        })
                        .collect();
                    // Discriminants may exceed u64 (i128); render as string.
                    let d = if def.kind() == AdtKind::Enum {
                        def.discriminant_for_variant(v.idx()).val
                    } else {
                        0
                    };
                    vs.push(json!({"n": v.name(), "f": fs, "d": format!("{}", d)}));
                }
                let targs: Vec<usize> = args
                    .0
                    .iter()
                    .filter_map(|a| match a {
                        GenericArgKind::Type(t) => Some(*t),
                        _ => None,
                    })
                    .map(|t| self.ty(t))
                    .collect();
                let k = match def.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Struct => "struct",
                    AdtKind::Union => "union",
                };
                json!({"k":k,"s":s,"n":def.name(),"v":vs,"a":targs})
            }
            r => json!({"k":"other","s":s,"d":format!("{:?}", r)}),
        }
    }

    fn inst(&mut self, i: Instance) -> Value {
        let id = format!("{}", i.mangled_name());
        let id = if i.kind == InstanceKind::Shim || id.is_empty() {
            format!("{}#{:?}#{}", id, i.kind, i.name())
        } else {
            id
        };
        if self.seen.insert(id.clone(), ()).is_none() {
            self.queue.push_back(i);
        }
        json!(id)
    }

    fn place(&mut self, p: &Place) -> Value {
        let mut proj = vec![];
        for e in &p.projection {
            proj.push(match e {
                ProjectionElem::Deref => json!("*"),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    json!(["f", *i, t])
                }
                ProjectionElem::Index(l) => json!(["i", *l]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    json!(["ci", offset, min_length, from_end])
                }
                ProjectionElem::Subslice { from, to, from_end } => json!(["ss", from, to, from_end]),
                ProjectionElem::Downcast(v) => json!(["d", format!("{:?}", v).chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse::<usize>().unwrap()]),
                ProjectionElem::OpaqueCast(_) => json!(["oc"]),
                #[allow(unreachable_patterns)]
                e => json!(["?", format!("{:?}", e)]),
            });
        }
        json!([p.local, proj])
    }

    fn konst(&mut self, c: &MirConst) -> Value {
        let ty = c.ty();
        let t = self.ty(ty);
        let v = match c.kind() {
            ConstantKind::ZeroSized => zst(ty),
            ConstantKind::Allocated(a) => self.decode(ty, a, 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(ty, a) => self.decode(*ty, a, 0),
                TyConstKind::ZSTValue(_) => json!({"z": true}),
                k => json!({"o": format!("{:?}", k)}),
            },
            k => json!({"o": format!("{:?}", k)}),
        };
        json!(["c", t, v])
    }

    fn decode(&mut self, ty: Ty, a: &Allocation, off: usize) -> Value {
        let layout = match ty.layout() {
            Ok(l) => l.shape(),
            Err(_) => return json!({"o":"nolayout"}),
        };
        let size = layout.size.bytes();
        if size == 0 {
            return zst(ty);
        }
        let kind = match ty.kind() {
            TyKind::RigidTy(r) => r,
            _ => return json!({"o":"nonrigid"}),
        };
        let uint = |o: usize, n: usize| a.read_partial_uint(o..o + n).ok();
        let prov = |o: usize| {
            a.provenance.ptrs.iter().find(|(p, _)| *p == o).map(|(_, p)| p.0)
        };
        match kind {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => match uint(off, size) {
                Some(v) => json!({"i": v.to_string()}),
                None => json!({"o":"uninit"}),
            },
            RigidTy::Int(_) => match uint(off, size) {
                Some(v) => {
                    let sh = 128 - 8 * size as u32;
                    let v = ((v << sh) as i128) >> sh;
                    json!({"i": v.to_string()})
                }
                None => json!({"o":"uninit"}),
            },
            RigidTy::Pat(t, _) => self.decode(t, a, off),
            RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => {
                let Some(id) = prov(off) else {
                    return match uint(off, 8) {
                        Some(v) => json!({"addr": v.to_string()}),
                        None => json!({"o":"ptr"}),
                    };
                };
                let inner_off = uint(off, 8).unwrap_or(0) as usize;
                let ga = GlobalAlloc::from(id);
                match ga {
                    GlobalAlloc::Memory(m) => match inner.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let n = uint(off + 8, 8).unwrap_or(0) as usize;
                            let b: Vec<u8> = m.bytes[inner_off..inner_off + n]
                                .iter()
                                .map(|b| b.unwrap_or(b'?'))
                                .collect();
                            json!({"str": String::from_utf8_lossy(&b)})
                        }
                        TyKind::RigidTy(RigidTy::Slice(e)) => {
                            let n = uint(off + 8, 8).unwrap_or(0) as usize;
                            let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            let et = self.ty(e);
                            if n > 64 {
                                return json!({"o":"bigslice"});
                            }
                            let v: Vec<Value> =
                                (0..n).map(|i| self.decode(e, &m, inner_off + i * es)).collect();
                            json!({"slice": v, "e": et})
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => json!({"o":"dyn"}),
                        _ => {
                            let it = self.ty(inner);
                            let v = self.decode(inner, &m, inner_off);
                            json!({"ref": v, "t": it})
                        }
                    },
                    GlobalAlloc::Function(i) => {
                        let i = self.inst(i);
                        json!({"fnptr": i})
                    }
                    g => json!({"o": format!("{:?}", g)}),
                }
            }
            RigidTy::FnPtr(_) => match prov(off).map(GlobalAlloc::from) {
                Some(GlobalAlloc::Function(i)) => {
                    let i = self.inst(i);
                    json!({"fnptr": i})
                }
                _ => json!({"o":"fnptr"}),
            },
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = &layout.fields else {
                    return json!({"o":"tuple"});
                };
                let v: Vec<Value> = ts
                    .iter()
                    .zip(offsets)
                    .map(|(t, o)| self.decode(*t, a, off + o.bytes()))
                    .collect();
                json!({"agg": v, "v": 0})
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                if n > 64 {
                    return json!({"o":"bigarray"});
                }
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let v: Vec<Value> = (0..n).map(|i| self.decode(e, a, off + i * es)).collect();
                json!({"agg": v, "v": 0})
            }
            RigidTy::Adt(def, args) => {
                let dec = |cx: &mut Self, vi: usize, offs: &Vec<rustc_public::target::MachineSize>| {
                    let var = def.variants().into_iter().nth(vi).unwrap();
                    let v: Vec<Value> = var
                        .fields()
                        .iter()
                        .zip(offs)
                        .map(|(f, o)| {
                            let ft = f.ty_with_args(&args);
                            cx.decode(ft, a, off + o.bits() / 8)
                        })
                        .collect();
                    json!({"agg": v, "v": vi})
                };
                match &layout.variants {
                    VariantsShape::Empty => json!({"o":"empty"}),
                    VariantsShape::Single { index } => {
                        let vi = vidx(index);
                        match &layout.fields {
                            FieldsShape::Arbitrary { offsets } => dec(self, vi, offsets),
                            _ => json!({"o":"single"}),
                        }
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &layout.fields else {
                            return json!({"o":"multi"});
                        };
                        let to = off + offsets[*tag_field].bytes();
                        let ts = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. }
                            | rustc_public::abi::Scalar::Union { value } => {
                                value.size(&rustc_public::target::MachineInfo::target()).bytes()
                            }
                        };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(tv) = uint(to, ts) else {
                                    return json!({"o":"tag"});
                                };
                                let mut r = None;
                                for v in def.variants() {
                                    let d = def.discriminant_for_variant(v.idx());
                                    let mask = if ts >= 16 { u128::MAX } else { (1u128 << (8 * ts)) - 1 };
                                    if d.val & mask == tv {
                                        r = Some(vidx(&v.idx()));
                                    }
                                }
                                r
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if prov(to).is_some() {
                                    Some(vidx(untagged_variant))
                                } else {
                                    let Some(tv) = uint(to, ts) else {
                                        return json!({"o":"tag"});
                                    };
                                    let mask = if ts >= 16 { u128::MAX } else { (1u128 << (8 * ts)) - 1 };
                                    let lo = vidx(niche_variants.start());
                                    let hi = vidx(niche_variants.end());
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    if rel <= (hi - lo) as u128 {
                                        Some(lo + rel as usize)
                                    } else {
                                        Some(vidx(untagged_variant))
                                    }
                                }
                            }
                        };
                        match vi {
                            Some(vi) => {
                                let offs = variants[vi].offsets.clone();
                                dec(self, vi, &offs)
                            }
                            None => json!({"o":"variant"}),
                        }
                    }
                }
            }
            _ => json!({"o": format!("{}", ty)}),
        }
    }

    fn operand(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!(["cp", self.place(p)]),
            Operand::Move(p) => json!(["mv", self.place(p)]),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => json!(["rt", format!("{:?}", r)]),
        }
    }

    /// The formatting functions a coercion of a pointer to a trait object of `core::fmt` makes callable.
    fn vtable(&mut self, src: Ty, dst: Ty) -> Value {
        fn pointee(t: Ty) -> Option<Ty> {
            match t.kind() {
                TyKind::RigidTy(RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _)) => Some(e),
                _ => None,
            }
        }
        let (Some(s), Some(d)) = (pointee(src), pointee(dst)) else { return Value::Null };
        let TyKind::RigidTy(RigidTy::Dynamic(preds, _)) = d.kind() else { return Value::Null };
        if matches!(s.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) {
            return Value::Null;
        }
        let mut out = vec![];
        for p in preds {
            let ExistentialPredicate::Trait(tr) = p.value else { continue };
            let tn = tr.def_id.name();
            if !tn.ends_with("fmt::Debug") && !tn.ends_with("fmt::Display") && !tn.ends_with("fmt::Write") {
                continue;
            }
            for it in tr.def_id.associated_items() {
                let AssocKind::Fn { name, .. } = &it.kind else { continue };
                let mut a = vec![GenericArgKind::Type(s)];
                a.extend(tr.generic_args.0.iter().cloned());
                if let Ok(i) = Instance::resolve(FnDef(it.def_id.0), &GenericArgs(a)) {
                    let i = self.inst(i);
                    out.push(json!([name.to_string(), i]));
                }
            }
        }
        if out.is_empty() { Value::Null } else { json!(out) }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> Value {
        match r {
            Rvalue::AddressOf(_, p) => json!(["addr", self.place(p)]),
            Rvalue::Ref(_, k, p) => {
                json!(["ref", self.place(p), !matches!(k, BorrowKind::Shared)])
            }
            Rvalue::Reborrow(_, _, p) => json!(["use", ["cp", self.place(p)]]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<Value> = ops.iter().map(|o| self.operand(o)).collect();
                match k {
                    AggregateKind::Array(_) => json!(["agg", "array", 0, ops, null]),
                    AggregateKind::Tuple => json!(["agg", "tuple", 0, ops, null]),
                    AggregateKind::Adt(def, v, args, _, f) => {
                        let t = self.ty(def.ty_with_args(args));
                        json!(["agg", "adt", vidx(v), ops, t, f])
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = self.ty(Ty::new_closure(*def, args.clone()));
                        json!(["agg", "closure", 0, ops, t])
                    }
                    AggregateKind::RawPtr(..) => json!(["agg", "rawptr", 0, ops, null]),
                    k => json!(["agg", format!("{:?}", k), 0, ops, null]),
                }
            }
            Rvalue::BinaryOp(op, a, b) => {
                json!(["bin", format!("{:?}", op), self.operand(a), self.operand(b)])
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                json!(["chk", format!("{:?}", op), self.operand(a), self.operand(b)])
            }
            Rvalue::Cast(k, o, t) => {
                let kn = format!("{:?}", k);
                let vt = if kn.contains("Unsize") {
                    match o.ty(locals) {
                        Ok(s) => self.vtable(s, *t),
                        Err(_) => Value::Null,
                    }
                } else {
                    Value::Null
                };
                let t = self.ty(*t);
                json!(["cast", kn, self.operand(o), t, vt])
            }
            Rvalue::CopyForDeref(p) => json!(["use", ["cp", self.place(p)]]),
            Rvalue::Discriminant(p) => json!(["discr", self.place(p)]),
            Rvalue::Len(p) => json!(["len", self.place(p)]),
            Rvalue::Repeat(o, n) => json!(["rep", self.operand(o), n.eval_target_usize().ok()]),
            Rvalue::UnaryOp(op, o) => json!(["un", format!("{:?}", op), self.operand(o)]),
            Rvalue::Use(o, _) => json!(["use", self.operand(o)]),
            r => json!(["?", format!("{:?}", r)]),
        }
    }

    fn span(&mut self, s: &rustc_public::ty::Span) -> Value {
        let f = format!("{}", s.get_filename());
        let n = self.files.len();
        let fi = *self.files.entry(f).or_insert(n);
        json!([fi, s.get_lines().start_line])
    }

    fn uw(&self, u: &UnwindAction) -> Value {
        match u {
            UnwindAction::Continue => json!("c"),
            UnwindAction::Unreachable => json!("u"),
            UnwindAction::Terminate => json!("t"),
            UnwindAction::Cleanup(b) => json!(b),
        }
    }

    fn body(&mut self, b: &Body) -> Value {
        let locals: Vec<usize> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let sp = self.span(&s.source_info.span);
                let v = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        json!(["=", self.place(p), self.rvalue(r, b.locals()), sp])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        json!(["sd", self.place(place), vidx(variant_index), sp])
                    }
                    StatementKind::StorageLive(l) => json!(["sl", *l]),
                    StatementKind::StorageDead(l) => json!(["sx", *l]),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => continue,
                    StatementKind::Intrinsic(i) => json!(["?", format!("{:?}", i)]),
                    _ => continue,
                };
                st.push(v);
            }
            let sp = self.span(&bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => json!(["goto", *target]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<Value> =
                        targets.branches().map(|(v, t)| json!([v.to_string(), t])).collect();
                    let lt = discr.ty(b.locals()).map(|t| self.ty(t)).ok();
                    json!(["switch", self.operand(discr), br, targets.otherwise(), lt])
                }
                TerminatorKind::Resume => json!(["resume"]),
                TerminatorKind::Abort => json!(["abort"]),
                TerminatorKind::Return => json!(["ret"]),
                TerminatorKind::Unreachable => json!(["unreachable"]),
                TerminatorKind::Drop { place, target, unwind } => {
                    let ty = place.ty(b.locals()).unwrap();
                    let tid = self.ty(ty);
                    let inst = Instance::resolve_drop_in_place(ty);
                    let i = if inst.is_empty_shim() { Value::Null } else { self.inst(inst) };
                    json!(["drop", self.place(place), *target, self.uw(unwind), i, tid])
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let fty = func.ty(b.locals()).unwrap();
                    let (i, name, abi) = match fty.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(def, ga)) => {
                            let i = match Instance::resolve(def, &ga) {
                                Ok(i) => self.inst(i),
                                Err(_) => Value::Null,
                            };
                            let abi = format!("{:?}", def.fn_sig().value.abi);
                            (i, def.name(), abi)
                        }
                        _ => (Value::Null, "<fnptr>".into(), String::new()),
                    };
                    let fo = if i.is_null() { self.operand(func) } else { Value::Null };
                    let args: Vec<Value> = args.iter().map(|a| self.operand(a)).collect();
                    json!(["call", i, name, args, self.place(destination), target, self.uw(unwind), fo, abi == "RustCall"])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = format!("{:?}", msg);
                    let m: String = m.chars().take(30).collect();
                    json!(["assert", self.operand(cond), expected, m, *target, self.uw(unwind)])
                }
                t => json!(["?", format!("{:?}", t)]),
            };
            blocks.push(json!([st, t, sp]));
        }
        let vars: Vec<Value> = b
            .var_debug_info
            .iter()
            .filter_map(|v| v.local().map(|l| json!([v.name.to_string(), l])))
            .collect();
        let sp = self.span(&b.span);
        json!({"locals": locals, "argc": b.arg_locals().len(), "blocks": blocks,
               "spread": b.spread_arg(), "span": sp, "vars": vars})
    }
}

/// A zero-sized constant; for an enum, with its only inhabited variant.
fn zst(ty: Ty) -> Value {
    if let (TyKind::RigidTy(RigidTy::Adt(def, _)), Ok(l)) = (ty.kind(), ty.layout()) {
        if let (AdtKind::Enum, VariantsShape::Single { index }) = (def.kind(), &l.shape().variants) {
            return json!({"agg": [], "v": vidx(index)});
        }
    }
    json!({"z": true})
}

fn vidx(v: &VariantIdx) -> usize {
    format!("{:?}", v).chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()
}

fn analysis() -> ControlFlow<()> {
    let out = match std::env::var("MIRDUMP_OUT") {
        Ok(o) => o,
        Err(_) => return ControlFlow::Continue(()),
    };
    let stop: Vec<String> = std::env::var("MIRDUMP_STOP")
        .ok()
        .and_then(|f| std::fs::read_to_string(f).ok())
        .unwrap_or_default()
        .lines()
        .map(|l| l.trim_end().to_string())
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .collect();
    let mut cx = Cx {
        types: BTreeMap::new(),
        tyq: vec![],
        tyids: HashMap::new(),
        insts: BTreeMap::new(),
        queue: VecDeque::new(),
        seen: HashMap::new(),
        stop,
        files: BTreeMap::new(),
    };
    let mut entries = serde_json::Map::new();
    for item in rustc_public::all_local_items() {
        let name = item.name();
        let last = name.rsplit("::").next().unwrap_or("").to_string();
        if last.starts_with("h_") {
            if let Ok(i) = Instance::try_from(item) {
                let id = cx.inst(i);
                entries.insert(last, id);
            }
        }
    }
    while let Some(i) = cx.queue.pop_front() {
        let id = format!("{}", i.mangled_name());
        let id = if i.kind == InstanceKind::Shim || id.is_empty() {
            format!("{}#{:?}#{}", id, i.kind, i.name())
        } else {
            id
        };
        let name = i.name().to_string();
        let kind = format!("{:?}", i.kind);
        let stopped = cx.stop.iter().any(|s| match s.strip_prefix('~') {
            Some(s) => name.contains(s),
            None => name.starts_with(s.as_str()),
        });
        let args: Vec<usize> = i
            .args()
            .0
            .iter()
            .filter_map(|a| match a {
                GenericArgKind::Type(t) => Some(*t),
                _ => None,
            })
            .map(|t| cx.ty(t))
            .collect();
        let mut v = json!({"name": name, "kind": kind, "args": args});
        if let Some(n) = i.intrinsic_name() {
            v["intrinsic"] = json!(n.to_string());
        }
        if !stopped && !matches!(i.kind, InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic | InstanceKind::Virtual { .. }) {
            if let Some(b) = i.body() {
                v["body"] = cx.body(&b);
            }
        }
        if stopped {
            v["stopped"] = json!(true);
        }
        if let TyKind::RigidTy(RigidTy::FnDef(..) | RigidTy::Closure(..)) = i.ty().kind() {
            if let Some(sig) = i.ty().kind().fn_sig() {
                let sig = sig.skip_binder();
                let r = cx.ty(sig.output());
                v["ret"] = json!(r);
            }
        }
        cx.insts.insert(id, v);
        cx.flush_types();
    }
    cx.flush_types();
    let types: serde_json::Map<String, Value> =
        cx.types.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let mut files = vec![String::new(); cx.files.len()];
    for (f, i) in &cx.files {
        files[*i] = f.clone();
    }
    // All local functions of the crate and of `dendron`, for the inventory.
    let doc = json!({"entries": entries, "types": types, "insts": cx.insts, "files": files});
    std::fs::write(&out, serde_json::to_vec(&doc).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    // Invoked as a rustc wrapper: argv[1] is the real rustc.
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let r = run!(&args, analysis);
    match r {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}
