// mirdump: a rustc driver (rustc_public) that writes the monomorphic MIR of every function
// reachable from the verification harness crate as JSON.  Used as the compiler for the harness
// crate only; nothing is transformed, the text written is the compiler's own MIR.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_session;
extern crate rustc_abi;
extern crate rustc_public_bridge;
#[allow(unused_imports)]
use rustc_public_bridge::IndexedVal;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String { format!("[{}]", v.join(",")) }

#[derive(Default)]
struct Cx {
    tys: HashMap<Ty, usize>,
    ty_json: Vec<String>,
    insts: HashMap<String, usize>,
    inst_json: Vec<String>,
    queue: VecDeque<(usize, Instance)>,
    allocs: HashMap<rustc_public::mir::alloc::AllocId, usize>,
    alloc_json: Vec<String>,
    stop: Vec<String>,
    go: Vec<String>,
    locals: Vec<LocalDecl>,
}

fn mono_args_str(args: &GenericArgs) -> Vec<Ty> {
    args.0.iter().filter_map(|a| match a { GenericArgKind::Type(t) => Some(*t), _ => None }).collect()
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let id = self.ty_json.len();
        self.tys.insert(t, id);
        self.ty_json.push(String::new());
        let mut s = String::from("{");
        let _ = write!(s, "\"s\":{}", esc(&format!("{}", t)));
        if let TyKind::RigidTy(r) = t.kind() {
            match r {
                RigidTy::Bool => s.push_str(",\"k\":\"bool\""),
                RigidTy::Char => s.push_str(",\"k\":\"char\""),
                RigidTy::Int(i) => { let _ = write!(s, ",\"k\":\"int\",\"bits\":{},\"signed\":1", i.num_bytes() * 8); }
                RigidTy::Uint(i) => { let _ = write!(s, ",\"k\":\"int\",\"bits\":{},\"signed\":0", i.num_bytes() * 8); }
                RigidTy::Float(_) => s.push_str(",\"k\":\"float\""),
                RigidTy::Str => s.push_str(",\"k\":\"str\""),
                RigidTy::Never => s.push_str(",\"k\":\"never\""),
                RigidTy::Foreign(_) => s.push_str(",\"k\":\"foreign\""),
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    let _ = write!(s, ",\"k\":\"array\",\"elem\":{},\"len\":{}", e, n.eval_target_usize().unwrap_or(0));
                }
                RigidTy::Slice(e) => { let e = self.ty(e); let _ = write!(s, ",\"k\":\"slice\",\"elem\":{}", e); }
                RigidTy::RawPtr(e, m) => { let e = self.ty(e); let _ = write!(s, ",\"k\":\"ptr\",\"elem\":{},\"mut\":{}", e, (m == Mutability::Mut) as u8); }
                RigidTy::Ref(_, e, m) => { let e = self.ty(e); let _ = write!(s, ",\"k\":\"ref\",\"elem\":{},\"mut\":{}", e, (m == Mutability::Mut) as u8); }
                RigidTy::FnDef(d, a) => {
                    let _ = write!(s, ",\"k\":\"fndef\",\"def\":{}", esc(&d.name()));
                    let targs: Vec<String> = mono_args_str(&a).into_iter().map(|t| self.ty(t).to_string()).collect();
                    let _ = write!(s, ",\"args\":{}", arr(&targs));
                }
                RigidTy::FnPtr(_) => s.push_str(",\"k\":\"fnptr\""),
                RigidTy::Closure(d, a) => {
                    let _ = write!(s, ",\"k\":\"closure\",\"def\":{}", esc(&d.name()));
                    // upvar tuple is the last generic argument
                    let ts = mono_args_str(&a);
                    if let Some(t) = ts.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(f)) = t.kind() {
                            let f: Vec<String> = f.iter().map(|t| self.ty(*t).to_string()).collect();
                            let _ = write!(s, ",\"fields\":{}", arr(&f));
                        }
                    }
                }
                RigidTy::Tuple(f) => {
                    let f: Vec<String> = f.iter().map(|t| self.ty(*t).to_string()).collect();
                    let _ = write!(s, ",\"k\":\"tuple\",\"fields\":{}", arr(&f));
                }
                RigidTy::Dynamic(..) => s.push_str(",\"k\":\"dyn\""),
                RigidTy::Pat(t, _) => { let t = self.ty(t); let _ = write!(s, ",\"k\":\"pat\",\"elem\":{}", t); }
                RigidTy::Adt(d, a) => {
                    let kind = match d.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                    let _ = write!(s, ",\"k\":\"{}\",\"def\":{},\"box\":{}", kind, esc(&d.name()), d.is_box() as u8);
                    let targs: Vec<String> = mono_args_str(&a).into_iter().map(|t| self.ty(t).to_string()).collect();
                    let _ = write!(s, ",\"args\":{}", arr(&targs));
                    let mut vs = vec![];
                    for v in d.variants_iter() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let fty = f.ty_with_args(&a);
                            fs.push(format!("[{},{}]", esc(&f.name), self.ty(fty)));
                        }
                        let discr = if kind == "enum" { format!("{}", d.discriminant_for_variant(v.idx()).val) } else { "0".into() };
                        vs.push(format!("{{\"name\":{},\"discr\":\"{}\",\"fields\":{}}}", esc(&v.name()), discr, arr(&fs)));
                    }
                    let _ = write!(s, ",\"variants\":{}", arr(&vs));
                }
                _ => s.push_str(",\"k\":\"other\""),
            }
            let inst = Instance::resolve_drop_in_place(t);
            if !inst.is_empty_shim() {
                let _ = write!(s, ",\"needs_drop\":1");
            }
        }
        if let Ok(l) = t.layout() {
            let sh = l.shape();
            if sh.is_sized() {
                let _ = write!(s, ",\"size\":{},\"align\":{}", sh.size.bytes(), sh.abi_align);
            }
            match &sh.fields {
                rustc_public::abi::FieldsShape::Arbitrary { offsets } => {
                    let o: Vec<String> = offsets.iter().map(|o| o.bytes().to_string()).collect();
                    let _ = write!(s, ",\"offsets\":{}", arr(&o));
                }
                rustc_public::abi::FieldsShape::Array { stride, .. } => { let _ = write!(s, ",\"stride\":{}", stride.bytes()); }
                _ => {}
            }
            if let rustc_public::abi::VariantsShape::Single { index } = &sh.variants {
                let _ = write!(s, ",\"single\":{}", index.to_index());
            }
            if let rustc_public::abi::VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } = &sh.variants {
                let off = match &sh.fields {
                    rustc_public::abi::FieldsShape::Arbitrary { offsets } => offsets.get(*tag_field).map(|o| o.bytes()).unwrap_or(0),
                    _ => 0,
                };
                let prim = match tag {
                    rustc_public::abi::Scalar::Initialized { value, .. } => value.clone(),
                    rustc_public::abi::Scalar::Union { value } => value.clone(),
                };
                let size = match prim {
                    rustc_public::abi::Primitive::Int { length, .. } => length.bits() / 8,
                    _ => 8,
                };
                let vo: Vec<String> = variants.iter().map(|v| arr(&v.offsets.iter().map(|o| o.bytes().to_string()).collect::<Vec<_>>())).collect();
                let enc = match tag_encoding {
                    rustc_public::abi::TagEncoding::Direct => "null".to_string(),
                    rustc_public::abi::TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                        "[{},{},{},\"{}\"]", untagged_variant.to_index(), niche_variants.start().to_index(), niche_variants.end().to_index(), niche_start),
                };
                let _ = write!(s, ",\"tag\":[{},{},{}],\"voffs\":{}", off, size, enc, arr(&vo));
            }
        }
        s.push('}');
        self.ty_json[id] = s;
        id
    }

    fn inst(&mut self, i: Instance) -> usize {
        let key = format!("{}|{:?}", i.mangled_name(), i.kind);
        if let Some(x) = self.insts.get(&key) { return *x; }
        let id = self.inst_json.len();
        self.insts.insert(key, id);
        self.inst_json.push(String::new());
        self.queue.push_back((id, i));
        id
    }

    fn alloc(&mut self, a: rustc_public::mir::alloc::AllocId) -> usize {
        if let Some(x) = self.allocs.get(&a) { return *x; }
        let id = self.alloc_json.len();
        self.allocs.insert(a, id);
        self.alloc_json.push(String::new());
        let s = match GlobalAlloc::from(a) {
            GlobalAlloc::Function(i) => format!("{{\"k\":\"fn\",\"inst\":{}}}", self.inst(i)),
            GlobalAlloc::Memory(m) => format!("{{\"k\":\"mem\",\"data\":{}}}", self.allocation(&m)),
            GlobalAlloc::Static(s) => format!("{{\"k\":\"static\",\"name\":{}}}", esc(&s.name())),
            GlobalAlloc::VTable(t, _) => format!("{{\"k\":\"vtable\",\"ty\":{}}}", self.ty(t)),
            GlobalAlloc::TypeId { .. } => "{\"k\":\"typeid\"}".into(),
        };
        self.alloc_json[id] = s;
        id
    }

    fn allocation(&mut self, m: &Allocation) -> String {
        let mut hex = String::new();
        for b in &m.bytes { match b { Some(b) => { let _ = write!(hex, "{:02x}", b); } None => hex.push_str("__") } }
        let pr: Vec<String> = m.provenance.ptrs.iter().map(|(o, p)| format!("[{},{}]", o, self.alloc(p.0))).collect();
        format!("{{\"bytes\":\"{}\",\"prov\":{},\"align\":{}}}", hex, arr(&pr), m.align)
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"D\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"F\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"I\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"C\",{},{},{}]", offset, min_length, *from_end as u8),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"S\",{},{},{}]", from, to, *from_end as u8),
                ProjectionElem::Downcast(v) => format!("[\"V\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"O\",{}]", self.ty(*t)),
            });
        }
        format!("[{},{}]", p.local, arr(&v))
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{:?}\"]", r),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let tid = self.ty(t);
                match c.const_.kind() {
                    ConstantKind::Allocated(a) => format!("[\"const\",{},{}]", tid, self.allocation(a)),
                    ConstantKind::ZeroSized => format!("[\"const\",{},null]", tid),
                    ConstantKind::Ty(tc) => match tc.kind() {
                        TyConstKind::Value(_, a) => format!("[\"const\",{},{}]", tid, self.allocation(a)),
                        TyConstKind::ZSTValue(_) => format!("[\"const\",{},null]", tid),
                        _ => format!("[\"const\",{},{}]", tid, "{\"unk\":1}"),
                    },
                    k => format!("[\"const\",{},{{\"unk\":{}}}]", tid, esc(&format!("{:?}", k))),
                }
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, b, p) => { let fake = matches!(b, BorrowKind::Fake(_)); format!("[\"ref\",{},{}]", self.place(p), fake as u8) }
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",{},0]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let k = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = self.ty(d.ty_with_args(a));
                        format!("[\"adt\",{},{},{}]", t, v.to_index(), f.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, a) => format!("[\"closure\",{}]", self.ty(Ty::new_closure(*d, a.clone()))),
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", k, arr(&ops))
            }
            Rvalue::BinaryOp(op, a, b) => format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b)),
            Rvalue::CheckedBinaryOp(op, a, b) => format!("[\"chk\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b)),
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(a)),
            Rvalue::Cast(k, o, t) => {
                // a function item or closure that becomes a function pointer
                let ks = format!("{:?}", k);
                let mut fi = String::from("null");
                if ks.contains("FnPointer") {
                    if let Operand::Constant(c) = o {
                        match c.const_.ty().kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, ga)) => if let Ok(i) = Instance::resolve_for_fn_ptr(d, &ga) { fi = self.inst(i).to_string(); },
                            TyKind::RigidTy(RigidTy::Closure(d, ga)) => if let Ok(i) = Instance::resolve_closure(d, &ga, ClosureKind::Fn) { fi = self.inst(i).to_string(); },
                            _ => {}
                        }
                    }
                    if let Ok(t) = o.ty(&self.locals) {
                        if let TyKind::RigidTy(RigidTy::Closure(d, ga)) = t.kind() {
                            if let Ok(i) = Instance::resolve_closure(d, &ga, ClosureKind::Fn) { fi = self.inst(i).to_string(); }
                        }
                    }
                }
                format!("[\"cast\",{},{},{},{}]", esc(&ks), self.operand(o), self.ty(*t), fi)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o), n.eval_target_usize().unwrap_or(0)),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
        }
    }

    fn body(&mut self, b: &Body) -> String {
        self.locals = b.locals().to_vec();
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let spread = b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into());
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let line = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => { let p = self.place(p); let r = self.rvalue(r); st.push(format!("[\"=\",{},{},{}]", p, r, line)); }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index())),
                    StatementKind::StorageLive(l) => st.push(format!("[\"live\",{}]", l)),
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => st.push(format!("[\"assume\",{}]", self.operand(o))),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) =>
                        st.push(format!("[\"cno\",{},{},{}]", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count))),
                    _ => {}
                }
            }
            let li = bb.terminator.source_info.span.get_lines();
            let line = li.start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect();
                    let dty = discr.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("[\"switch\",{},{},{},{}]", self.operand(discr), dty, arr(&br), targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, unwind } => {
                    let t = place.ty(b.locals()).unwrap();
                    let di = Instance::resolve_drop_in_place(t);
                    let i = if di.is_empty_shim() { "null".to_string() } else { self.inst(di).to_string() };
                    format!("[\"drop\",{},{},{},{},{}]", self.place(place), self.ty(t), i, target, unw(unwind))
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    let fty = func.ty(b.locals()).unwrap();
                    let f = match fty.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, ga)) => match Instance::resolve(d, &ga) {
                            Ok(i) => format!("[\"i\",{}]", self.inst(i)),
                            Err(_) => format!("[\"unresolved\",{}]", esc(&d.name())),
                        },
                        _ => format!("[\"ptr\",{}]", self.operand(func)),
                    };
                    let tg = target.map(|t| t.to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},{},{},{}]", f, arr(&a), self.place(destination), tg, unw(unwind))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let m = m.split('(').next().unwrap_or("").to_string();
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond), *expected as u8, esc(&m), target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("[{},{},{}]", arr(&st), t, line));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let nm = v.name.to_string();
                names.push(format!("[{},{}]", esc(&nm), self.place(p)));
            }
        }
        let loc = format!("{}:{}", b.span.get_filename(), b.span.get_lines().start_line);
        let endl = b.span.get_lines().end_line;
        format!("{{\"locals\":{},\"argc\":{},\"spread\":{},\"blocks\":{},\"names\":{},\"loc\":{},\"endl\":{}}}",
            arr(&locals), b.arg_locals().len(), spread, arr(&blocks), arr(&names), esc(&loc), endl)
    }

    fn run(&mut self) {
        while let Some((id, i)) = self.queue.pop_front() {
            let name = i.name().to_string();
            let def = match i.ty().kind() {
                TyKind::RigidTy(RigidTy::FnDef(d, _)) => d.name().to_string(),
                TyKind::RigidTy(RigidTy::Closure(d, _)) => d.name().to_string(),
                _ => name.clone(),
            };
            let mut s = format!("{{\"name\":{},\"def\":{},\"sym\":{},\"kind\":\"{:?}\"", esc(&name), esc(&def), esc(&i.mangled_name()), i.kind);
            let closure = matches!(i.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
            let _ = write!(s, ",\"closure\":{}", closure as u8);
            if let Some(n) = i.intrinsic_name() { let _ = write!(s, ",\"intrinsic\":{}", esc(&n)); }
            let targs: Vec<String> = mono_args_str(&i.args()).into_iter().map(|t| self.ty(t).to_string()).collect();
            let _ = write!(s, ",\"args\":{}", arr(&targs));
            let stop = self.stop.iter().any(|p| name.starts_with(p.as_str()) || def.starts_with(p.as_str()))
                // loops over a compare-exchange are followed, not modelled
                && !["::fetch_update::<", "::try_update::<", "::update::<"].iter().any(|p| name.contains("atomic::Atomic::<") && name.contains(p))
                && !self.go.iter().any(|p| name.starts_with(p.as_str()) || def.starts_with(p.as_str()));
            if !stop && !matches!(i.kind, InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic | InstanceKind::Virtual { .. }) && i.has_body() {
                if let Some(b) = i.body() {
                    let _ = write!(s, ",\"body\":{}", self.body(&b));
                }
            } else if !stop && i.has_body() && matches!(i.kind, InstanceKind::Shim) {
                if let Some(b) = i.body() { let _ = write!(s, ",\"body\":{}", self.body(&b)); }
            }
            if stop {
                // an external function that is given a closure: the closure's body is needed too
                let mut todo: Vec<Ty> = i.args().0.iter().filter_map(|g| if let GenericArgKind::Type(t) = g { Some(*t) } else { None }).collect();
                while let Some(t) = todo.pop() {
                    match t.kind() {
                        TyKind::RigidTy(RigidTy::Adt(_, ga)) => todo.extend(ga.0.iter().filter_map(|g| if let GenericArgKind::Type(t) = g { Some(*t) } else { None })),
                        TyKind::RigidTy(RigidTy::Closure(d, ga)) => if let Ok(c) = Instance::resolve_closure(d, &ga, ClosureKind::Fn) { self.inst(c); },
                        _ => {}
                    }
                }
            }
            if matches!(i.kind, InstanceKind::Shim) {
                // Fn*::call* on a function item or closure: name the function behind it
                if let Some(GenericArgKind::Type(t)) = i.args().0.first() {
                    match t.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, ga)) => if let Ok(c) = Instance::resolve(d, &ga) { let _ = write!(s, ",\"callee\":{}", self.inst(c)); },
                        TyKind::RigidTy(RigidTy::Ref(_, t, _)) => if let TyKind::RigidTy(RigidTy::FnDef(d, ga)) = t.kind() {
                            if let Ok(c) = Instance::resolve(d, &ga) { let _ = write!(s, ",\"callee\":{}", self.inst(c)); }
                        },
                        _ => {}
                    }
                }
            }
            s.push('}');
            self.inst_json[id] = s;
        }
    }
}

fn unw(u: &UnwindAction) -> String {
    match u {
        UnwindAction::Cleanup(b) => b.to_string(),
        UnwindAction::Continue => "-1".into(),
        UnwindAction::Unreachable => "-2".into(),
        UnwindAction::Terminate => "-3".into(),
    }
}

fn dump() -> ControlFlow<()> {
    let mut cx = Cx::default();
    let rd = |v: &str| -> Vec<String> { std::env::var(v).unwrap_or_default().split(';').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect() };
    cx.stop = rd("MIRDUMP_STOP");
    cx.go = rd("MIRDUMP_GO");
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if it.requires_monomorphization() { continue; }
        if let Ok(i) = Instance::try_from(it) {
            if i.has_body() && matches!(it.kind(), rustc_public::ItemKind::Fn) { roots.push(cx.inst(i)); }
        }
    }
    cx.run();
    // Functions of papaya that nothing calls on this toolchain because a std method of the same
    // name shadows them (the AtomicPtr::fetch_or polyfill), instantiated at the entry type.
    let mut forced = vec![];
    for kr in rustc_public::find_crates("papaya") {
        for f in kr.fn_defs() {
            let n = f.name().to_string();
            if n.contains("fetch_or") {
                let ents: Vec<Ty> = cx.tys.keys().copied().filter(|t| match t.kind() {
                    TyKind::RigidTy(RigidTy::Adt(d, a)) => d.name().ends_with("raw::Entry") && {
                        let m = mono_args_str(&a);
                        m.len() == 2 && m.iter().all(|t| !matches!(t.kind(), TyKind::RigidTy(RigidTy::Tuple(_)))) && !format!("{}", t).contains("MaybeUninit") },
                    _ => false }).collect();
                for t in ents {
                    if let Ok(i) = Instance::resolve(f, &GenericArgs(vec![GenericArgKind::Type(t)])) { forced.push(cx.inst(i)); }
                }
            }
        }
    }
    cx.run();
    roots.extend(forced);
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let mut s = String::new();
    s.push_str("{\"roots\":");
    s.push_str(&arr(&roots.iter().map(|r| r.to_string()).collect::<Vec<_>>()));
    s.push_str(",\n\"insts\":[\n");
    s.push_str(&cx.inst_json.join(",\n"));
    s.push_str("],\n\"types\":[\n");
    s.push_str(&cx.ty_json.join(",\n"));
    s.push_str("],\n\"allocs\":[\n");
    s.push_str(&cx.alloc_json.join(",\n"));
    s.push_str("]}\n");
    std::fs::write(out, s).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc path as the first argument
    let mut real = String::from("rustc");
    if args.len() > 1 && args[1].ends_with("rustc") { real = args.remove(1); }
    let is_harness = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "verif_harness");
    if is_harness {
        match rustc_public::run!(&args, dump) {
            Ok(_) | Err(rustc_public::CompilerError::Interrupted(_)) => {}
            Err(e) => { eprintln!("{:?}", e); std::process::exit(1); }
        }
    } else {
        let st = std::process::Command::new(real).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
}
