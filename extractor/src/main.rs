//! MIR extractor.  Runs as the compiler on one crate and writes, as JSON, the
//! monomorphic MIR of every function reachable from that crate's functions,
//! with callees resolved, constants evaluated and type layouts attached.
//! Nothing is executed; the JSON is what the analyses in /verif/sa read.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Cx {
    ty_ids: HashMap<Ty, usize>,
    ty_out: BTreeMap<usize, String>,
    fn_seen: HashSet<String>,
    fn_queue: Vec<Instance>,
    fn_out: Vec<(String, String)>,
    allocs: HashMap<AllocId, usize>,
    alloc_queue: Vec<(usize, AllocId)>,
    alloc_out: BTreeMap<usize, String>,
    next_alloc: usize,
    nobody: Vec<String>,
}

fn is_panic_like(name: &str) -> bool {
    name.starts_with("core::panicking::")
        || name.starts_with("std::rt::")
        || name.contains("::panicking::")
        || name.starts_with("core::slice::index::slice_")
        || name.starts_with("core::option::unwrap_failed")
        || name.starts_with("core::option::expect_failed")
        || name.starts_with("core::result::unwrap_failed")
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let id = self.ty_ids.len();
        self.ty_ids.insert(t, id);
        let s = self.ty_json(t);
        self.ty_out.insert(id, s);
        id
    }

    fn layout_json(&mut self, t: Ty) -> String {
        let Ok(l) = t.layout() else { return "null".into() };
        let sh = l.shape();
        let mut o = format!("{{\"size\":{}", sh.size.bytes());
        match &sh.fields {
            FieldsShape::Arbitrary { offsets } => {
                let v: Vec<String> =
                    offsets.iter().map(|s| s.bytes().to_string()).collect();
                let _ = write!(o, ",\"offsets\":[{}]", v.join(","));
            }
            FieldsShape::Array { stride, count } => {
                let _ = write!(
                    o,
                    ",\"stride\":{},\"count\":{}",
                    stride.bytes(),
                    count
                );
            }
            FieldsShape::Union(_) => o.push_str(",\"union\":true"),
            FieldsShape::Primitive => {}
        }
        match &sh.variants {
            VariantsShape::Single { index } => {
                let _ = write!(o, ",\"single\":{}", index.to_index());
            }
            VariantsShape::Empty => {}
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let prim = match tag {
                    rustc_public::abi::Scalar::Initialized { value, .. } => value,
                    rustc_public::abi::Scalar::Union { value } => value,
                };
                let sz = prim
                    .size(&rustc_public::target::MachineInfo::target())
                    .bytes();
                let vs: Vec<String> = variants
                    .iter()
                    .map(|v| {
                        let x: Vec<String> = v
                            .offsets
                            .iter()
                            .map(|s| s.bytes().to_string())
                            .collect();
                        format!("[{}]", x.join(","))
                    })
                    .collect();
                let enc = match tag_encoding {
                    TagEncoding::Direct => "\"direct\"".to_string(),
                    TagEncoding::Niche {
                        untagged_variant,
                        niche_variants,
                        niche_start,
                    } => format!(
                        "{{\"untagged\":{},\"lo\":{},\"hi\":{},\"start\":\"{}\"}}",
                        untagged_variant.to_index(),
                        niche_variants.start().to_index(),
                        niche_variants.end().to_index(),
                        niche_start
                    ),
                };
                let _ = write!(
                    o,
                    ",\"multi\":{{\"tag_size\":{sz},\"tag_field\":{tag_field},\"enc\":{enc},\"variants\":[{}]}}",
                    vs.join(",")
                );
            }
        }
        o.push('}');
        o
    }

    fn inst_key(&mut self, i: Instance) -> String {
        let k = if let Some(n) = i.intrinsic_name() {
            format!("intrinsic:{}:{}", n, i.mangled_name())
        } else {
            i.mangled_name()
        };
        if self.fn_seen.insert(k.clone()) {
            self.fn_queue.push(i);
        }
        k
    }

    fn args_json(&mut self, args: &GenericArgs) -> String {
        let mut v = vec![];
        for a in args.0.iter() {
            match a {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => {
                    v.push(esc(&match c.eval_target_usize() {
                        Ok(n) => n.to_string(),
                        Err(_) => format!("{c:?}"),
                    }))
                }
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }

    fn ty_json(&mut self, t: Ty) -> String {
        let TyKind::RigidTy(r) = t.kind() else {
            return format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{t}")));
        };
        match r {
            RigidTy::Bool => "{\"k\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\"}".into(),
            RigidTy::Int(i) => format!(
                "{{\"k\":\"int\",\"w\":{},\"s\":true}}",
                i.num_bytes() * 8
            ),
            RigidTy::Uint(i) => format!(
                "{{\"k\":\"int\",\"w\":{},\"s\":false}}",
                i.num_bytes() * 8
            ),
            RigidTy::Float(f) => {
                format!("{{\"k\":\"float\",\"s\":{}}}", esc(&format!("{f:?}")))
            }
            RigidTy::Adt(def, args) => {
                let name = def.name();
                let mut vs = vec![];
                let mut discrs = vec![];
                for (i, v) in def.variants().iter().enumerate() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&args);
                        fs.push(format!("[{},{}]", esc(&f.name), self.ty(ft)));
                    }
                    vs.push(format!("{{\"n\":{},\"f\":[{}]}}", esc(&v.name()), fs.join(",")));
                    if def.kind() == AdtKind::Enum {
                        let d = def.discriminant_for_variant(VariantIdx::to_val(i));
                        discrs.push(format!("\"{}\"", d.val));
                    }
                }
                let lay = self.layout_json(t);
                let dt = if def.kind() == AdtKind::Enum {
                    match t.kind().discriminant_ty() {
                        Some(dt) => self.ty(dt).to_string(),
                        None => "null".into(),
                    }
                } else { "null".into() };
                format!(
                    "{{\"k\":\"adt\",\"n\":{},\"kind\":\"{:?}\",\"s\":{},\"v\":[{}],\"d\":[{}],\"dt\":{},\"lay\":{}}}",
                    esc(&name),
                    def.kind(),
                    esc(&format!("{t}")),
                    vs.join(","),
                    discrs.join(","),
                    dt,
                    lay
                )
            }
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(u64::MAX);
                let e = self.ty(e);
                let lay = self.layout_json(t);
                format!("{{\"k\":\"array\",\"e\":{e},\"n\":{n},\"lay\":{lay}}}")
            }
            RigidTy::Pat(t, _) => {
                let e = self.ty(t);
                format!("{{\"k\":\"pat\",\"e\":{e}}}")
            }
            RigidTy::Slice(e) => {
                let l = self.layout_json(e);
                let e = self.ty(e);
                format!("{{\"k\":\"slice\",\"e\":{e},\"elay\":{l}}}")
            }
            RigidTy::RawPtr(p, m) => {
                let e = self.ty(p);
                format!("{{\"k\":\"ptr\",\"e\":{e},\"raw\":true,\"m\":{}}}", m == Mutability::Mut)
            }
            RigidTy::Ref(_, p, m) => {
                let e = self.ty(p);
                format!("{{\"k\":\"ptr\",\"e\":{e},\"raw\":false,\"m\":{}}}", m == Mutability::Mut)
            }
            RigidTy::FnDef(def, args) => match Instance::resolve(def, &args) {
                Ok(i) => {
                    let k = self.inst_key(i);
                    let a = self.args_json(&args);
                    format!(
                        "{{\"k\":\"fndef\",\"inst\":{},\"n\":{},\"a\":{}}}",
                        esc(&k),
                        esc(&def.name()),
                        a
                    )
                }
                Err(_) => format!(
                    "{{\"k\":\"fndef\",\"inst\":null,\"n\":{}}}",
                    esc(&def.name())
                ),
            },
            RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"}".into(),
            RigidTy::Closure(def, args) => {
                // captured types: the last generic arg is the upvar tuple
                let mut up = "[]".to_string();
                if let Some(GenericArgKind::Type(u)) = args.0.last() {
                    if let TyKind::RigidTy(RigidTy::Tuple(ts)) = u.kind() {
                        let v: Vec<String> =
                            ts.iter().map(|t| self.ty(*t).to_string()).collect();
                        up = format!("[{}]", v.join(","));
                    }
                }
                let mut inst = "null".to_string();
                for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                    if let Ok(i) = Instance::resolve_closure(def, &args, k) {
                        inst = esc(&self.inst_key(i));
                        break;
                    }
                }
                let lay = self.layout_json(t);
                format!(
                    "{{\"k\":\"closure\",\"n\":{},\"up\":{},\"inst\":{},\"lay\":{}}}",
                    esc(&def.name()),
                    up,
                    inst,
                    lay
                )
            }
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Tuple(ts) => {
                let v: Vec<String> =
                    ts.iter().map(|t| self.ty(*t).to_string()).collect();
                let lay = self.layout_json(t);
                format!("{{\"k\":\"tuple\",\"f\":[{}],\"lay\":{}}}", v.join(","), lay)
            }
            RigidTy::Dynamic(..) => {
                format!("{{\"k\":\"dyn\",\"s\":{}}}", esc(&format!("{t}")))
            }
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{t}"))),
        }
    }

    fn alloc_id(&mut self, a: AllocId) -> usize {
        if let Some(i) = self.allocs.get(&a) {
            return *i;
        }
        let id = self.next_alloc;
        self.next_alloc += 1;
        self.allocs.insert(a, id);
        self.alloc_queue.push((id, a));
        id
    }

    fn alloc_json(&mut self, a: &Allocation) -> String {
        let mut s = String::with_capacity(a.bytes.len() * 2 + 64);
        s.push_str("{\"b\":\"");
        for b in &a.bytes {
            match b {
                Some(b) => {
                    let _ = write!(s, "{b:02x}");
                }
                None => s.push_str("00"),
            }
        }
        s.push('"');
        if !a.provenance.ptrs.is_empty() {
            s.push_str(",\"p\":[");
            for (n, (off, p)) in a.provenance.ptrs.iter().enumerate() {
                if n > 0 {
                    s.push(',');
                }
                let id = self.alloc_id(p.0);
                let _ = write!(s, "[{off},{id}]");
            }
            s.push(']');
        }
        s.push('}');
        s
    }

    fn const_json(&mut self, c: &ConstOperand) -> String {
        let ty = self.ty(c.const_.ty());
        match c.const_.kind() {
            ConstantKind::Allocated(a) => {
                let a = self.alloc_json(a);
                format!("{{\"c\":{a},\"t\":{ty}}}")
            }
            ConstantKind::ZeroSized => format!("{{\"z\":1,\"t\":{ty}}}"),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => {
                    let a = self.alloc_json(a);
                    format!("{{\"c\":{a},\"t\":{ty}}}")
                }
                TyConstKind::ZSTValue(_) => format!("{{\"z\":1,\"t\":{ty}}}"),
                k => format!("{{\"u\":{},\"t\":{ty}}}", esc(&format!("{k:?}"))),
            },
            k => format!("{{\"u\":{},\"t\":{ty}}}", esc(&format!("{k:?}"))),
        }
    }

    fn place_json(&mut self, p: &Place) -> String {
        let mut o = format!("[{}", p.local);
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    let _ = write!(o, ",[\"f\",{i},{t}]");
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{l}]");
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, ",[\"ci\",{offset},{min_length},{from_end}]");
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"ss\",{from},{to},{from_end}]");
                }
                ProjectionElem::Downcast(v) => {
                    let _ = write!(o, ",[\"d\",{}]", v.to_index());
                }
                ProjectionElem::OpaqueCast(_) => {}
            }
        }
        o.push(']');
        o
    }

    fn op_json(&mut self, op: &Operand) -> String {
        match op {
            Operand::Copy(p) | Operand::Move(p) => {
                let p = self.place_json(p);
                format!("{{\"p\":{p}}}")
            }
            Operand::Constant(c) => self.const_json(c),
            Operand::RuntimeChecks(r) => format!("{{\"rc\":\"{r:?}\"}}"),
        }
    }

    fn rv_json(&mut self, rv: &Rvalue, locals: &[LocalDecl]) -> String {
        match rv {
            Rvalue::AddressOf(_, p) | Rvalue::Ref(_, _, p) => {
                let t = match rv.ty(locals) {
                    Ok(t) => self.ty(t) as i64,
                    Err(_) => -1,
                };
                format!("[\"ref\",{},{t}]", self.place_json(p))
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.op_json(o)).collect();
                let t = match rv.ty(locals) {
                    Ok(t) => self.ty(t) as i64,
                    Err(_) => -1,
                };
                let var = match k {
                    AggregateKind::Adt(_, v, _, _, None) => v.to_index() as i64,
                    AggregateKind::Adt(_, _, _, _, Some(f)) => -2 - (*f as i64),
                    AggregateKind::RawPtr(..) => -1,
                    _ => 0,
                };
                format!("[\"agg\",{t},{var},[{}]]", v.join(","))
            }
            Rvalue::BinaryOp(op, a, b) => format!(
                "[\"bin\",\"{op:?}\",{},{}]",
                self.op_json(a),
                self.op_json(b)
            ),
            Rvalue::CheckedBinaryOp(op, a, b) => format!(
                "[\"cbin\",\"{op:?}\",{},{}]",
                self.op_json(a),
                self.op_json(b)
            ),
            Rvalue::UnaryOp(op, a) => {
                format!("[\"un\",\"{op:?}\",{}]", self.op_json(a))
            }
            Rvalue::Cast(k, o, t) => {
                let ot = match o.ty(locals) {
                    Ok(t) => self.ty(t) as i64,
                    Err(_) => -1,
                };
                let t = self.ty(*t);
                let kk = match k {
                    CastKind::PointerCoercion(p) => format!("{p:?}"),
                    k => format!("{k:?}"),
                };
                let kk = kk.split('(').next().unwrap().to_string();
                format!("[\"cast\",{},{},{ot},{t}]", esc(&kk), self.op_json(o))
            }
            Rvalue::CopyForDeref(p) => {
                format!("[\"use\",{{\"p\":{}}}]", self.place_json(p))
            }
            Rvalue::Discriminant(p) => {
                let t = match rv.ty(locals) {
                    Ok(t) => self.ty(t) as i64,
                    Err(_) => -1,
                };
                format!("[\"discr\",{},{t}]", self.place_json(p))
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place_json(p)),
            Rvalue::Repeat(o, n) => format!(
                "[\"rep\",{},{}]",
                self.op_json(o),
                n.eval_target_usize().unwrap_or(u64::MAX)
            ),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op_json(o)),
            other => format!("[\"unk\",{}]", esc(&format!("{other:?}"))),
        }
    }

    fn span_json(&self, s: Span) -> String {
        let f = s.get_filename().to_string();
        let l = s.get_lines();
        esc(&format!("{}:{}:{}", f, l.start_line, l.start_col))
    }

    fn body_json(&mut self, inst: Instance, body: &Body) -> String {
        let locals = body.locals();
        let mut o = String::new();
        let lt: Vec<String> =
            locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(
            o,
            "{{\"name\":{},\"crate\":{},\"span\":{},\"nargs\":{},\"locals\":[{}],\"spread\":{},\"blocks\":[",
            esc(&inst.name()),
            esc(&inst.def_krate_name()),
            self.span_json(body.span),
            body.arg_locals().len(),
            lt.join(","),
            match body.spread_arg() { Some(l) => l.to_string(), None => "null".into() }
        );
        for (bi, b) in body.blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &b.statements {
                let js = match &s.kind {
                    StatementKind::Assign(p, rv) => Some(format!(
                        "[\"=\",{},{},{}]",
                        self.place_json(p),
                        self.rv_json(rv, locals),
                        s.source_info.span.get_lines().start_line
                    )),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        Some(format!(
                            "[\"sd\",{},{}]",
                            self.place_json(place),
                            variant_index.to_index()
                        ))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => None,
                    StatementKind::Intrinsic(
                        NonDivergingIntrinsic::CopyNonOverlapping(c),
                    ) => Some(format!(
                        "[\"cno\",{},{},{}]",
                        self.op_json(&c.src),
                        self.op_json(&c.dst),
                        self.op_json(&c.count)
                    )),
                    _ => None,
                };
                if let Some(js) = js {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    o.push_str(&js);
                }
            }
            o.push_str("],\"t\":");
            let sp = self.span_json(b.terminator.source_info.span);
            let t = match &b.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{target}]"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets
                        .branches()
                        .map(|(v, t)| format!("[\"{v}\",{t}]"))
                        .collect();
                    format!(
                        "[\"sw\",{},[{}],{}]",
                        self.op_json(discr),
                        br.join(","),
                        targets.otherwise()
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                TerminatorKind::Drop { target, place, .. } => {
                    format!("[\"drop\",{target},{}]", self.place_json(place))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> =
                        args.iter().map(|o| self.op_json(o)).collect();
                    format!(
                        "[\"call\",{},[{}],{},{},{sp}]",
                        self.op_json(func),
                        a.join(","),
                        self.place_json(destination),
                        match target {
                            Some(t) => t.to_string(),
                            None => "null".into(),
                        }
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{msg:?}");
                    let m = m.split(|c| c == '(' || c == ' ').next().unwrap().to_string();
                    format!(
                        "[\"assert\",{},{expected},{},{target},{sp}]",
                        self.op_json(cond),
                        esc(&m)
                    )
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            o.push_str(&t);
            o.push('}');
        }
        o.push_str("]}");
        o
    }

    fn drain(&mut self) {
        while let Some(i) = self.fn_queue.pop() {
            let name = i.name();
            let key = if let Some(n) = i.intrinsic_name() {
                format!("intrinsic:{}:{}", n, i.mangled_name())
            } else {
                i.mangled_name()
            };
            if i.kind == InstanceKind::Intrinsic || is_panic_like(&name) {
                self.fn_out.push((key, format!("{{\"name\":{},\"extern\":true}}", esc(&name))));
                continue;
            }
            let body = if matches!(i.kind, InstanceKind::Virtual { .. }) {
                None
            } else {
                i.body()
            };
            match body {
                Some(b) => {
                    let s = self.body_json(i, &b);
                    self.fn_out.push((key, s));
                }
                None => {
                    self.nobody.push(name.clone());
                    self.fn_out.push((
                        key,
                        format!("{{\"name\":{},\"extern\":true}}", esc(&name)),
                    ));
                }
            }
            while let Some((id, a)) = self.alloc_queue.pop() {
                let s = match GlobalAlloc::from(a) {
                    GlobalAlloc::Memory(m) => self.alloc_json(&m),
                    GlobalAlloc::Static(d) => match d.eval_initializer() {
                        Ok(m) => {
                            let s = self.alloc_json(&m);
                            format!(
                                "{},\"static\":{}}}",
                                &s[..s.len() - 1],
                                esc(&d.name())
                            )
                        }
                        Err(_) => format!("{{\"static\":{}}}", esc(&d.name())),
                    },
                    GlobalAlloc::Function(i) => {
                        let k = self.inst_key(i);
                        format!("{{\"fn\":{}}}", esc(&k))
                    }
                    GlobalAlloc::VTable(..) => "{\"vtable\":1}".into(),
                    _ => "{\"other\":1}".into(),
                };
                self.alloc_out.insert(id, s);
            }
        }
    }
}

trait KrateName {
    fn def_krate_name(&self) -> String;
}
impl KrateName for Instance {
    fn def_krate_name(&self) -> String {
        match CrateItem::try_from(*self) {
            Ok(it) => it.krate().name,
            Err(_) => String::new(),
        }
    }
}

fn go() -> ControlFlow<()> {
    let out = std::env::var("MIRX_OUT").expect("MIRX_OUT");
    let mut cx = Cx::default();
    let mut entries = vec![];
    let mut consts = vec![];
    let mut generic = vec![];
    // MIRX_VALUES: only the evaluated constants and statics of the crate
    let vals_only = std::env::var("MIRX_VALUES").is_ok();
    let mut vals: Vec<String> = vec![];
    for it in rustc_public::all_local_items() {
        match it.kind() {
            ItemKind::Fn if vals_only => {}
            ItemKind::Fn => {
                if it.requires_monomorphization() {
                    generic.push(esc(&it.name()));
                    continue;
                }
                if let Ok(i) = Instance::try_from(it) {
                    let k = cx.inst_key(i);
                    entries.push(format!("[{},{}]", esc(&it.name()), esc(&k)));
                }
            }
            ItemKind::Static | ItemKind::Const => {
                consts.push(esc(&it.name()));
                if vals_only && !it.requires_monomorphization() {
                    let a = if it.kind() == ItemKind::Static {
                        rustc_public::mir::mono::StaticDef::try_from(it)
                            .ok()
                            .and_then(|d| d.eval_initializer().ok())
                    } else {
                        Instance::try_from(it)
                            .ok()
                            .and_then(|i| i.try_const_eval(it.ty()).ok())
                    };
                    if let Some(a) = a {
                        let t = cx.ty(it.ty());
                        let a = cx.alloc_json(&a);
                        let sp = it.span();
                        vals.push(format!(
                            "[{},{t},{a},{},{}]",
                            esc(&it.name()),
                            esc(&sp.get_filename()),
                            sp.get_lines().start_line
                        ));
                    }
                }
            }
            _ => {}
        }
    }
    cx.drain();
    let mut o = String::new();
    o.push_str("{\"entries\":[\n");
    o.push_str(&entries.join(",\n"));
    o.push_str("],\n\"consts\":[");
    o.push_str(&consts.join(","));
    o.push_str("],\n\"values\":[");
    o.push_str(&vals.join(",\n"));
    o.push_str("],\n\"generic\":[");
    o.push_str(&generic.join(","));
    o.push_str("],\n\"types\":[\n");
    let tys: Vec<String> = cx.ty_out.values().cloned().collect();
    assert_eq!(tys.len(), cx.ty_ids.len());
    o.push_str(&tys.join(",\n"));
    o.push_str("],\n\"allocs\":{\n");
    let al: Vec<String> =
        cx.alloc_out.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    o.push_str(&al.join(",\n"));
    o.push_str("},\n\"fns\":{\n");
    let f: Vec<String> =
        cx.fn_out.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect();
    o.push_str(&f.join(",\n"));
    o.push_str("}}\n");
    std::fs::write(&out, o).expect("write");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER / RUSTC_WRAPPER style: argv[1] is rustc itself.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    let r = run!(&args, go);
    if r.is_err() {
        std::process::exit(1);
    }
}
