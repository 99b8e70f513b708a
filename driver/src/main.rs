//! A `rustc` wrapper that dumps the monomorphised MIR of the crate under analysis as JSON.
//!
//! It is injected with RUSTC_WORKSPACE_WRAPPER. For every crate other than the target crate it
//! behaves exactly like rustc. For the target crate (env MIRDUMP_CRATE, only its library target)
//! it writes MIRDUMP_OUT. Nothing of the analysed crate is executed (constants and statics are
//! the ones the compiler itself evaluates).
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_session;
extern crate rustc_span;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::abi::Primitive;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem, DefId};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'t> {
    tcx: rustc_middle::ty::TyCtxt<'t>,
    types: HashMap<Ty, usize>,
    type_json: Vec<String>,
    insts: HashMap<Instance, usize>,
    inst_json: Vec<Option<String>>,
    queue: VecDeque<Instance>,
    allocs: HashMap<usize, usize>,
    alloc_json: Vec<String>,
    statics: BTreeMap<String, String>,
    local: String,
    all_bodies: bool,
}

fn crate_of(d: DefId) -> String {
    // the first path component of the (untrimmed) name is the crate for paths; impls print <..>
    with_krate(d)
}
fn with_krate(d: DefId) -> String {
    struct K(DefId);
    impl CrateDef for K {
        fn def_id(&self) -> DefId {
            self.0
        }
    }
    K(d).krate().name.to_string()
}

fn span_json(s: Span) -> String {
    let l = s.get_lines();
    format!("[{},{},{}]", esc(&s.get_filename().to_string()), l.start_line, l.start_col)
}

impl<'t> Cx<'t> {
    fn stop(&self, i: &Instance) -> bool {
        let krate = crate_of(i.def.def_id());
        if krate == self.local {
            return false;
        }
        if self.all_bodies {
            return false;
        }
        let n = i.name().to_string();
        match krate.as_str() {
            "core" => {
                // generics of core are followed, except for what the analyser models natively
                n.contains("core::fmt::")
                    || n.contains("core::panicking")
                    || n.contains("core_arch")
                    || n.contains("core::str::")
                    || n.starts_with("std::fmt::")
                    || n.contains("panicking::")
                    || n.contains("::arch::")
                    || n.contains("fmt::Formatter")
                    || n.contains("as std::fmt::")
            }
            _ => true,
        }
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let id = self.type_json.len();
        self.types.insert(t, id);
        self.type_json.push(String::new());
        let kind = t.kind();
        let mut s = String::new();
        let _ = write!(s, "{{\"id\":{},\"name\":{}", id, esc(&format!("{}", t)));
        match kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => s.push_str(",\"k\":\"bool\""),
                RigidTy::Char => s.push_str(",\"k\":\"char\""),
                RigidTy::Int(i) => {
                    let _ = write!(s, ",\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8);
                }
                RigidTy::Uint(i) => {
                    let _ = write!(s, ",\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8);
                }
                RigidTy::Float(_) => s.push_str(",\"k\":\"float\""),
                RigidTy::Str => s.push_str(",\"k\":\"str\""),
                RigidTy::Never => s.push_str(",\"k\":\"never\""),
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    let n = n.eval_target_usize().unwrap_or(u64::MAX);
                    let _ = write!(s, ",\"k\":\"array\",\"elem\":{},\"len\":{}", e, n);
                }
                RigidTy::Slice(e) => {
                    let e = self.ty(e);
                    let _ = write!(s, ",\"k\":\"slice\",\"elem\":{}", e);
                }
                RigidTy::Pat(e, _) => {
                    let e = self.ty(e);
                    let _ = write!(s, ",\"k\":\"pat\",\"elem\":{}", e);
                }
                RigidTy::RawPtr(e, m) => {
                    let e = self.ty(e);
                    let _ = write!(s, ",\"k\":\"rawptr\",\"elem\":{},\"mut\":{}", e, m == Mutability::Mut);
                }
                RigidTy::Ref(_, e, m) => {
                    let e = self.ty(e);
                    let _ = write!(s, ",\"k\":\"ref\",\"elem\":{},\"mut\":{}", e, m == Mutability::Mut);
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    let _ = write!(s, ",\"k\":\"tuple\",\"elems\":[{}]", v.join(","));
                }
                RigidTy::Adt(d, args) => {
                    let a = self.args(&args);
                    let ak = match d.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    let _ = write!(
                        s,
                        ",\"k\":\"adt\",\"adt\":\"{}\",\"path\":{},\"krate\":{},\"args\":{}",
                        ak,
                        esc(&d.name().to_string()),
                        esc(&crate_of(d.def_id())),
                        a
                    );
                    let mut vs = vec![];
                    for v in d.variants_iter() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&args);
                            let ft = self.ty(ft);
                            fs.push(format!("[{},{}]", esc(&f.name.to_string()), ft));
                        }
                        let dv = if ak == "enum" {
                            d.discriminant_for_variant(v.idx()).val
                        } else {
                            0
                        };
                        vs.push(format!(
                            "{{\"name\":{},\"discr\":\"{}\",\"fields\":[{}]}}",
                            esc(&v.name().to_string()),
                            dv,
                            fs.join(",")
                        ));
                    }
                    let _ = write!(s, ",\"variants\":[{}],\"simd\":{}", vs.join(","), d.is_simd());
                }
                RigidTy::FnDef(d, args) => {
                    let a = self.args(&args);
                    let inst = Instance::resolve(d, &args).ok();
                    let ij = match inst {
                        Some(i) => self.inst(i).to_string(),
                        None => "null".into(),
                    };
                    let _ = write!(
                        s,
                        ",\"k\":\"fndef\",\"path\":{},\"krate\":{},\"args\":{},\"inst\":{}",
                        esc(&d.name().to_string()),
                        esc(&crate_of(d.def_id())),
                        a,
                        ij
                    );
                }
                RigidTy::Closure(d, args) => {
                    let inst = Instance::resolve_closure(d, &args, ClosureKind::Fn).ok();
                    let ij = match inst {
                        Some(i) => self.inst(i).to_string(),
                        None => "null".into(),
                    };
                    let _ = write!(
                        s,
                        ",\"k\":\"closure\",\"path\":{},\"krate\":{},\"inst\":{}",
                        esc(&d.name().to_string()),
                        esc(&crate_of(d.def_id())),
                        ij
                    );
                }
                RigidTy::FnPtr(_) => s.push_str(",\"k\":\"fnptr\""),
                RigidTy::Dynamic(..) => s.push_str(",\"k\":\"dyn\""),
                _ => s.push_str(",\"k\":\"other\""),
            },
            _ => s.push_str(",\"k\":\"other\""),
        }
        if let Ok(l) = t.layout() {
            let sh = l.shape();
            let _ = write!(s, ",\"size\":{},\"align\":{}", sh.size.bytes(), sh.abi_align);
            match &sh.fields {
                FieldsShape::Arbitrary { offsets } => {
                    let v: Vec<String> = offsets.iter().map(|o| o.bytes().to_string()).collect();
                    let _ = write!(s, ",\"offsets\":[{}]", v.join(","));
                }
                FieldsShape::Array { stride, .. } => {
                    let _ = write!(s, ",\"stride\":{}", stride.bytes());
                }
                _ => {}
            }
            match &sh.variants {
                VariantsShape::Single { index } => {
                    let _ = write!(s, ",\"vsingle\":{}", index.to_index());
                }
                VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                    let prim = match tag {
                        rustc_public::abi::Scalar::Initialized { value, .. } => value,
                        rustc_public::abi::Scalar::Union { value } => value,
                    };
                    let sz = match prim {
                        Primitive::Int { length, .. } => length.bits() / 8,
                        _ => 8,
                    };
                    let enc = match tag_encoding {
                        TagEncoding::Direct => "{\"e\":\"direct\"}".to_string(),
                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                            "{{\"e\":\"niche\",\"untagged\":{},\"lo\":{},\"hi\":{},\"start\":\"{}\"}}",
                            untagged_variant.to_index(),
                            niche_variants.start().to_index(),
                            niche_variants.end().to_index(),
                            niche_start
                        ),
                    };
                    let mut vv = vec![];
                    for v in variants {
                        let o: Vec<String> = v.offsets.iter().map(|o| o.bytes().to_string()).collect();
                        vv.push(format!("[{}]", o.join(",")));
                    }
                    let _ = write!(
                        s,
                        ",\"vmulti\":{{\"tagsize\":{},\"tagfield\":{},\"enc\":{},\"variants\":[{}]}}",
                        sz,
                        tag_field,
                        enc,
                        vv.join(",")
                    );
                }
                VariantsShape::Empty => {}
            }
        }
        s.push('}');
        self.type_json[id] = s;
        id
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .map(|g| match g {
                GenericArgKind::Lifetime(_) => "null".to_string(),
                GenericArgKind::Type(t) => format!("{{\"t\":{}}}", self.ty(*t)),
                GenericArgKind::Const(c) => match c.eval_target_usize() {
                    Ok(v) => format!("{{\"c\":{}}}", v),
                    Err(_) => "{\"c\":null}".to_string(),
                },
            })
            .collect();
        format!("[{}]", v.join(","))
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&x) = self.insts.get(&i) {
            return x;
        }
        let id = self.inst_json.len();
        self.insts.insert(i, id);
        self.inst_json.push(None);
        self.queue.push_back(i);
        id
    }

    fn alloc(&mut self, a: &Allocation) -> String {
        // bytes as hex, uninitialised as "__"
        let mut hx = String::with_capacity(a.bytes.len() * 2);
        for b in &a.bytes {
            match b {
                Some(b) => {
                    let _ = write!(hx, "{:02x}", b);
                }
                None => hx.push_str("__"),
            }
        }
        let mut ps = vec![];
        for (off, p) in &a.provenance.ptrs {
            let id = self.global(p.0);
            ps.push(format!("[{},{}]", off, id));
        }
        format!(
            "{{\"bytes\":\"{}\",\"ptrs\":[{}],\"align\":{}}}",
            hx,
            ps.join(","),
            a.align
        )
    }

    fn global(&mut self, id: rustc_public::mir::alloc::AllocId) -> usize {
        let key = id.to_index();
        if let Some(&x) = self.allocs.get(&key) {
            return x;
        }
        let x = self.alloc_json.len();
        self.allocs.insert(key, x);
        self.alloc_json.push(String::new());
        let js = match GlobalAlloc::from(id) {
            GlobalAlloc::Function(i) => format!("{{\"k\":\"fn\",\"inst\":{}}}", self.inst(i)),
            GlobalAlloc::VTable(..) => "{\"k\":\"vtable\"}".into(),
            GlobalAlloc::Static(d) => {
                self.static_(d);
                format!("{{\"k\":\"static\",\"name\":{}}}", esc(&d.name().to_string()))
            }
            GlobalAlloc::Memory(a) => format!("{{\"k\":\"mem\",\"a\":{}}}", self.alloc(&a)),
            GlobalAlloc::TypeId { .. } => "{\"k\":\"typeid\"}".into(),
        };
        self.alloc_json[x] = js;
        x
    }

    fn static_(&mut self, d: StaticDef) {
        let name = d.name().to_string();
        if self.statics.contains_key(&name) {
            return;
        }
        self.statics.insert(name.clone(), String::new());
        let t = self.ty(d.ty());
        let krate = crate_of(d.def_id());
        let a = if krate == self.local {
            match d.eval_initializer() {
                Ok(a) => self.alloc(&a),
                Err(_) => "null".into(),
            }
        } else {
            "null".into()
        };
        let rd = rustc_public::rustc_internal::internal(self.tcx, d.def_id());
        let mutable = matches!(
            self.tcx.def_kind(rd),
            rustc_hir::def::DefKind::Static { mutability: rustc_hir::Mutability::Mut, .. }
        );
        let freeze = self
            .tcx
            .type_of(rd)
            .instantiate_identity()
            .skip_norm_wip()
            .is_freeze(self.tcx, rustc_middle::ty::TypingEnv::fully_monomorphized());
        // instance of the initialiser body
        let inst: Instance = d.into();
        let i = if krate == self.local { self.inst(inst).to_string() } else { "null".into() };
        let js = format!(
            "{{\"name\":{},\"krate\":{},\"freeze\":{},\"mut\":{},\"ty\":{},\"alloc\":{},\"inst\":{},\"span\":{}}}",
            esc(&name),
            esc(&krate),
            freeze,
            mutable,
            t,
            a,
            i,
            span_json(d.span())
        );
        self.statics.insert(name, js);
    }

    fn konst(&mut self, c: &ConstOperand) -> String {
        let t = self.ty(c.const_.ty());
        let v = match c.const_.kind() {
            ConstantKind::Allocated(a) => self.alloc(a),
            ConstantKind::ZeroSized => "null".to_string(),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => self.alloc(a),
                _ => match tc.eval_target_usize() {
                    Ok(v) => format!("{{\"usize\":{}}}", v),
                    Err(_) => "null".into(),
                },
            },
            other => format!("{{\"unsupported\":{}}}", esc(&format!("{:?}", other))),
        };
        format!("{{\"k\":\"const\",\"ty\":{},\"v\":{}}}", t, v)
    }

    fn place(&mut self, p: &Place) -> String {
        let mut ps = vec![];
        for e in &p.projection {
            ps.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"field\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"cindex\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"subslice\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(v) => format!("[\"downcast\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"opaque\",{}]", self.ty(*t)),
            });
        }
        format!("[{},[{}]]", p.local, ps.join(","))
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(r) => format!("{{\"k\":\"rtcheck\",\"w\":\"{:?}\"}}", r),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        let ty = r.ty(locals).ok().map(|t| self.ty(t));
        let tys = ty.map(|t| t.to_string()).unwrap_or("null".into());
        let body = match r {
            Rvalue::Use(o, ..) => format!("\"k\":\"use\",\"o\":{}", self.op(o)),
            Rvalue::Repeat(o, n) => format!(
                "\"k\":\"repeat\",\"o\":{},\"n\":{}",
                self.op(o),
                n.eval_target_usize().unwrap_or(u64::MAX)
            ),
            Rvalue::Ref(_, bk, p) => format!(
                "\"k\":\"ref\",\"mut\":{},\"p\":{}",
                bk.clone().to_mutable_lossy() == Mutability::Mut,
                self.place(p)
            ),
            Rvalue::AddressOf(k, p) => format!(
                "\"k\":\"addrof\",\"mut\":{},\"p\":{}",
                k.clone().to_mutable_lossy() == Mutability::Mut,
                self.place(p)
            ),
            Rvalue::Len(p) => format!("\"k\":\"len\",\"p\":{}", self.place(p)),
            Rvalue::Cast(ck, o, t) => {
                format!("\"k\":\"cast\",\"ck\":\"{:?}\",\"o\":{},\"t\":{}", ck, self.op(o), self.ty(*t))
            }
            Rvalue::BinaryOp(b, x, y) => {
                format!("\"k\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}", b, self.op(x), self.op(y))
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                format!("\"k\":\"cbin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}", b, self.op(x), self.op(y))
            }
            Rvalue::UnaryOp(u, x) => format!("\"k\":\"un\",\"op\":\"{:?}\",\"a\":{}", u, self.op(x)),
            Rvalue::Discriminant(p) => format!("\"k\":\"discr\",\"p\":{}", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"p\":{}}}", self.place(p)),
            Rvalue::ThreadLocalRef(_) => "\"k\":\"tls\"".to_string(),
            Rvalue::Aggregate(ak, os) => {
                let v: Vec<String> = os.iter().map(|o| self.op(o)).collect();
                let a = match ak {
                    AggregateKind::Array(_) => "\"a\":\"array\"".to_string(),
                    AggregateKind::Tuple => "\"a\":\"tuple\"".to_string(),
                    AggregateKind::Adt(_, vi, _, _, fi) => format!(
                        "\"a\":\"adt\",\"variant\":{},\"ufield\":{}",
                        vi.to_index(),
                        fi.map(|x| x.to_string()).unwrap_or("null".into())
                    ),
                    AggregateKind::Closure(..) => "\"a\":\"closure\"".to_string(),
                    AggregateKind::RawPtr(..) => "\"a\":\"rawptr\"".to_string(),
                    _ => "\"a\":\"other\"".to_string(),
                };
                format!("\"k\":\"agg\",{},\"ops\":[{}]", a, v.join(","))
            }
            other => format!("\"k\":\"unsupported\",\"d\":{}", esc(&format!("{:?}", other))),
        };
        format!("{{{},\"ty\":{}}}", body, tys)
    }

    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let mut s = String::new();
        let ls: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local, esc(&v.name.to_string())));
                }
            }
        }
        let sa = format!("{:?}", b.spread_arg());
        let _ = write!(
            s,
            "{{\"argc\":{},\"locals\":[{}],\"names\":[{}],\"spread\":{},\"span\":{},\"blocks\":[",
            b.arg_locals().len(),
            ls.join(","),
            names.join(","),
            sa.trim_start_matches("Some(").trim_end_matches(')').replace("None", "null"),
            span_json(b.span)
        );
        for (bi, bb) in b.blocks.iter().enumerate() {
            if bi > 0 {
                s.push(',');
            }
            s.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let js = match &st.kind {
                    StatementKind::Assign(p, r) => {
                        format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r, &locals), span_json(st.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"setd\",{},{}]", self.place(place), variant_index.to_index())
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        format!("[\"assume\",{}]", self.op(o))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        format!("[\"copynonoverlapping\",{},{},{}]", self.op(&c.src), self.op(&c.dst), self.op(&c.count))
                    }
                    _ => continue,
                };
                if !first {
                    s.push(',');
                }
                first = false;
                s.push_str(&js);
            }
            s.push_str("],\"t\":");
            let sp = span_json(bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("{{\"k\":\"goto\",\"t\":{}", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> =
                        targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect();
                    format!(
                        "{{\"k\":\"switch\",\"o\":{},\"br\":[{}],\"ow\":{}",
                        self.op(discr),
                        v.join(","),
                        targets.otherwise()
                    )
                }
                TerminatorKind::Resume => "{\"k\":\"resume\"".into(),
                TerminatorKind::Abort => "{\"k\":\"abort\"".into(),
                TerminatorKind::Return => "{\"k\":\"return\"".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&locals).ok().map(|t| self.ty(t));
                    format!(
                        "{{\"k\":\"drop\",\"p\":{},\"ty\":{},\"t\":{}",
                        self.place(place),
                        t.map(|x| x.to_string()).unwrap_or("null".into()),
                        target
                    )
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&locals).unwrap();
                    let ft = self.ty(fty);
                    let v: Vec<String> = args.iter().map(|o| self.op(o)).collect();
                    let inst = match fty.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                            Instance::resolve(d, &a).ok().map(|i| self.inst(i).to_string())
                        }
                        _ => None,
                    };
                    format!(
                        "{{\"k\":\"call\",\"f\":{},\"fty\":{},\"inst\":{},\"args\":[{}],\"d\":{},\"t\":{}",
                        self.op(func),
                        ft,
                        inst.unwrap_or("null".into()),
                        v.join(","),
                        self.place(destination),
                        target.map(|x| x.to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => format!(
                    "{{\"k\":\"assert\",\"c\":{},\"e\":{},\"msg\":{},\"t\":{}",
                    self.op(cond),
                    expected,
                    esc(&format!("{:?}", msg).chars().take(60).collect::<String>()),
                    target
                ),
                TerminatorKind::InlineAsm { .. } => "{\"k\":\"asm\"".into(),
            };
            let _ = write!(s, "{},\"span\":{}}}}}", t, sp);
        }
        s.push_str("]}");
        s
    }

    fn run(&mut self) {
        while let Some(i) = self.queue.pop_front() {
            let id = self.insts[&i];
            let did = i.def.def_id();
            let krate = crate_of(did);
            let kind = match i.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic => "intrinsic",
                InstanceKind::LlvmIntrinsic => "llvm",
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Shim => "shim",
            };
            let args = self.args(&i.args());
            let stop = self.stop(&i);
            let body = if stop || kind == "intrinsic" || kind == "virtual" || kind == "llvm" {
                None
            } else {
                i.body()
            };
            let bj = match &body {
                Some(b) => self.body(b),
                None => "null".into(),
            };
            struct K(DefId);
            impl CrateDef for K {
                fn def_id(&self) -> DefId {
                    self.0
                }
            }
            // CPU features the function may use (and its callers must therefore have)
            let rd = rustc_public::rustc_internal::internal(self.tcx, did);
            let tf: Vec<String> = match self.tcx.def_kind(rd) {
                rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn => self
                    .tcx
                    .codegen_fn_attrs(rd)
                    .target_features
                    .iter()
                    .map(|f| esc(f.name.as_str()))
                    .collect(),
                _ => vec![],
            };
            let us = match self.tcx.def_kind(rd) {
                rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn => {
                    self.tcx.fn_sig(rd).skip_binder().safety().is_unsafe()
                }
                _ => false,
            };
            let js = format!(
                "{{\"id\":{},\"name\":{},\"path\":{},\"krate\":{},\"kind\":\"{}\",\"args\":{},\"tf\":[{}],\"us\":{us},\"span\":{},\"body\":{}}}",
                id,
                esc(&i.name().to_string()),
                esc(&K(did).name().to_string()),
                esc(&krate),
                kind,
                args,
                tf.join(","),
                span_json(K(did).span()),
                bj
            );
            self.inst_json[id] = Some(js);
        }
    }
}

fn analyze(tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").unwrap();
    let krate = rustc_public::local_crate();
    let mut cx = Cx {
        tcx,
        types: HashMap::new(),
        type_json: vec![],
        insts: HashMap::new(),
        inst_json: vec![],
        queue: VecDeque::new(),
        allocs: HashMap::new(),
        alloc_json: vec![],
        statics: BTreeMap::new(),
        local: krate.name.to_string(),
        all_bodies: std::env::var("MIRDUMP_ALL").is_ok(),
    };
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        let d = item.def_id();
        match item.kind() {
            rustc_public::ItemKind::Fn => {
                if item.requires_monomorphization() {
                    roots.push(format!("{{\"name\":{},\"generic\":true}}", esc(&item.name().to_string())));
                    continue;
                }
                if let Ok(i) = Instance::try_from(item) {
                    let id = cx.inst(i);
                    let rd = rustc_public::rustc_internal::internal(tcx, d);
                    let (pb, reach, uns) = match rd.as_local() {
                        Some(l) => {
                            let ev = tcx.effective_visibilities(());
                            let is_fn = matches!(
                                tcx.def_kind(rd),
                                rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn
                            );
                            (
                                ev.is_exported(l),
                                ev.is_reachable(l),
                                is_fn && tcx.fn_sig(rd).skip_binder().safety().is_unsafe(),
                            )
                        }
                        None => (false, false, false),
                    };
                    roots.push(format!(
                        "{{\"name\":{},\"inst\":{},\"public\":{},\"reachable\":{},\"unsafe\":{},\"span\":{}}}",
                        esc(&item.name().to_string()),
                        id,
                        pb,
                        reach,
                        uns,
                        span_json(item.span())
                    ));
                }
            }
            _ => {}
        }
    }
    for s in krate.statics() {
        cx.static_(s);
    }
    cx.run();
    // unsafe code, inline assembly, extern blocks, impls: facts about the source
    let mut impls = vec![];
    for im in tcx.all_local_trait_impls(()).iter() {
        for did in im.1.iter() {
            let tr = tcx.impl_trait_ref(*did).skip_binder();
            impls.push(format!(
                "{{\"trait\":{},\"self\":{},\"unsafe\":{},\"derived\":{}}}",
                esc(&tcx.def_path_str(tr.def_id)),
                esc(&format!("{}", tr.self_ty())),
                tcx.impl_trait_header(*did).safety.is_unsafe(),
                tcx.is_builtin_derived(did.to_def_id())
            ));
        }
    }
    let mut exports = vec![];
    {
        let ev = tcx.effective_visibilities(());
        for id in tcx.hir_crate_items(()).definitions() {
            if ev.is_exported(id) {
                exports.push(esc(&tcx.def_path_str(id.to_def_id())));
            }
        }
    }
    let mut s = String::new();
    s.push_str("{\"crate\":");
    s.push_str(&esc(&cx.local));
    let feats: Vec<String> =
        tcx.sess.internal_target_features.iter().map(|f| esc(f.as_str())).collect();
    let _ = write!(
        s,
        ",\"target\":{},\"arch\":{},\"features\":[{}]",
        esc(&tcx.sess.opts.target_triple.to_string()),
        esc(&tcx.sess.target.arch.to_string()),
        feats.join(",")
    );
    // type definitions: do values have interior mutability?
    let mut adts = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        use rustc_hir::def::DefKind;
        if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum | DefKind::Union)
            && tcx.generics_of(id).count() == 0
        {
            let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
            let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
            adts.push(format!(
                "{{\"name\":{},\"freeze\":{},\"exported\":{}}}",
                esc(&tcx.def_path_str(id.to_def_id())),
                t.is_freeze(tcx, env),
                tcx.effective_visibilities(()).is_exported(id)
            ));
        }
    }
    let _ = write!(s, ",\"adts\":[{}]", adts.join(",\n"));
    let _ = write!(s, ",\"roots\":[{}]", roots.join(",\n"));
    let _ = write!(s, ",\"impls\":[{}]", impls.join(",\n"));
    let _ = write!(s, ",\"exports\":[{}]", exports.join(",\n"));
    let _ = write!(s, ",\"types\":[{}]", cx.type_json.join(",\n"));
    let ij: Vec<String> = cx.inst_json.iter().map(|x| x.clone().unwrap()).collect();
    let _ = write!(s, ",\"insts\":[{}]", ij.join(",\n"));
    let _ = write!(s, ",\"allocs\":[{}]", cx.alloc_json.join(",\n"));
    let st: Vec<String> = cx.statics.values().cloned().collect();
    let _ = write!(s, ",\"statics\":[{}]}}", st.join(",\n"));
    std::fs::write(&out, s).unwrap();
    let _: Option<CrateItem> = None;
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as: mirdump <rustc> <args..>
    args.remove(1);
    args[0] = "rustc".into();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib");
    let is_test = args.iter().any(|a| a == "--test");
    if name == want && is_lib && !is_test {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        let r = rustc_public::run_with_tcx!(&args, analyze);
        match r {
            Ok(()) => {}
            Err(_) => std::process::exit(1),
        }
    } else {
        let rustc = std::env::args().nth(1).unwrap();
        let e = std::os::unix::process::CommandExt::exec(
            std::process::Command::new(rustc).args(&args[1..]),
        );
        eprintln!("mirdump: cannot run rustc: {e}");
        std::process::exit(1);
    }
}
