//! Dumps, as JSON, every monomorphic MIR body reachable from a set of roots of the crate being
//! compiled, with the types, layouts and constant allocations those bodies mention.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: `mirdump /path/to/rustc args...`.  Without MIRDUMP_OUT, or for
//! a crate other than MIRDUMP_CRATE, it is a plain rustc.
#![feature(rustc_private)]
#![allow(unused_imports)]

extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_middle::ty::TyCtxt;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use rustc_public::abi::*;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
use J::*;

impl J {
    fn write(&self, o: &mut String) {
        match self {
            N => o.push_str("null"),
            B(b) => o.push_str(if *b { "true" } else { "false" }),
            I(i) => write!(o, "{i}").unwrap(),
            S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    write!(o, "\"{k}\":").unwrap();
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}
fn s(x: impl ToString) -> J {
    S(x.to_string())
}
fn n(x: usize) -> J {
    I(x as i128)
}
macro_rules! a { ($($x:expr),* $(,)?) => { A(vec![$($x),*]) } }

struct Dump<'tcx> {
    types: HashMap<Ty, usize>,
    type_q: VecDeque<Ty>,
    type_out: Vec<(usize, J)>,
    insts: HashMap<Instance, usize>,
    inst_q: VecDeque<Instance>,
    inst_out: Vec<J>,
    allocs: HashSet<usize>,
    alloc_q: VecDeque<AllocId>,
    alloc_out: Vec<(usize, J)>,
    redirects: HashMap<String, FnDef>,
    stop: Vec<String>,
    error_source: Option<FnDef>,
    display_fmt: Option<FnDef>,
    extra: Vec<J>,
    drops: Vec<J>,
    tcx: TyCtxt<'tcx>,
}

fn def_name(d: FnDef) -> String {
    d.name().to_string()
}

impl<'tcx> Dump<'tcx> {
    fn ty(&mut self, t: Ty) -> J {
        if let Some(i) = self.types.get(&t) {
            return n(*i);
        }
        let i = self.types.len();
        self.types.insert(t, i);
        self.type_q.push_back(t);
        n(i)
    }

    fn args(&mut self, g: &GenericArgs) -> J {
        A(g.0
            .iter()
            .filter_map(|x| match x {
                GenericArgKind::Lifetime(_) => None,
                GenericArgKind::Type(t) => Some(self.ty(*t)),
                GenericArgKind::Const(c) => Some(O(vec![(
                    "const",
                    c.eval_target_usize().map(|x| I(x as i128)).unwrap_or(N),
                )])),
            })
            .collect())
    }

    fn scalar(sc: &Scalar) -> J {
        let p = match sc {
            Scalar::Initialized { value, .. } => value,
            Scalar::Union { value } => value,
        };
        match p {
            Primitive::Int { length, .. } => n(length.bits() / 8),
            _ => n(8),
        }
    }

    fn layout(&mut self, t: Ty) -> J {
        let Ok(l) = t.layout() else { return N };
        let sh = l.shape();
        let fields = match &sh.fields {
            FieldsShape::Primitive => N,
            FieldsShape::Union(_) => s("union"),
            FieldsShape::Array { stride, count } => O(vec![
                ("stride", n(stride.bytes())),
                ("count", I(*count as i128)),
            ]),
            FieldsShape::Arbitrary { offsets } => A(offsets.iter().map(|o| n(o.bytes())).collect()),
        };
        let variants = match &sh.variants {
            VariantsShape::Empty => s("empty"),
            VariantsShape::Single { index } => O(vec![("single", n(index.to_index()))]),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => O(vec![
                ("tag_size", Self::scalar(tag)),
                ("tag_field", n(*tag_field)),
                (
                    "enc",
                    match tag_encoding {
                        TagEncoding::Direct => s("direct"),
                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                            a![
                                n(untagged_variant.to_index()),
                                n(niche_variants.start().to_index()),
                                n(niche_variants.end().to_index()),
                                s(niche_start)
                            ]
                        }
                    },
                ),
                (
                    "variants",
                    A(variants
                        .iter()
                        .map(|v| A(v.offsets.iter().map(|o| n(o.bytes())).collect()))
                        .collect()),
                ),
            ]),
        };
        O(vec![("size", n(sh.size.bytes())), ("fields", fields), ("variants", variants)])
    }

    fn describe(&mut self, t: Ty) -> J {
        let k = t.kind();
        let TyKind::RigidTy(r) = &k else {
            return O(vec![("k", s("other")), ("s", s(format!("{k:?}")))]);
        };
        let mut o: Vec<(&'static str, J)> = match r {
            RigidTy::Bool => vec![("k", s("bool"))],
            RigidTy::Char => vec![("k", s("char"))],
            RigidTy::Int(i) => {
                vec![("k", s("int")), ("bits", n(i.num_bytes() * 8)), ("signed", B(true))]
            }
            RigidTy::Uint(i) => {
                vec![("k", s("int")), ("bits", n(i.num_bytes() * 8)), ("signed", B(false))]
            }
            RigidTy::Float(f) => {
                vec![("k", s("float")), ("bits", n(if format!("{f:?}").contains("32") { 32 } else { 64 }))]
            }
            RigidTy::Adt(d, g) => {
                let mut vs = vec![];
                for v in d.variants_iter() {
                    let fs: Vec<J> = v
                        .fields()
                        .iter()
                        .map(|f| {
                            let ft = f.ty_with_args(g);
                            a![s(&f.name), self.ty(ft)]
                        })
                        .collect();
                    let discr = match d.kind() {
                        AdtKind::Enum => s(d.discriminant_for_variant(v.idx()).val),
                        _ => N,
                    };
                    vs.push(O(vec![("name", s(v.name())), ("discr", discr), ("fields", A(fs))]));
                }
                vec![
                    ("k", s("adt")),
                    ("name", s(d.name())),
                    ("adt", s(format!("{:?}", d.kind()).to_lowercase())),
                    ("args", self.args(g)),
                    ("variants", A(vs)),
                    ("box", B(d.is_box())),
                ]
            }
            RigidTy::Str => vec![("k", s("str"))],
            RigidTy::Array(e, c) => vec![
                ("k", s("array")),
                ("elem", self.ty(*e)),
                ("len", c.eval_target_usize().map(|x| I(x as i128)).unwrap_or(N)),
            ],
            RigidTy::Slice(e) => vec![("k", s("slice")), ("elem", self.ty(*e))],
            RigidTy::Pat(e, _) => vec![("k", s("pat")), ("elem", self.ty(*e))],
            RigidTy::RawPtr(e, m) => vec![
                ("k", s("ptr")),
                ("to", self.ty(*e)),
                ("mut", B(*m == Mutability::Mut)),
            ],
            RigidTy::Ref(_, e, m) => vec![
                ("k", s("ref")),
                ("to", self.ty(*e)),
                ("mut", B(*m == Mutability::Mut)),
            ],
            RigidTy::FnDef(d, g) => {
                let mut v = vec![("k", s("fndef")), ("name", s(def_name(*d))), ("args", self.args(g))];
                if let Ok(i) = Instance::resolve(*d, g) {
                    v.push(("inst", self.inst(i)));
                }
                v
            }
            RigidTy::FnPtr(_) => vec![("k", s("fnptr"))],
            RigidTy::Closure(d, g) => {
                let mut v = vec![("k", s("closure")), ("name", s(d.name())), ("args", self.args(g))];
                if let Ok(i) = Instance::resolve_closure(*d, g, ClosureKind::FnMut) {
                    v.push(("inst", self.inst(i)));
                }
                // upvar types: the last generic argument is the tuple of captures
                if let Some(GenericArgKind::Type(u)) = g.0.last() {
                    v.push(("upvars", self.ty(*u)));
                }
                v
            }
            RigidTy::Dynamic(p, _) => vec![("k", s("dyn")), ("s", s(format!("{p:?}")))],
            RigidTy::Never => vec![("k", s("never"))],
            RigidTy::Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(*t)).collect();
                vec![("k", s("tuple")), ("elems", A(v))]
            }
            other => vec![("k", s("other")), ("s", s(format!("{other:?}")))],
        };
        o.push(("s", s(format!("{t}"))));
        o.push(("layout", self.layout(t)));
        O(o)
    }

    fn inst(&mut self, i: Instance) -> J {
        if let Some(k) = self.insts.get(&i) {
            return n(*k);
        }
        let k = self.insts.len();
        self.insts.insert(i, k);
        self.inst_q.push_back(i);
        n(k)
    }

    fn alloc(&mut self, al: &Allocation) -> J {
        let mut prov = vec![];
        for (o, p) in &al.provenance.ptrs {
            prov.push(a![n(*o as usize), n(p.0.to_index())]);
            if self.allocs.insert(p.0.to_index()) {
                self.alloc_q.push_back(p.0);
            }
        }
        O(vec![
            (
                "bytes",
                s(al.bytes
                    .iter()
                    .map(|b| match b {
                        Some(b) => format!("{b:02x}"),
                        None => "__".to_string(),
                    })
                    .collect::<String>()),
            ),
            ("prov", A(prov)),
        ])
    }

    fn constant(&mut self, c: &MirConst) -> J {
        let t = self.ty(c.ty());
        let v = match c.kind() {
            ConstantKind::Allocated(al) => self.alloc(al),
            ConstantKind::ZeroSized => s("zst"),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, al) => self.alloc(al),
                TyConstKind::ZSTValue(_) => s("zst"),
                k => O(vec![("other", s(format!("{k:?}")))]),
            },
            k => O(vec![("other", s(format!("{k:?}")))]),
        };
        a![s("c"), t, v]
    }

    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => a![s("cp"), self.place(p)],
            Operand::Move(p) => a![s("mv"), self.place(p)],
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(r) => a![s("rt"), s(format!("{r:?}"))],
        }
    }

    fn place(&mut self, p: &Place) -> J {
        let pr = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(i, t) => a![s("f"), n(*i), self.ty(*t)],
                ProjectionElem::Index(l) => a![s("i"), n(*l)],
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    a![s("ci"), I(*offset as i128), I(*min_length as i128), B(*from_end)]
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    a![s("ss"), I(*from as i128), I(*to as i128), B(*from_end)]
                }
                ProjectionElem::Downcast(v) => a![s("d"), n(v.to_index())],
                other => a![s("?"), s(format!("{other:?}"))],
            })
            .collect();
        a![n(p.local), A(pr)]
    }

    fn rvalue(&mut self, r: &Rvalue) -> J {
        match r {
            Rvalue::Use(o, _) => a![s("use"), self.operand(o)],
            Rvalue::CopyForDeref(p) => a![s("use"), a![s("cp"), self.place(p)]],
            Rvalue::Reborrow(_, _, p) => a![s("use"), a![s("cp"), self.place(p)]],
            Rvalue::Ref(_, bk, p) => {
                a![s("ref"), self.place(p), B(matches!(bk, BorrowKind::Mut { .. }))]
            }
            Rvalue::AddressOf(_, p) => a![s("ref"), self.place(p), B(true)],
            Rvalue::BinaryOp(op, x, y) => {
                a![s("bin"), s(format!("{op:?}")), self.operand(x), self.operand(y)]
            }
            Rvalue::CheckedBinaryOp(op, x, y) => {
                a![s("chk"), s(format!("{op:?}")), self.operand(x), self.operand(y)]
            }
            Rvalue::UnaryOp(op, x) => a![s("un"), s(format!("{op:?}")), self.operand(x)],
            Rvalue::Cast(k, o, t) => {
                a![s("cast"), s(format!("{k:?}")), self.operand(o), self.ty(*t)]
            }
            Rvalue::Discriminant(p) => a![s("discr"), self.place(p)],
            Rvalue::Len(p) => a![s("len"), self.place(p)],
            Rvalue::Repeat(o, c) => a![
                s("rep"),
                self.operand(o),
                c.eval_target_usize().map(|x| I(x as i128)).unwrap_or(N)
            ],
            Rvalue::Aggregate(k, ops) => {
                let kj = match k {
                    AggregateKind::Array(t) => a![s("array"), self.ty(*t)],
                    AggregateKind::Tuple => a![s("tuple")],
                    AggregateKind::Adt(d, v, g, _, active) => a![
                        s("adt"),
                        self.ty(d.ty_with_args(g)),
                        n(v.to_index()),
                        active.map(n).unwrap_or(N)
                    ],
                    AggregateKind::Closure(d, g) => {
                        a![s("closure"), self.ty(Ty::new_closure(*d, g.clone()))]
                    }
                    AggregateKind::RawPtr(t, _) => a![s("rawptr"), self.ty(*t)],
                    other => a![s("?"), s(format!("{other:?}"))],
                };
                a![s("agg"), kj, A(ops.iter().map(|o| self.operand(o)).collect())]
            }
            Rvalue::ThreadLocalRef(i) => a![s("tls"), s(i.name())],
        }
    }

    fn span(&self, sp: &rustc_public::ty::Span) -> J {
        let l = sp.get_lines();
        s(format!("{}:{}", sp.get_filename(), l.start_line))
    }

    fn body(&mut self, b: &Body) -> J {
        let locals: Vec<J> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(p, r) => {
                        st.push(a![s("="), self.place(p), self.rvalue(r), n(x.source_info.span.get_lines().start_line)])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(a![s("sd"), self.place(place), n(variant_index.to_index())])
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => {}
                    StatementKind::Intrinsic(i) => st.push(a![s("intr"), s(format!("{i:?}"))]),
                    StatementKind::StorageDead(l) => st.push(a![s("dead"), n(*l)]),
                    _ => {}
                }
            }
            let line = self.span(&bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => a![s("goto"), n(*target)],
                TerminatorKind::SwitchInt { discr, targets } => a![
                    s("switch"),
                    self.operand(discr),
                    A(targets.branches().map(|(v, t)| a![s(v), n(t)]).collect()),
                    n(targets.otherwise())
                ],
                TerminatorKind::Return => a![s("ret")],
                TerminatorKind::Unreachable => a![s("unreachable")],
                TerminatorKind::Resume => a![s("resume")],
                TerminatorKind::Abort => a![s("abort")],
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(b.locals()).ok();
                    let pt = match pt {
                        Some(t) => self.ty(t),
                        None => N,
                    };
                    a![s("drop"), self.place(place), n(*target), pt]
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fj = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, g)) => match Instance::resolve(d, &g) {
                                Ok(i) => {
                                    let i = self.redirect(i, d, &g);
                                    let nm = def_name(d);
                                    let ar = self.args(&g);
                                    a![s("fn"), self.inst(i), s(nm), ar]
                                }
                                Err(_) => {
                                    let nm = def_name(d);
                                    a![s("unresolved"), s(nm), self.args(&g)]
                                }
                            },
                            _ => a![s("op"), self.operand(func)],
                        },
                        _ => a![s("op"), self.operand(func)],
                    };
                    a![
                        s("call"),
                        fj,
                        A(args.iter().map(|o| self.operand(o)).collect()),
                        self.place(destination),
                        target.map(n).unwrap_or(N)
                    ]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            a![s("bounds"), self.operand(len), self.operand(index)]
                        }
                        AssertMessage::Overflow(op, x, y) => {
                            a![s("overflow"), s(format!("{op:?}")), self.operand(x), self.operand(y)]
                        }
                        m => a![s(m.description().unwrap_or("?"))],
                    };
                    a![s("assert"), self.operand(cond), B(*expected), n(*target), m]
                }
                TerminatorKind::InlineAsm { .. } => a![s("asm")],
            };
            blocks.push(O(vec![("s", A(st)), ("t", t), ("at", line)]));
        }
        O(vec![
            ("locals", A(locals)),
            ("argc", n(b.arg_locals().len())),
            ("spread", b.spread_arg().map(n).unwrap_or(N)),
            ("blocks", A(blocks)),
        ])
    }

    fn inst_def_name(i: &Instance) -> String {
        i.def.name().to_string()
    }

    fn redirect(&mut self, i: Instance, _d: FnDef, _g: &GenericArgs) -> Instance {
        let nm = Self::inst_def_name(&i);
        if let Some(m) = self.redirects.get(&nm) {
            if let Ok(r) = Instance::resolve(*m, &i.args()) {
                return r;
            }
        }
        i
    }

    fn describe_inst(&mut self, k: usize, i: Instance) -> J {
        let def = Self::inst_def_name(&i);
        let stopped = self.stop.iter().any(|p| match p.strip_suffix('*') {
            Some(q) => def.starts_with(q),
            None => def == *p,
        });
        let body = if stopped || matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic) {
            None
        } else {
            i.body()
        };
        let bj = match &body {
            Some(b) => self.body(b),
            None => N,
        };
        let args = self.args(&i.args());
        let ty = i.ty();
        let rustcall = matches!(ty.kind(), TyKind::RigidTy(RigidTy::Closure(..)));
        let sp = self.span(&i.def.span());
        O(vec![
            ("id", n(k)),
            ("def", s(def)),
            ("name", s(i.name())),
            ("kind", s(format!("{:?}", i.kind))),
            ("intrinsic", i.intrinsic_name().map(s).unwrap_or(N)),
            ("args", args),
            ("ty", self.ty(ty)),
            ("closure", B(rustcall)),
            ("at", sp),
            ("stopped", B(stopped)),
            ("body", bj),
        ])
    }

    fn run(&mut self) {
        loop {
            if let Some(i) = self.inst_q.pop_front() {
                let k = self.insts[&i];
                let j = self.describe_inst(k, i);
                self.inst_out.push(j);
            } else if let Some(t) = self.type_q.pop_front() {
                let k = self.types[&t];
                let j = self.describe(t);
                self.type_out.push((k, j));
                self.error_impls(t, k);
            } else if let Some(al) = self.alloc_q.pop_front() {
                let k = al.to_index();
                let j = match GlobalAlloc::from(al) {
                    GlobalAlloc::Memory(m) => O(vec![("mem", self.alloc(&m))]),
                    GlobalAlloc::Static(d) => {
                        let nm = d.name().to_string();
                        let t = self.ty(d.ty());
                        let init = match d.eval_initializer() {
                            Ok(m) => self.alloc(&m),
                            Err(_) => N,
                        };
                        let did = rustc_public::rustc_internal::internal(self.tcx, d.def_id());
                        let is_mut = self.tcx.is_mutable_static(did) || self.tcx.is_thread_local_static(did);
                        O(vec![("static", s(nm)), ("ty", t), ("mem", init), ("m", B(is_mut))])
                    }
                    GlobalAlloc::Function(i) => O(vec![("fn", self.inst(i))]),
                    GlobalAlloc::VTable(t, _) => O(vec![("vtable", self.ty(t))]),
                    GlobalAlloc::TypeId { ty } => O(vec![("typeid", self.ty(ty))]),
                };
                self.alloc_out.push((k, j));
            } else {
                break;
            }
        }
    }

    // for every error type of the analysed crate: the resolved Error::source and Display::fmt
    fn error_impls(&mut self, t: Ty, k: usize) {
        let TyKind::RigidTy(RigidTy::Adt(d, ref g)) = t.kind() else { return };
        let nm = d.name().to_string();
        if nm.starts_with("wadec") {
            let tcx = self.tcx;
            let i = rustc_public::rustc_internal::internal(tcx, d);
            if let Some(dt) = i.destructor(tcx) {
                let f = tcx.type_of(dt.did).instantiate_identity().skip_norm_wip();
                if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = rustc_public::rustc_internal::stable(f).kind() {
                    if let Ok(i) = Instance::resolve(d, g) {
                        let i = self.inst(i);
                        self.drops.push(i);
                    }
                }
            }
        }
        if !nm.starts_with("wadec::decode") || !nm.ends_with("Error") && !nm.contains("Invalid") {
            return;
        }
        let ga = GenericArgs(vec![GenericArgKind::Type(t)]);
        let mut o = vec![("ty", n(k)), ("name", s(nm))];
        if let Some(d) = self.error_source {
            if let Ok(i) = Instance::resolve(d, &ga) {
                o.push(("source", self.inst(i)));
            }
        }
        if let Some(d) = self.display_fmt {
            if let Ok(i) = Instance::resolve(d, &ga) {
                o.push(("display", self.inst(i)));
            }
        }
        self.extra.push(O(o));
    }
}

fn dump(_tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").unwrap();
    let cfg = std::env::var("MIRDUMP_CFG").unwrap();
    let mut d = Dump {
        types: HashMap::new(),
        type_q: VecDeque::new(),
        type_out: vec![],
        insts: HashMap::new(),
        inst_q: VecDeque::new(),
        inst_out: vec![],
        allocs: HashSet::new(),
        alloc_q: VecDeque::new(),
        alloc_out: vec![],
        redirects: HashMap::new(),
        stop: vec![],
        error_source: None,
        display_fmt: None,
        extra: vec![],
        drops: vec![],
        tcx: _tcx,
    };
    let mut fns = rustc_public::local_crate().fn_defs();
    for c in rustc_public::find_crates("absmodels") {
        fns.extend(c.fn_defs());
    }
    let mut redirect_names = vec![];
    for line in std::fs::read_to_string(&cfg).unwrap().lines() {
        let line = line.trim();
        if let Some(r) = line.strip_prefix("stop ") {
            d.stop.push(r.to_string());
        } else if let Some(r) = line.strip_prefix("redirect ") {
            let (from, to) = r.split_once(" => ").unwrap();
            redirect_names.push((from.to_string(), to.to_string()));
        }
    }
    for (from, to) in redirect_names {
        if let Some(f) = fns.iter().find(|f| f.name().to_string().ends_with(&to)) {
            d.redirects.insert(from, *f);
        }
    }
    // probes: functions named probe_* contain one call whose callee is the trait method wanted
    for f in &fns {
        let nm = f.name().to_string();
        let callee = |f: &FnDef| {
            let b = f.body()?;
            b.blocks.iter().find_map(|bb| match &bb.terminator.kind {
                TerminatorKind::Call { func: Operand::Constant(c), .. } => match c.const_.ty().kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, _)) => Some(d),
                    _ => None,
                },
                _ => None,
            })
        };
        if nm.ends_with("probe_source") {
            d.error_source = callee(f);
        }
        if nm.ends_with("probe_display") {
            d.display_fmt = callee(f);
        }
    }
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if it.requires_monomorphization() {
            continue;
        }
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let nm = it.name().to_string();
            let id = d.inst(i);
            roots.push(a![s(nm), id]);
        }
    }
    d.run();
    d.type_out.sort_by_key(|x| x.0);
    d.alloc_out.sort_by_key(|x| x.0);
    let j = O(vec![
        ("roots", A(roots)),
        ("types", A(d.type_out.iter().map(|x| x.1.clone()).collect())),
        ("insts", A(d.inst_out.clone())),
        ("allocs", A(d.alloc_out.iter().map(|x| a![n(x.0), x.1.clone()]).collect())),
        ("errors", A(d.extra.clone())),
        ("drops", A(d.drops.clone())),
    ]);
    let mut o = String::new();
    j.write(&mut o);
    std::fs::write(&out, o).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as a wrapper: drop our own name, keep the rustc path as argv[0]
    args.remove(0);
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let bin = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "bin");
    let want_bin = want.ends_with(":bin");
    let want = want.trim_end_matches(":bin");
    if std::env::var("MIRDUMP_OUT").is_ok() && crate_name == want && bin == want_bin {
        if let Ok(m) = std::env::var("MIRDUMP_MODELS") {
            args.extend(["--extern".to_string(), format!("force:absmodels={m}"), "-Zunstable-options".to_string()]);
        }
        let r = run_with_tcx!(&args, dump);
        if r.is_err() {
            std::process::exit(1);
        }
    } else {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
}
