// mirdump: a rustc driver (used as RUSTC_WRAPPER) that, for the crate named in
// $MIRDUMP_CRATE, writes the monomorphised, trait-resolved MIR of every `pub fn` root and of
// everything reachable from it to $MIRDUMP_OUT as JSON.  No source text is copied or edited:
// what is written is what rustc is about to compile.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;

extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_json: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_list: Vec<Instance<'tcx>>,
    queue: VecDeque<usize>,
    stops: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_json.len();
        self.tys.insert(t, i);
        self.ty_json.push(String::new());
        let name = with_no_trimmed_paths!(format!("{}", t));
        let body = match t.kind() {
            ty::Bool => r#""k":"bool""#.to_string(),
            ty::Char => r#""k":"char""#.to_string(),
            ty::Int(x) => format!(r#""k":"int","bits":{},"signed":true"#, x.bit_width().unwrap_or(64)),
            ty::Uint(x) => format!(r#""k":"int","bits":{},"signed":false"#, x.bit_width().unwrap_or(64)),
            ty::Float(_) => r#""k":"float""#.to_string(),
            ty::Str => r#""k":"str""#.to_string(),
            ty::Never => r#""k":"never""#.to_string(),
            ty::Ref(_, x, m) => format!(r#""k":"ref","t":{},"mut":{}"#, self.ty(*x), m.is_mut()),
            ty::RawPtr(x, m) => format!(r#""k":"ptr","t":{},"mut":{}"#, self.ty(*x), m.is_mut()),
            ty::Slice(x) => format!(r#""k":"slice","t":{}"#, self.ty(*x)),
            ty::Array(x, n) => format!(
                r#""k":"array","t":{},"n":{}"#,
                self.ty(*x),
                n.try_to_target_usize(self.tcx).map(|v| v as i64).unwrap_or(-1)
            ),
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!(r#""k":"tuple","ts":{}"#, arr(v))
            }
            ty::Closure(d, args) => {
                let a = args.as_closure();
                let v: Vec<String> = a.upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let inst = Instance::new_raw(*d, args);
                let id = self.inst(inst);
                format!(
                    r#""k":"closure","path":{},"ts":{},"inst":{},"kind":{}"#,
                    js(&self.path(*d)),
                    arr(v),
                    id,
                    js(&format!("{:?}", a.kind()))
                )
            }
            ty::FnDef(d, _) => {
                let args = match t.kind() { ty::FnDef(_, a) => *a, _ => unreachable!() };
                let a2 = args.no_bound_vars().unwrap();
                let r = self.resolve(*d, a2);
                format!(r#""k":"fndef","path":{},"inst":{}"#, js(&self.path(*d)), r)
            }
            ty::FnPtr(..) => r#""k":"fnptr""#.to_string(),
            ty::Dynamic(..) => r#""k":"dyn""#.to_string(),
            ty::Adt(def, args) => {
                let mut vs = vec![];
                let p = self.path(def.did());
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        let dd = def.discriminant_for_variant(self.tcx, vi);
                        let sz = self.tcx.layout_of(self.env.as_query_input(dd.ty)).unwrap().size;
                        if dd.ty.is_signed() { format!("{}", sz.sign_extend(dd.val)) } else { format!("{}", dd.val) }
                    } else {
                        "0".to_string()
                    };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(self.tcx, args);
                        let ft = self.tcx.try_normalize_erasing_regions(self.env, ft).unwrap_or(ft.skip_normalization());
                        let fi = self.ty(ft);
                        fs.push(format!("[{},{}]", js(f.name.as_str()), fi));
                    }
                    vs.push(format!(r#"{{"name":{},"discr":{},"fields":{}}}"#, js(v.name.as_str()), discr, arr(fs)));
                }
                let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                format!(r#""k":"adt","path":{},"ak":"{}","targs":{},"variants":{}"#, js(&p), kind, arr(targs), arr(vs))
            }
            _ => r#""k":"other""#.to_string(),
        };
        self.ty_json[i] = format!(r#"{{"name":{},{}}}"#, js(&name), body);
        i
    }

    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> i64 {
        let args = self.tcx.erase_and_anonymize_regions(args);
        match Instance::try_resolve(self.tcx, self.env, d, args) {
            Ok(Some(i)) => self.inst(i) as i64,
            _ => -1,
        }
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        let i = self.tcx.erase_and_anonymize_regions(i);
        if let Some(&x) = self.insts.get(&i) {
            return x;
        }
        let x = self.inst_list.len();
        self.insts.insert(i, x);
        self.inst_list.push(i);
        self.queue.push_back(x);
        x
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => r#"["deref"]"#.to_string(),
                ProjectionElem::Field(f, t) => format!(r#"["f",{},{}]"#, f.index(), self.ty(t)),
                ProjectionElem::Index(l) => format!(r#"["i",{}]"#, l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!(r#"["ci",{},{},{}]"#, offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!(r#"["ss",{},{},{}]"#, from, to, from_end),
                ProjectionElem::Downcast(_, vi) => format!(r#"["dc",{}]"#, vi.index()),
                _ => r#"["other"]"#.to_string(),
            });
        }
        format!("[{},{}]", p.local.index(), arr(v))
    }

    fn constval(&mut self, c: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let ti = self.ty(t);
        if depth > 12 {
            return format!(r#"{{"c":"deep","ty":{}}}"#, ti);
        }
        match t.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => {
                if let Some(s) = c.try_to_scalar_int() {
                    let v = if t.is_signed() { format!("{}", s.to_int(s.size())) } else { format!("{}", s.to_uint(s.size())) };
                    return format!(r#"{{"c":"int","v":{},"ty":{}}}"#, v, ti);
                }
                if let ConstValue::Indirect { alloc_id, offset } = c {
                    if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                        let sz = tcx.layout_of(self.env.as_query_input(t)).unwrap().size;
                        if let Ok(s) = m.inner().read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset, sz), false) {
                            if let Scalar::Int(s) = s {
                                let v = if t.is_signed() { format!("{}", s.to_int(s.size())) } else { format!("{}", s.to_uint(s.size())) };
                                return format!(r#"{{"c":"int","v":{},"ty":{}}}"#, v, ti);
                            }
                        }
                    }
                }
                format!(r#"{{"c":"unk","ty":{}}}"#, ti)
            }
            ty::Float(_) => match c.try_to_scalar_int() {
                Some(s) => format!(r#"{{"c":"float","bits":{},"size":{},"ty":{}}}"#, s.to_uint(s.size()), s.size().bytes(), ti),
                None => format!(r#"{{"c":"unk","ty":{}}}"#, ti),
            },
            ty::FnDef(..) => format!(r#"{{"c":"zst","ty":{}}}"#, ti),
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                if inner.is_str() {
                    if let Some(b) = c.try_get_slice_bytes_for_diagnostics(tcx) {
                        return format!(r#"{{"c":"str","v":{},"ty":{}}}"#, js(&String::from_utf8_lossy(b)), ti);
                    }
                    return format!(r#"{{"c":"unk","ty":{}}}"#, ti);
                }
                // thin pointer or slice
                let (ptr, len): (Option<Scalar>, Option<u64>) = match c {
                    ConstValue::Scalar(s) => (Some(s), None),
                    ConstValue::Slice { alloc_id, meta } => {
                        (Some(Scalar::from_pointer(interpret::Pointer::from(alloc_id), &tcx)), Some(meta))
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                            let ps = tcx.data_layout.pointer_size();
                            let p = m.inner().read_scalar(&tcx, interpret::alloc_range(offset, ps), true).ok();
                            let l = if inner.is_slice() {
                                m.inner().read_scalar(&tcx, interpret::alloc_range(offset + ps, ps), false).ok()
                                    .and_then(|s| s.to_target_usize(&tcx).discard_err())
                            } else { None };
                            (p, l)
                        } else { (None, None) }
                    }
                    _ => (None, None),
                };
                if let Some(Scalar::Ptr(p, _)) = ptr {
                    let (prov, off) = p.prov_and_relative_offset();
                    let aid = prov.alloc_id();
                    if let GlobalAlloc::Memory(_) = tcx.global_alloc(aid) {
                        if let (Some(l), ty::Slice(et)) = (len, inner.kind()) {
                            let sz = tcx.layout_of(self.env.as_query_input(*et)).unwrap().size;
                            if l <= 20000 {
                                let mut es = vec![];
                                for k in 0..l {
                                    es.push(self.constval(ConstValue::Indirect { alloc_id: aid, offset: off + sz * k }, *et, depth + 1));
                                }
                                return format!(r#"{{"c":"sliceref","ty":{},"es":{}}}"#, ti, arr(es));
                            }
                        } else if len.is_none() && inner.is_sized(tcx, self.env) {
                            let inner_c = self.constval(ConstValue::Indirect { alloc_id: aid, offset: off }, *inner, depth + 1);
                            return format!(r#"{{"c":"ref","ty":{},"v":{},"alloc":{}}}"#, ti, inner_c, js(&format!("{:?}", aid)));
                        }
                    } else if let GlobalAlloc::Static(d) = tcx.global_alloc(aid) {
                        return format!(r#"{{"c":"static","ty":{},"path":{}}}"#, ti, js(&self.path(d)));
                    }
                }
                format!(r#"{{"c":"unk","ty":{}}}"#, ti)
            }
            ty::Array(et, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                if let ConstValue::Indirect { alloc_id, offset } = c {
                    if n <= 20000 {
                        let sz = tcx.layout_of(self.env.as_query_input(*et)).unwrap().size;
                        let mut es = vec![];
                        for k in 0..n {
                            es.push(self.constval(ConstValue::Indirect { alloc_id, offset: offset + sz * k }, *et, depth + 1));
                        }
                        return format!(r#"{{"c":"array","ty":{},"es":{}}}"#, ti, arr(es));
                    }
                }
                if n == 0 {
                    return format!(r#"{{"c":"array","ty":{},"es":[]}}"#, ti);
                }
                format!(r#"{{"c":"unk","ty":{}}}"#, ti)
            }
            ty::Adt(..) | ty::Tuple(..) => {
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_union() || self.path(d.did()).contains("Atomic") || self.path(d.did()).contains("UnsafeCell") {
                        return format!(r#"{{"c":"unk","ty":{}}}"#, ti);
                    }
                }
                if let Some(ds) = tcx.try_destructure_mir_constant_for_user_output(c, t) {
                    let mut fs = vec![];
                    for (fc, ft) in ds.fields.iter() {
                        fs.push(self.constval(*fc, *ft, depth + 1));
                    }
                    let v = ds.variant.map(|v| v.index() as i64).unwrap_or(0);
                    return format!(r#"{{"c":"agg","ty":{},"variant":{},"es":{}}}"#, ti, v, arr(fs));
                }
                format!(r#"{{"c":"unk","ty":{}}}"#, ti)
            }
            ty::Closure(..) => format!(r#"{{"c":"zst","ty":{}}}"#, ti),
            _ => format!(r#"{{"c":"unk","ty":{}}}"#, ti),
        }
    }

    fn constant(&mut self, c: &Const<'tcx>) -> String {
        let t = c.ty();
        match c.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
            Ok(v) => self.constval(v, t, 0),
            Err(_) => {
                let ti = self.ty(t);
                format!(r#"{{"c":"unk","ty":{}}}"#, ti)
            }
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!(r#"["copy",{}]"#, self.place(p)),
            Operand::Move(p) => format!(r#"["move",{}]"#, self.place(p)),
            Operand::Constant(c) => format!(r#"["const",{}]"#, self.constant(&c.const_)),
            Operand::RuntimeChecks(_) => r#"["rtcheck"]"#.to_string(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!(r#"["use",{}]"#, self.operand(o)),
            Rvalue::Repeat(o, n) => format!(
                r#"["repeat",{},{}]"#,
                self.operand(o),
                n.try_to_target_usize(self.tcx).map(|v| v as i64).unwrap_or(-1)
            ),
            Rvalue::Ref(_, k, p) => format!(r#"["ref",{},{}]"#, matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(_, p) => format!(r#"["rawptr",{}]"#, self.place(p)),
            Rvalue::BinaryOp(op, ab) => {
                format!(r#"["bin",{},{},{}]"#, js(&format!("{:?}", op)), self.operand(&ab.0), self.operand(&ab.1))
            }
            Rvalue::UnaryOp(op, a) => format!(r#"["un",{},{}]"#, js(&format!("{:?}", op)), self.operand(a)),
            Rvalue::Cast(k, o, t) => {
                format!(r#"["cast",{},{},{}]"#, js(&format!("{:?}", k)), self.operand(o), self.ty(*t))
            }
            Rvalue::Discriminant(p) => format!(r#"["discr",{}]"#, self.place(p)),
            Rvalue::CopyForDeref(p) => format!(r#"["use",["copy",{}]]"#, self.place(p)),
            Rvalue::Aggregate(k, fs) => {
                let v: Vec<String> = fs.iter().map(|o| self.operand(o)).collect();
                let kind = match &**k {
                    AggregateKind::Array(t) => format!(r#"["array",{}]"#, self.ty(*t)),
                    AggregateKind::Tuple => r#"["tuple"]"#.to_string(),
                    AggregateKind::Adt(d, vi, args, _, af) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        format!(r#"["adt",{},{},{}]"#, self.ty(t), vi.index(), af.map(|x| x.index() as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        format!(r#"["closure",{}]"#, self.ty(t))
                    }
                    AggregateKind::RawPtr(..) => r#"["rawptr"]"#.to_string(),
                    _ => r#"["other"]"#.to_string(),
                };
                format!(r#"["agg",{},{}]"#, kind, arr(v))
            }
            _ => format!(r#"["other",{}]"#, js(&format!("{:?}", r))),
        }
    }

    // a stop entry is `crate:NAME` (do not descend into that crate) or a path prefix
    fn stop(&self, krate: &str, path: &str) -> bool {
        self.stops.iter().any(|s| match s.strip_prefix("crate:") {
            Some(c) => c == krate,
            None => path.starts_with(s.as_str()),
        })
    }

    fn body(&mut self, idx: usize) -> String {
        let tcx = self.tcx;
        let i = self.inst_list[idx];
        let d = i.def_id();
        let name = with_no_trimmed_paths!(tcx.def_path_str_with_args(d, i.args));
        let generic = self.path(d);
        let krate = tcx.crate_name(d.krate).to_string();
        let mut trait_name = String::new();
        let mut self_ty: i64 = -1;
        let mut trait_args = String::from("[]");
        if let Some(p) = tcx.opt_parent(d) {
            if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                let st = tcx.type_of(p).instantiate(tcx, i.args).skip_normalization();
                let st = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(st)).unwrap_or(st);
                self_ty = self.ty(st) as i64;
                if of_trait {
                    let tr = tcx.impl_trait_ref(p).instantiate(tcx, i.args).skip_normalization();
                    trait_name = self.path(tr.def_id);
                    let v: Vec<String> = tr.args.types().map(|t| {
                        let t = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).unwrap_or(t);
                        self.ty(t).to_string()
                    }).collect();
                    trait_args = arr(v);
                }
            } else if let DefKind::Trait = tcx.def_kind(p) {
                trait_name = self.path(p);
                let v: Vec<String> = i.args.types().map(|t| self.ty(t).to_string()).collect();
                trait_args = arr(v);
            }
        }
        let kind = match i.def {
            InstanceKind::Item(_) => "item".to_string(),
            InstanceKind::Intrinsic(_) => "intrinsic".to_string(),
            InstanceKind::Virtual(..) => "virtual".to_string(),
            o => format!("{:?}", o).split('(').next().unwrap().split(' ').next().unwrap().to_string(),
        };
        let method = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let args: Vec<String> = i.args.types().map(|t| self.ty(t).to_string()).collect();
        let mut o = String::new();
        let _ = write!(
            o,
            r#"{{"id":{},"name":{},"path":{},"crate":{},"kind":{},"method":{},"trait":{},"trait_args":{},"self_ty":{},"targs":{}"#,
            idx, js(&name), js(&generic), js(&krate), js(&kind), js(&method), js(&trait_name), trait_args, self_ty, arr(args)
        );
        let has = match i.def {
            InstanceKind::Item(dd) => {
                tcx.is_mir_available(dd) && !tcx.is_foreign_item(dd) && !self.stop(&krate, &generic)
                    && matches!(tcx.def_kind(dd), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..))
            }
            InstanceKind::Intrinsic(_) | InstanceKind::Virtual(..) => false,
            InstanceKind::Shim(..) => true,
            _ => false,
        };
        if has && !matches!(kind.as_str(), "DropGlue") && !name.contains("drop_in_place") {
            let b = tcx.instance_mir(i.def);
            let b = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, b.clone()));
            let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
            let mut dbg = vec![];
            for v in b.var_debug_info.iter() {
                if let VarDebugInfoContents::Place(p) = &v.value {
                    let ps = self.place(p);
                    dbg.push(format!("[{},{},{}]", js(v.name.as_str()), ps, v.argument_index.map(|x| x as i64).unwrap_or(-1)));
                }
            }
            let mut blocks = vec![];
            for (_, bb) in b.basic_blocks.iter_enumerated() {
                let mut ss = vec![];
                for s in bb.statements.iter() {
                    match &s.kind {
                        StatementKind::Assign(pr) => {
                            let l = self.place(&pr.0);
                            let r = self.rvalue(&pr.1);
                            ss.push(format!(r#"["=",{},{}]"#, l, r));
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            ss.push(format!(r#"["setdiscr",{},{}]"#, self.place(place), variant_index.index()));
                        }
                        StatementKind::Intrinsic(k) => match &**k {
                            NonDivergingIntrinsic::Assume(o) => ss.push(format!(r#"["assume",{}]"#, self.operand(o))),
                            _ => ss.push(r#"["copyno"]"#.to_string()),
                        },
                        _ => {}
                    }
                }
                let t = bb.terminator();
                let line = tcx.sess.source_map().lookup_char_pos(t.source_info.span.lo()).line;
                let term = match &t.kind {
                    TerminatorKind::Goto { target, .. } => format!(r#"["goto",{}]"#, target.index()),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let tv: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.index())).collect();
                        let dt = discr.ty(&b.local_decls, tcx);
                        format!(r#"["switch",{},{},{},{}]"#, self.operand(discr), arr(tv), targets.otherwise().index(), self.ty(dt))
                    }
                    TerminatorKind::Return => r#"["return"]"#.to_string(),
                    TerminatorKind::Unreachable => r#"["unreachable"]"#.to_string(),
                    TerminatorKind::Drop { target, .. } => format!(r#"["goto",{}]"#, target.index()),
                    TerminatorKind::Call { func, args, destination, target, .. } => {
                        let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                        let ft = func.ty(&b.local_decls, tcx);
                        let fi = self.ty(ft);
                        let f = self.operand(func);
                        format!(
                            r#"["call",{},{},{},{},{}]"#,
                            fi, f, arr(a), self.place(destination),
                            target.map(|t| t.index() as i64).unwrap_or(-1)
                        )
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                        let m = format!("{:?}", msg);
                        format!(r#"["assert",{},{},{},{}]"#, self.operand(cond), expected, js(&m), target.index())
                    }
                    TerminatorKind::UnwindResume => r#"["resume"]"#.to_string(),
                    k => format!(r#"["other",{}]"#, js(&format!("{:?}", k))),
                };
                blocks.push(format!(r#"{{"s":{},"t":{},"l":{},"cl":{}}}"#, arr(ss), term, line, bb.is_cleanup));
            }
            let span = tcx.def_span(d);
            let lo = tcx.sess.source_map().lookup_char_pos(span.lo());
            let _ = write!(
                o,
                r#","argc":{},"locals":{},"dbg":{},"spread":{},"file":{},"line":{},"blocks":{}"#,
                b.arg_count, arr(locals), arr(dbg),
                b.spread_arg.map(|l| l.index() as i64).unwrap_or(-1),
                js(&format!("{}", lo.file.name.prefer_local_unconditionally())), lo.line, arr(blocks)
            );
        } else if let InstanceKind::Item(_) = i.def {
            // signature only
            let t = i.ty(tcx, self.env);
            if let ty::FnDef(..) = t.kind() {
                let sig = t.fn_sig(tcx);
                let sig = tcx.instantiate_bound_regions_with_erased(sig);
                let v: Vec<String> = sig.inputs().iter().map(|x| self.ty(*x).to_string()).collect();
                let r = self.ty(sig.output());
                let _ = write!(o, r#","sig":{},"ret":{}"#, arr(v), r);
            }
        }
        o.push('}');
        o
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let stops = std::env::var("MIRDUMP_STOP").unwrap_or_default().split('\n').filter(|s| !s.is_empty()).map(String::from).collect();
        let mut cx = Cx {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            tys: HashMap::new(),
            ty_json: vec![],
            insts: HashMap::new(),
            inst_list: vec![],
            queue: VecDeque::new(),
            stops,
        };
        let mut roots = vec![];
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Fn) && tcx.generics_of(d).is_empty() && tcx.visibility(d).is_public() {
                let i = Instance::mono(tcx, d);
                roots.push(cx.inst(i));
            }
        }
        let mut bodies = vec![];
        while let Some(x) = cx.queue.pop_front() {
            let b = cx.body(x);
            bodies.push(b);
        }
        let _ = LOCAL_CRATE;
        let s = format!(
            "{{\"roots\":{},\n\"types\":[\n{}\n],\n\"fns\":[\n{}\n]}}\n",
            arr(roots.iter().map(|x| x.to_string())),
            cx.ty_json.join(",\n"),
            bodies.join(",\n")
        );
        std::fs::write(&self.out, s).expect("write mirdump");
        rustc_driver::Compilation::Continue
    }
}

struct Nop;
impl rustc_driver::Callbacks for Nop {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER passes the real rustc path as first argument
    if args.len() > 1 && args[1].contains("rustc") {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let mut cname = String::new();
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            cname = w[1].clone();
        }
    }
    if cname.is_empty() || args.iter().any(|a| a == "-vV" || a.starts_with("--print")) {
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
        return;
    }
    if cname != "build_script_build" && !args.iter().any(|a| a == "proc-macro") {
        args.push("-Zalways-encode-mir".into());
        args.push("-Zmir-opt-level=0".into());
    }
    if cname == want {
        let mut cb = Cb { out: std::env::var("MIRDUMP_OUT").unwrap_or("mirdump.json".into()) };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
