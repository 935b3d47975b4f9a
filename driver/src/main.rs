// Dumps the MIR of every function instance of the crate under analysis (monomorphic, callees
// resolved, async bodies *before* the coroutine transform) as JSON facts.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_abi::{FieldIdx, VariantIdx, Size};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar, AllocRange};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv, TypeVisitableExt};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- tiny JSON helpers
fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }
fn obj(v: &[(&str, String)]) -> String {
    let mut o = String::from("{");
    for (i, (k, x)) in v.iter().enumerate() {
        if i > 0 { o.push(','); }
        o.push('"'); o.push_str(k); o.push_str("\":"); o.push_str(x);
    }
    o.push('}');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    bodies: HashMap<LocalDefId, Body<'tcx>>,
    promoted: HashMap<LocalDefId, Vec<Body<'tcx>>>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    insts: HashMap<(DefId, GenericArgsRef<'tcx>), usize>,
    queue: VecDeque<(usize, DefId, GenericArgsRef<'tcx>)>,
    out: Vec<String>,
    impl_done: HashMap<Ty<'tcx>, ()>,
    impls: Vec<String>,
}

/// std functions whose own MIR is analysed instead of a model
fn inline_std(path: &str) -> bool {
    const P: &[&str] = &[
        "core::option::", "std::option::", "core::result::", "std::result::", "core::ops::", "std::ops::", "core::bool::",
        "core::convert::", "std::convert::", "core::task::poll", "std::task::Poll",
        "core::cmp::", "std::cmp::",
    ];
    let p = path.trim_start_matches('<').trim_start_matches('&');
    P.iter().any(|x| p.starts_with(x)) || path.starts_with("core::bool") || path == "<T as core::convert::Into<U>>::into"
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let s = with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)));
        s
    }
    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = match &loc.file.name { n => format!("{}", n.prefer_local_unconditionally()) };
        format!("[{},{}]", js(&f), loc.line)
    }
    fn line(&self, sp: Span) -> usize {
        let sm = self.tcx.sess.source_map();
        sm.lookup_char_pos(sp.source_callsite().lo()).line
    }

    // ------------------------------------------------------------ types
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.types.get(&t) { return *i; }
        let i = self.type_json.len();
        self.types.insert(t, i);
        self.type_json.push(String::new());
        let s = with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", t)));
        let mut f: Vec<(&str, String)> = vec![("s", js(&s))];
        match t.kind() {
            ty::Bool => f.push(("k", js("bool"))),
            ty::Char => f.push(("k", js("char"))),
            ty::Int(x) => { f.push(("k", js("int"))); f.push(("bits", format!("{}", x.bit_width().unwrap_or(64)))); }
            ty::Uint(x) => { f.push(("k", js("uint"))); f.push(("bits", format!("{}", x.bit_width().unwrap_or(64)))); }
            ty::Float(_) => f.push(("k", js("float"))),
            ty::Str => f.push(("k", js("str"))),
            ty::Never => f.push(("k", js("never"))),
            ty::Slice(e) => { f.push(("k", js("slice"))); let e = self.ty(*e); f.push(("e", e.to_string())); }
            ty::Array(e, n) => {
                f.push(("k", js("array"))); let e = self.ty(*e); f.push(("e", e.to_string()));
                if let Some(n) = n.try_to_target_usize(self.tcx) { f.push(("n", n.to_string())); }
            }
            ty::Ref(_, e, m) => { f.push(("k", js("ref"))); let e = self.ty(*e); f.push(("e", e.to_string())); f.push(("mut", m.is_mut().to_string())); }
            ty::RawPtr(e, m) => { f.push(("k", js("ptr"))); let e = self.ty(*e); f.push(("e", e.to_string())); f.push(("mut", m.is_mut().to_string())); }
            ty::Tuple(ts) => { f.push(("k", js("tuple"))); let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect(); f.push(("es", arr(v))); }
            ty::FnDef(d, a) => {
                f.push(("k", js("fndef")));
                let (d, a) = (*d, a.no_bound_vars().unwrap());
                let c = self.callee(d, a, false);
                f.push(("fn", c));
            }
            ty::FnPtr(..) => f.push(("k", js("fnptr"))),
            ty::Dynamic(..) => f.push(("k", js("dyn"))),
            ty::Closure(d, a) => {
                f.push(("k", js("closure"))); f.push(("path", js(&self.path(*d))));
                let i2 = self.inst_of_closure(*d, a); f.push(("inst", i2));
                let up: Vec<String> = a.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                f.push(("up", arr(up)));
            }
            ty::Coroutine(d, a) => {
                f.push(("k", js("coroutine"))); f.push(("path", js(&self.path(*d))));
                let i2 = self.inst_of_closure(*d, a); f.push(("inst", i2));
                let up: Vec<String> = a.as_coroutine().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                f.push(("up", arr(up)));
            }
            ty::Adt(def, args) => {
                f.push(("k", js("adt")));
                let p = self.path(def.did());
                f.push(("path", js(&p)));
                f.push(("local", def.did().is_local().to_string()));
                f.push(("ak", js(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let ta: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                f.push(("args", arr(ta)));
                let ca: Vec<String> = args.consts().filter_map(|c| c.try_to_target_usize(self.tcx)).map(|x| x.to_string()).collect();
                f.push(("cargs", arr(ca)));
                let deep = def.did().is_local() || ["core::option", "core::result", "core::ops", "core::task", "core::pin", "alloc::borrow", "core::cmp", "std::io::SeekFrom", "std::io::seek"].iter().any(|x| p.starts_with(x)) || p.ends_with("SeekFrom");
                let mut vs = vec![];
                if def.is_enum() || def.is_struct() {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val.to_string() } else { "0".into() };
                        let mut fs = vec![];
                        for fd in v.fields.iter() {
                            let fty = if deep {
                                let t0 = fd.ty(self.tcx, args);
                                let t1 = self.tcx.try_normalize_erasing_regions(self.env, t0).ok();
                                t1.map(|x| self.ty(x).to_string()).unwrap_or("null".into())
                            } else { "null".into() };
                            fs.push(format!("[{},{}]", js(fd.name.as_str()), fty));
                        }
                        vs.push(format!("[{},{},{}]", js(v.name.as_str()), js(&discr), arr(fs)));
                    }
                }
                f.push(("variants", arr(vs)));
                let fr = !t.has_param() && t.is_freeze(self.tcx, self.env);
                f.push(("freeze", fr.to_string()));
                self.local_impls(t);
            }
            ty::Alias(..) => f.push(("k", js("alias"))),
            ty::Param(_) => f.push(("k", js("param"))),
            _ => f.push(("k", js("other"))),
        }
        let j = obj(&f);
        self.type_json[i] = j;
        i
    }

    fn inst_of_closure(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> String {
        if d.is_local() && !a.has_param() { self.instance_id(d, a).to_string() } else { "null".into() }
    }

    /// local trait impls for a (monomorphic) type, so that std code can be dispatched back into the crate
    fn local_impls(&mut self, t: Ty<'tcx>) {
        if t.has_param() || self.impl_done.contains_key(&t) { return; }
        self.impl_done.insert(t, ());
        let (def, args) = match t.kind() { ty::Adt(d, a) => (*d, *a), _ => return };
        if !def.did().is_local() { return; }
        let tcx = self.tcx;
        for (tr, impls) in tcx.all_local_trait_impls(()).iter() {
            for im in impls.iter() {
                let imd = im.to_def_id();
                let tr_ref = tcx.impl_trait_ref(imd);
                let selfty = tr_ref.instantiate_identity().skip_norm_wip().self_ty();
                let same = match selfty.kind() { ty::Adt(d2, _) => d2.did() == def.did(), _ => false };
                if !same { continue; }
                let g = tcx.generics_of(imd);
                if g.count() != args.len() { continue; }
                let iargs = args;
                for it in tcx.associated_items(imd).in_definition_order() {
                    if !matches!(it.kind, ty::AssocKind::Fn { .. }) { continue; }
                    let g2 = tcx.generics_of(it.def_id);
                    if g2.own_requires_monomorphization() { continue; }
                    let fargs = ty::GenericArgs::for_item(tcx, it.def_id, |p, _| {
                        if (p.index as usize) < iargs.len() { iargs[p.index as usize] } else { tcx.lifetimes.re_erased.into() }
                    });
                    if fargs.has_param() { continue; }
                    let id = self.instance_id(it.def_id, fargs);
                    let tid = self.ty(t);
                    let s = obj(&[("trait", js(&self.path(*tr))), ("method", js(it.name().as_str())), ("self", tid.to_string()), ("inst", id.to_string()),
                        ("traitref", js(&with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", tr_ref.instantiate_identity().skip_norm_wip())))))]);
                    self.impls.push(s);
                }
            }
        }
    }

    fn instance_id(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> usize {
        let a = self.tcx.erase_and_anonymize_regions(a);
        if let Some(i) = self.insts.get(&(d, a)) { return *i; }
        let i = self.insts.len();
        self.insts.insert((d, a), i);
        self.queue.push_back((i, d, a));
        i
    }

    fn callee(&mut self, d: DefId, a: GenericArgsRef<'tcx>, resolve: bool) -> String {
        let tcx = self.tcx;
        let mut f: Vec<(&str, String)> = vec![("decl", js(&self.path(d))), ("name", js(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default().as_str()))];
        let targs: Vec<String> = a.types().map(|x| self.ty(x).to_string()).collect();
        f.push(("args", arr(targs)));
        if let Some(t) = tcx.trait_of_assoc(d) { f.push(("trait", js(&self.path(t)))); }
        let sig_unsafe = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && !tcx.fn_sig(d).skip_binder().safety().is_safe();
        if sig_unsafe { f.push(("unsafe", "true".into())); }
        let _ = resolve;
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            f.push(("ctor", "true".into()));
            let p = tcx.parent(d);
            // variant ctor or struct ctor
            let (adt_did, vidx) = if matches!(tcx.def_kind(p), DefKind::Variant) {
                let adt = tcx.parent(p);
                let vi = tcx.adt_def(adt).variant_index_with_id(p);
                (adt, vi.as_usize())
            } else { (p, 0) };
            f.push(("adt", js(&self.path(adt_did))));
            f.push(("variant", vidx.to_string()));
            return obj(&f);
        }
        if !a.has_param() {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, a) {
                let rd = inst.def_id();
                f.push(("res", js(&self.path(rd))));
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    _ => "other",
                };
                f.push(("kind", js(kind)));
                if let InstanceKind::Item(id) = inst.def {
                    if id.is_local() {
                        if let Some(l) = id.as_local() {
                            if self.bodies.contains_key(&l) { let i = self.instance_id(id, inst.args); f.push(("inst", i.to_string())); }
                        }
                        f.push(("local", "true".into()));
                    } else {
                        let p = self.path(id);
                        if inline_std(&p) && tcx.is_mir_available(id) && !tcx.is_intrinsic(id, rustc_span::sym::size_of) {
                            let i = self.instance_id(id, inst.args); f.push(("sinst", i.to_string()));
                        }
                    }
                }
            }
        }
        obj(&f)
    }

    // ------------------------------------------------------------ constants
    fn scalar_int(&self, v: u128, t: Ty<'tcx>, bits: u64) -> String {
        match t.kind() {
            ty::Bool => obj(&[("bool", (v != 0).to_string())]),
            ty::Int(_) => { let sh = 128 - bits; let x = ((v << sh) as i128) >> sh; obj(&[("i", js(&x.to_string()))]) }
            _ => obj(&[("i", js(&v.to_string()))]),
        }
    }
    fn read_mem(&mut self, aid: AllocId, off: Size, t: Ty<'tcx>, depth: usize) -> String {
        let unk = |w: &str| obj(&[("u", js(w))]);
        if depth > 12 { return unk("deep"); }
        let tcx = self.tcx;
        let alloc = match tcx.try_get_global_alloc(aid) {
            Some(GlobalAlloc::Memory(m)) => m,
            Some(GlobalAlloc::Static(d)) => match tcx.eval_static_initializer(d) { Ok(m) => m, Err(_) => return unk("static") },
            Some(GlobalAlloc::Function { instance }) => { let c = self.callee(instance.def_id(), instance.args, true); return obj(&[("fn", c)]); }
            _ => return unk("alloc"),
        };
        let lay = match tcx.layout_of(self.env.as_query_input(t)) { Ok(l) => l, Err(_) => return unk("layout") };
        let rd = |o: Size, n: u64| -> Option<u128> {
            let r = AllocRange { start: o, size: Size::from_bytes(n) };
            match alloc.inner().read_scalar(&tcx, r, false) { Ok(Scalar::Int(i)) => Some(i.to_bits(Size::from_bytes(n))), _ => None }
        };
        let rdp = |o: Size| -> Option<(AllocId, Size)> {
            let r = AllocRange { start: o, size: Size::from_bytes(8) };
            match alloc.inner().read_scalar(&tcx, r, true) { Ok(Scalar::Ptr(p, _)) => { let (prov, o2) = p.into_raw_parts(); Some((prov.alloc_id(), o2)) } _ => None }
        };
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                match rd(off, lay.size.bytes()) { Some(v) => self.scalar_int(v, t, lay.size.bits()), None => unk("int") }
            }
            ty::Ref(_, e, _) | ty::RawPtr(e, _) => {
                let Some((a2, o2)) = rdp(off) else { return unk("ptr") };
                match e.kind() {
                    ty::Str | ty::Slice(_) => {
                        let Some(n) = rd(off + Size::from_bytes(8), 8) else { return unk("meta") };
                        let x = self.read_seq(a2, o2, *e, n as u64, depth + 1);
                        obj(&[("r", x)])
                    }
                    ty::Dynamic(..) => unk("dyn"),
                    _ => { let x = self.read_mem(a2, o2, *e, depth + 1); obj(&[("r", x)]) }
                }
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                self.read_seq_elems(aid, off, *e, n, depth + 1)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().enumerate().map(|(i, x)| self.read_mem(aid, off + lay.fields.offset(i), x, depth + 1)).collect();
                obj(&[("t", arr(v))])
            }
            ty::Adt(def, args) if def.is_struct() => {
                let mut v = vec![];
                for (i, fd) in def.non_enum_variant().fields.iter().enumerate() {
                    let ft = fd.ty(tcx, args);
                    let ft = tcx.try_normalize_erasing_regions(self.env, ft).ok();
                    match ft { Some(ft) => v.push(self.read_mem(aid, off + lay.fields.offset(i), ft, depth + 1)), None => v.push(unk("norm")) }
                }
                obj(&[("adt", js(&self.path(def.did()))), ("v", "0".into()), ("f", arr(v))])
            }
            ty::Adt(def, args) if def.is_enum() => {
                use rustc_abi::{Variants, TagEncoding};
                let vi: VariantIdx = match &lay.variants {
                    Variants::Single { index } => *index,
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let to = off + lay.fields.offset(tag_field.as_usize());
                        let ts = tag.size(&tcx).bytes();
                        match rd(to, ts) {
                            None => match tag_encoding { TagEncoding::Niche { untagged_variant, .. } => *untagged_variant, _ => return unk("tag") },
                            Some(v) => match tag_encoding {
                                TagEncoding::Direct => {
                                    let mut r = None;
                                    for (i, d) in def.discriminants(tcx) { if d.val == v { r = Some(i); } }
                                    match r { Some(i) => i, None => return unk("discr") }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let mask: u128 = if ts == 16 { u128::MAX } else { (1u128 << (ts * 8)) - 1 };
                                    let rel = v.wrapping_sub(*niche_start) & mask;
                                    let n = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                    if rel <= n { VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32) } else { *untagged_variant }
                                }
                            },
                        }
                    }
                    _ => return unk("uninhabited"),
                };
                let cx = ty::layout::LayoutCx::new(tcx, self.env);
                let vl = lay.for_variant(&cx, vi);
                let mut v = vec![];
                for (i, fd) in def.variant(vi).fields.iter().enumerate() {
                    let ft = fd.ty(tcx, args);
                    match tcx.try_normalize_erasing_regions(self.env, ft).ok() {
                        Some(ft) => v.push(self.read_mem(aid, off + vl.fields.offset(i), ft, depth + 1)), None => v.push(unk("norm")) }
                }
                obj(&[("adt", js(&self.path(def.did()))), ("v", vi.as_u32().to_string()), ("f", arr(v))])
            }
            ty::Pat(b, _) => self.read_mem(aid, off, *b, depth + 1),
            _ => { let w = format!("type {:?}+{}", aid, off.bytes()); unk(&w) }
        }
    }
    fn read_seq(&mut self, a: AllocId, o: Size, t: Ty<'tcx>, n: u64, depth: usize) -> String {
        match t.kind() {
            ty::Str => {
                let tcx = self.tcx;
                if let Some(GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(a) {
                    let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(o.bytes() as usize..(o.bytes() + n) as usize);
                    return obj(&[("s", js(&String::from_utf8_lossy(b)))]);
                }
                obj(&[("u", js("str"))])
            }
            ty::Slice(e) => self.read_seq_elems(a, o, *e, n, depth),
            _ => obj(&[("u", js("seq"))]),
        }
    }
    fn read_seq_elems(&mut self, a: AllocId, o: Size, e: Ty<'tcx>, n: u64, depth: usize) -> String {
        let lay = match self.tcx.layout_of(self.env.as_query_input(e)) { Ok(l) => l, Err(_) => return obj(&[("u", js("layout"))]) };
        if n > 4096 { return obj(&[("u", js("long"))]); }
        let v: Vec<String> = (0..n).map(|i| self.read_mem(a, o + lay.size * i, e, depth + 1)).collect();
        obj(&[("a", arr(v))])
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        let mut f: Vec<(&str, String)> = vec![("ty", tid.to_string())];
        if let Const::Unevaluated(u, _) = c.const_ { f.push(("def", js(&self.path(u.def)))); if u.promoted.is_some() { f.push(("promoted", "true".into())); } }
        if let Some(d) = c.check_static_ptr(tcx) { f.push(("static", js(&self.path(d)))); }
        let v = match t.kind() {
            ty::FnDef(d, a) => { let (d, a) = (*d, a.no_bound_vars().unwrap()); let cl = self.callee(d, a, true); obj(&[("fn", cl)]) }
            _ => match c.const_.eval(tcx, self.env, c.span) {
                Ok(ConstValue::Scalar(Scalar::Int(i))) => {
                    let b = i.size();
                    match t.kind() {
                        ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => self.scalar_int(i.to_bits(b), t, b.bits()),
                        ty::Adt(def, args) if def.is_struct() && def.non_enum_variant().fields.len() == 1 => {
                            let ft = def.non_enum_variant().fields[FieldIdx::from_u32(0)].ty(tcx, args);
                            let _ = ft;
                            obj(&[("adt1", js(&i.to_bits(b).to_string()))])
                        }
                        ty::Adt(def, _) if def.is_enum() => {
                            let mut r = obj(&[("u", js("enum-scalar"))]);
                            let val = i.to_bits(b);
                            if let Ok(lay) = tcx.layout_of(self.env.as_query_input(t)) {
                                use rustc_abi::{Variants, TagEncoding};
                                match &lay.variants {
                                    Variants::Multiple { tag_encoding: TagEncoding::Direct, .. } => {
                                        for (vi, d) in def.discriminants(tcx) { if d.val & ((1u128 << b.bits().min(127)) - 1) == val && def.variant(vi).fields.is_empty() { r = obj(&[("adt", js(&self.path(def.did()))), ("v", vi.as_u32().to_string()), ("f", "[]".into())]); } }
                                    }
                                    Variants::Multiple { tag_encoding: TagEncoding::Niche { untagged_variant, niche_variants, niche_start }, .. } => {
                                        let mask: u128 = if b.bits() >= 128 { u128::MAX } else { (1u128 << b.bits()) - 1 };
                                        let rel = val.wrapping_sub(*niche_start) & mask;
                                        let n = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                        let vi = if rel <= n { VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32) } else { *untagged_variant };
                                        if def.variant(vi).fields.is_empty() { r = obj(&[("adt", js(&self.path(def.did()))), ("v", vi.as_u32().to_string()), ("f", "[]".into())]); }
                                        else { r = obj(&[("adt", js(&self.path(def.did()))), ("v", vi.as_u32().to_string()), ("raw", js(&val.to_string()))]); }
                                    }
                                    _ => {}
                                }
                            }
                            r
                        }
                        _ => obj(&[("i", js(&i.to_bits(b).to_string()))]),
                    }
                }
                Ok(ConstValue::Scalar(Scalar::Ptr(p, _))) => {
                    let (prov, off) = p.into_raw_parts();
                    match t.kind() {
                        ty::Ref(_, e, _) | ty::RawPtr(e, _) => { let x = self.read_mem(prov.alloc_id(), off, *e, 0); obj(&[("r", x)]) }
                        _ => obj(&[("u", js("ptr"))]),
                    }
                }
                Ok(ConstValue::ZeroSized) => match t.kind() {
                    ty::Tuple(_) => obj(&[("t", "[]".into())]),
                    ty::Adt(def, _) => obj(&[("adt", js(&self.path(def.did()))), ("v", "0".into()), ("f", "[]".into())]),
                    _ => obj(&[("z", "true".into())]),
                },
                Ok(ConstValue::Slice { alloc_id, meta }) => match t.kind() {
                    ty::Ref(_, e, _) => { let x = self.read_seq(alloc_id, Size::ZERO, *e, meta, 0); obj(&[("r", x)]) }
                    _ => obj(&[("u", js("slice"))]),
                },
                Ok(ConstValue::Indirect { alloc_id, offset }) => self.read_mem(alloc_id, offset, t, 0),
                Err(_) => obj(&[("u", js("eval"))]),
            },
        };
        f.push(("v", v));
        obj(&f)
    }

    // ------------------------------------------------------------ bodies
    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut pj = vec![];
        let _ = b;
        for e in p.projection.iter() {
            pj.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => { let t = self.ty(t); format!("[\"f\",{},{}]", i.as_u32(), t) }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_u32()),
                ProjectionElem::OpaqueCast(_) => "\"o\"".to_string(),
                #[allow(unreachable_patterns)]
                _ => "\"o\"".to_string(),
                ProjectionElem::UnwrapUnsafeBinder(_) => "\"o\"".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_u32(), arr(pj))
    }
    fn operand(&mut self, b: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"p\":{}}}", self.place(b, p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(b, p)),
            Operand::Constant(c) => format!("{{\"c\":{}}}", self.constant(c)),
            #[allow(unreachable_patterns)]
            x => format!("{{\"x\":{}}}", js(&format!("{:?}", x))),
        }
    }
    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => obj(&[("k", js("use")), ("o", self.operand(b, o))]),
            Rvalue::Repeat(o, n) => { let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into()); obj(&[("k", js("repeat")), ("o", self.operand(b, o)), ("n", n)]) }
            Rvalue::Ref(_, bk, p) => obj(&[("k", js("ref")), ("mut", matches!(bk, BorrowKind::Mut { .. }).to_string()), ("fake", matches!(bk, BorrowKind::Fake(_)).to_string()), ("p", self.place(b, p))]),
            Rvalue::RawPtr(k, p) => obj(&[("k", js("ref")), ("raw", "true".into()), ("mut", matches!(k, RawPtrKind::Mut).to_string()), ("fake", "false".into()), ("p", self.place(b, p))]),
            Rvalue::Cast(k, o, t) => { let t = self.ty(*t); obj(&[("k", js("cast")), ("ck", js(&format!("{:?}", k))), ("o", self.operand(b, o)), ("ty", t.to_string())]) }
            Rvalue::BinaryOp(op, ab) => obj(&[("k", js("bin")), ("op", js(&format!("{:?}", op))), ("a", self.operand(b, &ab.0)), ("b", self.operand(b, &ab.1))]),
            Rvalue::UnaryOp(op, o) => obj(&[("k", js("un")), ("op", js(&format!("{:?}", op))), ("o", self.operand(b, o))]),
            Rvalue::Discriminant(p) => obj(&[("k", js("discr")), ("p", self.place(b, p))]),
            Rvalue::CopyForDeref(p) => obj(&[("k", js("use")), ("o", format!("{{\"p\":{}}}", self.place(b, p)))]),
            Rvalue::Aggregate(k, os) => {
                let mut f: Vec<(&str, String)> = vec![("k", js("agg"))];
                match &**k {
                    AggregateKind::Array(_) => f.push(("ak", js("array"))),
                    AggregateKind::Tuple => f.push(("ak", js("tuple"))),
                    AggregateKind::Adt(d, v, a, _, uf) => {
                        f.push(("ak", js("adt"))); f.push(("path", js(&self.path(*d)))); f.push(("v", v.as_u32().to_string()));
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), a);
                        let t = self.ty(t); f.push(("ty", t.to_string()));
                        if let Some(u) = uf { f.push(("uf", u.as_u32().to_string())); }
                    }
                    AggregateKind::Closure(d, a) => {
                        f.push(("ak", js("closure"))); f.push(("path", js(&self.path(*d))));
                        let i = self.inst_of_closure(*d, a); f.push(("inst", i));
                    }
                    AggregateKind::Coroutine(d, a) => {
                        f.push(("ak", js("coroutine"))); f.push(("path", js(&self.path(*d))));
                        let i = self.inst_of_closure(*d, a); f.push(("inst", i));
                    }
                    AggregateKind::RawPtr(..) => f.push(("ak", js("rawptr"))),
                    #[allow(unreachable_patterns)]
                    _ => f.push(("ak", js("other"))),
                }
                let v: Vec<String> = os.iter().map(|o| self.operand(b, o)).collect();
                f.push(("os", arr(v)));
                obj(&f)
            }
            #[allow(unreachable_patterns)]
            x => obj(&[("k", js("other")), ("s", js(&format!("{:?}", x)))]),
        }
    }
    fn body_json(&mut self, id: usize, d: DefId, a: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let (generic, local): (Body<'tcx>, bool) = match d.as_local().and_then(|l| self.bodies.get(&l)) {
            Some(b) => (b.clone(), true),
            None => (tcx.instance_mir(InstanceKind::Item(d)).clone(), false),
        };
        let body: Body<'tcx> = match tcx.try_instantiate_and_normalize_erasing_regions(a, self.env, EarlyBinder::bind(tcx, generic)) {
            Ok(b) => b,
            Err(_) => return obj(&[("id", id.to_string()), ("path", js(&self.path(d))), ("error", js("normalize"))]),
        };
        let mut f: Vec<(&str, String)> = vec![("id", id.to_string()), ("path", js(&self.path(d))), ("local", local.to_string())];
        f.push(("name", js(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default().as_str())));
        f.push(("span", self.span(body.span)));
        f.push(("argc", body.arg_count.to_string()));
        let targs: Vec<String> = a.types().map(|x| self.ty(x).to_string()).collect();
        f.push(("targs", arr(targs)));
        let kind = if tcx.is_coroutine(d) { "coroutine" } else if tcx.is_closure_like(d) { "closure" } else { "fn" };
        f.push(("kind", js(kind)));
        if let Some(p) = tcx.opt_parent(d) {
            f.push(("parent", js(&self.path(p))));
            if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                f.push(("impl_self", js(&with_no_visible_paths!(with_no_trimmed_paths!(format!("{}", st))))));
                if of_trait && tcx.is_automatically_derived(p) { f.push(("auto", "true".into())); }
                if of_trait { f.push(("impl_trait", js(&self.path(tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip().def_id)))); }
            }
        }
        if let Some(sp) = body.spread_arg { f.push(("spread", sp.as_u32().to_string())); }
        let ls: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        f.push(("locals", arr(ls)));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pl = self.place(&body, &p);
                names.push(format!("[{},{}]", js(v.name.as_str()), pl));
            }
        }
        f.push(("names", arr(names)));
        let mut bbs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut ss = vec![];
            for s in &bb.statements {
                let ln = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(&body, &x.0);
                        let r = self.rvalue(&body, &x.1);
                        ss.push(format!("[\"=\",{},{},{}]", p, r, ln));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(&body, place);
                        ss.push(format!("[\"sd\",{},{},{}]", p, variant_index.as_u32(), ln));
                    }
                    StatementKind::StorageLive(l) => ss.push(format!("[\"live\",{}]", l.as_u32())),
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l.as_u32())),
                    StatementKind::Intrinsic(i) => ss.push(format!("[\"intr\",{}]", js(&format!("{:?}", i)))),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dti = self.ty(dt);
                    let bits = match dt.kind() { ty::Int(i) => Some(i.bit_width().unwrap_or(64)), _ => None };
                    let v: Vec<String> = targets.iter().map(|(v, t)| {
                        let vs = match bits { Some(n) => { let sh = 128 - n; (((v << sh) as i128) >> sh).to_string() } None => v.to_string() };
                        format!("[{},{}]", js(&vs), t.as_u32()) }).collect();
                    format!("[\"switch\",{},{},{},{},{}]", self.operand(&body, discr), arr(v), targets.otherwise().as_u32(), dti, ln)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(&body, place); format!("[\"drop\",{},{},{}]", p, target.as_u32(), ln) }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let o = self.operand(&body, cond);
                    let m = format!("{:?}", msg);
                    format!("[\"assert\",{},{},{},{},{}]", o, expected, js(&m), target.as_u32(), ln)
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let fo = self.operand(&body, func);
                    let av: Vec<String> = args.iter().map(|x| self.operand(&body, &x.node)).collect();
                    let dp = self.place(&body, destination);
                    let ln2 = self.line(*fn_span);
                    format!("[\"call\",{},{},{},{},{}]", fo, arr(av), dp, target.map(|t| t.as_u32().to_string()).unwrap_or("null".into()), ln2)
                }
                TerminatorKind::Yield { resume, resume_arg, .. } => { let p = self.place(&body, resume_arg); format!("[\"yield\",{},{},{}]", resume.as_u32(), p, ln) }
                x => format!("[\"other\",{}]", js(&format!("{:?}", x))),
            };
            bbs.push(format!("[{},{},{},{}]", arr(ss), tj, ln, bb.is_cleanup));
        }
        f.push(("blocks", arr(bbs)));
        obj(&f)
    }

    fn roots(&mut self) {
        let tcx = self.tcx;
        let mut ds: Vec<LocalDefId> = self.bodies.keys().copied().collect();
        ds.sort_by_key(|d| d.local_def_index.as_u32());
        for d in &ds {
            let k = tcx.def_kind(*d);
            if !matches!(k, DefKind::Fn | DefKind::AssocFn) { continue; }
            if tcx.generics_of(d.to_def_id()).requires_monomorphization(tcx) { continue; }
            let args = ty::GenericArgs::for_item(tcx, d.to_def_id(), |p, _| match p.kind { ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(), _ => unreachable!() });
            self.instance_id(d.to_def_id(), args);
        }
        self.drain();
        // generic functions nothing instantiated (library-style codecs): instantiate them with byte strings
        let bytes = Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, Ty::new_slice(tcx, tcx.types.u8));
        let vec8 = { let d = tcx.get_diagnostic_item(rustc_span::sym::Vec).unwrap();
            let args = ty::GenericArgs::for_item(tcx, d, |p, prev| if p.index == 0 { tcx.types.u8.into() } else { tcx.type_of(p.def_id).instantiate(tcx, prev).skip_norm_wip().into() });
            Ty::new_adt(tcx, tcx.adt_def(d), args) };
        for d in &ds {
            let did = d.to_def_id();
            let k = tcx.def_kind(*d);
            if !matches!(k, DefKind::Fn | DefKind::AssocFn) { continue; }
            if !tcx.generics_of(did).requires_monomorphization(tcx) { continue; }
            if self.insts.keys().any(|(x, _)| *x == did) { continue; }
            // a key's Hash implementation, for every hasher of the crate
            let th = tcx.opt_associated_item(did).and_then(|i| i.trait_item_def_id()).map(|t| self.path(t)).unwrap_or_default();
            if th == "core::hash::Hash::hash" && tcx.generics_of(did).count() == 1 {
                for h in tcx.hir_crate_items(()).definitions() {
                    if !matches!(tcx.def_kind(h), DefKind::Struct) || tcx.generics_of(h.to_def_id()).count() != 0 { continue; }
                    let ht = tcx.type_of(h.to_def_id()).instantiate_identity().skip_norm_wip();
                    let args = tcx.mk_args(&[ht.into()]);
                    if tcx.instantiate_and_check_impossible_clauses((did, args)) { continue; }
                    self.instance_id(did, args);
                }
                continue;
            }
            'cand: for c in [(bytes, bytes), (bytes, vec8), (vec8, vec8)] {
                let mut n = 0;
                let mut ok = true;
                let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    ty::GenericParamDefKind::Type { .. } => { n += 1; if n == 1 { c.0.into() } else { c.1.into() } }
                    ty::GenericParamDefKind::Const { .. } => { ok = false; ty::Const::from_bool(tcx, true).into() }
                });
                if !ok { continue; }
                if tcx.instantiate_and_check_impossible_clauses((did, args)) { continue 'cand; }
                self.instance_id(did, args);
                break;
            }
        }
        self.drain();
    }
    fn drain(&mut self) {
        while let Some((id, d, a)) = self.queue.pop_front() {
            let j = self.body_json(id, d, a);
            self.out.push(j);
        }
    }
}

struct Cb { out: String }
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut bodies: HashMap<LocalDefId, Body<'tcx>> = HashMap::new();
        let mut promoted = HashMap::new();
        for d in tcx.hir_body_owners() {
            let (b, p) = tcx.mir_promoted(d);
            bodies.insert(d, b.borrow().clone());
            promoted.insert(d, p.borrow().iter().cloned().collect());
        }
        if tcx.dcx().has_errors().is_some() { return Compilation::Continue; }
        let mut cx = Cx { tcx, env: TypingEnv::fully_monomorphized(), bodies, promoted, types: HashMap::new(), type_json: vec![], insts: HashMap::new(), queue: VecDeque::new(), out: vec![], impl_done: HashMap::new(), impls: vec![] };
        cx.roots();
        cx.drain();
        let _ = cx.promoted.len();
        let s = format!("{{\"types\":[\n{}\n],\n\"impls\":[\n{}\n],\n\"fns\":[\n{}\n]}}\n", cx.type_json.join(",\n"), cx.impls.join(",\n"), cx.out.join(",\n"));
        std::fs::write(&self.out, s).expect("write facts");
        Compilation::Continue
    }
}
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let crate_name = args.iter().position(|x| x == "--crate-name").map(|i| args[i + 1].clone());
    let out = std::env::var("MIRFACTS_OUT").ok();
    let is_test = args.iter().any(|x| x == "--test");
    struct Nop; impl Callbacks for Nop {}
    match (crate_name, out) {
        (Some(c), Some(o)) if c == "bitcoin_indexer" && !is_test => rustc_driver::compiler_entrypoint(&args, &mut Cb { out: o }),
        _ => rustc_driver::compiler_entrypoint(&args, &mut Nop),
    }
}
