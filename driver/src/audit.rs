//! Inventory of a whole crate's checked syntax tree: unsafe blocks, functions and impls, foreign items, statics.
use crate::js;
use rustc_hir as hir;
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::ty::TyCtxt;
use rustc_span::def_id::LocalDefId;
use rustc_span::Span;
use std::ops::ControlFlow;

struct V<'tcx> {
    tcx: TyCtxt<'tcx>,
    owner: Vec<LocalDefId>,
    out: Vec<String>,
    bodies: usize,
    items: usize,
}

impl<'tcx> V<'tcx> {
    fn at(&self, sp: Span) -> String {
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
    }
    fn add(&mut self, kind: &str, d: LocalDefId, sp: Span) {
        if kind == "unsafe impl" && sp.from_expansion() && self.tcx.is_automatically_derived(d.to_def_id()) {
            return; // written by the compiler's own derives
        }
        let n = self.tcx.def_path_str(d.to_def_id());
        let w = self.at(sp);
        self.out.push(format!("{{\"kind\":{},\"in\":{},\"at\":{}}}", js(kind), js(&n), js(&w)));
    }
}

impl<'tcx> Visitor<'tcx> for V<'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
        let d = i.owner_id.def_id;
        self.items += 1;
        self.owner.push(d);
        match i.kind {
            hir::ItemKind::Static(m, ..) => {
                let ty = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
                if m.is_mut() {
                    self.add("static mut", d, i.span);
                } else if !ty.is_freeze(self.tcx, env) {
                    self.add("static with interior mutability", d, i.span);
                }
            }
            hir::ItemKind::ForeignMod { .. } => self.add("foreign items", d, i.span),
            hir::ItemKind::Impl(im) => {
                if let Some(t) = im.of_trait {
                    if t.safety.is_unsafe() {
                        self.add("unsafe impl", d, i.span)
                    }
                }
            }
            hir::ItemKind::Trait { safety, .. } if safety.is_unsafe() => self.add("unsafe trait", d, i.span),
            _ => {}
        }
        intravisit::walk_item(self, i);
        self.owner.pop();
    }
    fn visit_fn(&mut self, k: intravisit::FnKind<'tcx>, decl: &'tcx hir::FnDecl<'tcx>, b: hir::BodyId, sp: Span, id: LocalDefId) {
        self.bodies += 1;
        if let Some(h) = k.header() {
            if h.is_unsafe() {
                self.add("unsafe function", id, sp);
            }
        }
        self.owner.push(id);
        intravisit::walk_fn(self, k, decl, b, id);
        self.owner.pop();
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
            let d = *self.owner.last().unwrap_or(&rustc_span::def_id::CRATE_DEF_ID);
            self.add("unsafe block", d, b.span);
        }
        intravisit::walk_block(self, b);
    }
}

pub fn audit(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let mut v = V { tcx, owner: vec![], out: vec![], bodies: 0, items: 0 };
    tcx.hir_walk_toplevel_module(&mut v);
    let s = format!("{{\"bodies\":{},\"items\":{},\"found\":[{}]}}\n", v.bodies, v.items, v.out.join(","));
    std::fs::write(std::env::var("BVH_AUDIT").unwrap(), s).expect("write audit");
    ControlFlow::Continue(())
}
