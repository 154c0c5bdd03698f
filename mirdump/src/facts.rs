//! Facts about one crate as a whole, for properties that quantify over client programs:
//! which functions outsiders can call, what they take and give, interior mutability, statics.
use crate::esc;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::collections::HashSet;
use std::ops::ControlFlow;

/// Can an outsider come by a value of this type without the crate's help?
fn free<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, depth: usize) -> bool {
    if depth > 8 {
        return false;
    }
    match t.kind() {
        ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str => true,
        ty::Ref(_, t, _) | ty::Slice(t) | ty::Array(t, _) => free(tcx, *t, depth + 1),
        ty::RawPtr(..) | ty::FnPtr(..) | ty::Closure(..) => true,
        ty::Tuple(ts) => ts.iter().all(|t| free(tcx, t, depth + 1)),
        ty::Param(p) => p.name.as_str() != "Self",
        ty::Adt(a, args) => {
            if a.did().is_local() {
                if args.types().next().is_some() {
                    return false;
                }
                let open = a.is_struct()
                    && a.all_fields().all(|f| f.vis.is_public() && free(tcx, tcx.type_of(f.did).instantiate_identity().skip_norm_wip(), depth + 1))
                    || a.is_enum() && a.all_fields().all(|f| free(tcx, tcx.type_of(f.did).instantiate_identity().skip_norm_wip(), depth + 1));
                let ctor_private = a.is_struct() && a.all_fields().any(|f| !f.vis.is_public());
                (open && !ctor_private) || has_default(tcx, t)
            } else {
                args.types().all(|t| free(tcx, t, depth + 1))
            }
        }
        _ => false,
    }
}

fn has_default<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> bool {
    let Some(d) = tcx.get_diagnostic_item(rustc_span::sym::Default) else { return false };
    tcx.non_blanket_impls_for_ty(d, t).next().is_some()
}

fn mentions_id<'tcx>(t: Ty<'tcx>, ids: &HashSet<DefId>, in_trait: bool) -> bool {
    t.walk().any(|g| match g.as_type().map(|t| *t.kind()) {
        Some(ty::Adt(a, _)) => ids.contains(&a.did()),
        Some(ty::Param(p)) => in_trait && p.name.as_str() == "Self",
        Some(ty::Alias(..)) => in_trait,
        _ => false,
    })
}

/// types in which `t` keeps values: through fields, generic arguments and pointees
fn cells<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, seen: &mut HashSet<Ty<'tcx>>, out: &mut Vec<String>) {
    if !seen.insert(t) || seen.len() > 4000 {
        return;
    }
    match *t.kind() {
        ty::Adt(a, args) => {
            if a.is_unsafe_cell() {
                out.push(t.to_string());
                return;
            }
            for t in args.types() {
                cells(tcx, t, seen, out);
            }
            for f in a.all_fields() {
                cells(tcx, f.ty(tcx, args).skip_norm_wip(), seen, out);
            }
        }
        ty::Ref(_, t, _) | ty::Slice(t) | ty::Array(t, _) | ty::RawPtr(t, _) => cells(tcx, t, seen, out),
        ty::Tuple(ts) => ts.iter().for_each(|t| cells(tcx, t, seen, out)),
        ty::Dynamic(..) => out.push(t.to_string()),
        _ => {}
    }
}

pub fn run(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_FACTS").expect("MIRDUMP_FACTS");
    let ev = tcx.effective_visibilities(());
    let items = tcx.hir_crate_items(());
    let span = |d: DefId| tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(d));
    let mut lines: Vec<String> = vec![];

    // traits outsiders know, with all their supertraits
    let mut traits: HashSet<DefId> = HashSet::new();
    let mut id_trait = None;
    for d in items.definitions() {
        if tcx.def_kind(d) == DefKind::Trait && ev.is_exported(d) {
            if tcx.item_name(d.to_def_id()).as_str() == "InternalNodeId" {
                id_trait = Some(d.to_def_id());
            }
            traits.insert(d.to_def_id());
            for s in rustc_type_ir::elaborate::supertrait_def_ids(tcx, d.to_def_id()) {
                traits.insert(s);
            }
        }
    }
    let mut ids: HashSet<DefId> = HashSet::new();
    if let Some(t) = id_trait {
        for i in tcx.all_impls(t) {
            if let ty::Adt(a, _) = tcx.type_of(i).instantiate_identity().skip_norm_wip().kind() {
                ids.insert(a.did());
            }
        }
    }
    for a in &ids {
        let ad = tcx.adt_def(*a);
        for f in ad.all_fields() {
            lines.push(format!(
                "{{\"fact\":\"id_field\",\"type\":{},\"field\":{},\"public\":{},\"span\":{}}}",
                esc(&tcx.def_path_str(*a)), esc(f.name.as_str()), f.vis.is_public(), esc(&span(f.did))
            ));
        }
    }
    for d in items.definitions() {
        let k = tcx.def_kind(d);
        match k {
            DefKind::Fn | DefKind::AssocFn => {
                let (callable, in_trait) = callable(tcx, d, &traits, &ids, ev);
                if !callable {
                    continue;
                }
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                let gives = mentions_id(sig.output(), &ids, in_trait);
                let all_free = sig.inputs().iter().all(|t| free(tcx, *t, 0));
                lines.push(format!(
                    "{{\"fact\":\"fn\",\"path\":{},\"gives_id\":{},\"free_inputs\":{},\"unsafe\":{},\"span\":{}}}",
                    esc(&tcx.def_path_str(d.to_def_id())), gives, all_free, !sig.safety().is_safe(), esc(&span(d.to_def_id()))
                ));
            }
            DefKind::Static { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut c = vec![];
                cells(tcx, t, &mut HashSet::new(), &mut c);
                lines.push(format!(
                    "{{\"fact\":\"static\",\"path\":{},\"mutable\":{},\"cells\":{},\"span\":{}}}",
                    esc(&tcx.def_path_str(d.to_def_id())), tcx.is_mutable_static(d.to_def_id()), c.len(), esc(&span(d.to_def_id()))
                ));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut c = vec![];
                cells(tcx, t, &mut HashSet::new(), &mut c);
                let raw = tcx.adt_def(d).all_fields().any(|f| {
                    tcx.type_of(f.did).instantiate_identity().skip_norm_wip().walk().any(|g| g.as_type().map_or(false, |t| t.is_raw_ptr()))
                });
                lines.push(format!(
                    "{{\"fact\":\"type\",\"path\":{},\"exported\":{},\"raw_pointer\":{},\"cells\":[{}],\"span\":{}}}",
                    esc(&tcx.def_path_str(d.to_def_id())), ev.is_exported(d), raw,
                    c.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","), esc(&span(d.to_def_id()))
                ));
            }
            _ => {}
        }
    }
    lines.push(format!("{{\"fact\":\"crate\",\"id_trait\":{},\"id_types\":{}}}", id_trait.is_some(), ids.len()));
    std::fs::write(&out, lines.join("\n") + "\n").expect("write facts");
    ControlFlow::Continue(())
}

fn callable(
    tcx: TyCtxt<'_>, d: LocalDefId, traits: &HashSet<DefId>, ids: &HashSet<DefId>,
    ev: &rustc_middle::middle::privacy::EffectiveVisibilities,
) -> (bool, bool) {
    let parent = tcx.parent(d.to_def_id());
    match tcx.def_kind(parent) {
        DefKind::Trait => (traits.contains(&parent), true),
        DefKind::Impl { of_trait: true } => {
            // implementations of traits outsiders know, for the id types
            let tr = tcx.impl_trait_id(parent);
            let selfid = match tcx.type_of(parent).instantiate_identity().skip_norm_wip().kind() {
                ty::Adt(a, _) => ids.contains(&a.did()),
                _ => false,
            };
            (selfid && !tr.is_local(), false)
        }
        _ => (ev.is_exported(d), false),
    }
}
