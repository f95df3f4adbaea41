//! The generated API surface: names, visibility, constness, signatures, impls.

use rustc_hir::def::DefKind;
use rustc_middle::ty::print::PrintTraitRefExt;
use rustc_middle::ty::{self, TyCtxt};
use rustc_span::def_id::DefId;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};

struct Unsafes(Vec<()>);
impl<'v> rustc_hir::intravisit::Visitor<'v> for Unsafes {
    fn visit_block(&mut self, b: &'v rustc_hir::Block<'v>) {
        if matches!(b.rules, rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided)) {
            self.0.push(());
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

/// bodies that contain an `unsafe` block
pub fn unsafes(tcx: TyCtxt<'_>) -> (usize, Vec<String>) {
    let mut out = vec![];
    let mut n = 0;
    for id in tcx.hir_body_owners() {
        let body = tcx.hir_body_owned_by(id);
        n += 1;
        let mut v = Unsafes(vec![]);
        rustc_hir::intravisit::walk_body(&mut v, body);
        if !v.0.is_empty() {
            out.push(tcx.def_path_str(id.to_def_id()));
        }
    }
    (n, out)
}

pub fn dump(tcx: TyCtxt<'_>, adts: &HashMap<String, DefId>) -> Value {
    let mut out: BTreeMap<String, Value> = BTreeMap::new();
    let vis = |d: DefId| -> String {
        match tcx.visibility(d) {
            ty::Visibility::Public => "pub".into(),
            ty::Visibility::Restricted(m) => format!("in:{}", tcx.def_path_str(m)),
        }
    };
    let mut traits: HashMap<DefId, Vec<String>> = HashMap::new();
    for (_, list) in tcx.all_local_trait_impls(()) {
        for im in list {
            let tref = tcx.impl_trait_ref(im.to_def_id()).instantiate_identity().skip_norm_wip();
            let s = format!("{}: {}", tref.self_ty(), tref.print_only_trait_path());
            let mut seen = vec![];
            if let ty::Adt(a, _) = tref.self_ty().kind() {
                seen.push(a.did());
            }
            for t in tref.args.types().skip(1) {
                if let ty::Adt(a, _) = t.kind() {
                    if !seen.contains(&a.did()) {
                        seen.push(a.did());
                    }
                }
            }
            for d in seen {
                traits.entry(d).or_default().push(s.clone());
            }
        }
    }
    for (path, d) in adts {
        let mut items = vec![];
        for im in tcx.inherent_impls(*d) {
            for it in tcx.associated_items(*im).in_definition_order() {
                let id = it.def_id;
                match tcx.def_kind(id) {
                    DefKind::AssocFn => {
                        let sig = tcx.fn_sig(id).instantiate_identity().skip_norm_wip();
                        let sig = tcx.erase_and_anonymize_regions(tcx.instantiate_bound_regions_with_erased(sig));
                        let ins: Vec<String> = sig.inputs().iter().map(|t| t.to_string()).collect();
                        items.push(json!({"k": "fn", "name": it.name().to_string(), "vis": vis(id),
                            "const": tcx.is_const_fn(id), "unsafe": sig.safety().is_unsafe(),
                            "in": ins, "out": sig.output().to_string()}));
                    }
                    DefKind::AssocConst { .. } => {
                        let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                        items.push(json!({"k": "const", "name": it.name().to_string(), "vis": vis(id), "ty": t.to_string()}));
                    }
                    _ => {}
                }
            }
        }
        let adt = tcx.adt_def(*d);
        let fields: Vec<Value> = if adt.is_struct() {
            adt.non_enum_variant()
                .fields
                .iter()
                .map(|f| {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    json!({"name": f.name.to_string(), "vis": vis(f.did), "ty": t.to_string()})
                })
                .collect()
        } else {
            vec![]
        };
        let mut tr = traits.get(d).cloned().unwrap_or_default();
        tr.sort();
        let repr = format!("{:?}", adt.repr().int.map(|i| format!("{i:?}")));
        out.insert(
            path.clone(),
            json!({"vis": vis(*d), "items": items, "fields": fields, "traits": tr,
                "transparent": adt.repr().transparent(), "repr": repr}),
        );
    }
    json!(out)
}
