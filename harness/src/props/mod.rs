use crate::engine::*;
pub mod common;
pub mod iofmt;
pub mod c01_kdtree;
pub mod c02_octree;
pub mod c03_trees;
pub mod c04_bbox;
pub mod c05_sat;
pub mod c06_rays;
pub mod c07_topology;
pub mod c08_meshedit;
pub mod c09_index;
pub mod c10_repair;
pub mod c11_filters;
pub mod c12_views;
pub mod c13_hull;
pub mod c14_simplify;
pub mod c15_interpolate;
pub mod c16_factory;
pub mod c17_matrix;
pub mod c18_checked;
pub mod c19_points;
pub mod c20_containers;
pub mod c21_measures;
pub mod c22_compress;
pub mod c23_roundtrip;
pub mod c24_decode;
pub mod c25_robust;
pub mod c26_damage;
pub mod c27_agree;
pub mod c28_lines;
pub mod c29_laws;
pub mod c30_fused;
pub mod c31_append;
pub mod c32_refuse;

pub fn all() -> Vec<Prop> {
    vec![
        c01_kdtree::prop(),
        c02_octree::prop(),
        c03_trees::prop(),
        c04_bbox::prop(),
        c05_sat::prop(),
        c06_rays::prop(),
        c07_topology::prop(),
        c08_meshedit::prop(),
        c09_index::prop(),
        c10_repair::prop(),
        c11_filters::prop(),
        c12_views::prop(),
        c13_hull::prop(),
        c14_simplify::prop(),
        c15_interpolate::prop(),
        c16_factory::prop(),
        c17_matrix::prop(),
        c18_checked::prop(),
        c19_points::prop(),
        c20_containers::prop(),
        c21_measures::prop(),
        c22_compress::prop(),
        c23_roundtrip::prop(),
        c24_decode::prop(),
        c25_robust::prop(),
        c26_damage::prop(),
        c27_agree::prop(),
        c28_lines::prop(),
        c29_laws::prop(),
        c30_fused::prop(),
        c31_append::prop(),
        c32_refuse::prop(),
    ]
}
pub fn get(id: &str) -> Option<Prop> {
    let mut p = all().into_iter().find(|p| p.id == id)?;
    for s in &mut p.subs {
        s.quick *= quick_factor(id);
    }
    Some(p)
}
/// checks whose cases are cheap run more of them, so that most quick checks take about ten seconds
fn quick_factor(id: &str) -> u64 {
    match id {
        "C13" | "C16" => 8,
        "C14" | "C17" | "C19" | "C22" => 6,
        "C06" | "C11" | "C18" | "C21" | "C29" => 5,
        "C02" | "C12" | "C15" => 4,
        "C01" | "C03" | "C04" | "C05" | "C32" => 3,
        "C07" | "C08" | "C10" | "C20" | "C28" | "C30" => 2,
        _ => 1,
    }
}
