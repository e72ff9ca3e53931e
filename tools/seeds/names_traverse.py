ID = "N01-index-zero"
PROP = "N01"
EDITS = [("unreal_asset/src/asset.rs", "            if *name_map != current_name_map {\n                let new_index", "            if *name_map != current_name_map && *index > 0 {\n                let new_index")]
NEEDS = "the first name of a foreign name map, in an export that is taken over into another asset"
BREAKS = "the name keeps pointing into the foreign map after the name map was rebuilt"
MAIN = """
use std::io::Read;
use unreal_asset::{engine_version::EngineVersion, Asset, Import};
fn file(n: &str) -> Cursor<Vec<u8>> {
    Cursor::new(std::fs::read(format!("{}/unreal_asset/tests/assets/{n}", std::env::var("REPO").unwrap())).unwrap())
}
fn load() -> Asset<Cursor<Vec<u8>>> {
    Asset::new(file("user_defined_struct/achievements_STRUCT_entry.uasset"), Some(file("user_defined_struct/achievements_STRUCT_entry.uexp")), EngineVersion::VER_UE4_26, None).unwrap()
}

fn main() {
    let mut a = load();
    let mut other = names();
    let mut name = |s: &str| other.get_mut().add_fname(s);
    let i = Import { class_package: name("Foreign0"), class_name: name("Foreign1"), outer_index: PackageIndex::new(0), object_name: name("Foreign2"), optional: false };
    a.add_import(i);
    a.rebuild_name_map();
    let (mut x, mut y) = (Cursor::new(vec![]), Cursor::new(vec![]));
    a.write_data(&mut x, Some(&mut y)).unwrap();
    let b = Asset::new(Cursor::new(x.into_inner()), Some(Cursor::new(y.into_inner())), EngineVersion::VER_UE4_26, None).unwrap();
    let i = b.imports.last().unwrap();
    let got = [&i.class_package, &i.class_name, &i.object_name].map(|e| e.get_owned_content());
    assert_eq!(got, ["Foreign0", "Foreign1", "Foreign2"]);
}
"""
