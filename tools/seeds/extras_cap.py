ID = "R01-extras-cut"
PROP = "R01"
EDITS = [("unreal_asset/src/asset_data.rs", "vec![0u8; extras_len as usize];", "vec![0u8; (extras_len as usize).min(0x800000)];")]
NEEDS = "an export with more than 8 MiB of data behind its properties"
BREAKS = "the data behind the first 8 MiB is lost"
MAIN = """
use std::io::Read;
use unreal_asset::{engine_version::EngineVersion, Asset, Import};
use unreal_asset_exports::ExportNormalTrait;
fn file(n: &str) -> Cursor<Vec<u8>> {
    Cursor::new(std::fs::read(format!("{}/unreal_asset/tests/assets/{n}", std::env::var("REPO").unwrap())).unwrap())
}
fn main() {
    for n in [3usize, 0x10001, 0x800000, 0x800001] {
        let mut a = Asset::new(file("user_defined_struct/achievements_STRUCT_entry.uasset"), Some(file("user_defined_struct/achievements_STRUCT_entry.uexp")), EngineVersion::VER_UE4_26, None).unwrap();
        let x: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
        let k = (0..a.asset_data.exports.len()).find(|k| a.asset_data.exports[*k].get_normal_export().is_some()).unwrap();
        a.asset_data.exports[k].get_normal_export_mut().unwrap().extras = x.clone();
        let (mut p, mut q) = (Cursor::new(vec![]), Cursor::new(vec![]));
        a.write_data(&mut p, Some(&mut q)).unwrap();
        let b = Asset::new(Cursor::new(p.into_inner()), Some(Cursor::new(q.into_inner())), EngineVersion::VER_UE4_26, None).unwrap();
        assert!(b.asset_data.exports[k].get_normal_export().unwrap().extras == x, "{n}");
    }
}
"""
