ID = "K01-fragment-values"
PROP = "K01"
EDITS = [("unreal_asset/unreal_asset_base/src/unversioned/header.rs", "(value >> UnversionedHeaderFragment::VALUE_NUM_SHIFT) as u8", "((value >> UnversionedHeaderFragment::VALUE_NUM_SHIFT) & 0x3f) as u8")]
NEEDS = "a fragment of an unversioned header with 64 or more values"
BREAKS = "the number of values of the fragment is reduced by 64"
MAIN = """
use unreal_asset_base::unversioned::header::UnversionedHeaderFragment;
fn main() {
    let v = ObjectVersion::VER_UE4_CORRECT_LICENSEE_FLAG;
    for x in 0..=u16::MAX {
        let n = names();
        let f = UnversionedHeaderFragment::from(x);
        same(&x.to_le_bytes(), &written(v, &n, |w| f.write(w).unwrap()));
        if x & 0xff == 0 { assert_eq!(f.value_num as u16, x >> 9); }
    }
}
"""
