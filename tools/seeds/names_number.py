ID = "I02-name-number"
PROP = "I02"
EDITS = [("unreal_asset/unreal_asset_base/src/containers/name_map.rs", "self.create_fname(index, number)", "self.create_fname(index, number & 0xffff)")]
NEEDS = "a name instance number of 65536 and more"
BREAKS = "the number of the instance is cut, two different names become the same"
MAIN = """
fn main() {
    let mut n = names();
    for k in [0, 1, 77, 65535, 65536, 70001, i32::MAX] {
        let f = n.get_mut().add_fname_with_number("Actor", k);
        assert_eq!(f.get_number(), k);
    }
}
"""
