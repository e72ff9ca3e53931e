ID = "I01-contains-after-removal"
PROP = "I01"
EDITS = [("unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs", "self.index_map.contains_key(&index)", "index < self.index_map.len()")]
NEEDS = "a removal before the question for an index"
BREAKS = "contains_index disagrees with get_by_index once an element was removed"
MAIN = """
use unreal_asset_base::containers::IndexedMap;
fn main() {
    let mut m: IndexedMap<String, i32> = IndexedMap::new();
    for i in 0..4 { m.insert(i.to_string(), i); }
    m.remove_by_key("1");
    for i in 0..6 { assert_eq!(m.contains_index(i), m.get_by_index(i).is_some(), "index {i}"); }
}
"""
