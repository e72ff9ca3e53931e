ID = "M01-equal-homepage"
PROP = "M01"
EDITS = [("unreal_mod_metadata/src/v2.rs", "            && self.homepage == other.homepage\n", "            && (self.homepage.is_none() || self.homepage == other.homepage)\n")]
NEEDS = "two values of which the first has no homepage and the second has one"
BREAKS = "different metadata compares equal"
MAIN = r'''
fn main() {
    let v = |s: &str| unreal_mod_metadata::from_slice(s.as_bytes()).unwrap();
    let a = v(r#"{"schema_version": 2, "name": "a", "mod_id": "b", "version": "1"}"#);
    let b = v(r#"{"schema_version": 2, "name": "a", "mod_id": "b", "version": "1", "homepage": "h"}"#);
    assert!(a == a.clone() && b == b.clone());
    assert!(a != b && b != a);
}
'''
