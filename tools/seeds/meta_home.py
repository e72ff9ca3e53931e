ID = "M01-old-integrator-key"
PROP = "M01"
EDITS = [("unreal_mod_metadata/src/v1.rs", '''integrator.insert("item_list_entries".to_string(), item_list_entries);''', '''integrator.insert("item_list_entry".to_string(), item_list_entries);''')]
NEEDS = "a version 1 document that has item list entries"
BREAKS = "the item list entries of an old document are stored under a name the integrator does not know"
MAIN = r'''
fn main() {
    let v = |s: &str| unreal_mod_metadata::from_slice(s.as_bytes()).unwrap();
    for k in ["persistent_actors", "mission_trailheads", "linked_actor_components", "item_list_entries", "biome_placement_modifiers"] {
        let m = v(&format!(r#"{{"name": "a", "mod_id": "b", "version": "1", "{k}": {{"x": [1, 2]}}}}"#));
        assert_eq!(m.integrator.len(), 1);
        assert_eq!(m.integrator.get(k), Some(&serde_json::json!({"x": [1, 2]})), "{k}");
    }
}
'''
