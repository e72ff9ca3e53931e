ID = "W04-tile-layer-gate"
PROP = "W04"
EDITS = [("unreal_asset/unreal_asset_properties/src/world_tile_property.rs", """        if object_version >= ObjectVersion::VER_UE4_WORLD_LAYER_ENABLE_DISTANCE_STREAMING {
            asset.write_i32""", """        if object_version > ObjectVersion::VER_UE4_WORLD_LAYER_ENABLE_DISTANCE_STREAMING {
            asset.write_i32""")]
NEEDS = "a world tile layer in a package of exactly the object version that introduced distance streaming"
BREAKS = "the writer leaves out the distance streaming flag which the reader of that version consumes"
MAIN = """
use unreal_asset_properties::world_tile_property::FWorldTileLayer;
fn main() {
    for v in [ObjectVersion::VER_UE4_WORLD_LEVEL_INFO_UPDATED, ObjectVersion::VER_UE4_WORLD_LAYER_ENABLE_DISTANCE_STREAMING, ObjectVersion::VER_UE4_CORRECT_LICENSEE_FLAG] {
        let n = names();
        let mut b: Vec<u8> = vec![];
        b.extend([3, 0, 0, 0, b'a', b'b', 0]);
        for x in 1..4 { b.write_i32::<LE>(x).unwrap(); }
        b.write_i32::<LE>(77).unwrap();
        if v >= ObjectVersion::VER_UE4_WORLD_LAYER_ENABLE_DISTANCE_STREAMING { b.write_i32::<LE>(1).unwrap(); }
        let x = FWorldTileLayer::new(&mut reader(&b, v, &n)).unwrap();
        same(&b, &written(v, &n, |w| x.write(w).unwrap()));
    }
}
"""
