ID = "W05-float-channel-default"
PROP = "W05"
EDITS = [("unreal_asset/unreal_asset_properties/src/movies/movie_scene_float_channel_property.rs", """        asset.write_f32::<LE>(self.default_value.0)?;
        asset.write_i32::<LE>(match self.has_default_value {
            true => 1,
            false => 0,
        })?;
""", """        asset.write_f32::<LE>(self.default_value.0)?;
        asset.write_i32::<LE>(match self.has_default_value && self.values.is_empty() {
            true => 1,
            false => 0,
        })?;
""")]
NEEDS = "a float channel with keys that also has a default value"
BREAKS = "the flag is cleared when the channel has keys"
MAIN = """
use unreal_asset_properties::movies::movie_scene_float_channel_property::MovieSceneFloatChannel;
fn main() {
    let v = ObjectVersion::VER_UE4_CORRECT_LICENSEE_FLAG;
    for keys in 0..2 {
        let n = names();
        let mut b: Vec<u8> = vec![1, 2];
        b.write_i32::<LE>(4).unwrap();
        b.write_i32::<LE>(0).unwrap();
        b.write_i32::<LE>(28).unwrap();
        b.write_i32::<LE>(keys).unwrap();
        for _ in 0..keys {
            // value, tangent (five words), modes
            let mut k: Vec<u8> = vec![];
            for x in 0..5 { k.write_f32::<LE>(x as f32).unwrap(); }
            k.extend([0, 1, 2]);
            b.extend(k);
        }
        b.write_f32::<LE>(2.5).unwrap();
        b.write_i32::<LE>(1).unwrap();
        b.write_i32::<LE>(24).unwrap();
        b.write_i32::<LE>(1).unwrap();
        let x = MovieSceneFloatChannel::new(&mut reader(&b, v, &n)).unwrap();
        same(&b, &written(v, &n, |w| x.write(w).unwrap()));
    }
}
"""
