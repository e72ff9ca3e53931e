ID = "W06-transform-ue5-scale"
PROP = "W06"
EDITS = [("unreal_asset/unreal_asset_kismet/src/lib.rs", """                asset.write_f64::<LE>(self.value.scale.y.0)?;
                asset.write_f64::<LE>(self.value.scale.z.0)?;
""",
"""                asset.write_f64::<LE>(self.value.scale.x.0)?;
                asset.write_f64::<LE>(self.value.scale.z.0)?;
""")]
NEEDS = "a transform constant with non-uniform scale in bytecode of UE5 large world coordinates"
BREAKS = "the y component of the scale is replaced by the x component"
MAIN = """
use unreal_asset_kismet::KismetExpression;
fn main() {
    let v = ObjectVersion::VER_UE4_CORRECT_LICENSEE_FLAG;
    let n = names();
    let mut b: Vec<u8> = vec![0x2b];
    for x in 0..10 { b.write_f64::<LE>(x as f64 + 0.5).unwrap(); }
    let mut r: R = RawReader::new(Chain::new(Cursor::new(b.clone()), None), v, ObjectVersionUE5::LARGE_WORLD_COORDINATES, false, n.clone());
    let x = KismetExpression::new(&mut r).unwrap();
    let mut c = Cursor::new(Vec::new());
    { let mut w: W = RawWriter::new(&mut c, v, ObjectVersionUE5::LARGE_WORLD_COORDINATES, false, n.clone()); KismetExpression::write(&x, &mut w).unwrap(); }
    same(&b, &c.into_inner());
}
"""
