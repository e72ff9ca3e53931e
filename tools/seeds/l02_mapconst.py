ID = "L02-empty-map-size"
PROP = "L02"
EDITS = [("unreal_asset/unreal_asset_kismet/src/lib.rs", """        offset += KismetExpression::write(&ExEndMapConst::default().into(), asset)?;
        Ok(offset)""", """        let end = KismetExpression::write(&ExEndMapConst::default().into(), asset)?;
        if !self.elements.is_empty() {
            offset += end;
        }
        Ok(offset)""")]
NEEDS = "a map constant without elements"
BREAKS = "the size of the bytecode is reported one short for every empty map constant"
MAIN = """
use unreal_asset_kismet::*;
fn size(n: usize) -> usize {
    let p = KismetPropertyPointer { old: Some(PackageIndex::new(3)), new: None };
    let m = ExMapConst { token: EExprToken::ExMapConst, key_property: p.clone(), value_property: p, elements: (0..n).map(|_| ExTrue::default().into()).collect() };
    let mut s = 0;
    written(ObjectVersion::VER_UE4_FIX_WIDE_STRING_CRC, &names(), |w| s = KismetExpression::write(&m.into(), w).unwrap());
    s
}
fn main() {
    let v = [size(0), size(1), size(2), size(5)];
    assert_eq!(v, [v[0], v[0] + 1, v[0] + 2, v[0] + 5]);
}
"""
