ID = "L01-sampler-alias-count"
PROP = "L01"
EDITS = [("unreal_asset/unreal_asset_properties/src/sampler_property.rs", """        Ok(size_of::<i32>()
            + size_of::<f32>() * self.prob.len()
            + size_of::<i32>()
            + size_of::<i32>() * self.alias.len()
            + size_of::<f32>())
    }
}

impl SkeletalMeshAreaWeightedTriangleSampler {""", """        Ok(size_of::<i32>() * 2
            + (size_of::<f32>() + size_of::<i32>()) * self.prob.len()
            + size_of::<f32>())
    }
}

impl SkeletalMeshAreaWeightedTriangleSampler {""")]
NEEDS = "a weighted random sampler whose probability and alias tables differ in length"
BREAKS = "the tag length counts the probability table twice instead of the alias table"
MAIN = """
use unreal_asset_properties::{Property, sampler_property::WeightedRandomSamplerProperty};
use byteorder::ByteOrder;
fn main() {
    let v = ObjectVersion::VER_UE4_CORRECT_LICENSEE_FLAG;
    for (p, a) in [(0usize, 0usize), (2, 2), (3, 1)] {
        let n = names();
        let name = n.clone().get_mut().add_fname("s");
        let mut s = WeightedRandomSamplerProperty { name, ..Default::default() };
        s.prob = vec![Default::default(); p];
        s.alias = vec![7; a];
        let prop = Property::WeightedRandomSamplerProperty(s);
        let b = written(v, &n, |w| { Property::write(&prop, w, true).unwrap(); });
        // name, type, length, duplication index, guid flag
        let len = LE::read_i32(&b[16..20]) as usize;
        let data = b.len() - 25;
        if len != data { eprintln!("tag says {len}, data takes {data}"); std::process::exit(1); }
    }
}
"""
