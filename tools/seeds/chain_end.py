ID = "V01-read-over-both"
PROP = "V01"
EDITS = [("unreal_asset/unreal_asset_base/src/containers/chain.rs", "match excess > self.second_len {", "match excess > self.first_len + self.second_len {")]
NEEDS = "a read that starts in the first part and asks for a little more than both parts hold"
BREAKS = "the read fails with an unexpected end although bytes are there to be delivered"
MAIN = """
use std::io::{Read, Seek, SeekFrom};
fn main() {
    for (n, m) in [(5u8, 3u8), (3, 5), (2, 9)] {
        let a: Vec<u8> = (0..n).collect();
        let b: Vec<u8> = (n..n + m).collect();
        let mut c = Chain::new(Cursor::new(a), Some(Cursor::new(b)));
        for at in 0..(n + m) as u64 {
            for ask in 1..30usize {
                c.seek(SeekFrom::Start(at)).unwrap();
                let mut x = vec![0u8; ask];
                let mut got = 0;
                while got < ask {
                    let k = c.read(&mut x[got..]).unwrap();
                    if k == 0 { break; }
                    got += k;
                }
                assert_eq!(got, ask.min((n + m) as usize - at as usize));
                assert!(x[..got].iter().enumerate().all(|(i, v)| *v as u64 == at + i as u64));
            }
        }
    }
}
"""
