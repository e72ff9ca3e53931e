#![allow(unused_imports, dead_code)]
use byteorder::{WriteBytesExt, LE};
use std::io::Cursor;
use unreal_asset_base::containers::{Chain, NameMap, SharedResource};
use unreal_asset_base::object_version::{ObjectVersion, ObjectVersionUE5};
use unreal_asset_base::reader::{RawReader, RawWriter, ArchiveReader, ArchiveWriter, ArchiveTrait};
use unreal_asset_base::types::{FName, PackageIndex};
use unreal_asset_base::unversioned::ancestry::Ancestry;

type R = RawReader<PackageIndex, Cursor<Vec<u8>>>;
type W<'a> = RawWriter<'a, PackageIndex, Cursor<Vec<u8>>>;

fn names() -> SharedResource<NameMap> { NameMap::new() }
fn reader(b: &[u8], v: ObjectVersion, n: &SharedResource<NameMap>) -> R {
    RawReader::new(Chain::new(Cursor::new(b.to_vec()), None), v, ObjectVersionUE5::UNKNOWN, false, n.clone())
}
fn written(v: ObjectVersion, n: &SharedResource<NameMap>, f: impl FnOnce(&mut W)) -> Vec<u8> {
    let mut c = Cursor::new(Vec::new());
    { let mut w = RawWriter::new(&mut c, v, ObjectVersionUE5::UNKNOWN, false, n.clone()); f(&mut w); }
    c.into_inner()
}
fn same(a: &[u8], b: &[u8]) {
    if a != b { eprintln!("expected {:02x?}\nfound    {:02x?}", a, b); std::process::exit(1); }
}
