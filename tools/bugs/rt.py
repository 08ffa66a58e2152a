D = "crates/mabo/src/buf/decode.rs"
EN = "crates/mabo/src/buf/encode.rs"
V = "crates/mabo/src/varint.rs"
L = "crates/mabo/src/lib.rs"
BUGS = [
 dict(id="varint-size-multiple-of-seven", property="M05", needs="a value whose significant bits are a non-zero multiple of 7 (64..127, 8192..16383, ...)",
  breaks="the announced varint size is one byte more than what is written for such values",
  edits=[(V, "(std::mem::size_of::<T>() * 8 - leading_zeros).div_ceil(7),", "(std::mem::size_of::<T>() * 8 - leading_zeros) / 7 + 1,")],
  files={"main.rs": """fn main() {
    for v in [0u64, 1, 63, 64, 127, 128, 16383, 16384, 1 << 34, (1 << 35) - 1, u64::MAX] {
        assert_eq!(mabo::varint::encode_u64(v).1, mabo::varint::size_u64(v), "{v}");
    }
    for v in [0i32, -1, 63, -64, 64, 8191, -8192, i32::MIN] {
        assert_eq!(mabo::varint::encode_i32(v).1, mabo::varint::size_i32(v), "{v}");
    }
}
"""}),
 dict(id="varint-decode-shift-wrap", property="M05", needs="a final varint byte that carries bits beyond the width of the integer (written by a wider type or another implementation)",
  breaks="bits beyond the width, which are dropped, wrap around into the low bits of the decoded value",
  edits=[(V, "value |= $ty::from(b & 0x7f) << (7 * i);", "value |= $ty::from(b & 0x7f).rotate_left(7 * i as u32);")],
  files={"main.rs": """fn main() {
    for v in [0u16, 1, 0x7fff, u16::MAX] { assert_eq!(mabo::varint::decode_u16(&mabo::varint::encode_u16(v).0).unwrap().0, v); }
    // the spare bits of the last byte must not reach the value
    assert_eq!(mabo::varint::decode_u16(&[0x80, 0x80, 0x04]).map(|(v, _)| v).unwrap_or(0), 0);
    let _ = mabo::varint::decode_u32(&[0xff, 0xff, 0xff, 0xff, 0x0f]).unwrap();
}
"""}),
 dict(id="skip-varint-width", property="M06", needs="an unknown field holding a 128-bit integer above 2^70",
  breaks="skipping an unknown varint field fails for values longer than ten bytes, so newer data is rejected by older readers",
  edits=[(D, """        FieldEncoding::Varint => loop {
            ensure_size!(r, 1);
            if r.get_u8() & 0x80 == 0 {
                return Ok(());
            }
        },""", """        FieldEncoding::Varint => decode_u64(r).map(|_| ()),""")],
  files={"main.rs": """fn main() {
    for v in [0u128, 127, 128, u64::MAX as u128, u128::MAX] {
        let mut b = Vec::new();
        mabo::buf::encode_u128(&mut b, v);
        b.push(9);
        let mut r = &b[..];
        mabo::buf::decode_skip(&mut r, mabo::FieldEncoding::Varint).unwrap();
        assert_eq!(r, [9]);
    }
}
"""}),
 dict(id="field-id-mask", property="M06", needs="an identifier word with one of the undefined markers 5..7 (corrupt or future data)",
  breaks="undefined skip markers are taken for known ones instead of being rejected, so the reader loses its position",
  edits=[(L, "match value & 0b111 {", "match value & 0b111 & !((value & 0b100) >> 1) & !((value & 0b100) >> 2) {")],
  files={"main.rs": """fn main() {
    for w in 0u32..4096 {
        assert_eq!(mabo::FieldId::from_u32(w).is_some(), w & 7 < 5, "{w}");
    }
}
"""}),
 dict(id="bytes-length-truncated", property="M03", needs="a byte-string length prefix of 2^32 or more",
  breaks="a hostile length prefix passes the bounds check after truncation and the copy panics",
  edits=[(D, """pub fn decode_bytes_bytes(r: &mut impl Buf) -> Result<Bytes> {
    let len = decode_u64(r)?;
    ensure_size!(r, len as usize);
""", """pub fn decode_bytes_bytes(r: &mut impl Buf) -> Result<Bytes> {
    let len = decode_u64(r)?;
    ensure_size!(r, len as u32 as usize);
""")],
  files={"main.rs": """fn main() {
    for len in [0u64, 1, 3, 200, 1 << 32, (1 << 32) + 2, u64::MAX] {
        let mut b = Vec::new();
        mabo::buf::encode_u64(&mut b, len);
        b.extend([1, 2, 3]);
        let r = mabo::buf::decode_bytes_bytes(&mut &b[..]);
        assert_eq!(r.is_ok(), len <= 3, "{len}");
    }
}
"""}),
 dict(id="vec-prealloc", property="M04", needs="a list whose length prefix is far larger than the data that follows",
  breaks="memory is reserved for the announced number of elements before the length is compared with the remaining input: a ten-byte message aborts the process",
  edits=[(D, """    let len = decode_u64(r)?;
    ensure_size!(r, len as usize);

    let mut vec = Vec::new();
    let mut r = r.take(len as usize);

    while r.has_remaining() {
        vec.push(decode(&mut r)?);
    }

    Ok(vec)""", """    let len = decode_u64(r)?;

    let mut vec = Vec::with_capacity(len as usize);
    ensure_size!(r, len as usize);
    let mut r = r.take(len as usize);

    while r.has_remaining() {
        vec.push(decode(&mut r)?);
    }

    Ok(vec)""")],
  files={"main.rs": """fn main() {
    for len in [0u64, 3, 1 << 45, u64::MAX] {
        let mut b = Vec::new();
        mabo::buf::encode_u64(&mut b, len);
        b.extend([1, 2, 3]);
        let r = mabo::buf::decode_vec(&mut &b[..], |r| mabo::buf::decode_u16(r));
        assert_eq!(r.is_ok(), len <= 3, "{len}");
    }
}
"""}),
 dict(id="non-zero-default", property="M08", needs="a program that uses the derived default of a non-zero container",
  breaks="an empty non-zero string, list or map can be created without any check",
  edits=[(L, """#[derive(Clone, Debug, PartialEq)]
pub struct NonZero<T>(T);""", """#[derive(Clone, Debug, Default, PartialEq)]
pub struct NonZero<T>(T);""")],
  files={"main.rs": """struct Probe<T>(std::marker::PhantomData<T>);
trait Fallback<T> { fn make() -> Option<T> { None } }
impl<T> Fallback<T> for Probe<T> {}
impl<T: Default> Probe<T> { #[allow(dead_code)] fn make() -> Option<T> { Some(T::default()) } }
fn main() {
    assert!(mabo::NonZeroString::new("x".to_owned()).is_some());
    let v: Option<mabo::NonZeroString> = Probe::<mabo::NonZeroString>::make();
    assert!(v.is_none_or(|v| !v.get().is_empty()), "an empty non-zero string exists");
}
"""}),
 dict(id="set-last-byte", property="M02", needs="a set of two or more elements whose last written element takes a single byte",
  breaks="the set decoder stops one byte early and drops a final one-byte element",
  edits=[(D, """    let mut set = HashSet::new();
    let mut r = r.take(len as usize);

    while r.has_remaining() {
        set.insert(decode(&mut r)?);
    }

    Ok(set)""", """    let mut set = HashSet::new();
    let mut r = r.take(len as usize);

    while r.remaining() > usize::from(!set.is_empty()) {
        set.insert(decode(&mut r)?);
    }

    Ok(set)""")],
  files={"main.rs": """use std::collections::HashSet;
fn main() {
    for s in [vec![], vec![5u32], vec![300, 400], vec![1, 2, 3]] {
        let s: HashSet<u32> = s.into_iter().collect();
        let mut b = Vec::new();
        mabo::buf::encode_hash_set(&mut b, &s, |v| mabo::buf::size_u32(*v), |w, v| mabo::buf::encode_u32(w, *v));
        let d: HashSet<u32> = mabo::buf::decode_hash_set(&mut &b[..], |r| mabo::buf::decode_u32(r)).unwrap();
        assert_eq!(s, d);
    }
}
"""}),
 dict(id="option-size-empty", property="M01", needs="the size of an optional value that is absent",
  breaks="an absent option is announced as zero bytes while one byte is written, so every length prefix around it is short",
  edits=[("crates/mabo/src/buf/size.rs", "size_u8(0) + option.map_or(0, size)", "option.map_or(0, |value| size_u8(1) + size(value))")],
  files={"main.rs": """fn main() {
    for o in [None, Some(1u32), Some(70000)] {
        let mut b = Vec::new();
        mabo::buf::encode_option(&mut b, &o, |w, v| mabo::buf::encode_u32(w, *v));
        assert_eq!(b.len(), mabo::buf::size_option(o.as_ref(), |v| mabo::buf::size_u32(*v)), "{o:?}");
    }
}
"""}),
]
