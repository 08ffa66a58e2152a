D = "crates/mabo/src/buf/decode.rs"
S = "crates/mabo/src/buf/size.rs"
BUGS = [
 dict(id="bytes-size-short-prefix", property="M01", needs="a string or byte vector of 65536 bytes or more",
  breaks="the size of long byte strings counts a too short length prefix, so enclosing collections announce too few bytes",
  edits=[(S, """pub const fn size_bytes_std(value: &[u8]) -> usize {
    size_u64(value.len() as u64) + value.len()""", """pub const fn size_bytes_std(value: &[u8]) -> usize {
    size_u16(value.len() as u16) + value.len()""")],
  files={"main.rs": """fn main() {
    for n in [0usize, 1, 127, 128, 16384, 65535, 65536, 70000, 1 << 21] {
        let s = "x".repeat(n);
        let mut b = Vec::new();
        mabo::buf::encode_string(&mut b, &s);
        assert_eq!(b.len(), mabo::buf::size_string(&s), "{n}");
    }
}
"""}),
 dict(id="hash-set-window-unchecked", property="M09", needs="a set whose length prefix announces more bytes than follow, with the cut between two elements",
  breaks="a truncated set is accepted with the elements that happen to be there instead of being rejected",
  edits=[(D, """    let len = decode_u64(r)?;
    ensure_size!(r, len as usize);

    let mut set = HashSet::new();
    let mut r = r.take(len as usize);

    while r.has_remaining() {
        set.insert(decode(&mut r)?);
    }

    Ok(set)""", """    let len = decode_u64(r)?;

    let mut set = HashSet::new();
    let mut r = r.take(len as usize);

    while r.has_remaining() {
        set.insert(decode(&mut r)?);
    }

    Ok(set)""")],
  files={"main.rs": """use std::collections::HashSet;
fn main() {
    let v: HashSet<u32> = [1, 2, 3, 4].into();
    let mut b = Vec::new();
    mabo::buf::encode_hash_set(&mut b, &v, |v| mabo::buf::size_u32(*v), |w, v| mabo::buf::encode_u32(w, *v));
    assert_eq!(mabo::buf::decode_hash_set(&mut &b[..], |r| mabo::buf::decode_u32(r)).unwrap(), v);
    for n in 0..b.len() {
        assert!(mabo::buf::decode_hash_set(&mut &b[..n], |r| mabo::buf::decode_u32(r)).is_err(), "{n}");
    }
}
"""}),
 dict(id="array-surplus-left", property="M09", needs="an array written by a newer schema with more elements than the reader knows, followed by other data",
  breaks="the surplus elements stay in the buffer, and everything that follows is read at the wrong position",
  edits=[(D, """    r.advance(r.remaining());

    vec.try_into().map_err""", """    vec.try_into().map_err""")],
  files={"main.rs": """fn main() {
    let mut b = Vec::new();
    mabo::buf::encode_array(&mut b, &[1u32, 2, 3, 4], |v| mabo::buf::size_u32(*v), |w, v| mabo::buf::encode_u32(w, *v));
    mabo::buf::encode_u32(&mut b, 77);
    let mut r = &b[..];
    let a: [u32; 2] = mabo::buf::decode_array(&mut r, |r| mabo::buf::decode_u32(r)).unwrap();
    assert_eq!(a, [1, 2]);
    assert_eq!(mabo::buf::decode_u32(&mut r).unwrap(), 77);
}
"""}),
]
