//! Cheap stand-ins for derivation, hashing and the token program (for Miri).
use super::{Acct, Key};
pub fn sha256(v: &[&[u8]]) -> Key {
    // not cryptographic; distinct inputs of a run get distinct outputs
    let mut d = v.concat();
    d.push(1);
    d.resize(d.len().div_ceil(8) * 8, 0);
    let mut s = [0x9E3779B97F4A7C15u64, 0xC2B2AE3D27D4EB4F, 0x165667B19E3779F9, 0x27D4EB2F165667C5];
    for c in d.chunks_exact(8) {
        let w = u64::from_le_bytes(c.try_into().unwrap());
        s[0] = (s[0] ^ w).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
        s[1] = (s[1] ^ s[0]).wrapping_mul(0xFF51AFD7ED558CCD);
        s[2] = s[2].rotate_left(17).wrapping_add(s[1]);
        s[3] ^= s[2].wrapping_mul(0xC4CEB9FE1A85EC53);
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[i * 8..i * 8 + 8].copy_from_slice(&(s[i] ^ s[(i + 1) % 4].rotate_left(31)).to_le_bytes());
    }
    out
}
pub fn create_pda(seeds: &[&[u8]], p: &Key) -> Option<Key> {
    let mut v = seeds.to_vec();
    v.push(p);
    v.push(b"ProgramDerivedAddress");
    Some(sha256(&v))
}
pub fn find(seeds: &[&[u8]], p: &Key) -> (Key, u8) {
    let mut v = seeds.to_vec();
    v.push(&[255]);
    (create_pda(&v, p).unwrap(), 255)
}
pub fn token_data(mint: &Key, owner: &Key, amount: u64) -> Vec<u8> {
    let mut d = vec![0; 165];
    d[..32].copy_from_slice(mint);
    d[32..64].copy_from_slice(owner);
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1;
    d
}
pub fn mint_data(authority: &Key, supply: u64) -> Vec<u8> {
    let mut d = vec![0; 82];
    d[0] = 1;
    d[4..36].copy_from_slice(authority);
    d[36..44].copy_from_slice(&supply.to_le_bytes());
    d[44] = 6;
    d[45] = 1;
    d
}
fn get(a: &Acct, o: usize) -> u64 {
    u64::from_le_bytes(a.data[o..o + 8].try_into().unwrap())
}
fn set(a: &mut Acct, o: usize, v: u64) {
    a.data[o..o + 8].copy_from_slice(&v.to_le_bytes());
}
/// Transfer, MintTo, Burn (plain and checked) between well-formed accounts.
pub fn token_process(store: &mut [(Key, Acct, bool, bool)], idx: &[usize], data: &[u8]) -> Result<(), String> {
    let (Some(kind), Some(n)) = (data.first(), data.get(1..9)) else { return Err("short data".into()) };
    let n = u64::from_le_bytes(n.try_into().unwrap());
    let at = |i: usize| idx.get(i).copied().ok_or("missing account".to_string());
    let token = super::token();
    let tok = |x: &Acct| x.owner == token && x.data.len() == 165 && x.data[108] == 1;
    let mint = |x: &Acct| x.owner == token && x.data.len() == 82 && x.data[45] == 1;
    let sub = |a: &mut Acct, o: usize| get(a, o).checked_sub(n).map(|v| set(a, o, v)).ok_or("insufficient funds".to_string());
    let add = |a: &mut Acct, o: usize| get(a, o).checked_add(n).map(|v| set(a, o, v)).ok_or("overflow".to_string());
    let signs = |k: &[u8], i: usize, s: &[(Key, Acct, bool, bool)]| s[i].2 && s[i].0 == *k;
    match kind {
        3 | 12 => {
            let (f, t, a) = if *kind == 3 { (at(0)?, at(1)?, at(2)?) } else { (at(0)?, at(2)?, at(3)?) };
            if !tok(&store[f].1) || !tok(&store[t].1) || store[f].1.data[..32] != store[t].1.data[..32] || !signs(&store[f].1.data[32..64], a, store) {
                return Err("transfer refused".into());
            }
            sub(&mut store[f].1, 64)?;
            add(&mut store[t].1, 64)
        }
        7 | 14 => {
            let (m, t, a) = (at(0)?, at(1)?, at(2)?);
            if !mint(&store[m].1) || !tok(&store[t].1) || store[t].1.data[..32] != store[m].0 || store[m].1.data[0] != 1 || !signs(&store[m].1.data[4..36], a, store) {
                return Err("mint refused".into());
            }
            add(&mut store[m].1, 36)?;
            add(&mut store[t].1, 64)
        }
        8 | 15 => {
            let (t, m, a) = (at(0)?, at(1)?, at(2)?);
            if !mint(&store[m].1) || !tok(&store[t].1) || store[t].1.data[..32] != store[m].0 || !signs(&store[t].1.data[32..64], a, store) {
                return Err("burn refused".into());
            }
            sub(&mut store[m].1, 36)?;
            sub(&mut store[t].1, 64)
        }
        _ => Err("unsupported token instruction".into()),
    }
}
