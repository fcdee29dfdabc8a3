//! Letter types: every type the library implements letters for, and user-defined ones.
use huff_coding::prelude::*;
use std::hash::{Hash, Hasher};
use std::sync::OnceLock;

/// A letter type with an injective map from small numbers to letters
pub trait Lt: HuffLetter + Send + Sync + 'static {
    const NAME: &'static str;
    /// how many different letters `make` can make
    const CARD: u64;
    fn make(id: u64, salt: u64) -> Self;
}

/// Letters with a binary form; `be`/`from_be` are our own, independent of the implementation
pub trait LtB: Lt + HuffLetterAsBytes {
    const BYTES: usize;
    fn be(&self) -> Vec<u8>;
    fn from_be(b: &[u8]) -> Option<Self>;
}

macro_rules! int_lt {
    ($($t:ident $u:ident $n:expr),+) => {$(
        impl Lt for $t {
            const NAME: &'static str = stringify!($t);
            const CARD: u64 = if $n == 1 { 256 } else if $n == 2 { 65536 } else { 1 << 32 };
            fn make(id: u64, salt: u64) -> Self {
                // salt 0: the number itself; else spread over all bits (a bijection)
                let mut m: u128 = 1;
                let mut a: u128 = 0;
                if salt != 0 {
                    m = (salt as u128).wrapping_mul(0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835) | 1;
                    a = (salt as u128).wrapping_mul(0xD6E8_FEB8_6659_FD93_A5A5_1234_9E37_0001);
                }
                (id as u128).wrapping_mul(m).wrapping_add(a) as $u as $t
            }
        }
        impl LtB for $t {
            const BYTES: usize = $n;
            fn be(&self) -> Vec<u8> {
                let x = *self as $u as u128;
                (0..$n).rev().map(|i| (x >> (8 * i)) as u8).collect()
            }
            fn from_be(b: &[u8]) -> Option<Self> {
                if b.len() != $n { return None }
                let mut x: u128 = 0;
                for v in b { x = x << 8 | *v as u128; }
                Some(x as $u as $t)
            }
        }
    )+};
}
int_lt!(u8 u8 1, u16 u16 2, u32 u32 4, u64 u64 8, usize usize 8, u128 u128 16,
        i8 u8 1, i16 u16 2, i32 u32 4, i64 u64 8, isize usize 8, i128 u128 16);

impl Lt for char {
    const NAME: &'static str = "char";
    const CARD: u64 = 0x110000 - 0x800;
    fn make(id: u64, salt: u64) -> Self {
        let n = Self::CARD;
        let x = if salt == 0 { id % n } else { ((id % n) * 1_000_003 + salt % n) % n };
        let x = if x >= 0xD800 { x + 0x800 } else { x };
        char::from_u32(x as u32).unwrap()
    }
}

/// bijective base-3 numeration: "", "a", "b", "é", "aa", ...
fn word(mut id: u64) -> String {
    let mut v = Vec::new();
    while id > 0 {
        id -= 1;
        v.push(['a', 'b', 'é'][(id % 3) as usize]);
        id /= 3;
    }
    v.iter().rev().collect()
}

impl Lt for String {
    const NAME: &'static str = "String";
    const CARD: u64 = 1 << 32;
    fn make(id: u64, salt: u64) -> Self {
        match salt % 3 {
            0 => word(id),
            1 => format!("{id}"),
            _ => format!("a long common prefix, longer than any inline buffer {id:08}"),
        }
    }
}

impl Lt for &'static str {
    const NAME: &'static str = "&str";
    const CARD: u64 = 3000;
    fn make(id: u64, _salt: u64) -> Self {
        static T: OnceLock<Vec<&'static str>> = OnceLock::new();
        T.get_or_init(|| (0..3000).map(|i| &*Box::leak(word(i).into_boxed_str())).collect())[id as usize]
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Token {
    Eof,
    Num(i64),
    Ident { name: String, scope: u8 },
    List(Vec<u16>),
}
impl HuffLetter for Token {}
impl Lt for Token {
    const NAME: &'static str = "Token";
    const CARD: u64 = 1 << 32;
    fn make(id: u64, salt: u64) -> Self {
        match id {
            0 => Token::Eof,
            _ if id % 3 == 0 => Token::Num(id as i64 ^ (salt as i64)),
            _ if id % 3 == 1 => Token::Ident { name: word(id / 3 / 7), scope: (id / 3 % 7) as u8 },
            _ => Token::List(vec![(id >> 16) as u16, id as u16]),
        }
    }
}

/// All letters have the same hash and are printed the same
#[derive(Clone, PartialEq, Eq)]
pub struct Collide(pub u32);
impl std::fmt::Debug for Collide {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Collide")
    }
}
impl Hash for Collide {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(7);
    }
}
impl HuffLetter for Collide {}
impl Lt for Collide {
    const NAME: &'static str = "Collide";
    const CARD: u64 = 400;
    fn make(id: u64, salt: u64) -> Self {
        Collide((id as u32).wrapping_add(salt as u32))
    }
}
impl HuffLetterAsBytes for Collide {
    fn try_from_be_bytes(b: &[u8]) -> Result<Self, Box<dyn std::error::Error>> {
        Ok(Collide(u32::try_from_be_bytes(b)?))
    }
    fn as_be_bytes(&self) -> Box<[u8]> {
        self.0.as_be_bytes()
    }
}

/// three bytes
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Rgb(pub u8, pub u8, pub u8);
impl HuffLetter for Rgb {}
impl HuffLetterAsBytes for Rgb {
    fn try_from_be_bytes(b: &[u8]) -> Result<Self, Box<dyn std::error::Error>> {
        match b {
            [r, g, b] => Ok(Rgb(*r, *g, *b)),
            _ => Err("not three bytes".into()),
        }
    }
    fn as_be_bytes(&self) -> Box<[u8]> {
        Box::new([self.0, self.1, self.2])
    }
}
impl Lt for Rgb {
    const NAME: &'static str = "Rgb";
    const CARD: u64 = 1 << 24;
    fn make(id: u64, salt: u64) -> Self {
        let x = (id as u32).wrapping_mul(salt as u32 | 1);
        Rgb((x >> 16) as u8, (x >> 8) as u8, x as u8)
    }
}
impl LtB for Rgb {
    const BYTES: usize = 3;
    fn be(&self) -> Vec<u8> {
        vec![self.0, self.1, self.2]
    }
    fn from_be(b: &[u8]) -> Option<Self> {
        match b {
            [r, g, b] => Some(Rgb(*r, *g, *b)),
            _ => None,
        }
    }
}

/// twenty bytes
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Wide(pub [u8; 20]);
impl HuffLetter for Wide {}
impl HuffLetterAsBytes for Wide {
    fn try_from_be_bytes(b: &[u8]) -> Result<Self, Box<dyn std::error::Error>> {
        let a: [u8; 20] = b.try_into()?;
        Ok(Wide(a))
    }
    fn as_be_bytes(&self) -> Box<[u8]> {
        Box::new(self.0)
    }
}
impl Lt for Wide {
    const NAME: &'static str = "Wide";
    const CARD: u64 = 1 << 32;
    fn make(id: u64, salt: u64) -> Self {
        let mut a = [0u8; 20];
        a[..8].copy_from_slice(&salt.to_be_bytes());
        a[12..].copy_from_slice(&id.to_be_bytes());
        Wide(a)
    }
}
impl LtB for Wide {
    const BYTES: usize = 20;
    fn be(&self) -> Vec<u8> {
        self.0.to_vec()
    }
    fn from_be(b: &[u8]) -> Option<Self> {
        b.try_into().ok().map(Wide)
    }
}

/// one byte, of which only the values 48 to 57 are letters
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Digit(pub u8);
impl HuffLetter for Digit {}
impl HuffLetterAsBytes for Digit {
    fn try_from_be_bytes(b: &[u8]) -> Result<Self, Box<dyn std::error::Error>> {
        match b {
            [x @ 48..=57] => Ok(Digit(x - 48)),
            _ => Err("not a digit".into()),
        }
    }
    fn as_be_bytes(&self) -> Box<[u8]> {
        Box::new([self.0 + 48])
    }
}
impl Lt for Digit {
    const NAME: &'static str = "Digit";
    const CARD: u64 = 10;
    fn make(id: u64, salt: u64) -> Self {
        Digit(((id + salt % 10) % 10) as u8)
    }
}
impl LtB for Digit {
    const BYTES: usize = 1;
    fn be(&self) -> Vec<u8> {
        vec![self.0 + 48]
    }
    fn from_be(b: &[u8]) -> Option<Self> {
        match b {
            [x @ 48..=57] => Some(Digit(x - 48)),
            _ => None,
        }
    }
}

/// a letter without bytes
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Unit;
impl HuffLetter for Unit {}
impl HuffLetterAsBytes for Unit {
    fn try_from_be_bytes(b: &[u8]) -> Result<Self, Box<dyn std::error::Error>> {
        if b.is_empty() { Ok(Unit) } else { Err("too many bytes".into()) }
    }
    fn as_be_bytes(&self) -> Box<[u8]> {
        Box::new([])
    }
}
impl Lt for Unit {
    const NAME: &'static str = "Unit";
    const CARD: u64 = 1;
    fn make(_: u64, _: u64) -> Self {
        Unit
    }
}
impl LtB for Unit {
    const BYTES: usize = 0;
    fn be(&self) -> Vec<u8> {
        Vec::new()
    }
    fn from_be(b: &[u8]) -> Option<Self> {
        b.is_empty().then_some(Unit)
    }
}

/// a page
pub const PAGE: usize = 4096;
#[derive(Clone, PartialEq, Eq)]
pub struct Page(pub [u8; PAGE]);
impl Page {
    pub fn new(id: u64, salt: u8) -> Page {
        let mut a = [salt; PAGE];
        a[PAGE / 2..PAGE / 2 + 8].copy_from_slice(&id.to_be_bytes());
        a[PAGE - 1] = id as u8;
        Page(a)
    }
}
impl Hash for Page {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0[PAGE / 2..PAGE / 2 + 8].hash(h)
    }
}
impl std::fmt::Debug for Page {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Page({:?})", &self.0[PAGE / 2..PAGE / 2 + 8])
    }
}
impl HuffLetter for Page {}
impl HuffLetterAsBytes for Page {
    fn try_from_be_bytes(b: &[u8]) -> Result<Self, Box<dyn std::error::Error>> {
        Ok(Page(b.try_into()?))
    }
    fn as_be_bytes(&self) -> Box<[u8]> {
        Box::new(self.0)
    }
}

pub const INTS: u64 = 12;
pub const LTB: u64 = 15;
pub const LTS: u64 = 20;

/// call f::<T>(args) for the n-th integer letter type
#[macro_export]
macro_rules! for_int {
    ($n:expr, $f:ident($($a:expr),*)) => {
        match $n % 12 {
            0 => $f::<u8>($($a),*), 1 => $f::<u16>($($a),*), 2 => $f::<u32>($($a),*), 3 => $f::<u64>($($a),*),
            4 => $f::<usize>($($a),*), 5 => $f::<u128>($($a),*), 6 => $f::<i8>($($a),*), 7 => $f::<i16>($($a),*),
            8 => $f::<i32>($($a),*), 9 => $f::<i64>($($a),*), 10 => $f::<isize>($($a),*), _ => $f::<i128>($($a),*),
        }
    };
}
/// ... for the n-th letter type with a binary form
#[macro_export]
macro_rules! for_ltb {
    ($n:expr, $f:ident($($a:expr),*)) => {
        match $n % 15 {
            12 => $f::<$crate::letters::Rgb>($($a),*),
            13 => $f::<$crate::letters::Wide>($($a),*),
            14 => $f::<$crate::letters::Digit>($($a),*),
            x => $crate::for_int!(x, $f($($a),*)),
        }
    };
}
/// ... for the n-th letter type
#[macro_export]
macro_rules! for_lt {
    ($n:expr, $f:ident($($a:expr),*)) => {
        match $n % 20 {
            15 => $f::<char>($($a),*),
            16 => $f::<String>($($a),*),
            17 => $f::<&'static str>($($a),*),
            18 => $f::<$crate::letters::Token>($($a),*),
            19 => $f::<$crate::letters::Collide>($($a),*),
            x => $crate::for_ltb!(x, $f($($a),*)),
        }
    };
}
