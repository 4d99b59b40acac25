//! Rust types as data: a universe of (de)serializable types that can be
//! enumerated.  `Ser` and `Seed` make exactly the serde calls that serde's
//! derive macros and std impls make for the corresponding real type (p_serde
//! compares them with derived types to keep this true).

use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use serde::Deserialize;
use std::cell::Cell;
use std::fmt;

#[derive(Clone, Debug)]
pub enum Sh {
    Bool,
    I8,
    I16,
    I32,
    I64,
    I128,
    U8,
    U16,
    U32,
    U64,
    U128,
    F32,
    F64,
    Char,
    Str,
    /// like serde_bytes::ByteBuf
    Bytes,
    Unit,
    UnitStruct,
    Opt(&'static Sh),
    Seq(&'static Sh),
    Tup(&'static [Sh]),
    TupStruct(&'static [Sh]),
    New(&'static Sh),
    Map(&'static Sh, &'static Sh),
    Struct(&'static Fields),
    Enum(&'static Variants),
    /// whatever is there (deserialize_any)
    Any,
}

#[derive(Debug)]
pub struct Fields {
    pub names: &'static [&'static str],
    pub shapes: Vec<Sh>,
}

#[derive(Debug)]
pub struct Variants {
    pub names: &'static [&'static str],
    pub kinds: Vec<Kind>,
}

#[derive(Debug, Clone)]
pub enum Kind {
    Unit,
    New(&'static Sh),
    Tup(&'static [Sh]),
    Struct(&'static Fields),
}

#[derive(Clone, Debug)]
pub enum Val {
    Bool(bool),
    Int(i128),
    Big(u128),
    Float(f64),
    Char(char),
    Str(String),
    Unit,
    None,
    Some(Box<Val>),
    /// sequences, tuples, struct fields in order
    List(Vec<Val>),
    Map(Vec<(Val, Val)>),
    Variant(usize, Vec<Val>),
}

impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        use Val::*;
        match (self, o) {
            (Bool(a), Bool(b)) => a == b,
            (Int(a), Int(b)) => a == b,
            (Big(a), Big(b)) => a == b,
            (Float(a), Float(b)) => (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits(),
            (Char(a), Char(b)) => a == b,
            (Str(a), Str(b)) => a == b,
            (Unit, Unit) | (None, None) => true,
            (Some(a), Some(b)) => a == b,
            (List(a), List(b)) => a == b,
            (Map(a), Map(b)) => a == b,
            (Variant(i, a), Variant(j, b)) => i == j && a == b,
            _ => false,
        }
    }
}

pub fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}

pub fn leaks(v: Vec<Sh>) -> &'static [Sh] {
    Box::leak(v.into_boxed_slice())
}

pub fn names(n: &[&'static str]) -> &'static [&'static str] {
    Box::leak(n.to_vec().into_boxed_slice())
}

pub fn st(f: &[(&'static str, Sh)]) -> Sh {
    Sh::Struct(leak(Fields { names: names(&f.iter().map(|f| f.0).collect::<Vec<_>>()), shapes: f.iter().map(|f| f.1.clone()).collect() }))
}

pub fn fields(f: &[(&'static str, Sh)]) -> &'static Fields {
    let Sh::Struct(x) = st(f) else { unreachable!() };
    x
}

pub fn en(v: &[(&'static str, Kind)]) -> Sh {
    Sh::Enum(leak(Variants { names: names(&v.iter().map(|f| f.0).collect::<Vec<_>>()), kinds: v.iter().map(|f| f.1.clone()).collect() }))
}

pub fn opt(s: Sh) -> Sh {
    Sh::Opt(leak(s))
}
pub fn seq(s: Sh) -> Sh {
    Sh::Seq(leak(s))
}
pub fn new(s: Sh) -> Sh {
    Sh::New(leak(s))
}
pub fn map(k: Sh, s: Sh) -> Sh {
    Sh::Map(leak(k), leak(s))
}
pub fn tup(s: Vec<Sh>) -> Sh {
    Sh::Tup(leaks(s))
}

impl fmt::Display for Sh {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fn list(f: &mut fmt::Formatter<'_>, l: &[Sh]) -> fmt::Result {
            write!(f, "(")?;
            for (i, s) in l.iter().enumerate() {
                write!(f, "{}{s}", if i > 0 { "," } else { "" })?;
            }
            write!(f, ")")
        }
        fn flds(f: &mut fmt::Formatter<'_>, l: &Fields) -> fmt::Result {
            write!(f, "{{")?;
            for (i, s) in l.shapes.iter().enumerate() {
                write!(f, "{}{}:{s}", if i > 0 { "," } else { "" }, l.names[i])?;
            }
            write!(f, "}}")
        }
        match self {
            Sh::Opt(s) => write!(f, "Option<{s}>"),
            Sh::Seq(s) => write!(f, "Vec<{s}>"),
            Sh::New(s) => write!(f, "N({s})"),
            Sh::Map(k, s) => write!(f, "Map<{k},{s}>"),
            Sh::Tup(l) => list(f, l),
            Sh::TupStruct(l) => {
                write!(f, "T")?;
                list(f, l)
            }
            Sh::Struct(l) => flds(f, l),
            Sh::Enum(e) => {
                write!(f, "enum[")?;
                for (i, k) in e.kinds.iter().enumerate() {
                    write!(f, "{}{}", if i > 0 { "|" } else { "" }, e.names[i])?;
                    match k {
                        Kind::Unit => {}
                        Kind::New(s) => write!(f, "({s})")?,
                        Kind::Tup(l) => list(f, l)?,
                        Kind::Struct(l) => flds(f, l)?,
                    }
                }
                write!(f, "]")
            }
            o => write!(f, "{}", format!("{o:?}").to_lowercase()),
        }
    }
}

impl fmt::Display for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fn list(f: &mut fmt::Formatter<'_>, l: &[Val]) -> fmt::Result {
            for (i, s) in l.iter().enumerate() {
                write!(f, "{}{s}", if i > 0 { "," } else { "" })?;
            }
            Ok(())
        }
        match self {
            Val::Bool(b) => write!(f, "{b}"),
            Val::Int(i) => write!(f, "{i}"),
            Val::Big(i) => write!(f, "{i}"),
            Val::Float(x) => write!(f, "{x:?}"),
            Val::Char(c) => write!(f, "{c:?}"),
            Val::Str(s) => write!(f, "{s:?}"),
            Val::Unit => write!(f, "()"),
            Val::None => write!(f, "None"),
            Val::Some(v) => write!(f, "Some({v})"),
            Val::List(l) => {
                write!(f, "[")?;
                list(f, l)?;
                write!(f, "]")
            }
            Val::Map(m) => {
                write!(f, "{{")?;
                for (i, (k, v)) in m.iter().enumerate() {
                    write!(f, "{}{k}:{v}", if i > 0 { "," } else { "" })?;
                }
                write!(f, "}}")
            }
            Val::Variant(i, l) => {
                write!(f, "#{i}(")?;
                list(f, l)?;
                write!(f, ")")
            }
        }
    }
}

// ------------------------------------------------------------ serialize

pub struct Ser<'a>(pub &'a Sh, pub &'a Val);

impl Serialize for Ser<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let l = |v: &'_ Val| -> Vec<Val> {
            match v {
                Val::List(l) => l.clone(),
                _ => unreachable!(),
            }
        };
        match (self.0, self.1) {
            (Sh::Bool, Val::Bool(b)) => b.serialize(s),
            (Sh::I8, Val::Int(i)) => (*i as i8).serialize(s),
            (Sh::I16, Val::Int(i)) => (*i as i16).serialize(s),
            (Sh::I32, Val::Int(i)) => (*i as i32).serialize(s),
            (Sh::I64, Val::Int(i)) => (*i as i64).serialize(s),
            (Sh::I128, Val::Int(i)) => i.serialize(s),
            (Sh::U8, Val::Int(i)) => (*i as u8).serialize(s),
            (Sh::U16, Val::Int(i)) => (*i as u16).serialize(s),
            (Sh::U32, Val::Int(i)) => (*i as u32).serialize(s),
            (Sh::U64, Val::Int(i)) => (*i as u64).serialize(s),
            (Sh::U128, Val::Big(i)) => i.serialize(s),
            (Sh::F32, Val::Float(f)) => (*f as f32).serialize(s),
            (Sh::F64, Val::Float(f)) => f.serialize(s),
            (Sh::Char, Val::Char(c)) => c.serialize(s),
            (Sh::Str, Val::Str(x)) => x.serialize(s),
            (Sh::Bytes, v) => s.serialize_bytes(&l(v).iter().map(|b| if let Val::Int(i) = b { *i as u8 } else { unreachable!() }).collect::<Vec<_>>()),
            (Sh::Unit, Val::Unit) => ().serialize(s),
            (Sh::UnitStruct, Val::Unit) => s.serialize_unit_struct("U"),
            (Sh::Opt(_), Val::None) => s.serialize_none(),
            (Sh::Opt(t), Val::Some(v)) => s.serialize_some(&Ser(t, v)),
            (Sh::Seq(t), Val::List(l)) => {
                let mut q = s.serialize_seq(Some(l.len()))?;
                for v in l {
                    q.serialize_element(&Ser(t, v))?;
                }
                q.end()
            }
            (Sh::Tup(t), v) => {
                let mut q = s.serialize_tuple(t.len())?;
                for (t, v) in t.iter().zip(&l(v)) {
                    q.serialize_element(&Ser(t, v))?;
                }
                q.end()
            }
            (Sh::TupStruct(t), v) => {
                let mut q = s.serialize_tuple_struct("T", t.len())?;
                for (t, v) in t.iter().zip(&l(v)) {
                    q.serialize_field(&Ser(t, v))?;
                }
                q.end()
            }
            (Sh::New(t), v) => s.serialize_newtype_struct("N", &Ser(t, v)),
            (Sh::Map(k, t), Val::Map(m)) => {
                let mut q = s.serialize_map(Some(m.len()))?;
                for (a, b) in m {
                    q.serialize_entry(&Ser(k, a), &Ser(t, b))?;
                }
                q.end()
            }
            (Sh::Struct(f), v) => {
                let mut q = s.serialize_struct("S", f.names.len())?;
                for (i, v) in l(v).iter().enumerate() {
                    q.serialize_field(f.names[i], &Ser(&f.shapes[i], v))?;
                }
                q.end()
            }
            (Sh::Enum(e), Val::Variant(i, p)) => {
                let (n, ix) = (e.names[*i], *i as u32);
                match &e.kinds[*i] {
                    Kind::Unit => s.serialize_unit_variant("E", ix, n),
                    Kind::New(t) => s.serialize_newtype_variant("E", ix, n, &Ser(t, &p[0])),
                    Kind::Tup(t) => {
                        let mut q = s.serialize_tuple_variant("E", ix, n, t.len())?;
                        for (t, v) in t.iter().zip(p) {
                            q.serialize_field(&Ser(t, v))?;
                        }
                        q.end()
                    }
                    Kind::Struct(f) => {
                        let mut q = s.serialize_struct_variant("E", ix, n, f.names.len())?;
                        for (i, v) in p.iter().enumerate() {
                            q.serialize_field(f.names[i], &Ser(&f.shapes[i], v))?;
                        }
                        q.end()
                    }
                }
            }
            (a, b) => Err(ser::Error::custom(format!("harness: {a} {b}"))),
        }
    }
}

// ---------------------------------------------------------- deserialize

thread_local! {
    static SHAPE: Cell<Option<&'static Sh>> = const { Cell::new(None) };
}

/// A value of the shape set with `with_shape`.
pub struct Dyn(pub Val);

pub fn with_shape<T>(s: &Sh, f: impl FnOnce() -> T) -> T {
    // the shape outlives the call
    let s: &'static Sh = unsafe { std::mem::transmute(s) };
    SHAPE.with(|c| c.set(Some(s)));
    let r = f();
    SHAPE.with(|c| c.set(None));
    r
}

impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Seed(SHAPE.with(|c| c.get()).unwrap()).deserialize(d).map(Dyn)
    }
}

#[derive(Clone, Copy)]
pub struct Seed<'a>(pub &'a Sh);

impl<'de> DeserializeSeed<'de> for Seed<'_> {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Sh::Bool => bool::deserialize(d).map(Val::Bool),
            Sh::I8 => i8::deserialize(d).map(|i| Val::Int(i as i128)),
            Sh::I16 => i16::deserialize(d).map(|i| Val::Int(i as i128)),
            Sh::I32 => i32::deserialize(d).map(|i| Val::Int(i as i128)),
            Sh::I64 => i64::deserialize(d).map(|i| Val::Int(i as i128)),
            Sh::I128 => i128::deserialize(d).map(Val::Int),
            Sh::U8 => u8::deserialize(d).map(|i| Val::Int(i as i128)),
            Sh::U16 => u16::deserialize(d).map(|i| Val::Int(i as i128)),
            Sh::U32 => u32::deserialize(d).map(|i| Val::Int(i as i128)),
            Sh::U64 => u64::deserialize(d).map(|i| Val::Int(i as i128)),
            Sh::U128 => u128::deserialize(d).map(Val::Big),
            Sh::F32 => f32::deserialize(d).map(|i| Val::Float(i as f64)),
            Sh::F64 => f64::deserialize(d).map(Val::Float),
            Sh::Char => char::deserialize(d).map(Val::Char),
            Sh::Str => String::deserialize(d).map(Val::Str),
            Sh::Bytes => d.deserialize_byte_buf(BytesV),
            Sh::Unit => <()>::deserialize(d).map(|_| Val::Unit),
            Sh::UnitStruct => d.deserialize_unit_struct("U", UnitV),
            Sh::Opt(t) => d.deserialize_option(OptV(t)),
            Sh::Seq(t) => d.deserialize_seq(SeqV(t)),
            Sh::Tup(t) => d.deserialize_tuple(t.len(), TupV(t)),
            Sh::TupStruct(t) => d.deserialize_tuple_struct("T", t.len(), TupV(t)),
            Sh::New(t) => d.deserialize_newtype_struct("N", NewV(t)),
            Sh::Map(k, t) => d.deserialize_map(MapV(k, t)),
            Sh::Struct(f) => d.deserialize_struct("S", f.names, StructV(f)),
            Sh::Enum(e) => d.deserialize_enum("E", e.names, EnumV(e)),
            Sh::Any => d.deserialize_any(AnyV),
        }
    }
}

struct AnyV;
impl<'de> Visitor<'de> for AnyV {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<Val, E> {
        Ok(Val::Bool(v))
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<Val, E> {
        Ok(Val::Int(v as i128))
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Val, E> {
        Ok(Val::Int(v as i128))
    }
    fn visit_i128<E: de::Error>(self, v: i128) -> Result<Val, E> {
        Ok(Val::Int(v))
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<Val, E> {
        Ok(Val::Float(v))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Val, E> {
        Ok(Val::Str(v.into()))
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::Unit)
    }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        d.deserialize_any(AnyV)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        SeqV(&Sh::Any).visit_seq(a)
    }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        MapV(&Sh::Str, &Sh::Any).visit_map(a)
    }
}

struct BytesV;
impl<'de> Visitor<'de> for BytesV {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("byte array")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        SeqV(&Sh::U8).visit_seq(a)
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Val, E> {
        Ok(Val::List(v.iter().map(|b| Val::Int(*b as i128)).collect()))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Val, E> {
        self.visit_bytes(v.as_bytes())
    }
}

struct UnitV;
impl<'de> Visitor<'de> for UnitV {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("unit struct U")
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::Unit)
    }
}

struct OptV<'a>(&'a Sh);
impl<'de> Visitor<'de> for OptV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("option")
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Seed(self.0).deserialize(d).map(|v| Val::Some(Box::new(v)))
    }
}

struct SeqV<'a>(&'a Sh);
impl<'de> Visitor<'de> for SeqV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a sequence")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element_seed(Seed(self.0))? {
            v.push(x);
        }
        Ok(Val::List(v))
    }
}

fn in_order<'de, A: SeqAccess<'de>>(t: &[Sh], mut a: A) -> Result<Vec<Val>, A::Error> {
    let mut v = vec![];
    for (i, t) in t.iter().enumerate() {
        match a.next_element_seed(Seed(t))? {
            Some(x) => v.push(x),
            None => return Err(de::Error::invalid_length(i, &"a tuple")),
        }
    }
    Ok(v)
}

struct TupV<'a>(&'a [Sh]);
impl<'de> Visitor<'de> for TupV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a tuple")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        in_order(self.0, a).map(Val::List)
    }
}

struct NewV<'a>(&'a Sh);
impl<'de> Visitor<'de> for NewV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("tuple struct N")
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Seed(self.0).deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        in_order(std::slice::from_ref(self.0), a).map(|mut v| v.pop().unwrap())
    }
}

struct MapV<'a>(&'a Sh, &'a Sh);
impl<'de> Visitor<'de> for MapV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut m: Vec<(Val, Val)> = vec![];
        while let Some(k) = a.next_key_seed(Seed(self.0))? {
            let v = a.next_value_seed(Seed(self.1))?;
            match m.iter_mut().find(|e| e.0 == k) {
                Some(e) => e.1 = v,
                None => m.push((k, v)),
            }
        }
        Ok(sorted(m))
    }
}

/// The order of entries is not part of a map.
pub fn sorted(mut m: Vec<(Val, Val)>) -> Val {
    m.sort_by_cached_key(|e| e.0.to_string());
    Val::Map(m)
}

struct Ident<'a>(&'a [&'static str], bool);
impl<'de> DeserializeSeed<'de> for Ident<'_> {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Ident<'_> {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("identifier")
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Option<usize>, E> {
        if (v as usize) < self.0.len() {
            Ok(Some(v as usize))
        } else if self.1 {
            Err(de::Error::invalid_value(de::Unexpected::Unsigned(v), &"variant index"))
        } else {
            Ok(None)
        }
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Option<usize>, E> {
        match self.0.iter().position(|n| *n == v) {
            Some(i) => Ok(Some(i)),
            None if self.1 => Err(de::Error::custom(format!("unknown variant {v}"))),
            None => Ok(None),
        }
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Option<usize>, E> {
        match self.0.iter().position(|n| n.as_bytes() == v) {
            Some(i) => Ok(Some(i)),
            None if self.1 => Err(de::Error::custom("unknown variant")),
            None => Ok(None),
        }
    }
}

pub struct StructV<'a>(pub &'a Fields);
impl<'de> Visitor<'de> for StructV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("struct S")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        in_order(&self.0.shapes, a).map(Val::List)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let n = self.0.names.len();
        let mut got: Vec<Option<Val>> = vec![None; n];
        while let Some(k) = a.next_key_seed(Ident(self.0.names, false))? {
            match k {
                Some(i) => {
                    if got[i].is_some() {
                        return Err(de::Error::duplicate_field(self.0.names[i]));
                    }
                    got[i] = Some(a.next_value_seed(Seed(&self.0.shapes[i]))?);
                }
                None => {
                    a.next_value::<IgnoredAny>()?;
                }
            }
        }
        let mut out = vec![];
        for (i, g) in got.into_iter().enumerate() {
            out.push(match g {
                Some(v) => v,
                None => match self.0.shapes[i] {
                    Sh::Opt(_) => Val::None,
                    _ => return Err(de::Error::missing_field(self.0.names[i])),
                },
            });
        }
        Ok(Val::List(out))
    }
}

struct EnumV<'a>(&'a Variants);
impl<'de> Visitor<'de> for EnumV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("enum E")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        let (i, p) = a.variant_seed(Ident(self.0.names, true))?;
        let i = i.unwrap();
        Ok(Val::Variant(
            i,
            match &self.0.kinds[i] {
                Kind::Unit => {
                    p.unit_variant()?;
                    vec![]
                }
                Kind::New(t) => vec![p.newtype_variant_seed(Seed(t))?],
                Kind::Tup(t) => match p.tuple_variant(t.len(), TupV(t))? {
                    Val::List(l) => l,
                    _ => unreachable!(),
                },
                Kind::Struct(f) => match p.struct_variant(f.names, StructV(f))? {
                    Val::List(l) => l,
                    _ => unreachable!(),
                },
            },
        ))
    }
}
