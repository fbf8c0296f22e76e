//! Serialized forms: reading what the crate wrote, and input of wrong shape.

use crate::forms::Out;
use apint::ApInt;
use serde::de::value::{Error as VErr, MapDeserializer, SeqDeserializer};
use serde::de::{Deserialize, Deserializer, IntoDeserializer, Visitor};
use serde::forward_to_deserialize_any;

/// `{"width":[w],"digits":[..]}` into width and digits.
pub fn read_json(t: &str) -> Out {
    let v: serde_json::Value = match serde_json::from_str(t) {
        Ok(v) => v,
        Err(e) => return Out::Text(format!("no JSON: {}", e)),
    };
    let ok = (|| {
        let o = v.as_object()?;
        if o.len() != 2 {
            return None;
        }
        let w = o.get("width")?.as_array()?;
        if w.len() != 1 {
            return None;
        }
        let ds: Option<Vec<u64>> =
            o.get("digits")?.as_array()?.iter().map(|d| d.as_u64()).collect();
        Some(Out::Digits(w[0].as_u64()?, ds?))
    })();
    ok.unwrap_or_else(|| Out::Text(t.to_string()))
}

pub fn read_bincode(b: &[u8]) -> Out {
    match bincode::deserialize::<(u64, Vec<u64>)>(b) {
        Ok((w, ds)) if bincode::serialized_size(&(w, &ds)).ok() == Some(b.len() as u64) => {
            Out::Digits(w, ds)
        }
        _ => Out::Text(format!("{:?}", b)),
    }
}

/// A tiny self-describing data model.
#[derive(Clone)]
pub enum Tok {
    U(u64),
    I(i64),
    S(&'static str),
    Seq(Vec<Tok>),
    Map(Vec<(&'static str, Tok)>),
    Unit,
}
#[derive(Clone)]
pub struct De(pub Tok, pub bool);

impl<'de> IntoDeserializer<'de, VErr> for De {
    type Deserializer = De;
    fn into_deserializer(self) -> De {
        self
    }
}
impl<'de> Deserializer<'de> for De {
    type Error = VErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, VErr> {
        let hr = self.1;
        match self.0 {
            Tok::U(n) => v.visit_u64(n),
            Tok::I(n) => v.visit_i64(n),
            Tok::S(s) => v.visit_str(s),
            Tok::Unit => v.visit_unit(),
            Tok::Seq(l) => {
                v.visit_seq(SeqDeserializer::new(l.into_iter().map(|t| De(t, hr))))
            }
            Tok::Map(l) => {
                v.visit_map(MapDeserializer::new(l.into_iter().map(|(k, t)| (k, De(t, hr)))))
            }
        }
    }
    fn is_human_readable(&self) -> bool {
        self.1
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}

/// Deserializes input that is wrong in the k-th way; None when refused.
pub fn wrong(k: usize, w: u64, ds: &[u64]) -> Option<ApInt> {
    use Tok::*;
    let width = Seq(vec![U(w)]);
    let digits = Seq(ds.iter().map(|d| U(*d)).collect());
    let (hr, t) = match k {
        0 => (true, Map(vec![("width", width)])),
        1 => (true, Map(vec![("digits", digits)])),
        2 => (true, Map(vec![])),
        3 => (true, Map(vec![("width", width.clone()), ("digits", digits), ("width", width)])),
        4 => (true, Map(vec![("width", width), ("digits", digits.clone()), ("digits", digits)])),
        5 => (true, Map(vec![("width", width), ("digits", digits), ("other", Unit)])),
        6 => (true, Map(vec![("width", Seq(vec![])), ("digits", digits)])),
        7 => (true, Map(vec![("width", Seq(vec![I(-1)])), ("digits", digits)])),
        8 => (true, Map(vec![("width", width), ("digits", Seq(vec![]))])),
        9 => (true, Map(vec![("width", width), ("digits", Seq(vec![S("1"); ds.len()]))])),
        10 => (false, Seq(vec![])),
        11 => (false, Seq(vec![U(w)])),
        12 => (false, Seq(vec![U(w), Seq(vec![])])),
        13 => (false, Seq(vec![S("8"), digits])),
        14 => (false, Seq(vec![U(w), Unit])),
        _ => (false, Seq(vec![U(0), digits])),
    };
    ApInt::deserialize(De(t, hr)).ok()
}
