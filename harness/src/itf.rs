//! Reading ITF traces written by `quint run --out-itf`.

use crate::big::Big;
use serde::de::{self, Deserializer, MapAccess, Visitor};
use serde::Deserialize;

struct BigVisitor;
impl<'de> Visitor<'de> for BigVisitor {
    type Value = Big;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("an ITF integer")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<Big, A::Error> {
        let (k, v): (String, String) =
            m.next_entry()?.ok_or_else(|| de::Error::custom("empty"))?;
        if k != "#bigint" {
            return Err(de::Error::custom("no #bigint"));
        }
        Ok(Big::parse(&v))
    }
    fn visit_i64<E>(self, v: i64) -> Result<Big, E> {
        Ok(Big::parse(&v.to_string()))
    }
    fn visit_u64<E>(self, v: u64) -> Result<Big, E> {
        Ok(Big::from_u64(v))
    }
}
impl<'de> Deserialize<'de> for Big {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Big, D::Error> {
        d.deserialize_any(BigVisitor)
    }
}

#[derive(Clone, Debug, Deserialize)]
pub struct Reg {
    pub w: Big,
    pub v: Big,
}
#[derive(Clone, Debug, Deserialize)]
pub struct Load {
    pub i: Big,
    pub w: Big,
    pub v: Big,
}
#[derive(Clone, Debug, Deserialize)]
pub struct Call {
    pub op: String,
    pub d: Big,
    pub s: Big,
    pub k: Big,
    pub arg: Big,
    pub txt: Vec<Big>,
}
#[derive(Clone, Debug, Deserialize)]
pub struct Rep {
    pub t: String,
    pub n: Big,
    pub l: Vec<Big>,
}
#[derive(Clone, Debug, Deserialize)]
pub struct State {
    pub regs: Vec<Reg>,
    pub loads: Vec<Load>,
    pub call: Call,
    pub rep: Rep,
}
#[derive(Debug, Deserialize)]
pub struct Trace {
    pub states: Vec<State>,
}
