use crate::engine::Prop;
mod aead_util;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
pub mod c28;
mod c29;
mod c30;
mod c31;
pub mod c32;
mod c33;
pub mod c34;
mod c35;
mod ecdsautil;
mod ecutil;
mod rsautil;
mod tlsconn;
mod tlsid;
mod tlsutil;

const MAKERS: &[(&str, fn() -> Prop)] = &[
    ("C01", c01::prop),
    ("C02", c02::prop),
    ("C03", c03::prop),
    ("C04", c04::prop),
    ("C05", c05::prop),
    ("C06", c06::prop),
    ("C07", c07::prop),
    ("C08", c08::prop),
    ("C09", c09::prop),
    ("C10", c10::prop),
    ("C11", c11::prop),
    ("C12", c12::prop),
    ("C13", c13::prop),
    ("C14", c14::prop),
    ("C15", c15::prop),
    ("C16", c16::prop),
    ("C17", c17::prop),
    ("C18", c18::prop),
    ("C19", c19::prop),
    ("C20", c20::prop),
    ("C21", c21::prop),
    ("C22", c22::prop),
    ("C23", c23::prop),
    ("C24", c24::prop),
    ("C25", c25::prop),
    ("C26", c26::prop),
    ("C27", c27::prop),
    ("C28", c28::prop),
    ("C29", c29::prop),
    ("C30", c30::prop),
    ("C31", c31::prop),
    ("C32", c32::prop),
    ("C33", c33::prop),
    ("C34", c34::prop),
    ("C35", c35::prop),
];

pub fn all() -> Vec<Prop> {
    MAKERS.iter().map(|m| m.1()).collect()
}
pub fn get(id: &str) -> Prop {
    MAKERS
        .iter()
        .find(|m| m.0 == id)
        .unwrap_or_else(|| {
            eprintln!("no such property {id}");
            std::process::exit(2)
        })
        .1()
}
