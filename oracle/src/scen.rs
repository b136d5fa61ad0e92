use crate::world::World;

pub struct Scen {
    pub name: &'static str,
    pub thorough: bool,
    pub build: fn() -> World,
    pub check: fn(&World),
}
pub fn q(name: &'static str, build: fn() -> World, check: fn(&World)) -> Scen {
    Scen { name, thorough: false, build, check }
}
pub fn t(name: &'static str, build: fn() -> World, check: fn(&World)) -> Scen {
    Scen { name, thorough: true, build, check }
}

mod big;
mod c01;
mod c02;
mod c03;
mod c07;
mod c10;
mod c13;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod mix;

pub fn all() -> Vec<Scen> {
    let mut v = vec![];
    v.extend(c01::all());
    v.extend(big::all());
    v.extend(c02::all());
    v.extend(c03::all());
    v.extend(c07::all());
    v.extend(c10::all());
    v.extend(c13::all());
    v.extend(c18::all());
    v.extend(c19::all());
    v.extend(c20::all());
    v.extend(c21::all());
    v.extend(c22::all());
    v.extend(c23::all());
    v.extend(c24::all());
    v.extend(c25::all());
    v.extend(c26::all());
    v.extend(c27::all());
    v.extend(mix::all());
    v
}
