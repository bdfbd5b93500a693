//! Types deriving `Trackable` in every shape the derive accepts; only compiled, never run.
#![allow(dead_code, non_camel_case_types)]
use std::collections::HashMap;
use x_bow::Trackable;

#[derive(Trackable)]
pub struct Named {
    pub alpha: i32,
    pub beta: u64,
    pub gamma: String,
    pub delta: bool,
}

#[derive(Trackable)]
#[track(deep)]
pub struct Deep {
    pub first: Named,
    pub second: Named,
    #[track(shallow)]
    pub third: Named,
    pub list: Vec<Named>,
    pub table: HashMap<String, Named>,
    pub boxed: Box<Named>,
    pub counted: std::rc::Rc<Named>,
}

#[derive(Trackable)]
#[track(shallow)]
pub struct Skips {
    pub one: i32,
    #[track(skip)]
    pub hidden: i32,
    pub two: i32,
    #[track(deep)]
    pub three: Named,
    #[track(skip)]
    pub hidden2: u8,
    pub four: i32,
}

#[derive(Trackable)]
pub struct Tup(pub i32, pub i32, #[track(skip)] pub i32, pub i32, #[track(deep)] pub Named);

#[derive(Trackable)]
#[track(deep)]
pub struct Gen<A, B> {
    pub a: A,
    pub b: B,
    pub pair: (A, B),
}

#[derive(Trackable)]
#[x_bow(bound = "T: Trackable")]
pub struct Manual<T> {
    #[track(deep)]
    pub head: T,
    pub tail: Option<Box<Manual<T>>>,
}

#[derive(Trackable)]
#[track(deep)]
pub enum Choice {
    Unit,
    One(i32),
    Two(i32, i32, i32),
    Rec { x: Named, y: Named, #[track(skip)] z: u8, w: i32 },
    Other { x: i32 },
}

#[derive(Trackable)]
pub enum Single {
    Only(i32, u8),
}

#[derive(Trackable)]
#[track(deep)]
pub enum GenE<A, B> {
    L(A),
    R(B),
    Both { l: A, r: B },
}
