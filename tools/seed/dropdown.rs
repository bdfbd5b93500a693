#![allow(unused)]
mod dropdown;
use dropdown::*;
pub struct NoChild;
type Menu = Dropdown<u32>;
