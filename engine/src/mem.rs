//! Values, objects and the persistent object store.
use crate::expr::{Arg, Ex};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    W(Box<u128>),
    S(Ex),
    A(Rc<Vec<Val>>),
}
impl Val {
    pub fn arg(&self) -> Arg {
        match self {
            Val::I(x) => Arg::C(*x as u128),
            Val::W(x) => Arg::C(**x),
            Val::S(e) => Arg::E(*e),
            Val::A(_) => panic!("aggregate used as a scalar"),
        }
    }
    pub fn of(a: Arg, w: u32) -> Val {
        match a {
            Arg::C(c) => if w <= 64 { Val::I(c as u64) } else { Val::W(Box::new(c)) },
            Arg::E(e) => Val::S(e),
        }
    }
}

pub const NONE: u32 = u32::MAX;
/// Byte `i` of expression `e` (`e == NONE`: the concrete byte counts).
#[derive(Clone, Copy, Debug)]
pub struct Ob {
    pub e: u32,
    pub i: u32,
}
pub const CONC: Ob = Ob { e: NONE, i: 0 };

#[derive(Clone, Default, Debug)]
pub struct Obj {
    pub data: Vec<u8>,
    pub ov: Option<Vec<Ob>>,
}
impl Obj {
    pub fn zero(n: usize) -> Obj {
        Obj { data: vec![0; n], ov: None }
    }
    pub fn set_conc(&mut self, off: usize, b: &[u8]) {
        self.data[off..off + b.len()].copy_from_slice(b);
        if let Some(ov) = &mut self.ov {
            for x in &mut ov[off..off + b.len()] {
                *x = CONC;
            }
        }
    }
    pub fn is_conc(&self, off: usize, n: usize) -> bool {
        match &self.ov {
            None => true,
            Some(ov) => ov[off..off + n].iter().all(|o| o.e == NONE),
        }
    }
}

#[derive(Clone)]
pub struct Page {
    pub o: [Option<Rc<Obj>>; 64],
}
impl Page {
    fn new() -> Page {
        Page { o: std::array::from_fn(|_| None) }
    }
}
#[derive(Clone, Default)]
pub struct Space {
    pub pages: Vec<Rc<Page>>,
}
impl Space {
    pub fn get(&self, i: u32) -> Option<&Obj> {
        self.pages.get((i >> 6) as usize)?.o[(i & 63) as usize].as_deref()
    }
    pub fn get_mut(&mut self, i: u32) -> Option<&mut Obj> {
        let p = Rc::make_mut(self.pages.get_mut((i >> 6) as usize)?);
        p.o[(i & 63) as usize].as_mut().map(Rc::make_mut)
    }
    pub fn slot(&mut self, i: u32) -> &mut Option<Rc<Obj>> {
        while self.pages.len() <= (i >> 6) as usize {
            self.pages.push(Rc::new(Page::new()));
        }
        &mut Rc::make_mut(&mut self.pages[(i >> 6) as usize]).o[(i & 63) as usize]
    }
    /// A fresh zeroed object in slot `i`, reusing the old allocation when unshared.
    pub fn fresh(&mut self, i: u32, n: usize) {
        let s = self.slot(i);
        if let Some(rc) = s {
            if let Some(o) = Rc::get_mut(rc) {
                o.data.clear();
                o.data.resize(n, 0);
                o.ov = None;
                return;
            }
        }
        *s = Some(Rc::new(Obj::zero(n)));
    }
}

pub const ID_STACK: u32 = 0x1000_0000;
pub const ID_GLOBAL: u32 = 0x2000_0000;
pub const ID_FUNC: u32 = 0x3000_0000;

pub fn addr(id: u32, off: u32) -> u64 {
    (id as u64) << 32 | off as u64
}
