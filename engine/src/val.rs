use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(E),
    A(Rc<Vec<V>>),
}

impl V {
    pub fn c(&self) -> u128 {
        match self {
            V::C(v) => *v,
            V::S(_) => panic!("symbolic where constant expected"),
            V::A(_) => panic!("aggregate where constant expected"),
        }
    }
}
