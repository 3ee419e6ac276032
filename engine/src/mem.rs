use crate::val::E;
use std::rc::Rc;

pub const NOE: E = u32::MAX;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<E>>,
    pub ro: bool,
}

const CH: usize = 128;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    pub next: u64,
}

pub enum Rd {
    Conc(u128),
    Sym(Vec<Result<u8, E>>),
}

impl Mem {
    pub fn new(next: u64) -> Mem {
        Mem { chunks: vec![], next }
    }
    fn slot(&mut self, id: u64) -> &mut Option<Rc<Obj>> {
        let (c, i) = (id as usize / CH, id as usize % CH);
        while self.chunks.len() <= c {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        &mut Rc::make_mut(&mut self.chunks[c])[i]
    }
    pub fn put(&mut self, id: u64, o: Obj) {
        *self.slot(id) = Some(Rc::new(o));
    }
    pub fn alloc(&mut self, size: u64) -> u64 {
        let id = self.next;
        self.next += 1;
        self.put(id, Obj { data: vec![0; size as usize], sym: None, ro: false });
        id << 32
    }
    pub fn free(&mut self, addr: u64) -> bool {
        let id = addr >> 32;
        if addr & 0xffff_ffff != 0 {
            return false;
        }
        let s = self.slot(id);
        if s.is_none() {
            return false;
        }
        *s = None;
        true
    }
    pub fn get(&self, addr: u64) -> Option<&Rc<Obj>> {
        let id = (addr >> 32) as usize;
        self.chunks.get(id / CH)?[id % CH].as_ref()
    }
    pub fn check(&self, addr: u64, n: u64) -> Result<&Rc<Obj>, String> {
        match self.get(addr) {
            None => Err(format!("access to invalid object {:#x} size {}", addr, n)),
            Some(o) => {
                let off = addr & 0xffff_ffff;
                if off + n > o.data.len() as u64 {
                    Err(format!("out-of-bounds access {:#x} size {} object size {}", addr, n, o.data.len()))
                } else {
                    Ok(o)
                }
            }
        }
    }
    pub fn get_mut(&mut self, addr: u64, n: u64) -> Result<&mut Obj, String> {
        let o = self.check(addr, n)?;
        if o.ro {
            return Err(format!("write to constant {:#x}", addr));
        }
        let s = self.slot(addr >> 32);
        Ok(Rc::make_mut(s.as_mut().unwrap()))
    }
    pub fn read(&self, addr: u64, n: u64) -> Result<Rd, String> {
        if n == 0 {
            return Ok(Rd::Conc(0));
        }
        let o = self.check(addr, n)?;
        let off = (addr & 0xffff_ffff) as usize;
        let n = n as usize;
        if let Some(s) = &o.sym {
            if s[off..off + n].iter().any(|e| *e != NOE) {
                return Ok(Rd::Sym((0..n).map(|i| if s[off + i] == NOE { Ok(o.data[off + i]) } else { Err(s[off + i]) }).collect()));
            }
        }
        let mut v = 0u128;
        for i in (0..n).rev() {
            v = v << 8 | o.data[off + i] as u128;
        }
        Ok(Rd::Conc(v))
    }
    pub fn byte(&self, addr: u64) -> Result<Result<u8, E>, String> {
        let o = self.check(addr, 1)?;
        let off = (addr & 0xffff_ffff) as usize;
        if let Some(s) = &o.sym {
            if s[off] != NOE {
                return Ok(Err(s[off]));
            }
        }
        Ok(Ok(o.data[off]))
    }
    pub fn write(&mut self, addr: u64, v: u128, n: u64) -> Result<(), String> {
        if n == 0 {
            return Ok(());
        }
        let off = (addr & 0xffff_ffff) as usize;
        let o = self.get_mut(addr, n)?;
        for i in 0..n as usize {
            o.data[off + i] = if i < 16 { (v >> (8 * i)) as u8 } else { 0 };
        }
        if let Some(s) = &mut o.sym {
            for i in 0..n as usize {
                s[off + i] = NOE;
            }
        }
        Ok(())
    }
    pub fn write_byte(&mut self, addr: u64, b: Result<u8, E>) -> Result<(), String> {
        let off = (addr & 0xffff_ffff) as usize;
        let o = self.get_mut(addr, 1)?;
        match b {
            Ok(v) => {
                o.data[off] = v;
                if let Some(s) = &mut o.sym {
                    s[off] = NOE;
                }
            }
            Err(e) => {
                let n = o.data.len();
                o.sym.get_or_insert_with(|| vec![NOE; n])[off] = e;
            }
        }
        Ok(())
    }
    pub fn fill(&mut self, addr: u64, b: u8, n: u64) -> Result<(), String> {
        if n == 0 {
            return Ok(());
        }
        let off = (addr & 0xffff_ffff) as usize;
        let o = self.get_mut(addr, n)?;
        o.data[off..off + n as usize].fill(b);
        if let Some(s) = &mut o.sym {
            s[off..off + n as usize].fill(NOE);
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), String> {
        if n == 0 {
            return Ok(());
        }
        let s = self.check(src, n)?.clone();
        let so = (src & 0xffff_ffff) as usize;
        let n = n as usize;
        let off = (dst & 0xffff_ffff) as usize;
        let d = self.get_mut(dst, n as u64)?;
        d.data[off..off + n].copy_from_slice(&s.data[so..so + n]);
        let ssym = s.sym.as_ref().map(|x| &x[so..so + n]);
        match ssym {
            Some(ss) if ss.iter().any(|e| *e != NOE) => {
                let len = d.data.len();
                d.sym.get_or_insert_with(|| vec![NOE; len])[off..off + n].copy_from_slice(ss);
            }
            _ => {
                if let Some(x) = &mut d.sym {
                    x[off..off + n].fill(NOE);
                }
            }
        }
        Ok(())
    }
    pub fn count(&self) -> usize {
        self.chunks.iter().map(|c| c.iter().filter(|x| x.is_some()).count()).sum()
    }
}
