//! Memory of one path: objects are copy-on-write, identities are never reused.
use crate::expr::By;
use crate::ir::{Module, FN_BASE};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj { pub b: Vec<u8>, pub s: Option<Box<[By]>>, pub heap: bool }
impl Obj {
    pub fn zero(n: usize, heap: bool) -> Obj { Obj { b: vec![0; n], s: None, heap } }
}
const CH: usize = 32;
type Chunk = [Option<Rc<Obj>>; CH];
#[derive(Clone, Default)]
pub struct Mem {
    chunks: Vec<Option<Rc<Chunk>>>,
    next: u32,
    glob: Rc<HashMap<u32, Rc<Obj>>>,
    pub live: u64,
    /// Blocks given back are used again, last ones first, and new ones start with this byte.
    pub reuse: bool,
    pub fill: u8,
    freed: Rc<HashMap<usize, Vec<u32>>>,
    pub allocs: u64,
}
pub enum View<'a> { B(&'a [u8]), S(&'a [By], &'a [u8]) }

impl Mem {
    fn first(m: &Module) -> u32 { m.globals.len() as u32 + 8 }
    pub fn alloc(&mut self, m: &Module, n: usize, heap: bool) -> u64 {
        let again = if self.reuse && heap { Rc::make_mut(&mut self.freed).get_mut(&n).and_then(|v| v.pop()) } else { None };
        let k = match again { Some(k) => k as usize, None => { self.next += 1; self.next as usize - 1 } };
        if k / CH >= self.chunks.len() { self.chunks.push(Some(Rc::new(Default::default()))); }
        let c = self.chunks[k / CH].get_or_insert_with(Default::default);
        let mut o = Obj::zero(n, heap);
        if heap && self.fill != 0 { o.b.fill(self.fill); }
        Rc::make_mut(c)[k % CH] = Some(Rc::new(o));
        if heap { self.live += 1; self.allocs += 1; }
        let id = 2 * (Self::first(m) as u64 + k as u64 + 1);
        assert!(id < FN_BASE);
        id << 32
    }
    fn slot(&self, m: &Module, a: u64) -> Result<usize, String> {
        let id = a >> 32;
        let base = 2 * (Self::first(m) as u64 + 1);
        if id & 1 != 0 || id < base || (id - base) / 2 >= self.next as u64 { return Err(format!("access through an invalid pointer {:#x}", a)); }
        Ok(((id - base) / 2) as usize)
    }
    pub fn free(&mut self, m: &Module, a: u64, heap: bool) -> Result<(), String> {
        let k = self.slot(m, a).map_err(|_| format!("free of an invalid pointer {:#x}", a))?;
        let Some(c) = self.chunks[k / CH].as_mut() else { return Err("double free".into()) };
        match &c[k % CH] {
            None => return Err("double free".into()),
            Some(o) => {
                if heap && (!o.heap || a & 0xffff_ffff != 0) { return Err("free of a pointer that is not an allocation".into()); }
                if o.heap { self.live -= 1; }
            }
        }
        let c = Rc::make_mut(c);
        let o = c[k % CH].take();
        if self.reuse && heap { Rc::make_mut(&mut self.freed).entry(o.map_or(0, |o| o.b.len())).or_default().push(k as u32); }
        if k / CH + 1 < (self.next as usize + CH - 1) / CH && c.iter().all(|x| x.is_none()) { self.chunks[k / CH] = None; }
        Ok(())
    }
    pub fn size(&self, m: &Module, a: u64) -> Result<usize, String> {
        let k = self.slot(m, a)?;
        match self.chunks[k / CH].as_ref().and_then(|c| c[k % CH].as_ref()) { Some(o) => Ok(o.b.len()), None => Err("use after free".into()) }
    }
    pub fn read<'a>(&'a self, m: &'a Module, a: u64, n: usize) -> Result<View<'a>, String> {
        let id = a >> 32;
        let off = (a & 0xffff_ffff) as usize;
        if id & 1 == 0 && id >= 2 && id < 2 * (m.globals.len() as u64 + 1) {
            let g = (id / 2 - 1) as u32;
            if let Some(o) = self.glob.get(&g) { return Self::view(o, off, n); }
            let gl = &m.globals[g as usize];
            if gl.decl { return Err(format!("access to external global {}", gl.name)); }
            if off + n > gl.init.len() { return Err(format!("out of bounds read of global ({} + {} > {})", off, n, gl.init.len())); }
            return Ok(View::B(&gl.init[off..off + n]));
        }
        let k = self.slot(m, a)?;
        match self.chunks[k / CH].as_ref().and_then(|c| c[k % CH].as_ref()) { Some(o) => Self::view(o, off, n), None => Err("use after free (read)".into()) }
    }
    fn view(o: &Obj, off: usize, n: usize) -> Result<View<'_>, String> {
        if off + n > o.b.len() { return Err(format!("out of bounds read ({} + {} > {})", off, n, o.b.len())); }
        Ok(match &o.s { Some(s) if s[off..off + n].iter().any(|x| x.e != 0) => View::S(&s[off..off + n], &o.b[off..off + n]), _ => View::B(&o.b[off..off + n]) })
    }
    fn obj(&mut self, m: &Module, a: u64, n: usize) -> Result<(&mut Obj, usize), String> {
        let id = a >> 32;
        let off = (a & 0xffff_ffff) as usize;
        let o = if id & 1 == 0 && id >= 2 && id < 2 * (m.globals.len() as u64 + 1) {
            let g = (id / 2 - 1) as u32;
            let gl = &m.globals[g as usize];
            if gl.decl { return Err(format!("access to external global {}", gl.name)); }
            if gl.constant { return Err("write to a constant".into()); }
            Rc::make_mut(&mut self.glob).entry(g).or_insert_with(|| Rc::new(Obj { b: gl.init.clone(), s: None, heap: false }))
        } else {
            let k = self.slot(m, a)?;
            let c = self.chunks[k / CH].as_mut().ok_or("use after free (write)")?;
            if c[k % CH].is_none() { return Err("use after free (write)".into()); }
            Rc::make_mut(c)[k % CH].as_mut().unwrap()
        };
        let o = Rc::make_mut(o);
        if off + n > o.b.len() { return Err(format!("out of bounds write ({} + {} > {})", off, n, o.b.len())); }
        Ok((o, off))
    }
    pub fn write(&mut self, m: &Module, a: u64, d: &[u8]) -> Result<(), String> {
        let (o, off) = self.obj(m, a, d.len())?;
        o.b[off..off + d.len()].copy_from_slice(d);
        if let Some(s) = &mut o.s { for (x, b) in s[off..off + d.len()].iter_mut().zip(d) { *x = By::c(*b); } }
        Ok(())
    }
    pub fn write_sym(&mut self, m: &Module, a: u64, d: &[By]) -> Result<(), String> {
        let (o, off) = self.obj(m, a, d.len())?;
        if o.s.is_none() {
            if d.iter().all(|x| x.e == 0) { for (i, x) in d.iter().enumerate() { o.b[off + i] = x.i as u8; } return Ok(()); }
            o.s = Some(o.b.iter().map(|b| By::c(*b)).collect());
        }
        let s = o.s.as_mut().unwrap();
        for (i, x) in d.iter().enumerate() { s[off + i] = *x; o.b[off + i] = if x.e == 0 { x.i as u8 } else { 0 }; }
        Ok(())
    }
    pub fn bytes(&self, m: &Module, a: u64, n: usize) -> Result<Vec<By>, String> {
        if n == 0 { return Ok(vec![]); }
        Ok(match self.read(m, a, n)? { View::B(b) => b.iter().map(|x| By::c(*x)).collect(), View::S(s, _) => s.to_vec() })
    }
}
