//! Copy-on-write memory: objects addressed by (id << 32 | offset).
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Obj {
    pub data: Vec<u8>,
    /// per byte: (expression, byte index); expression 0 = concrete
    pub sym: Option<Vec<(u32, u8)>>,
    pub ro: bool,
}
impl Obj {
    pub fn same(&self, o: &Obj) -> bool {
        self.data == o.data
            && match (&self.sym, &o.sym) {
                (None, None) => true,
                (Some(a), Some(b)) => a == b,
                (Some(a), None) | (None, Some(a)) => a.iter().all(|x| x.0 == 0),
            }
    }
}

type L3 = Vec<Option<Rc<Obj>>>;
type L2 = Vec<Option<Rc<L3>>>;

#[derive(Clone, Default)]
pub struct Mem {
    l1: Vec<Option<Rc<L2>>>,
}

impl Mem {
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Obj> {
        let a = self.l1.get((id >> 12) as usize)?.as_ref()?;
        let b = a[((id >> 6) & 63) as usize].as_ref()?;
        b[(id & 63) as usize].as_deref()
    }
    fn slot(&mut self, id: u32) -> &mut Option<Rc<Obj>> {
        let i = (id >> 12) as usize;
        if self.l1.len() <= i {
            self.l1.resize(i + 1, None);
        }
        let a = self.l1[i].get_or_insert_with(|| Rc::new(vec![None; 64]));
        let b = Rc::make_mut(a)[((id >> 6) & 63) as usize].get_or_insert_with(|| Rc::new(vec![None; 64]));
        &mut Rc::make_mut(b)[(id & 63) as usize]
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        self.get(id)?;
        self.slot(id).as_mut().map(Rc::make_mut)
    }
    pub fn insert(&mut self, id: u32, o: Obj) {
        *self.slot(id) = Some(Rc::new(o));
    }
    pub fn remove(&mut self, id: u32) -> bool {
        if self.get(id).is_none() {
            return false;
        }
        *self.slot(id) = None;
        true
    }
    pub fn for_each(&self, mut f: impl FnMut(u32, &Obj)) {
        for (i, a) in self.l1.iter().enumerate() {
            if let Some(a) = a {
                for (j, b) in a.iter().enumerate() {
                    if let Some(b) = b {
                        for (k, o) in b.iter().enumerate() {
                            if let Some(o) = o {
                                f(((i << 12) | (j << 6) | k) as u32, o);
                            }
                        }
                    }
                }
            }
        }
    }
    /// Ids whose objects are not the same Rc in both memories.
    pub fn diff(&self, o: &Mem) -> Vec<u32> {
        let mut out = vec![];
        let n = self.l1.len().max(o.l1.len());
        for i in 0..n {
            let a = self.l1.get(i).and_then(|x| x.as_ref());
            let b = o.l1.get(i).and_then(|x| x.as_ref());
            if let (Some(a), Some(b)) = (a, b) {
                if Rc::ptr_eq(a, b) {
                    continue;
                }
            }
            for j in 0..64 {
                let c = a.and_then(|a| a[j].as_ref());
                let d = b.and_then(|a| a[j].as_ref());
                if let (Some(c), Some(d)) = (c, d) {
                    if Rc::ptr_eq(c, d) {
                        continue;
                    }
                }
                for k in 0..64 {
                    let e = c.and_then(|c| c[k].as_ref());
                    let f = d.and_then(|c| c[k].as_ref());
                    match (e, f) {
                        (None, None) => {}
                        (Some(e), Some(f)) if Rc::ptr_eq(e, f) || e.same(f) => {}
                        _ => out.push(((i << 12) | (j << 6) | k) as u32),
                    }
                }
            }
        }
        out
    }
}
