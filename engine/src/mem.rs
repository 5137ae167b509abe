//! Copy-on-write flat memory with per-byte symbolic expressions.
use crate::expr::E;
use crate::ir::GLOBAL_BASE;
use std::rc::Rc;

pub const PB: u32 = 9;
pub const PS: usize = 1 << PB;
pub const STACK_BASE: u64 = 0x2000_0000;
pub const STACK_SIZE: u64 = 0x0100_0000;
pub const HEAP_BASE: u64 = 0x4000_0000;

#[derive(Clone)]
pub struct Page {
    pub d: [u8; PS],
    pub s: Option<Box<[E; PS]>>,
}

#[derive(Clone)]
pub struct Mem {
    g: Vec<Option<Rc<Page>>>,
    st: Vec<Option<Rc<Page>>>,
    h: Vec<Option<Rc<Page>>>,
    pub brk: u64,
}

#[derive(Debug)]
pub struct Fault(pub u64);

impl Mem {
    pub fn new(image: &[u8]) -> Mem {
        let mut g = vec![];
        for ch in image.chunks(PS) {
            let mut p = Page { d: [0; PS], s: None };
            p.d[..ch.len()].copy_from_slice(ch);
            g.push(Some(Rc::new(p)));
        }
        Mem { g, st: vec![], h: vec![], brk: HEAP_BASE }
    }
    pub fn alloc(&mut self, size: u64, align: u64) -> u64 {
        let a = align.max(16);
        let p = (self.brk + a - 1) / a * a;
        self.brk = p + size.max(1);
        p
    }
    #[inline(always)]
    fn page(&self, addr: u64) -> Result<&Page, Fault> {
        let (v, i) = if addr >= HEAP_BASE {
            if addr >= self.brk {
                return Err(Fault(addr));
            }
            (&self.h, (addr - HEAP_BASE) >> PB)
        } else if addr >= STACK_BASE {
            (&self.st, (addr - STACK_BASE) >> PB)
        } else if addr >= GLOBAL_BASE {
            (&self.g, (addr - GLOBAL_BASE) >> PB)
        } else {
            return Err(Fault(addr));
        };
        match v.get(i as usize) {
            Some(Some(p)) => Ok(p),
            _ => {
                if addr >= STACK_BASE {
                    static ZERO: Page = Page { d: [0; PS], s: None };
                    Ok(&ZERO)
                } else {
                    Err(Fault(addr))
                }
            }
        }
    }
    #[inline(always)]
    fn page_mut(&mut self, addr: u64) -> Result<&mut Page, Fault> {
        let (v, i, lim) = if addr >= HEAP_BASE {
            if addr >= self.brk {
                return Err(Fault(addr));
            }
            (&mut self.h, ((addr - HEAP_BASE) >> PB) as usize, usize::MAX)
        } else if addr >= STACK_BASE {
            (&mut self.st, ((addr - STACK_BASE) >> PB) as usize, (STACK_SIZE >> PB) as usize)
        } else if addr >= GLOBAL_BASE {
            let l = self.g.len();
            (&mut self.g, ((addr - GLOBAL_BASE) >> PB) as usize, l)
        } else {
            return Err(Fault(addr));
        };
        if i >= lim {
            return Err(Fault(addr));
        }
        if i >= v.len() {
            v.resize(i + 1, None);
        }
        let slot = &mut v[i];
        if slot.is_none() {
            *slot = Some(Rc::new(Page { d: [0; PS], s: None }));
        }
        Ok(Rc::make_mut(slot.as_mut().unwrap()))
    }
    /// concrete fast path; None => there may be symbolic bytes or page crossing
    #[inline(always)]
    pub fn read_fast(&self, addr: u64, n: usize) -> Result<Option<u64>, Fault> {
        let o = (addr & (PS as u64 - 1)) as usize;
        if o + n > PS {
            return Ok(None);
        }
        let p = self.page(addr)?;
        if p.s.is_some() {
            return Ok(None);
        }
        let r = match n {
            1 => p.d[o] as u64,
            8 => u64::from_le_bytes(p.d[o..o + 8].try_into().unwrap()),
            4 => u32::from_le_bytes(p.d[o..o + 4].try_into().unwrap()) as u64,
            2 => u16::from_le_bytes(p.d[o..o + 2].try_into().unwrap()) as u64,
            _ => {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&p.d[o..o + n]);
                u64::from_le_bytes(b)
            }
        };
        Ok(Some(r))
    }
    #[inline]
    pub fn byte(&self, addr: u64) -> Result<(u8, E), Fault> {
        let o = (addr & (PS as u64 - 1)) as usize;
        let p = self.page(addr)?;
        Ok((p.d[o], p.s.as_ref().map(|s| s[o]).unwrap_or(0)))
    }
    #[inline]
    pub fn set_byte(&mut self, addr: u64, v: u8, e: E) -> Result<(), Fault> {
        let o = (addr & (PS as u64 - 1)) as usize;
        let p = self.page_mut(addr)?;
        p.d[o] = v;
        if e != 0 {
            if p.s.is_none() {
                p.s = Some(Box::new([0; PS]));
            }
            p.s.as_mut().unwrap()[o] = e;
        } else if let Some(s) = &mut p.s {
            s[o] = 0;
        }
        Ok(())
    }
    #[inline(always)]
    pub fn write_conc(&mut self, addr: u64, v: u64, n: usize) -> Result<(), Fault> {
        let o = (addr & (PS as u64 - 1)) as usize;
        if o + n > PS {
            for i in 0..n {
                self.set_byte(addr + i as u64, (v >> (8 * i)) as u8, 0)?;
            }
            return Ok(());
        }
        let p = self.page_mut(addr)?;
        match n {
            1 => p.d[o] = v as u8,
            8 => p.d[o..o + 8].copy_from_slice(&v.to_le_bytes()),
            4 => p.d[o..o + 4].copy_from_slice(&(v as u32).to_le_bytes()),
            2 => p.d[o..o + 2].copy_from_slice(&(v as u16).to_le_bytes()),
            _ => p.d[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]),
        }
        if let Some(s) = &mut p.s {
            for i in 0..n {
                s[o + i] = 0;
            }
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), Fault> {
        if n == 0 || dst == src {
            return Ok(());
        }
        // gather then scatter (handles overlap)
        let mut d: Vec<u8> = Vec::with_capacity(n as usize);
        let mut s: Vec<(u32, E)> = vec![];
        let mut a = src;
        let end = src + n;
        while a < end {
            let o = (a & (PS as u64 - 1)) as usize;
            let k = (PS - o).min((end - a) as usize);
            let p = self.page(a)?;
            if let Some(ss) = &p.s {
                for i in 0..k {
                    if ss[o + i] != 0 {
                        s.push(((a - src) as u32 + i as u32, ss[o + i]));
                    }
                }
            }
            d.extend_from_slice(&p.d[o..o + k]);
            a += k as u64;
        }
        let mut a = dst;
        let end = dst + n;
        while a < end {
            let o = (a & (PS as u64 - 1)) as usize;
            let k = (PS - o).min((end - a) as usize);
            let p = self.page_mut(a)?;
            let off = (a - dst) as usize;
            p.d[o..o + k].copy_from_slice(&d[off..off + k]);
            if let Some(ss) = &mut p.s {
                for i in 0..k {
                    ss[o + i] = 0;
                }
            }
            a += k as u64;
        }
        for (i, e) in s {
            let v = d[i as usize];
            self.set_byte(dst + i as u64, v, e)?;
        }
        Ok(())
    }
    pub fn fill(&mut self, dst: u64, v: u8, e: E, n: u64) -> Result<(), Fault> {
        let mut a = dst;
        let end = dst + n;
        while a < end {
            let o = (a & (PS as u64 - 1)) as usize;
            let k = (PS - o).min((end - a) as usize);
            let p = self.page_mut(a)?;
            p.d[o..o + k].fill(v);
            if e != 0 && p.s.is_none() {
                p.s = Some(Box::new([0; PS]));
            }
            if let Some(ss) = &mut p.s {
                for i in 0..k {
                    ss[o + i] = e;
                }
            }
            a += k as u64;
        }
        Ok(())
    }
    pub fn any_sym(&self, addr: u64, n: u64) -> Option<E> {
        for i in 0..n {
            if let Ok((_, e)) = self.byte(addr + i) {
                if e != 0 {
                    return Some(e);
                }
            }
        }
        None
    }
}
