//! P23 keyed storage
use crate::b::*; use crate::rt::*;
use alloc::vec; use alloc::vec::Vec;
use netsblox_vm::slotmap::{Key, SlotMap};
netsblox_vm::new_key! { struct Id; }
const LEN: usize = if cfg!(feature = "deep") { 7 } else { 6 };
/// every key ever handed out with its value if it is still stored
struct Model { all: Vec<(Id, Option<u64>)> }
impl Model {
    fn live(&self) -> usize { self.all.iter().filter(|x| x.1.is_some()).count() }
    fn agrees(&self, m: &mut SlotMap<Id, u64>) -> bool {
        let mut r = m.len() == self.live() && m.is_empty() == (self.live() == 0);
        for i in 0..self.all.len() {
            let (k, v) = self.all[i];
            r &= m.get(k).copied() == v;
            r &= m.get_mut(k).map(|x| *x) == v;
            for j in 0..i { r &= self.all[j].0 != k; }
        }
        // any key at all, handed out or not
        let (slot, gen) = (choice(self.all.len() + 1), any_u64() as usize);
        let want = self.all.iter().find(|(k, v)| v.is_some() && k.get_slot() == slot && k.get_generation() == gen).map(|x| x.1.unwrap());
        r &= m.get(Id::new(slot, gen)).copied() == want && m.get_mut(Id::new(slot, gen)).copied() == want;
        r &= self.seen(m.iter().map(|(k, v)| (k, *v)).collect());
        r &= self.seen(m.iter_mut().map(|(k, v)| (k, *v)).collect());
        r &= self.seen(m.clone().into_iter().collect());
        r
    }
    /// exactly the stored values
    fn seen(&self, got: Vec<(Id, u64)>) -> bool {
        let mut r = got.len() == self.live();
        for (k, v) in &self.all { if v.is_some() { r &= got.iter().filter(|x| x.0 == *k).map(|x| x.1).eq(*v) } }
        r
    }
}
/// a key leads to its value from when it is handed out until that value is removed, and to nothing ever after
pub fn slots() {
    let mut m: SlotMap<Id, u64> = SlotMap::new();
    let mut o = Model { all: vec![] };
    for step in 0..LEN {
        match choice(5) {
            0 => { let v = any_u64(); let k = m.insert(v); o.all.push((k, Some(v))); }
            1 => {
                if o.all.is_empty() { stop() }
                let i = choice(o.all.len());
                check!(m.remove(o.all[i].0) == o.all[i].1.take());
            }
            2 => {
                if o.live() == 0 { stop() }
                let i = choice(o.all.len());
                let v = any_u64();
                match m.get_mut(o.all[i].0) { Some(x) => { *x = v; check!(o.all[i].1.is_some()); o.all[i].1 = Some(v) } None => check!(o.all[i].1.is_none()) }
            }
            3 => { if o.live() < 2 { stop() } m.clear(); for x in &mut o.all { x.1 = None } }
            _ => {
                if o.live() < 2 || step + 1 == LEN && LEN > 6 { stop() }
                let keep: Vec<bool> = o.all.iter().map(|x| x.1.is_some() && any_bool()).collect();
                let mut r = true;
                let mut calls = 0;
                m.retain_mut(|k, v| { calls += 1; let i = o.all.iter().position(|x| x.0 == k).unwrap_or(0); r &= o.all[i].0 == k && o.all[i].1 == Some(*v); let w = v.wrapping_add(1); *v = w; o.all[i].1 = Some(w); keep[i] });
                check!(r && calls == o.live());
                for (i, x) in o.all.iter_mut().enumerate() { if !keep[i] { x.1 = None } }
            }
        }
    }
    cover!();
    check!(o.agrees(&mut m));
}
harnesses!(slots);
