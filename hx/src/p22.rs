//! P22 the starting state
use crate::b::*; use crate::rt::*; use crate::sys::*;
use alloc::rc::Rc; use alloc::string::String; use alloc::vec; use alloc::vec::Vec;
use netsblox_vm::compact_str::CompactString;

/// a described value
#[derive(Clone)]
enum D { N(f64), B(bool), S(usize), L(Option<usize>, Vec<D>), R(usize), I(usize), A(usize), Pi, E }
const TEXTS: [&str; 3] = ["", "12", "tée"];
struct Media { images: Vec<Rc<(Vec<u8>, Option<(f64, f64)>, CompactString)>>, sounds: Vec<Rc<(Vec<u8>, CompactString)>> }
fn media(x: f64) -> Media {
    Media {
        images: vec![Rc::new((vec![1, 2, 3], None, "one".into())), Rc::new((vec![], Some((x, -2.5)), "two".into()))],
        sounds: vec![Rc::new((vec![9], "snd".into())), Rc::new((vec![], "".into()))],
    }
}
fn av(d: &D, m: &Media) -> AV {
    match d {
        D::N(x) => AV::Number(*x), D::B(x) => AV::Bool(*x), D::S(k) => AV::String(TEXTS[*k].into()),
        D::L(id, v) => AV::List(v.iter().map(|x| av(x, m)).collect(), id.map(ast::RefId)), D::R(id) => AV::Ref(ast::RefId(*id)),
        D::I(k) => AV::Image(m.images[*k].clone()), D::A(k) => AV::Audio(m.sounds[*k].clone()),
        D::Pi => AV::Constant(ast::Constant::Pi), D::E => AV::Constant(ast::Constant::E),
    }
}
/// a value for slot `k` of three; lists that have an id are described once in one slot
const SHAPES: usize = 9;
const SLOTS: usize = if cfg!(feature = "deep") { 4 } else { 3 };
fn shape(s: usize, k: usize) -> D {
    let next = (k + 1) % SLOTS;
    match s {
        0 => D::N(any_num()),
        1 => D::B(any_bool()),
        2 => D::S(k % 3),
        3 => D::L(None, vec![D::N(any_num()), D::S(1), D::L(None, vec![]), D::S(1), D::L(None, vec![])]),
        4 => D::L(Some(k + 5), vec![D::N(any_num()), D::R(k + 5), D::R(k + 5)]),
        5 => D::R(next + 5),
        6 => D::L(Some(k + 5), vec![D::R(next + 5), D::S(2), D::L(None, vec![D::R(k + 5)])]),
        7 => D::L(None, vec![D::I(0), D::I(1), D::A(0), D::R(next + 5), D::A(1), D::Pi, D::E]),
        _ => D::L(None, vec![D::R(k + 5), D::L(Some(k + 5), vec![D::B(true), D::L(None, vec![D::N(any_num())])]), D::R(k + 5)]),
    }
}
fn defs<'a>(d: &'a D, out: &mut Vec<(usize, &'a D)>) { if let D::L(id, v) = d { if let Some(k) = id { out.push((*k, d)) } for x in v { defs(x, out) } } }
fn refs(d: &D, out: &mut Vec<usize>) { match d { D::L(_, v) => for x in v { refs(x, out) }, D::R(k) => out.push(*k), _ => () } }
type Val<'gc> = Value<'gc, Cu, Sys>;
/// compares the described with the real; `seen`: the lists met so far and what they are
struct Iso<'a, 'gc> { defs: &'a [(usize, &'a D)], seen: Vec<(Option<usize>, Gc<'gc, RefLock<alloc::collections::VecDeque<Val<'gc>>>>)>, m: &'a Media }
fn bits(a: f64, b: f64) -> bool { norm(a).to_bits() == b.to_bits() }
impl<'a, 'gc> Iso<'a, 'gc> {
    fn same(&mut self, d: &D, v: &Val<'gc>) -> bool {
        match (d, v) {
            (D::N(x), Value::Number(y)) => bits(*x, y.get()),
            (D::B(x), Value::Bool(y)) => x == y,
            (D::S(k), Value::Text(y)) => y.as_str() == TEXTS[*k],
            (D::Pi, Value::Number(y)) => y.get() == core::f64::consts::PI,
            (D::E, Value::Number(y)) => y.get() == core::f64::consts::E,
            (D::I(k), Value::Image(y)) => self.image(*k, y),
            (D::A(k), Value::Audio(y)) => y.content == self.m.sounds[*k].0 && y.name == self.m.sounds[*k].1,
            (D::R(k), v) => { let d = self.defs.iter().find(|x| x.0 == *k).unwrap().1; self.same(d, v) }
            (D::L(id, want), Value::List(x)) => {
                match self.seen.iter().find(|(_, p)| Gc::ptr_eq(*p, *x)) {
                    Some((k, _)) => return id.is_some() && k == id, // met before: the same described list, which is being or has been compared
                    None => if id.is_some() && self.seen.iter().any(|(k, _)| k == id) { return false }
                }
                self.seen.push((*id, *x));
                let vals: Vec<Val<'gc>> = x.borrow().iter().cloned().collect();
                if vals.len() != want.len() { return false }
                let mut r = true;
                for i in 0..vals.len() { r &= self.same(&want[i], &vals[i]) }
                r
            }
            _ => false,
        }
    }
    fn image(&self, k: usize, y: &Image) -> bool {
        let x = &self.m.images[k];
        y.content == x.0 && y.name == x.2 && match (x.1, y.center) { (None, None) => true, (Some((a, b)), Some((c, d))) => bits(a, c.get()) & bits(b, d.get()), _ => false }
    }
}
fn globals_of<'gc>(mc: &Mutation<'gc>, init: &InitInfo, code: &Rc<ByteCode>, sys: &Rc<Sys>) -> GlobalContext<'gc, Cu, Sys> { GlobalContext::from_init(mc, init, code.clone(), Settings::default(), sys.clone()) }
use netsblox_vm::bytecode::InitInfo;
fn find<'gc>(g: &GlobalContext<'gc, Cu, Sys>, slot: usize) -> Option<Val<'gc>> {
    let field = |e: usize, n: &str| g.entities.as_slice()[e].value.borrow().fields.lookup(n).map(|x| x.get().clone());
    match slot { 0 => g.globals.lookup("g").map(|x| x.get().clone()), 1 => field(0, "f"), 3 => g.globals.lookup("h").map(|x| x.get().clone()), _ => field(1, "f") }
}
/// every variable starts with its described value, in every instance of the project
pub fn values() {
    let m = media(1.5);
    let d: Vec<D> = (0..SLOTS).map(|k| shape(choice(SHAPES), k)).collect();
    let mut r = role(vec![], vec![entity("Stage"), entity("A")]);
    r.name = "the project".into();
    r.globals = vec![vi("g", av(&d[0], &m)), vi("h", if SLOTS > 3 { av(&d[3], &m) } else { AV::Bool(false) })];
    r.entities[0].fields = vec![vi("f", av(&d[1], &m))];
    r.entities[1].fields = vec![vi("e", AV::String("12".into())), vi("f", av(&d[2], &m))];
    let (mut df, mut rf) = (vec![], vec![]);
    for x in &d { defs(x, &mut df); refs(x, &mut rf); }
    let complete = rf.iter().all(|k| df.iter().any(|x| x.0 == *k));
    let (code, init, _, _) = match ByteCode::compile(&r) { Ok(x) => x, Err(_) => { check!(!complete); return } };
    check!(complete);
    cover!();
    let (code, sys) = (Rc::new(code), Sys::new());
    gc(|mc| {
        let (one, two) = (globals_of(mc, &init, &code, &sys), globals_of(mc, &init, &code, &sys));
        check!(one.proj_name.as_str() == "the project");
        let both = |g: &GlobalContext<'_, Cu, Sys>| g.globals.len() == 2 && g.entities.len() == 2 && g.entities.as_slice()[0].value.borrow().fields.len() == 1 && g.entities.as_slice()[1].value.borrow().fields.len() == 2;
        check!(both(&one) && both(&two));
        // one list is changed in the first instance before the second is looked at
        let mut iso = Iso { defs: &df, seen: vec![], m: &m };
        for k in 0..SLOTS { match find(&one, k) { Some(v) => check!(iso.same(&d[k], &v)), None => check!(false) } }
        for (_, x) in &iso.seen { x.borrow_mut(mc).push_back(Value::Bool(true)); }
        let first = iso.seen;
        let mut iso = Iso { defs: &df, seen: vec![], m: &m };
        for k in 0..SLOTS { match find(&two, k) { Some(v) => check!(iso.same(&d[k], &v)), None => check!(false) } }
        check!(first.len() == iso.seen.len() && first.iter().all(|(_, x)| iso.seen.iter().all(|(_, y)| !Gc::ptr_eq(*x, *y))));
    });
}
/// entities start with their described looks and position
pub fn looks() {
    let m = media(any_int());
    let ints = choice(2) == 0;
    let g = |k: usize| if ints { any_int() / 4.0 } else { any_num() };
    let (x, y, scale) = (g(0), g(1), any_int() / 64.0);
    let turn = any_u16() as i16;
    let visible = any_bool();
    let (nc, active) = (choice(3), choice(4));
    let (color, want) = [((255, 0, 0, 255), (0.0, 100.0, 100.0, 0.0)), ((0, 0, 255, 0), (240.0, 100.0, 100.0, 100.0)), ((0, 0, 0, 255), (0.0, 0.0, 0.0, 0.0))][choice(3)];
    let which = choice(2);
    let title = [["Stage", "A"], ["a", "Stage"]][(active + which) & 1];
    let mut r = role(vec![], vec![entity(title[0]), entity(title[1])]);
    let en = &mut r.entities[which];
    en.pos = (x, y); en.scale = scale; en.heading = turn as f64; en.visible = visible; en.color = color;
    en.costumes = (0..nc).map(|k| VariableDefInit { def: vd(["c one", "c two"][k]), init: AV::Image(m.images[1 - k].clone()) }).collect();
    en.sounds = vec![VariableDefInit { def: vd("s"), init: AV::Audio(m.sounds[0].clone()) }];
    en.active_costume = if active == 3 { None } else { Some(active) };
    let (code, init, _, _) = match ByteCode::compile(&r) { Ok(x) => x, Err(_) => { check!(false); return } };
    cover!();
    let (code, sys) = (Rc::new(code), Sys::new());
    let iso = Iso { defs: &[], seen: vec![], m: &m };
    gc(|mc| {
        let g = globals_of(mc, &init, &code, &sys);
        let names: Vec<&str> = g.entities.iter().map(|x| x.0.as_str()).collect();
        check!(names == title);
        for k in 0..2 {
            let e = g.entities.as_slice()[k].value.borrow();
            check!(e.state.kind as usize == k && e.original.is_none() && e.name.as_str() == names[k]);
            let p = &e.state.props;
            if k != which {
                check!(p.pos.0.get() == 0.0 && p.pos.1.get() == 0.0 && p.heading.get() == 90.0 && p.size.get() == 100.0 && p.visible && e.costume.is_none() && e.costume_list.is_empty() && e.sound_list.is_empty());
                continue;
            }
            check!(bits(x, p.pos.0.get()) & bits(y, p.pos.1.get()) & (p.size.get() == scale * 100.0) & (p.visible == visible));
            check!(p.heading.get() == (turn as i32).rem_euclid(360) as f64);
            check!(p.pen_color_h.get() == want.0 && p.pen_color_s.get() == want.1 && p.pen_color_v.get() == want.2 && p.pen_color_t.get() == want.3);
            check!(!p.pen_down && p.pen_size.get() == 1.0 && p.tempo.get() == 60.0 && p.volume.get() == 100.0 && p.balance.get() == 0.0);
            let c = e.costume_list.as_slice();
            check!(c.len() == nc && (0..nc).all(|k| c[k].key.as_str() == ["c one", "c two"][k] && iso.image(1 - k, &c[k].value)));
            match &e.costume { Some(x) => check!(active < nc && Rc::ptr_eq(x, &c[active].value)), None => check!(active >= nc) }
            check!(e.sound_list.len() == 1 && e.sound_list.as_slice()[0].key.as_str() == "s" && e.sound_list.as_slice()[0].value.content == [9]);
        }
    });
}
/// numbers that are not finite are refused, wherever they are described
pub fn refused() {
    let v = any_f64();
    let mut r = role(vec![], vec![entity("Stage"), entity("A")]);
    let en = &mut r.entities[1];
    match choice(8) {
        0 => r.globals = vec![vi("g", AV::Number(v))],
        1 => en.fields = vec![vi("g", AV::List(vec![AV::List(vec![AV::Number(v)], None)], None))],
        2 => en.pos.0 = v,
        3 => en.pos.1 = v,
        4 => { assume(v.abs() < 1e300 || !v.is_finite()); en.scale = v }
        5 => { assume(!v.is_finite() || v == 7.0); en.heading = v }
        6 => en.costumes = vec![VariableDefInit { def: vd("c"), init: AV::Image(Rc::new((vec![], Some((v, 1.0)), "i".into()))) }],
        _ => en.costumes = vec![VariableDefInit { def: vd("c"), init: AV::Image(Rc::new((vec![], Some((1.0, v)), "i".into()))) }],
    }
    let ok = ByteCode::compile(&r).is_ok();
    cover!();
    check!(ok == v.is_finite());
}
harnesses!(values, looks, refused);
