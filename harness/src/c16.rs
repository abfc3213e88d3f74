//! C16: passes.
use crate::sym;
use koopa::ir::builder_traits::*;
use koopa::ir::*;
use koopa::opt::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

/// What happened.
enum Event {
    Module { id: usize, added: Vec<Function>, removed: Vec<Function> },
    Function { id: usize, f: Function },
}

/// What a pass does besides telling that it ran.
#[derive(Clone, Copy, PartialEq)]
enum Act {
    Nothing,
    /// module: adds a declaration and a definition
    Add,
    /// module: removes a function
    Remove,
    /// function: adds a block
    Block,
}

struct Probe {
    id: usize,
    act: Act,
    log: Rc<RefCell<Vec<Event>>>,
    /// how many blocks every function has
    blocks: Rc<RefCell<HashMap<Function, usize>>>,
    /// the state of the pass itself
    runs: Rc<RefCell<Vec<usize>>>,
    own: usize,
}

impl ModulePass for Probe {
    fn run_on(&mut self, p: &mut Program) {
        let mut blocks = self.blocks.borrow_mut();
        sym::check(p.funcs().len() == blocks.len(), "a module pass does not see the functions that there are");
        for (f, d) in p.funcs() {
            sym::check(
                blocks.get(f) == Some(&d.layout().bbs().len()),
                "a module pass does not see what passes before it did",
            );
        }
        let n = self.log.borrow().len();
        let (mut added, mut removed) = (vec![], vec![]);
        match self.act {
            Act::Add => {
                added.push(p.new_func(FunctionData::new_decl(format!("@d{}", n), vec![], Type::get_unit())));
                added.push(p.new_func(FunctionData::new(format!("@f{}", n), vec![], Type::get_unit())));
            }
            Act::Remove => {
                if let Some(f) = p.func_layout().first().copied() {
                    p.remove_func(f);
                    removed.push(f);
                }
            }
            _ => {}
        }
        for f in &added {
            blocks.insert(*f, 0);
        }
        for f in &removed {
            blocks.remove(f);
        }
        self.own += 1;
        self.runs.borrow_mut()[self.id] += 1;
        sym::check(self.own == self.runs.borrow()[self.id], "a pass does not keep its state");
        self.log.borrow_mut().push(Event::Module { id: self.id, added, removed });
    }
}

impl FunctionPass for Probe {
    fn run_on(&mut self, f: Function, d: &mut FunctionData) {
        let mut blocks = self.blocks.borrow_mut();
        sym::check(blocks.contains_key(&f), "a function pass is given a function that is not in the program");
        sym::check(
            blocks[&f] == d.layout().bbs().len(),
            "a function pass gets other data, or does not see what passes before it did",
        );
        if self.act == Act::Block {
            let b = d.dfg_mut().new_bb().basic_block(None);
            d.layout_mut().bbs_mut().extend([b]);
            *blocks.get_mut(&f).unwrap() += 1;
        }
        self.own += 1;
        self.runs.borrow_mut()[self.id] += 1;
        sym::check(self.own == self.runs.borrow()[self.id], "a pass does not keep its state");
        self.log.borrow_mut().push(Event::Function { id: self.id, f });
    }
}

fn passes(n: usize) {
    let nf = sym::pick(4);
    let kinds: Vec<usize> = (0..sym::pick(n + 1)).map(|_| sym::pick(5)).collect();
    let l = kinds.len() as u32;
    run(nf, kinds);
    sym::reach(l);
}

/// Many passes of one sort, one of them of another sort, over many functions.
fn pass_many() {
    let nf = [5, 9, 33][sym::pick(3)];
    let m = [5, 9, 17][sym::pick(3)];
    let (most, one) = (sym::pick(5), sym::pick(5));
    let at = [0, 1, m / 2, m - 1][sym::pick(4)];
    let kinds = (0..m).map(|i| if i == at { one } else { most }).collect();
    run(nf, kinds);
    sym::reach(0);
}

fn run(nf: usize, kinds: Vec<usize>) {
    let mut p = Program::new();
    let blocks = Rc::new(RefCell::new(HashMap::new()));
    // the functions differ in their number of blocks
    for i in 0..nf {
        let f = if i % 4 == 1 {
            p.new_func(FunctionData::new_decl("@d".into(), vec![Type::get_i32()], Type::get_i32()))
        } else {
            p.new_func(FunctionData::new(format!("@g{}", i), vec![], Type::get_unit()))
        };
        if i % 4 != 1 {
            for _ in 0..=i % 7 {
                let b = p.func_mut(f).dfg_mut().new_bb().basic_block(None);
                p.func_mut(f).layout_mut().bbs_mut().extend([b]);
            }
        }
        blocks.borrow_mut().insert(f, p.func(f).layout().bbs().len());
    }
    let log = Rc::new(RefCell::new(vec![]));
    let runs = Rc::new(RefCell::new(vec![0; kinds.len()]));
    let make = |id: usize, k: usize| {
        let act = [Act::Nothing, Act::Add, Act::Remove, Act::Nothing, Act::Block][k];
        let q = Box::new(Probe { id, act, log: log.clone(), blocks: blocks.clone(), runs: runs.clone(), own: 0 });
        if k < 3 {
            Pass::Module(q)
        } else {
            Pass::Function(q)
        }
    };
    let mut all = kinds.iter().enumerate().map(|(i, k)| make(i, *k));
    let mut pm = match sym::pick(3) {
        0 => PassManager::from(all.by_ref().collect::<Vec<_>>()),
        1 => PassManager::new(),
        _ => PassManager::from(all.by_ref().take(1).collect::<Vec<_>>()),
    };
    for q in all {
        pm.register(q);
    }
    for _ in 0..1 + sym::pick(2) {
        let mut now = p.func_layout().to_vec();
        pm.run_passes(&mut p);
        let log = std::mem::take(&mut *log.borrow_mut());
        let mut log = log.iter().peekable();
        for (i, k) in kinds.iter().enumerate() {
            if *k < 3 {
                match log.next() {
                    Some(Event::Module { id, added, removed }) => {
                        sym::check(*id == i, "passes run out of turn");
                        now.extend(added);
                        now.retain(|f| !removed.contains(f));
                    }
                    _ => sym::check(false, "a module pass does not run in its turn"),
                }
            } else {
                let mut seen = vec![];
                while let Some(Event::Function { id, f }) = log.peek() {
                    if *id != i {
                        break;
                    }
                    sym::check(!seen.contains(f), "a function pass runs twice on one function");
                    seen.push(*f);
                    log.next();
                }
                sym::check(
                    seen.len() == now.len() && now.iter().all(|f| seen.contains(f)),
                    "a function pass does not run on every function in its turn",
                );
            }
        }
        sym::check(log.next().is_none(), "a pass runs too often or out of turn");
        sym::check(p.func_layout() == &now[..], "another list of functions");
        sym::check(p.funcs().len() == now.len(), "another number of functions");
        for (f, d) in p.funcs() {
            sym::check(blocks.borrow()[f] == d.layout().bbs().len(), "what a pass did is lost");
        }
    }
}

fn pass_runs() {
    passes(3)
}
fn pass_runs4() {
    passes(4)
}

crate::harnesses! {
    pass_runs pass_runs4 pass_many
}
