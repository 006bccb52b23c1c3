//! Runs scripts of bit set operations against noodle's bitset module and records what it did.
//! Built with --cfg noodle_verif. One JSON case per stdin line, one record per line of the output file.
use noodle::bitset::{BitSet1D, BitSet2D, BitSet3D, BitSetRef, BitSetRef1D, BitSetRef2D, BitSetRefMut, BitSetRefMut1D};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A set of any dimension, with the sizes it was made with
#[derive(Clone)]
enum Set {
    One(BitSet1D),
    Two(BitSet2D, usize),
    Three(BitSet3D, usize, usize),
}
use Set::*;

fn new(d: &[usize], n: usize) -> Set {
    match d {
        [] => One(BitSet1D::new((), n)),
        [x] => Two(BitSet2D::new(*x, n), *x),
        [x, y] => Three(BitSet3D::new((*x, *y), n), *x, *y),
        _ => unreachable!(),
    }
}

/// A cell for writing, reached in one of several ways
fn cell_mut<R>(s: &mut Set, at: &[usize], via: u64, f: impl FnOnce(BitSetRefMut1D<'_>) -> R) -> R {
    match s {
        One(b) => f(if via % 2 == 0 { b.slice_mut(()) } else { b.borrow_mut() }),
        Two(b, _) => {
            if via % 2 == 0 {
                f(b.slice_mut(at[0]))
            } else {
                let mut r = b.borrow_mut();
                f(r.slice_mut(at[0]))
            }
        }
        Three(b, _, _) => match via % 3 {
            0 => f(b.slice_mut((at[0], at[1]))),
            1 => {
                let mut r = b.slice2d_mut(at[0]);
                f(r.slice_mut(at[1]))
            }
            _ => {
                let mut r = b.borrow_mut();
                let mut q = r.slice_mut(at[0]);
                f(q.slice_mut(at[1]))
            }
        },
    }
}

/// A cell for reading
fn cell<R>(s: &Set, at: &[usize], via: u64, f: impl FnOnce(BitSetRef1D<'_>) -> R) -> R {
    match s {
        One(b) => f(if via % 2 == 0 { b.slice(()) } else { b.borrow() }),
        Two(b, _) => {
            if via % 2 == 0 {
                f(b.slice(at[0]))
            } else {
                let r = b.borrow();
                f(r.slice(at[0]))
            }
        }
        Three(b, _, _) => match via % 3 {
            0 => f(b.slice((at[0], at[1]))),
            1 => {
                let r = b.slice2d(at[0]);
                f(r.slice(at[1]))
            }
            _ => {
                let r = b.borrow();
                let q = r.slice(at[0]);
                f(q.slice(at[1]))
            }
        },
    }
}

fn dump(s: &Set, via: u64) -> Value {
    let one = |at: &[usize]| -> Value { cell(s, at, via, |c| json!(c.ones().collect::<Vec<_>>())) };
    match s {
        One(_) => json!([one(&[])]),
        Two(_, x) => json!((0..*x).map(|i| one(&[i])).collect::<Vec<_>>()),
        Three(_, x, y) => json!((0..*x)
            .flat_map(|i| (0..*y).map(move |j| (i, j)))
            .map(|(i, j)| one(&[i, j]))
            .collect::<Vec<_>>()),
    }
}

fn pair<I: noodle::bitset::Index>(op: &str, mut a: BitSetRefMut<'_, I>, b: BitSetRef<'_, I>) -> Value {
    match op {
        "union" => a.union_with(b),
        "difference" => a.difference_with(b),
        "intersect" => a.intersect_with(b),
        "copy" => a.copy_from(b),
        "subset" => return json!(a.is_subset(b)),
        "subsetref" => return json!(a.reborrow().is_subset(&b)),
        "empty" => return json!(a.is_empty()),
        "emptyref" => return json!(a.reborrow().is_empty()),
        "clear" => a.clear(),
        o => panic!("unknown pair op {}", o),
    }
    json!(0)
}

fn indices(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()
}

/// Operations on views: whole sets, rows of a three-dimensional set, or cells
fn views(op: &str, a: &mut Set, at: &[usize], b: &Set, bt: &[usize], via: u64) -> Value {
    let whole_a = at.is_empty();
    let whole_b = bt.is_empty();
    // two-dimensional views
    let row_b: Option<BitSetRef2D<'_>> = match b {
        Two(x, _) if whole_b => Some(x.borrow()),
        Three(x, _, _) if bt.len() == 1 => Some(x.slice2d(bt[0])),
        _ => None,
    };
    match a {
        Three(x, _, _) if whole_a => match b {
            Three(y, _, _) => pair(op, x.borrow_mut(), y.borrow()),
            _ => unreachable!(),
        },
        Three(x, _, _) if at.len() == 1 => pair(op, x.slice2d_mut(at[0]), row_b.unwrap()),
        Two(x, _) if whole_a => pair(op, x.borrow_mut(), row_b.unwrap()),
        _ => cell(b, bt, via / 2, |c| cell_mut(a, at, via, |m| pair(op, m, c))),
    }
}

fn run(case: &Value) -> Value {
    let mut regs: Vec<Set> = case["regs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|r| new(&indices(&r["d"]), r["n"].as_u64().unwrap() as usize))
        .collect();
    let mut out = vec![];
    for o in case["ops"].as_array().unwrap() {
        let op = o["o"].as_str().unwrap();
        let r = o["r"].as_u64().unwrap() as usize;
        let at = indices(&o["at"]);
        let via = o["via"].as_u64().unwrap();
        let i = o["i"].as_u64().unwrap() as usize;
        let q = o["q"].as_u64().unwrap() as usize;
        let bt = indices(&o["bt"]);
        let got = match op {
            "insert" => cell_mut(&mut regs[r], &at, via, |mut c| {
                c.insert(i);
                json!(0)
            }),
            "remove" => cell_mut(&mut regs[r], &at, via, |mut c| {
                c.remove(i);
                json!(0)
            }),
            "contains" => cell(&regs[r], &at, via, |c| json!(c.contains(i))),
            "containsmut" => cell_mut(&mut regs[r], &at, via, |c| json!(c.contains(i))),
            "ones" => cell(&regs[r], &at, via, |c| json!(c.ones().collect::<Vec<_>>())),
            "onesmut" => cell_mut(&mut regs[r], &at, via, |c| json!(c.ones().collect::<Vec<_>>())),
            "equal" => match (&regs[r], &regs[q]) {
                (One(a), One(b)) => json!(a == b),
                (Two(a, _), Two(b, _)) => json!(a == b),
                (Three(a, _, _), Three(b, _, _)) => json!(a == b),
                _ => unreachable!(),
            },
            "clone" => {
                let c = match (&regs[r], via % 2) {
                    (One(a), 1) => One(a.borrow().to_bitset()),
                    (Two(a, x), 1) => Two(a.borrow().to_bitset(), *x),
                    (Three(a, x, y), 1) => Three(a.borrow().to_bitset(), *x, *y),
                    (a, _) => a.clone(),
                };
                regs[q] = c;
                json!(0)
            }
            "row" => {
                // the set a cell is, as one of its own
                let c = cell(&regs[r], &at, via, |c| c.to_bitset());
                regs[q] = One(c);
                json!(0)
            }
            "resize" => {
                let c = cell(&regs[r], &at, via, |c| c.resize(i));
                regs[q] = One(c);
                json!(0)
            }
            "compact" => {
                match &mut regs[r] {
                    Three(b, _, _) => b.compact_distance_set(at[0]),
                    _ => unreachable!(),
                }
                json!(0)
            }
            _ => {
                let b = regs[q].clone();
                views(op, &mut regs[r], &at, &b, &bt, via)
            }
        };
        let changed = if ["clone", "row", "resize"].contains(&op) { q } else { r };
        out.push(json!({"v": got, "dump": dump(&regs[changed], via)}));
    }
    let end: Vec<Value> = regs.iter().map(|s| dump(s, 0)).collect();
    json!({"steps": out, "end": end})
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let out = std::fs::File::create(std::env::args().nth(1).expect("output path")).unwrap();
    let mut out = std::io::BufWriter::new(out);
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).unwrap();
        let mut rec = match catch_unwind(AssertUnwindSafe(|| run(&case))) {
            Ok(v) => v,
            Err(p) => {
                let msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "?".into());
                json!({ "panic": msg })
            }
        };
        rec["id"] = case["id"].clone();
        writeln!(out, "{}", rec).unwrap();
        out.flush().unwrap();
    }
}
