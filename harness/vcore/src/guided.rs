//! The corpus and the mutations of the guided search

use std::collections::HashMap;
use std::sync::Mutex;

extern "C" {
    fn guided_start();
    fn guided_stop() -> u64;
    fn guided_forget();
    fn guided_base() -> usize;
    fn guided_classify(id: extern "C" fn(usize) -> u32) -> i32;
    fn guided_seen() -> u32;
}

struct Functions {
    /// start, end, whose (0 neither, 1 the checks, 2 the code under test), and a number that
    /// all instances of one generic function share
    all: Vec<(usize, usize, u32, u32)>,
    /// ids of edges, by function number and position in it
    ids: HashMap<(u32, u32), u32>,
    last: usize,
    position: u32,
}

static FUNCTIONS: Mutex<Option<Functions>> = Mutex::new(None);

/// The driver wrote down the functions of this program
fn functions() -> Functions {
    let text = std::fs::read_to_string(std::env::var("VERIF_GUIDED_MAP").unwrap()).unwrap();
    let all = text
        .lines()
        .map(|l| {
            let n: Vec<usize> = l.split(' ').map(|x| x.parse().unwrap()).collect();
            (n[0], n[1], n[2] as u32, n[3] as u32)
        })
        .collect();
    Functions { all, ids: HashMap::new(), last: usize::MAX, position: 0 }
}

/// 0 for an edge of neither, 1 for one of the checks, or the number of an edge
extern "C" fn edge_id(pc: usize) -> u32 {
    let mut f = FUNCTIONS.lock().unwrap();
    let f = f.as_mut().unwrap();
    let at = pc.wrapping_sub(unsafe { guided_base() });
    let i = f.all.partition_point(|x| x.0 <= at).wrapping_sub(1);
    let Some(x) = f.all.get(i).copied().filter(|x| at < x.1) else { return 0 };
    if f.last != i {
        (f.last, f.position) = (i, 0);
    }
    f.position += 1;
    if x.2 < 2 {
        return x.2;
    }
    let n = f.ids.len() as u32 + 2;
    *f.ids.entry((x.3, f.position)).or_insert(n)
}

const FRESH: usize = 1024;

pub struct Guide {
    x: u64,
    /// streams that took a new edge, and streams that only came closer in a comparison
    edges: Vec<Entry>,
    near: Vec<Entry>,
}

struct Entry {
    stream: Vec<u8>,
    picks: u32,
}

impl Guide {
    pub fn new(seed: u64) -> Guide {
        let first = FUNCTIONS.lock().unwrap().is_none();
        if first {
            *FUNCTIONS.lock().unwrap() = Some(functions());
            let edges = unsafe { guided_classify(edge_id) };
            eprintln!("{edges} edges");
        }
        unsafe { guided_forget() };
        Guide { x: seed, edges: Vec::new(), near: Vec::new() }
    }
    fn next(&mut self) -> u64 {
        self.x = self.x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    fn random(&mut self, n: usize) -> Vec<u8> {
        (0..n.div_ceil(8)).flat_map(|_| self.next().to_le_bytes()).take(n).collect()
    }
    fn pick(&mut self) -> (bool, usize) {
        let near = !self.near.is_empty() && self.next() & 3 == 0;
        let n = if near { self.near.len() } else { self.edges.len() };
        let newest = self.next() & 3 == 0;
        // what was not tried much yet
        let (mut best, mut least) = (0, u32::MAX);
        for _ in 0..4 {
            let i = if newest { n - 1 - self.below(n.min(64)) } else { self.below(n) };
            let e = if near { &self.near[i] } else { &self.edges[i] };
            if e.picks < least {
                (best, least) = (i, e.picks);
            }
        }
        (near, best)
    }
    fn entry(&mut self, (near, i): (bool, usize)) -> &mut Entry {
        if near { &mut self.near[i] } else { &mut self.edges[i] }
    }
    pub fn propose(&mut self) -> Vec<u8> {
        if self.edges.len() < 4 || self.next() % 32 == 0 {
            return self.random(FRESH);
        }
        let p = self.pick();
        let e = self.entry(p);
        e.picks += 1;
        let mut v = e.stream.clone();
        // draws are of 4 or 8 bytes, so most mutations respect that grid
        let n = if self.next() & 1 == 0 { 1 } else { 2 + self.below(4) };
        for _ in 0..n {
            let unit = if self.next() & 1 == 0 { 4 } else { 8 };
            let at = self.below(v.len() / 4 + 1) * 4;
            match self.below(10) {
                0 | 1 | 2 => {
                    let r = self.random(unit);
                    for (i, b) in r.into_iter().enumerate() {
                        if at + i < v.len() {
                            v[at + i] = b;
                        }
                    }
                }
                3 => {
                    let i = self.below(v.len());
                    let b = self.next() as u8;
                    if let Some(x) = v.get_mut(i) {
                        *x = b;
                    }
                }
                4 => {
                    let (i, d) = (self.below(v.len()), 1 << self.below(8));
                    let up = self.next() & 1 == 0;
                    if let Some(x) = v.get_mut(i) {
                        *x = if up { x.wrapping_add(d) } else { x.wrapping_sub(d) };
                    }
                }
                5 => {
                    let fill = if self.next() & 1 == 0 { 0 } else { 0xff };
                    for x in v.iter_mut().skip(at).take(unit) {
                        *x = fill;
                    }
                }
                6 => {
                    let n = self.below(4) * unit;
                    let end = (at + n).min(v.len());
                    v.drain(at.min(v.len())..end);
                }
                7 => {
                    let n = (1 + self.below(4)) * unit;
                    let r = self.random(n);
                    let at = at.min(v.len());
                    v.splice(at..at, r);
                }
                _ => {
                    // a part of another one, in the same place or somewhere else
                    let o = self.pick();
                    let o = self.entry(o).stream.clone();
                    let from = if self.next() & 1 == 0 { at } else { self.below(o.len() / 4 + 1) * 4 };
                    let n = (1 + self.below(16)) * 4;
                    if from < o.len() {
                        let part = o[from..(from + n).min(o.len())].to_vec();
                        let at = at.min(v.len());
                        let end = if self.next() & 3 == 0 { at } else { (at + part.len()).min(v.len()) };
                        v.splice(at..end, part);
                    }
                }
            }
        }
        v.truncate(1 << 16);
        let tail = self.random(256);
        v.extend(tail);
        v
    }
    pub fn start(&mut self) {
        unsafe { guided_start() }
    }
    /// how many new edges (in the upper half) and new closest comparisons there were
    pub fn stop(&mut self) -> u64 {
        unsafe { guided_stop() }
    }
    pub fn keep(&mut self, stream: Vec<u8>, new: u64) {
        let e = Entry { stream, picks: 0 };
        if new >> 32 > 0 {
            self.edges.push(e);
        } else if self.near.len() < 5000 {
            self.near.push(e);
        } else {
            let i = self.below(self.near.len());
            self.near[i] = e;
        }
    }
    pub fn kept(&self) -> u64 {
        (self.edges.len() + self.near.len()) as u64
    }
    pub fn edges_seen(&self) -> u64 {
        unsafe { guided_seen().into() }
    }
}
