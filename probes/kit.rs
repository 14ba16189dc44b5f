#![allow(warnings)]
//! Shared by the probes of the runtime: enumeration, and the lines the checker reads.
pub mod kit {
    use std::cell::RefCell;
    use std::panic::{catch_unwind, AssertUnwindSafe};
    thread_local! { static PANIC: RefCell<String> = RefCell::new(String::new()); static NV: RefCell<usize> = RefCell::new(0); }
    pub fn esc(s: &str) -> String { s.chars().flat_map(|c| c.escape_default()).collect() }
    fn line(s: &str) -> String { s.replace('\t', "\\t").replace('\n', "\\n").replace('\r', "\\r") }
    pub fn viol(key: &str, what: &str) {
        let n = NV.with(|n| { *n.borrow_mut() += 1; *n.borrow() });
        if n <= 40 { println!("V\t{}\t{}", line(key), line(what)); }
    }
    pub fn stat(k: &str, n: u64) { println!("N\t{}\t{}", k, n) }
    pub fn sample(s: &str) { println!("S\t{}", line(s)) }
    /// What is running, if the probe dies.
    pub fn at(s: &str) { use std::io::Write; println!("P\t{}", line(s)); std::io::stdout().flush().unwrap() }
    pub fn words(alpha: &[&str], n: usize) -> Vec<String> {
        let mut r = vec![String::new()];
        let mut last = r.clone();
        for _ in 0..n {
            let mut next = vec![];
            for w in &last { for a in alpha { next.push(format!("{}{}", w, a)); } }
            r.extend(next.iter().cloned());
            last = next;
        }
        r
    }
    pub fn quiet() { std::panic::set_hook(Box::new(|i| PANIC.with(|p| *p.borrow_mut() = format!("{}", i).replace('\n', " ")))); }
    /// None if f panics.
    pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
        catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
    }
    /// (shard, number of shards, thorough)
    pub fn args() -> (usize, usize, bool) {
        let a: Vec<String> = std::env::args().collect();
        (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3] == "1")
    }
    pub fn mine<T: Clone>(v: Vec<T>) -> Vec<T> {
        let (i, n, _) = args();
        v.into_iter().enumerate().filter(|(k, _)| k % n == i).map(|x| x.1).collect()
    }
    pub fn end() { println!("END"); }
}
use kit::*;
