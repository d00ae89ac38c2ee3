//! A choice tree small enough for an interpreter; the same interface as the
//! explorer of ../mc.

/// The answers of one execution.
#[derive(Default)]
pub struct Ctx {
    /// answer and number of alternatives
    path: Vec<(usize, usize)>,
    at: usize,
    budget: usize,
    left: usize,
    /// answers given so far, in all executions
    pub steps: u64,
}

impl Ctx {
    fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if self.at == self.path.len() {
            self.path.push((0, n));
        }
        let (k, m) = self.path[self.at];
        assert!(m == n || m == GIVEN, "the execution does not depend on its choices alone");
        assert!(k < n, "there is no such execution");
        self.at += 1;
        self.steps += 1;
        k
    }
    /// All of n alternatives.
    pub fn pick(&mut self, n: usize) -> usize {
        self.choose(n)
    }
    /// Alternative 0, or one of the others at the cost of a deviation.
    pub fn dev(&mut self, n: usize) -> usize {
        if self.left == 0 || n < 2 {
            return 0;
        }
        let k = self.choose(n);
        if k > 0 {
            self.left -= 1;
        }
        k
    }
    fn start(&mut self) {
        self.at = 0;
        self.left = self.budget;
    }
    /// Go to the next execution.
    fn next(&mut self) -> bool {
        assert_eq!(self.at, self.path.len(), "the execution does not depend on its choices alone");
        while let Some((k, n)) = self.path.pop() {
            if k + 1 < n {
                self.path.push((k + 1, n));
                return true;
            }
        }
        false
    }
    pub fn name(&self) -> String {
        let v: Vec<String> = self.path.iter().map(|p| p.0.to_string()).collect();
        if v.is_empty() {
            "-".into()
        } else {
            v.join(".")
        }
    }
}

/// Run a task once for every sequence of answers.
pub fn explore(budget: usize, mut each: impl FnMut(&mut Ctx), mut done: impl FnMut(&Ctx)) -> u64 {
    let mut c = Ctx { budget, ..Ctx::default() };
    loop {
        c.start();
        each(&mut c);
        done(&c);
        if !c.next() {
            return c.steps;
        }
    }
}

/// Run a task once, with given answers.
pub fn replay(budget: usize, name: &str, mut each: impl FnMut(&mut Ctx)) {
    let mut c = Ctx { budget, ..Ctx::default() };
    if name != "-" {
        c.path = name.split('.').map(|k| (k.parse().expect("a number"), GIVEN)).collect();
    }
    c.start();
    each(&mut c);
}
/// The number of alternatives of an answer which was given.
const GIVEN: usize = usize::MAX;
