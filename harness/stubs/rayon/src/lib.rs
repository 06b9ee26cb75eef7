//! Stands in for rayon: a spawned task waits until the harness runs it, in the
//! order of spawning.
use std::sync::Mutex;

type Task = Box<dyn FnOnce() + Send>;
static TASKS: Mutex<Vec<Task>> = Mutex::new(Vec::new());

pub fn spawn(f: impl FnOnce() + Send + 'static) {
    TASKS.lock().unwrap().push(Box::new(f));
}
/// Runs the first of the waiting tasks; whether there was one.
pub fn run_one() -> bool {
    run_at(0)
}
/// How many tasks wait.
pub fn waiting() -> usize {
    TASKS.lock().unwrap().len()
}
/// Runs one of the waiting tasks; whether there was one.
pub fn run_at(n: usize) -> bool {
    let task = {
        let mut all = TASKS.lock().unwrap();
        if n >= all.len() {
            return false;
        }
        all.remove(n)
    };
    task();
    true
}
pub struct Scope<'scope>(std::marker::PhantomData<&'scope ()>);
impl<'scope> Scope<'scope> {
    pub fn spawn(&self, f: impl FnOnce(&Scope<'scope>) + Send + 'scope) {
        f(self)
    }
}
pub fn in_place_scope<'scope, R>(op: impl FnOnce(&Scope<'scope>) -> R) -> R {
    op(&Scope(std::marker::PhantomData))
}
