//! `ctrlc` with signals delivered by the simulator. One world is one process.
use std::any::Any;
use std::fmt;
use std::sync::{Arc, Mutex};

#[derive(Debug)]
pub enum Error {
    NoSuchSignal(i32),
    MultipleHandlers,
    System(std::io::Error),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(match self {
            Error::NoSuchSignal(_) => "Ctrl-C error: Signal could not be found from the system",
            Error::MultipleHandlers => "Ctrl-C error: Ctrl-C signal handler already registered",
            Error::System(_) => "Ctrl-C error: Unexpected system error",
        })
    }
}
impl std::error::Error for Error {}

type Handler = Arc<Mutex<Box<dyn FnMut() + Send>>>;

/// World extension holding the registered handler.
#[derive(Default)]
pub struct Registry {
    handler: Mutex<Option<Handler>>,
}

fn registry() -> Arc<Registry> {
    let w = simcore::world();
    let mut u = w.user.lock().unwrap();
    if let Some(r) = u.as_ref() {
        if let Ok(r) = Arc::downcast::<Registry>(r.clone() as Arc<dyn Any + Send + Sync>) {
            return r;
        }
    }
    let r = Arc::new(Registry::default());
    *u = Some(r.clone());
    r
}

pub fn set_handler<F>(user_handler: F) -> Result<(), Error>
where
    F: FnMut() + 'static + Send,
{
    let r = registry();
    let mut h = r.handler.lock().unwrap();
    if h.is_some() {
        return Err(Error::MultipleHandlers);
    }
    *h = Some(Arc::new(Mutex::new(Box::new(user_handler))));
    Ok(())
}

pub fn try_set_handler<F>(user_handler: F) -> Result<(), Error>
where
    F: FnMut() + 'static + Send,
{
    set_handler(user_handler)
}

pub fn sim_has_handler() -> bool {
    registry().handler.lock().unwrap().is_some()
}

/// Delivers SIGINT: the handler runs on the signal thread. Returns false when the default action (death) applies.
pub fn sim_deliver() -> bool {
    let r = registry();
    let h = r.handler.lock().unwrap().clone();
    match h {
        Some(h) => {
            simcore::world().spawn_thread(move || (h.lock().unwrap())());
            true
        }
        None => false,
    }
}
