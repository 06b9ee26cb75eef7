//! A language server built from the real driver, with both ends of its
//! connection in the hands of the harness.
use crossbeam_channel::{unbounded, Receiver, Sender};
use sync_ls::*;

pub struct Out {
    pub lsp: Receiver<Message>,
    pub event: Receiver<Event>,
}

/// A connection whose far ends the harness keeps. The private marker has no
/// size, so writing the two channels initializes the value.
pub fn tx<M>(lsp: Sender<Message>, event: Sender<Event>) -> TConnectionTx<M> {
    let mut c = std::mem::MaybeUninit::<TConnectionTx<M>>::uninit();
    unsafe {
        std::ptr::addr_of_mut!((*c.as_mut_ptr()).event).write(event);
        std::ptr::addr_of_mut!((*c.as_mut_ptr()).lsp).write(lsp);
        c.assume_init()
    }
}
pub fn rx<M>(lsp: Receiver<Message>, event: Receiver<Event>) -> TConnectionRx<M> {
    let mut c = std::mem::MaybeUninit::<TConnectionRx<M>>::uninit();
    unsafe {
        std::ptr::addr_of_mut!((*c.as_mut_ptr()).event).write(event);
        std::ptr::addr_of_mut!((*c.as_mut_ptr()).lsp).write(lsp);
        c.assume_init()
    }
}

pub fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().build().unwrap()
}

pub fn client<M: TryFrom<Message, Error = anyhow::Error> + GetMessageKind>(
    rt: &tokio::runtime::Runtime,
) -> (LspClientRoot, Out) {
    let (l, lr) = unbounded();
    let (e, er) = unbounded();
    (
        LspClientRoot::new::<M>(rt.handle().clone(), tx(l, e)),
        Out { lsp: lr, event: er },
    )
}
