//! A JACK server in the process, driven by the explorer (`mc`). The types have the interface of jack 0.13.
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

pub type Frames = u32;
pub type PortId = u32;
#[derive(Debug)]
#[non_exhaustive]
pub enum Error {
    ClientError(ClientStatus),
    PortRegistrationError(String),
    InvalidDeactivation,
    ClientActivationError,
    ClientDeactivationError,
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub struct ClientStatus(u32);
#[derive(Copy, Clone, Debug, Eq, PartialEq, Default)]
pub struct ClientOptions(u32);
impl ClientOptions {
    pub const NO_START_SERVER: Self = Self(1);
    pub const USE_EXACT_NAME: Self = Self(2);
    pub const fn empty() -> Self {
        Self(0)
    }
}
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum Control {
    Continue,
    Quit,
}
pub trait NotificationHandler: Send {
    fn thread_init(&self, _: &Client) {}
    /// # Safety
    /// called by the server
    unsafe fn shutdown(&mut self, _status: ClientStatus, _reason: &str) {}
    fn freewheel(&mut self, _: &Client, _: bool) {}
    fn sample_rate(&mut self, _: &Client, _: Frames) -> Control {
        Control::Continue
    }
    fn client_registration(&mut self, _: &Client, _: &str, _: bool) {}
    fn port_registration(&mut self, _: &Client, _: PortId, _: bool) {}
    fn port_rename(&mut self, _: &Client, _: PortId, _: &str, _: &str) -> Control {
        Control::Continue
    }
    fn ports_connected(&mut self, _: &Client, _: PortId, _: PortId, _: bool) {}
    fn graph_reorder(&mut self, _: &Client) -> Control {
        Control::Continue
    }
    fn xrun(&mut self, _: &Client) -> Control {
        Control::Continue
    }
}
pub trait ProcessHandler: Send {
    const SLOW_SYNC: bool = false;
    fn process(&mut self, _: &Client, _: &ProcessScope) -> Control;
    fn buffer_size(&mut self, _: &Client, _: Frames) -> Control {
        Control::Continue
    }
}
impl NotificationHandler for () {}
impl ProcessHandler for () {
    fn process(&mut self, _: &Client, _: &ProcessScope) -> Control {
        Control::Continue
    }
}
struct Buffer(std::cell::UnsafeCell<Vec<f32>>);
// used by one thread at a time
unsafe impl Send for Buffer {}
unsafe impl Sync for Buffer {}
struct Reg {
    name: String,
    input: bool,
    buffer: Arc<Buffer>,
}
#[derive(Default)]
struct Server {
    rate: u32,
    size: u32,
    /// ports and callback of every client
    clients: Vec<Rc<Conn>>,
}
#[derive(Default)]
struct Conn {
    open: Cell<bool>,
    ports: RefCell<Vec<Reg>>,
    callback: RefCell<Option<Box<dyn FnMut(&ProcessScope) -> Control>>>,
}
thread_local! {
    static SERVER: RefCell<Server> = RefCell::new(Server::default());
}
fn conn(i: usize) -> Option<Rc<Conn>> {
    SERVER.with(|s| s.borrow().clients.get(i).cloned())
}
pub trait PortSpec: Sized {
    const INPUT: bool;
}
#[derive(Copy, Clone, Debug, Default)]
pub struct AudioIn {
    _p: (),
}
#[derive(Copy, Clone, Debug, Default)]
pub struct AudioOut {
    _p: (),
}
impl PortSpec for AudioIn {
    const INPUT: bool = true;
}
impl PortSpec for AudioOut {
    const INPUT: bool = false;
}
pub struct Port<PS> {
    name: String,
    buffer: Arc<Buffer>,
    spec: PS,
}
impl<PS> Port<PS> {
    pub fn spec(&self) -> &PS {
        &self.spec
    }
    pub fn name(&self) -> Result<String, Error> {
        Ok(self.name.clone())
    }
}
impl Port<AudioIn> {
    pub fn as_slice<'a>(&'a self, ps: &'a ProcessScope) -> &'a [f32] {
        unsafe { &(&*self.buffer.0.get())[..ps.n as usize] }
    }
}
impl Port<AudioOut> {
    pub fn as_mut_slice<'a>(&'a mut self, ps: &'a ProcessScope) -> &'a mut [f32] {
        unsafe { &mut (&mut *self.buffer.0.get())[..ps.n as usize] }
    }
}
pub struct ProcessScope {
    n: Frames,
}
impl ProcessScope {
    pub fn n_frames(&self) -> Frames {
        self.n
    }
}
pub struct Client {
    id: usize,
    name: String,
    /// a second reference to the same client for the callback
    alias: bool,
}
impl Drop for Client {
    fn drop(&mut self) {
        if !self.alias
            && let Some(c) = conn(self.id)
        {
            c.open.set(false);
            let f = c.callback.borrow_mut().take();
            drop(f);
        }
    }
}
impl Client {
    pub fn new(name: &str, _: ClientOptions) -> Result<(Self, ClientStatus), Error> {
        SERVER.with(|s| {
            let mut s = s.borrow_mut();
            let c = Conn::default();
            c.open.set(true);
            s.clients.push(Rc::new(c));
            Ok((Client { id: s.clients.len() - 1, name: name.into(), alias: false }, ClientStatus(0)))
        })
    }
    pub fn name(&self) -> &str {
        &self.name
    }
    pub fn sample_rate(&self) -> usize {
        SERVER.with(|s| s.borrow().rate as usize)
    }
    pub fn buffer_size(&self) -> Frames {
        SERVER.with(|s| s.borrow().size)
    }
    pub fn register_port<PS: PortSpec>(&self, name: &str, spec: PS) -> Result<Port<PS>, Error> {
        let c = conn(self.id).unwrap();
        if c.ports.borrow().iter().any(|p| p.name == name) {
            return Err(Error::PortRegistrationError(name.into()));
        }
        let buffer = Arc::new(Buffer(std::cell::UnsafeCell::new(vec![0.0; self.buffer_size() as usize])));
        c.ports.borrow_mut().push(Reg { name: name.into(), input: PS::INPUT, buffer: buffer.clone() });
        Ok(Port { name: name.into(), buffer, spec })
    }
    pub fn unregister_port<PS>(&self, port: Port<PS>) -> Result<(), Error> {
        conn(self.id).unwrap().ports.borrow_mut().retain(|p| p.name != port.name);
        Ok(())
    }
    pub fn activate_async<N, P>(self, notification_handler: N, process_handler: P) -> Result<AsyncClient<N, P>, Error>
    where
        N: 'static + Send + Sync + NotificationHandler,
        P: 'static + Send + ProcessHandler,
    {
        AsyncClient::new(self, notification_handler, process_handler)
    }
}
pub struct AsyncClient<N, P> {
    client: Option<Client>,
    handlers: Arc<Mutex<Option<(N, P)>>>,
}
unsafe impl<N, P> Send for AsyncClient<N, P> {}
unsafe impl<N, P> Sync for AsyncClient<N, P> {}
impl<N, P> AsyncClient<N, P>
where
    N: 'static + Send + Sync + NotificationHandler,
    P: 'static + Send + ProcessHandler,
{
    pub fn new(client: Client, n: N, p: P) -> Result<Self, Error> {
        n.thread_init(&client);
        let handlers = Arc::new(Mutex::new(Some((n, p))));
        let h = handlers.clone();
        let alias = Client { id: client.id, name: client.name.clone(), alias: true };
        *conn(client.id).unwrap().callback.borrow_mut() = Some(Box::new(move |ps| match &mut *h.lock().unwrap() {
            Some((_, p)) => p.process(&alias, ps),
            None => Control::Quit,
        }));
        Ok(AsyncClient { client: Some(client), handlers })
    }
}
impl<N, P> AsyncClient<N, P> {
    pub fn as_client(&self) -> &Client {
        self.client.as_ref().unwrap()
    }
    pub fn deactivate(mut self) -> Result<(Client, N, P), Error> {
        let client = self.client.take().unwrap();
        let c = conn(client.id).unwrap();
        let f = c.callback.borrow_mut().take();
        drop(f);
        let (n, p) = self.handlers.lock().unwrap().take().ok_or(Error::ClientDeactivationError)?;
        Ok((client, n, p))
    }
}
/// What the explorer does
pub mod mc {
    use super::*;
    pub fn server(rate: u32, size: u32) {
        let old = SERVER.with(|s| std::mem::replace(&mut *s.borrow_mut(), Server { rate, size, clients: vec![] }));
        for c in &old.clients {
            let f = c.callback.borrow_mut().take();
            drop(f);
        }
    }
    /// Clients that process
    pub fn active() -> usize {
        SERVER.with(|s| s.borrow().clients.iter().filter(|c| c.callback.borrow().is_some()).count())
    }
    /// Call the active clients with these samples on their input ports, in the order of registration; the samples of
    /// all their output ports, by name.
    pub fn cycle(inputs: impl Fn(usize) -> Vec<f32>, fill: f32) -> Vec<(String, Vec<f32>)> {
        let (clients, size) = SERVER.with(|s| (s.borrow().clients.clone(), s.borrow().size));
        let mut out = vec![];
        for c in clients {
            if c.callback.borrow().is_none() {
                continue;
            }
            let mut n = 0;
            for p in c.ports.borrow().iter() {
                let b = unsafe { &mut *p.buffer.0.get() };
                if p.input {
                    b.copy_from_slice(&inputs(n));
                    n += 1;
                } else {
                    b.fill(fill);
                }
            }
            let mut f = c.callback.borrow_mut().take().unwrap();
            if f(&ProcessScope { n: size }) == Control::Continue {
                *c.callback.borrow_mut() = Some(f);
            }
            for p in c.ports.borrow().iter().filter(|p| !p.input) {
                out.push((p.name.clone(), unsafe { (*p.buffer.0.get()).clone() }));
            }
        }
        out
    }
}
