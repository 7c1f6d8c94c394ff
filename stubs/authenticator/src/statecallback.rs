use std::sync::{Arc, Mutex};

pub struct StateCallback<T> {
    callback: Arc<Mutex<Option<Box<dyn FnOnce(T) + Send>>>>,
}
impl<T> StateCallback<T> {
    pub fn new(cb: Box<dyn FnOnce(T) + Send>) -> Self {
        Self { callback: Arc::new(Mutex::new(Some(cb))) }
    }
    pub fn call(&self, rv: T) {
        let cb = self.callback.lock().unwrap().take();
        if let Some(cb) = cb {
            cb(rv);
        }
    }
}
impl<T> Clone for StateCallback<T> {
    fn clone(&self) -> Self {
        Self { callback: self.callback.clone() }
    }
}
