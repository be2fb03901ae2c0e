use std::ops::Deref;
pub struct Rc<T>(*mut T);
impl<T> Rc<T> {
    pub fn new(v: T) -> Rc<T> { Rc(Box::into_raw(Box::new(v))) }
    pub fn ptr_eq(a: &Rc<T>, b: &Rc<T>) -> bool { a.0 == b.0 }
    pub fn clone(a: &Rc<T>) -> Rc<T> { Rc(a.0) }
}
impl<T> Clone for Rc<T> { fn clone(&self) -> Rc<T> { Rc(self.0) } }
impl<T> Deref for Rc<T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0 } } }
impl<T: std::fmt::Debug> std::fmt::Debug for Rc<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { (**self).fmt(f) } }
