//! Signature-level stand-in for `dyn-clone`.
#![no_std]
extern crate alloc;
use alloc::boxed::Box;
pub trait DynClone {
    #[doc(hidden)]
    fn __clone_box(&self) -> *mut ();
}
impl<T: Clone> DynClone for T {
    fn __clone_box(&self) -> *mut () {
        Box::into_raw(Box::new(self.clone())) as *mut ()
    }
}
pub fn clone_box<T: ?Sized + DynClone>(t: &T) -> Box<T> {
    let mut fat_ptr = t as *const T;
    unsafe {
        let data_ptr = &mut fat_ptr as *mut *const T as *mut *mut ();
        *data_ptr = <T as DynClone>::__clone_box(t);
        Box::from_raw(fat_ptr as *mut T)
    }
}
