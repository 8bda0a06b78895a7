//! What `std::os::windows` has.
pub fn last_os_error() -> std::io::Error {
    let e = crate::sim::last_error();
    // As std on Windows would classify it.
    std::io::Error::from_raw_os_error(match e {
        258 => 110,   // WAIT_TIMEOUT: TimedOut
        10022 => 22,  // WSAEINVAL: InvalidInput
        87 => 22,     // ERROR_INVALID_PARAMETER: InvalidInput
        e => e as i32,
    })
}

pub mod io {
    use std::marker::PhantomData;
    pub type RawHandle = *mut std::ffi::c_void;
    pub type RawSocket = u64;

    #[derive(Clone, Copy, Debug)]
    pub struct BorrowedHandle<'a>(RawHandle, PhantomData<&'a ()>);
    #[derive(Clone, Copy, Debug)]
    pub struct BorrowedSocket<'a>(RawSocket, PhantomData<&'a ()>);

    impl BorrowedHandle<'_> {
        pub const unsafe fn borrow_raw(h: RawHandle) -> Self {
            BorrowedHandle(h, PhantomData)
        }
    }
    impl BorrowedSocket<'_> {
        pub const unsafe fn borrow_raw(h: RawSocket) -> Self {
            BorrowedSocket(h, PhantomData)
        }
    }
    pub trait AsRawHandle {
        fn as_raw_handle(&self) -> RawHandle;
    }
    pub trait AsRawSocket {
        fn as_raw_socket(&self) -> RawSocket;
    }
    pub trait AsHandle {
        fn as_handle(&self) -> BorrowedHandle<'_>;
    }
    pub trait AsSocket {
        fn as_socket(&self) -> BorrowedSocket<'_>;
    }
    impl AsRawHandle for BorrowedHandle<'_> {
        fn as_raw_handle(&self) -> RawHandle {
            self.0
        }
    }
    impl AsHandle for BorrowedHandle<'_> {
        fn as_handle(&self) -> BorrowedHandle<'_> {
            *self
        }
    }
    impl AsRawSocket for BorrowedSocket<'_> {
        fn as_raw_socket(&self) -> RawSocket {
            self.0
        }
    }
    impl AsSocket for BorrowedSocket<'_> {
        fn as_socket(&self) -> BorrowedSocket<'_> {
            *self
        }
    }
    impl<T: AsHandle + ?Sized> AsHandle for &T {
        fn as_handle(&self) -> BorrowedHandle<'_> {
            (**self).as_handle()
        }
    }
    impl<T: AsSocket + ?Sized> AsSocket for &T {
        fn as_socket(&self) -> BorrowedSocket<'_> {
            (**self).as_socket()
        }
    }
}

pub mod prelude {
    pub use super::io::*;
}
