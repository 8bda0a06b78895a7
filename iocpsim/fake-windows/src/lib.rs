//! The parts of windows-sys and of std::os::windows that polling uses, on a simulated system (`sim`).
#![allow(non_snake_case, non_camel_case_types, clippy::all)]
pub mod os;
pub mod sim;

pub mod core {
    pub type PCWSTR = *const u16;
    pub type PCSTR = *const u8;
}

pub mod Wdk {
    pub mod Foundation {
        use crate::Win32::Foundation::{HANDLE, UNICODE_STRING};
        #[repr(C)]
        #[derive(Clone, Copy)]
        pub struct OBJECT_ATTRIBUTES {
            pub Length: u32,
            pub RootDirectory: HANDLE,
            pub ObjectName: *mut UNICODE_STRING,
            pub Attributes: u32,
            pub SecurityDescriptor: *mut std::ffi::c_void,
            pub SecurityQualityOfService: *mut std::ffi::c_void,
        }
    }
    pub mod Storage {
        pub mod FileSystem {
            pub const FILE_OPEN: u32 = 1;
        }
    }
}

pub mod Win32 {
    pub mod Foundation {
        pub type BOOL = i32;
        pub type BOOLEAN = u8;
        pub type HANDLE = *mut std::ffi::c_void;
        pub type HMODULE = *mut std::ffi::c_void;
        pub type NTSTATUS = i32;
        pub type WIN32_ERROR = u32;
        pub type FARPROC = Option<unsafe extern "system" fn() -> isize>;
        pub const ERROR_INVALID_HANDLE: WIN32_ERROR = 6;
        pub const ERROR_INVALID_PARAMETER: WIN32_ERROR = 87;
        pub const ERROR_IO_PENDING: WIN32_ERROR = 997;
        pub const WAIT_TIMEOUT: u32 = 258;
        pub const INVALID_HANDLE_VALUE: HANDLE = -1i32 as isize as _;
        pub const STATUS_SUCCESS: NTSTATUS = 0;
        pub const STATUS_PENDING: NTSTATUS = 0x103;
        pub const STATUS_CANCELLED: NTSTATUS = 0xC0000120_u32 as _;
        pub const STATUS_NOT_FOUND: NTSTATUS = 0xC0000225_u32 as _;
        pub const STATUS_INVALID_HANDLE: NTSTATUS = 0xC0000008_u32 as _;
        pub const STATUS_INSUFFICIENT_RESOURCES: NTSTATUS = 0xC000009A_u32 as _;
        #[repr(C)]
        #[derive(Clone, Copy)]
        pub struct UNICODE_STRING {
            pub Length: u16,
            pub MaximumLength: u16,
            pub Buffer: *mut u16,
        }
        pub use crate::sim::CloseHandle;
    }
    pub mod Networking {
        pub mod WinSock {
            pub type SOCKET = usize;
            pub const SIO_BASE_HANDLE: u32 = 1207959586;
            pub const SIO_BSP_HANDLE_POLL: u32 = 1207959581;
            pub const SOCKET_ERROR: i32 = -1;
            pub use crate::sim::WSAIoctl;
        }
    }
    pub mod Storage {
        pub mod FileSystem {
            pub const FILE_SHARE_READ: u32 = 1;
            pub const FILE_SHARE_WRITE: u32 = 2;
            pub const SYNCHRONIZE: u32 = 1048576;
            pub use crate::sim::SetFileCompletionNotificationModes;
        }
    }
    pub mod System {
        pub mod LibraryLoader {
            pub use crate::sim::{GetModuleHandleW, GetProcAddress};
        }
        pub mod Threading {
            pub const INFINITE: u32 = u32::MAX;
            pub const WT_EXECUTEINWAITTHREAD: u32 = 4;
            pub const WT_EXECUTELONGFUNCTION: u32 = 16;
            pub const WT_EXECUTEONLYONCE: u32 = 8;
            pub type WAITORTIMERCALLBACK = Option<unsafe extern "system" fn(*mut std::ffi::c_void, u8)>;
            pub use crate::sim::{RegisterWaitForSingleObject, UnregisterWait, UnregisterWaitEx};
        }
        pub mod WindowsProgramming {
            pub const FILE_SKIP_COMPLETION_PORT_ON_SUCCESS: u32 = 1;
            pub const FILE_SKIP_SET_EVENT_ON_HANDLE: u32 = 2;
        }
        pub mod IO {
            use crate::Win32::Foundation::{HANDLE, NTSTATUS};
            use std::ffi::c_void;
            #[repr(C)]
            #[derive(Clone, Copy)]
            pub struct IO_STATUS_BLOCK {
                pub Anonymous: IO_STATUS_BLOCK_0,
                pub Information: usize,
            }
            #[repr(C)]
            #[derive(Clone, Copy)]
            pub union IO_STATUS_BLOCK_0 {
                pub Status: NTSTATUS,
                pub Pointer: *mut c_void,
            }
            #[repr(C)]
            #[derive(Clone, Copy)]
            pub struct OVERLAPPED {
                pub Internal: usize,
                pub InternalHigh: usize,
                pub Pointer: *mut c_void,
                pub hEvent: HANDLE,
            }
            #[repr(C)]
            #[derive(Clone, Copy)]
            pub struct OVERLAPPED_ENTRY {
                pub lpCompletionKey: usize,
                pub lpOverlapped: *mut OVERLAPPED,
                pub Internal: usize,
                pub dwNumberOfBytesTransferred: u32,
            }
            pub use crate::sim::{CreateIoCompletionPort, GetQueuedCompletionStatusEx, PostQueuedCompletionStatus};
        }
    }
}
