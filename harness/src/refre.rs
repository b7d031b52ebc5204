//! Reference regex matcher: libpcre2-8 (UTF mode, no UCP, newline = LF), an implementation of the
//! PCRE2 syntax that shares no code with the regex crates dd-sds uses.

use std::os::raw::{c_int, c_void};

#[link(name = "pcre2-8")]
extern "C" {
    fn pcre2_compile_8(
        pattern: *const u8,
        len: usize,
        options: u32,
        err: *mut c_int,
        erroff: *mut usize,
        ctx: *mut c_void,
    ) -> *mut c_void;
    fn pcre2_code_free_8(code: *mut c_void);
    fn pcre2_match_data_create_from_pattern_8(code: *const c_void, ctx: *mut c_void) -> *mut c_void;
    fn pcre2_match_data_free_8(md: *mut c_void);
    fn pcre2_get_ovector_pointer_8(md: *mut c_void) -> *const usize;
    fn pcre2_match_8(
        code: *const c_void,
        subject: *const u8,
        len: usize,
        start: usize,
        options: u32,
        md: *mut c_void,
        mctx: *mut c_void,
    ) -> c_int;
    fn pcre2_compile_context_create_8(g: *mut c_void) -> *mut c_void;
    fn pcre2_compile_context_free_8(c: *mut c_void);
    fn pcre2_set_newline_8(c: *mut c_void, v: u32) -> c_int;
    fn pcre2_match_context_create_8(g: *mut c_void) -> *mut c_void;
    fn pcre2_match_context_free_8(c: *mut c_void);
    fn pcre2_set_match_limit_8(c: *mut c_void, v: u32) -> c_int;
}

const PCRE2_UTF: u32 = 0x0008_0000;
const PCRE2_NO_UTF_CHECK: u32 = 0x4000_0000;
const PCRE2_NEWLINE_LF: u32 = 2;
const PCRE2_ERROR_NOMATCH: c_int = -1;

pub struct RefRegex {
    code: *mut c_void,
    md: *mut c_void,
    mctx: *mut c_void,
}

/// The reference matcher gave up (backtracking limit): nothing can be concluded.
#[derive(Debug)]
pub struct GaveUp;

impl RefRegex {
    pub fn new(pattern: &str) -> Result<Self, i32> {
        unsafe {
            let cc = pcre2_compile_context_create_8(std::ptr::null_mut());
            pcre2_set_newline_8(cc, PCRE2_NEWLINE_LF);
            let (mut err, mut off) = (0, 0);
            let code = pcre2_compile_8(
                pattern.as_ptr(),
                pattern.len(),
                PCRE2_UTF,
                &mut err,
                &mut off,
                cc,
            );
            pcre2_compile_context_free_8(cc);
            if code.is_null() {
                return Err(err);
            }
            let md = pcre2_match_data_create_from_pattern_8(code, std::ptr::null_mut());
            let mctx = pcre2_match_context_create_8(std::ptr::null_mut());
            pcre2_set_match_limit_8(mctx, 2_000_000);
            Ok(RefRegex { code, md, mctx })
        }
    }

    /// Leftmost match starting at or after byte `start`; assertions see the whole subject.
    pub fn find_at(&self, s: &str, start: usize) -> Result<Option<(usize, usize)>, GaveUp> {
        unsafe {
            let rc = pcre2_match_8(
                self.code,
                s.as_ptr(),
                s.len(),
                start,
                PCRE2_NO_UTF_CHECK,
                self.md,
                self.mctx,
            );
            if rc == PCRE2_ERROR_NOMATCH {
                return Ok(None);
            }
            if rc < 0 {
                return Err(GaveUp);
            }
            let ov = pcre2_get_ovector_pointer_8(self.md);
            Ok(Some((*ov, *ov.add(1))))
        }
    }
}

impl Drop for RefRegex {
    fn drop(&mut self) {
        unsafe {
            pcre2_match_context_free_8(self.mctx);
            pcre2_match_data_free_8(self.md);
            pcre2_code_free_8(self.code);
        }
    }
}
