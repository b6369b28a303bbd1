//! Minimal binding to the Z3 C API, resolved at run time with dlopen.
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

pub type Ast = *mut c_void;
pub type Ptr = *mut c_void;

extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
}

macro_rules! api {
    ($($name:ident : fn($($t:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        pub struct Z3 { $(pub $name: unsafe extern "C" fn($($t),*) $(-> $r)?,)* pub path: String }
        impl Z3 {
            pub fn load(path: &str) -> Result<Z3, String> {
                unsafe {
                    let c = CString::new(path).unwrap();
                    let h = dlopen(c.as_ptr(), 2);
                    if h.is_null() {
                        return Err(CStr::from_ptr(dlerror()).to_string_lossy().into_owned());
                    }
                    Ok(Z3 {
                        $($name: {
                            let n = CString::new(concat!("Z3_", stringify!($name))).unwrap();
                            let p = dlsym(h, n.as_ptr());
                            if p.is_null() { return Err(format!("missing Z3_{}", stringify!($name))); }
                            std::mem::transmute::<*mut c_void, unsafe extern "C" fn($($t),*) $(-> $r)?>(p)
                        },)*
                        path: path.to_string(),
                    })
                }
            }
        }
    };
}

api! {
    mk_config: fn() -> Ptr;
    set_param_value: fn(Ptr, *const c_char, *const c_char);
    mk_context: fn(Ptr) -> Ptr;
    del_context: fn(Ptr);
    global_param_set: fn(*const c_char, *const c_char);
    set_error_handler: fn(Ptr, *const c_void);
    get_error_code: fn(Ptr) -> c_int;
    get_error_msg: fn(Ptr, c_int) -> *const c_char;
    get_full_version: fn() -> *const c_char;
    mk_int_symbol: fn(Ptr, c_int) -> Ptr;
    mk_string_symbol: fn(Ptr, *const c_char) -> Ptr;
    mk_bv_sort: fn(Ptr, c_uint) -> Ptr;
    mk_const: fn(Ptr, Ptr, Ptr) -> Ast;
    mk_unsigned_int64: fn(Ptr, u64, Ptr) -> Ast;
    mk_numeral: fn(Ptr, *const c_char, Ptr) -> Ast;
    mk_true: fn(Ptr) -> Ast;
    mk_false: fn(Ptr) -> Ast;
    mk_eq: fn(Ptr, Ast, Ast) -> Ast;
    mk_not: fn(Ptr, Ast) -> Ast;
    mk_ite: fn(Ptr, Ast, Ast, Ast) -> Ast;
    mk_and: fn(Ptr, c_uint, *const Ast) -> Ast;
    mk_or: fn(Ptr, c_uint, *const Ast) -> Ast;
    mk_xor: fn(Ptr, Ast, Ast) -> Ast;
    mk_extract: fn(Ptr, c_uint, c_uint, Ast) -> Ast;
    mk_concat: fn(Ptr, Ast, Ast) -> Ast;
    mk_zero_ext: fn(Ptr, c_uint, Ast) -> Ast;
    mk_sign_ext: fn(Ptr, c_uint, Ast) -> Ast;
    mk_bvnot: fn(Ptr, Ast) -> Ast;
    mk_bvand: fn(Ptr, Ast, Ast) -> Ast;
    mk_bvor: fn(Ptr, Ast, Ast) -> Ast;
    mk_bvxor: fn(Ptr, Ast, Ast) -> Ast;
    mk_bvadd: fn(Ptr, Ast, Ast) -> Ast;
    mk_bvsub: fn(Ptr, Ast, Ast) -> Ast;
    mk_bvmul: fn(Ptr, Ast, Ast) -> Ast;
    mk_bvudiv: fn(Ptr, Ast, Ast) -> Ast;
    mk_bvurem: fn(Ptr, Ast, Ast) -> Ast;
    mk_bvsdiv: fn(Ptr, Ast, Ast) -> Ast;
    mk_bvsrem: fn(Ptr, Ast, Ast) -> Ast;
    mk_bvshl: fn(Ptr, Ast, Ast) -> Ast;
    mk_bvlshr: fn(Ptr, Ast, Ast) -> Ast;
    mk_bvashr: fn(Ptr, Ast, Ast) -> Ast;
    mk_bvult: fn(Ptr, Ast, Ast) -> Ast;
    mk_bvslt: fn(Ptr, Ast, Ast) -> Ast;
    mk_func_decl: fn(Ptr, Ptr, c_uint, *const Ptr, Ptr) -> Ptr;
    mk_app: fn(Ptr, Ptr, c_uint, *const Ast) -> Ast;
    mk_fpa_sort: fn(Ptr, c_uint, c_uint) -> Ptr;
    mk_fpa_rne: fn(Ptr) -> Ast;
    mk_fpa_rtz: fn(Ptr) -> Ast;
    mk_fpa_to_fp_bv: fn(Ptr, Ast, Ptr) -> Ast;
    mk_fpa_to_fp_float: fn(Ptr, Ast, Ast, Ptr) -> Ast;
    mk_fpa_to_fp_signed: fn(Ptr, Ast, Ast, Ptr) -> Ast;
    mk_fpa_to_fp_unsigned: fn(Ptr, Ast, Ast, Ptr) -> Ast;
    mk_fpa_to_ieee_bv: fn(Ptr, Ast) -> Ast;
    mk_fpa_add: fn(Ptr, Ast, Ast, Ast) -> Ast;
    mk_fpa_mul: fn(Ptr, Ast, Ast, Ast) -> Ast;
    mk_fpa_div: fn(Ptr, Ast, Ast, Ast) -> Ast;
    mk_fpa_fma: fn(Ptr, Ast, Ast, Ast, Ast) -> Ast;
    mk_fpa_sqrt: fn(Ptr, Ast, Ast) -> Ast;
    mk_simple_solver: fn(Ptr) -> Ptr;
    mk_tactic: fn(Ptr, *const c_char) -> Ptr;
    mk_solver_from_tactic: fn(Ptr, Ptr) -> Ptr;
    solver_inc_ref: fn(Ptr, Ptr);
    solver_dec_ref: fn(Ptr, Ptr);
    solver_assert: fn(Ptr, Ptr, Ast);
    solver_check: fn(Ptr, Ptr) -> c_int;
    solver_push: fn(Ptr, Ptr);
    solver_pop: fn(Ptr, Ptr, c_uint);
    solver_get_model: fn(Ptr, Ptr) -> Ptr;
    solver_set_params: fn(Ptr, Ptr, Ptr);
    solver_to_string: fn(Ptr, Ptr) -> *const c_char;
    solver_get_reason_unknown: fn(Ptr, Ptr) -> *const c_char;
    mk_params: fn(Ptr) -> Ptr;
    params_inc_ref: fn(Ptr, Ptr);
    params_dec_ref: fn(Ptr, Ptr);
    params_set_uint: fn(Ptr, Ptr, Ptr, c_uint);
    params_set_bool: fn(Ptr, Ptr, Ptr, bool);
    model_inc_ref: fn(Ptr, Ptr);
    model_dec_ref: fn(Ptr, Ptr);
    model_eval: fn(Ptr, Ptr, Ast, bool, *mut Ast) -> bool;
    get_numeral_uint64: fn(Ptr, Ast, *mut u64) -> bool;
}
