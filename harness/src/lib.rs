//! Harnesses: each entry builds symbolic inputs, runs real decy code and states the property as an assertion.
pub mod sym;
#[cfg(feature = "cref")]
pub mod cref;
#[cfg(feature = "cref")]
pub mod shape;
#[cfg(feature = "opt")]
pub mod h_opt;
#[cfg(feature = "cg")]
pub mod rsi;
#[cfg(feature = "cg")]
pub mod h_cg;
#[cfg(feature = "cg")]
pub mod h_fmt;
#[cfg(feature = "pipe")]
pub mod h_pipe;
#[cfg(feature = "pipe")]
pub mod cc;
#[cfg(feature = "pipe")]
pub mod h_fe;
#[cfg(feature = "pipe")]
pub mod h_prog;
#[cfg(feature = "pipe")]
pub mod h_det;
#[cfg(feature = "own")]
pub mod h_own;
#[cfg(feature = "core")]
pub mod h_core;

macro_rules! entries {
    ($($(#[$m:meta])* $name:ident => $path:path;)*) => {
        $($(#[$m])* #[no_mangle] pub extern "C" fn $name() { $path() })*
        pub fn lookup(n: &str) -> Option<fn()> {
            $($(#[$m])* if n == stringify!($name) { return Some($path as fn()); })*
            let _ = n;
            None
        }
    };
}
entries! {
    #[cfg(feature = "opt")] opt_expr => h_opt::expr;
    #[cfg(feature = "opt")] opt_stmt => h_opt::stmt;
    #[cfg(feature = "opt")] opt_vac => h_opt::vac;
    #[cfg(feature = "cg")] cg_vac => h_cg::vac;
    #[cfg(feature = "cg")] cg_e1 => h_cg::e1;
    #[cfg(feature = "cg")] cg_e2 => h_cg::e2;
    #[cfg(feature = "cg")] cg_e3 => h_cg::e3;
    #[cfg(feature = "cg")] cg_e4 => h_cg::e4;
    #[cfg(feature = "cg")] cg_e5 => h_cg::e5;
    #[cfg(feature = "cg")] cg_e6 => h_cg::e6;
    #[cfg(feature = "cg")] cg_e7 => h_cg::e7;
    #[cfg(feature = "cg")] cg_e8 => h_cg::e8;
    #[cfg(feature = "cg")] cg_e9 => h_cg::e9;
    #[cfg(feature = "cg")] cg_e10 => h_cg::e10;
    #[cfg(feature = "cg")] cg_s1 => h_cg::s1;
    #[cfg(feature = "cg")] cg_s2 => h_cg::s2;
    #[cfg(feature = "cg")] cg_s3 => h_cg::s3;
    #[cfg(feature = "cg")] cg_s4 => h_cg::s4;
    #[cfg(feature = "cg")] cg_s5 => h_cg::s5;
    #[cfg(feature = "cg")] cg_s6 => h_cg::s6;
    #[cfg(feature = "cg")] cg_s6t => h_cg::s6t;
    #[cfg(feature = "cg")] cg_s7 => h_cg::s7;
    #[cfg(feature = "cg")] cg_d1 => h_cg::d1;
    #[cfg(feature = "cg")] cg_d2 => h_cg::d2;
    #[cfg(feature = "cg")] cg_d2t => h_cg::d2t;
    #[cfg(feature = "cg")] cg_d3 => h_cg::d3;
    #[cfg(feature = "cg")] cg_d5 => h_cg::d5;
    #[cfg(feature = "cg")] cg_d6 => h_cg::d6;
    #[cfg(feature = "cg")] cg_d7 => h_cg::d7;
    #[cfg(feature = "cg")] cg_d8 => h_cg::d8;
    #[cfg(feature = "cg")] cg_d5t => h_cg::d5t;
    #[cfg(feature = "cg")] cg_d4 => h_cg::d4;
    #[cfg(feature = "pipe")] pf_len => h_fmt::len;
    #[cfg(feature = "pipe")] pf_one => h_fmt::one;
    #[cfg(feature = "pipe")] pf_text => h_fmt::text;
    #[cfg(feature = "pipe")] pf_two => h_fmt::two;
    #[cfg(feature = "pipe")] pf_three => h_fmt::three;
    #[cfg(feature = "pipe")] pf_esc => h_fmt::esc;
    #[cfg(feature = "pipe")] pf_str => h_fmt::str_;
    #[cfg(feature = "pipe")] pf_flow => h_fmt::flow;
    #[cfg(feature = "pipe")] fe_pf_one => h_fe::pf_one;
    #[cfg(feature = "pipe")] fe_pf_text => h_fe::pf_text;
    #[cfg(feature = "pipe")] fe_pf_two => h_fe::pf_two;
    #[cfg(feature = "pipe")] fe_pf_three => h_fe::pf_three;
    #[cfg(feature = "pipe")] fe_pf_esc => h_fe::pf_esc;
    #[cfg(feature = "pipe")] fe_pf_str => h_fe::pf_str;
    #[cfg(feature = "pipe")] fe_pf_flow => h_fe::pf_flow;
    #[cfg(feature = "pipe")] fe_pf_len => h_fe::pf_len;
    #[cfg(feature = "pipe")] fe_vac => h_fe::vac;
    #[cfg(feature = "pipe")] fe_any => h_fe::any;
    #[cfg(feature = "pipe")] fe_p7 => h_fe::p7;
    #[cfg(feature = "pipe")] fe_p1 => h_fe::p1;
    #[cfg(feature = "pipe")] fe_p6 => h_fe::p6;
    #[cfg(feature = "pipe")] fe_p3 => h_fe::p3;
    #[cfg(feature = "pipe")] fe_for => h_fe::for_;
    #[cfg(feature = "pipe")] fe_do => h_fe::do_;
    #[cfg(feature = "pipe")] fe_lit => h_fe::lit;
    #[cfg(feature = "pipe")] fe_chr => h_fe::chr;
    #[cfg(feature = "pipe")] fe_cast => h_fe::cast;
    #[cfg(feature = "pipe")] fe_val => h_fe::val;
    #[cfg(feature = "pipe")] fe_inc => h_fe::inc;
    #[cfg(feature = "pipe")] fe_e1 => h_fe::e1;
    #[cfg(feature = "pipe")] fe_e2 => h_fe::e2;
    #[cfg(feature = "pipe")] fe_e3 => h_fe::e3;
    #[cfg(feature = "pipe")] fe_e6 => h_fe::e6;
    #[cfg(feature = "pipe")] fe_e7 => h_fe::e7;
    #[cfg(feature = "pipe")] fe_e8 => h_fe::e8;
    #[cfg(feature = "pipe")] fe_e9 => h_fe::e9;
    #[cfg(feature = "pipe")] fe_e10 => h_fe::e10;
    #[cfg(feature = "pipe")] fe_s1 => h_fe::s1;
    #[cfg(feature = "pipe")] fe_s2 => h_fe::s2;
    #[cfg(feature = "pipe")] fe_s3 => h_fe::s3;
    #[cfg(feature = "pipe")] fe_s4 => h_fe::s4;
    #[cfg(feature = "pipe")] fe_s6 => h_fe::s6;
    #[cfg(feature = "pipe")] fe_d1 => h_fe::d1;
    #[cfg(feature = "pipe")] fe_d2 => h_fe::d2;
    #[cfg(feature = "pipe")] fe_d3 => h_fe::d3;
    #[cfg(feature = "pipe")] fe_d5 => h_fe::d5;
    #[cfg(feature = "pipe")] fe_d6 => h_fe::d6;
    #[cfg(feature = "pipe")] fe_d8 => h_fe::d8;
    #[cfg(feature = "pipe")] fe_xe1 => h_fe::xe1;
    #[cfg(feature = "pipe")] fe_xe2 => h_fe::xe2;
    #[cfg(feature = "pipe")] fe_xe3 => h_fe::xe3;
    #[cfg(feature = "pipe")] fe_xe4 => h_fe::xe4;
    #[cfg(feature = "pipe")] fe_xe5 => h_fe::xe5;
    #[cfg(feature = "pipe")] fe_xe6 => h_fe::xe6;
    #[cfg(feature = "pipe")] fe_xe7 => h_fe::xe7;
    #[cfg(feature = "pipe")] fe_xe8 => h_fe::xe8;
    #[cfg(feature = "pipe")] fe_xe9 => h_fe::xe9;
    #[cfg(feature = "pipe")] fe_xe10 => h_fe::xe10;
    #[cfg(feature = "pipe")] fe_xs1 => h_fe::xs1;
    #[cfg(feature = "pipe")] fe_xs2 => h_fe::xs2;
    #[cfg(feature = "pipe")] fe_xs3 => h_fe::xs3;
    #[cfg(feature = "pipe")] fe_xs4 => h_fe::xs4;
    #[cfg(feature = "pipe")] fe_xs5 => h_fe::xs5;
    #[cfg(feature = "pipe")] fe_xs6 => h_fe::xs6;
    #[cfg(feature = "pipe")] fe_xs7 => h_fe::xs7;
    #[cfg(feature = "pipe")] fe_xd1 => h_fe::xd1;
    #[cfg(feature = "pipe")] fe_xd2 => h_fe::xd2;
    #[cfg(feature = "pipe")] fe_xd3 => h_fe::xd3;
    #[cfg(feature = "pipe")] fe_xd4 => h_fe::xd4;
    #[cfg(feature = "pipe")] fe_xd5 => h_fe::xd5;
    #[cfg(feature = "pipe")] fe_xd6 => h_fe::xd6;
    #[cfg(feature = "pipe")] fe_xd8 => h_fe::xd8;
    #[cfg(feature = "pipe")] pr_vac => h_prog::vac;
    #[cfg(feature = "pipe")] pr_calls => h_prog::calls;
    #[cfg(feature = "pipe")] pr_kinds => h_prog::kinds;
    #[cfg(feature = "pipe")] pr_ptr => h_prog::pointer;
    #[cfg(feature = "pipe")] pr_ptr2 => h_prog::pointer2;
    #[cfg(feature = "pipe")] pr_arr2 => h_prog::array2;
    #[cfg(feature = "pipe")] pr_globk => h_prog::global_kinds;
    #[cfg(feature = "pipe")] pr_ptrn => h_prog::pointer_n;
    #[cfg(feature = "pipe")] pr_layout => h_prog::layout;
    #[cfg(feature = "pipe")] pr_arr => h_prog::array;
    #[cfg(feature = "pipe")] pr_struct => h_prog::structure;
    #[cfg(feature = "pipe")] pr_glob => h_prog::global;
    #[cfg(feature = "pipe")] pr_glob1 => h_prog::global1;
    #[cfg(feature = "pipe")] pr_enum => h_prog::enums;
    #[cfg(feature = "pipe")] pr_names => h_prog::names;
    #[cfg(feature = "pipe")] fe_pr_calls => h_prog::fe_calls;
    #[cfg(feature = "pipe")] fe_pr_kinds => h_prog::fe_kinds;
    #[cfg(feature = "pipe")] fe_pr_layout => h_prog::fe_layout;
    #[cfg(feature = "pipe")] fe_pr_ptr => h_prog::fe_ptr;
    #[cfg(feature = "pipe")] fe_pr_ptr2 => h_prog::fe_ptr2;
    #[cfg(feature = "pipe")] fe_pr_arr => h_prog::fe_arr;
    #[cfg(feature = "pipe")] fe_pr_arr2 => h_prog::fe_arr2;
    #[cfg(feature = "pipe")] fe_pr_struct => h_prog::fe_struct;
    #[cfg(feature = "pipe")] fe_pr_glob => h_prog::fe_glob;
    #[cfg(feature = "pipe")] fe_pr_glob1 => h_prog::fe_glob1;
    #[cfg(feature = "pipe")] fe_pr_globk => h_prog::fe_globk;
    #[cfg(feature = "pipe")] fe_pr_enum => h_prog::fe_enum;
    #[cfg(feature = "pipe")] fe_pr_names => h_prog::fe_names;
    #[cfg(feature = "pipe")] det_one => h_det::one;
    #[cfg(feature = "pipe")] det_two => h_det::two;
    #[cfg(feature = "pipe")] det_three => h_det::three;
    #[cfg(feature = "pipe")] det_text => h_det::text;
    #[cfg(feature = "pipe")] det_report => h_det::report;
    #[cfg(feature = "own")] own_reg_vac => h_own::reg_vac;
    #[cfg(feature = "own")] own_reg4 => h_own::reg4;
    #[cfg(feature = "own")] own_reg5 => h_own::reg5;
    #[cfg(feature = "own")] own_reg_prune => h_own::reg_prune;
    #[cfg(feature = "own")] own_reg_ver => h_own::reg_ver;
    #[cfg(feature = "own")] own_reg_parse => h_own::reg_parse;
    #[cfg(feature = "own")] own_retrain2 => h_own::retrain2;
    #[cfg(feature = "own")] own_retrain3 => h_own::retrain3;
    #[cfg(feature = "own")] own_split => h_own::split;
    #[cfg(feature = "own")] own_queue4 => h_own::queue4;
    #[cfg(feature = "own")] own_queue5 => h_own::queue5;
    #[cfg(feature = "own")] own_learner => h_own::learner;
    #[cfg(feature = "own")] own_reg_rule => h_own::reg_rule;
    #[cfg(feature = "own")] own_reg_better => h_own::reg_better;
    #[cfg(feature = "own")] own_reg2 => h_own::reg2;
    #[cfg(feature = "core")] core_vac => h_core::vac;
    #[cfg(feature = "core")] core_order3 => h_core::order3;
    #[cfg(feature = "core")] core_order4 => h_core::order4;
    #[cfg(feature = "core")] core_order_files => h_core::order_files;
    #[cfg(feature = "core")] core_include_line => h_core::include_line;
    #[cfg(feature = "core")] core_expand2 => h_core::expand2;
    #[cfg(feature = "core")] core_cache4 => h_core::cache4;
    #[cfg(feature = "core")] core_cache5 => h_core::cache5;
    #[cfg(feature = "core")] core_code => h_core::code;
    #[cfg(feature = "core")] core_counts => h_core::counts;
    #[cfg(feature = "core")] core_tiers => h_core::tiers;
    #[cfg(feature = "core")] core_tier1 => h_core::tier1;
}
