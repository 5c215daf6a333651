// Written by tools/sigs.py
use crate::gen::{Fn, L, N, V};
pub const SIGS: &[Fn] = &[
    ("f_v", &[], V),
    ("f_n", &[], N),
    ("f_l", &[], L),
    ("fv_v", &[V], V),
    ("fv_n", &[V], N),
    ("fv_l", &[V], L),
    ("fn_v", &[N], V),
    ("fn_n", &[N], N),
    ("fn_l", &[N], L),
    ("fl_v", &[L], V),
    ("fl_n", &[L], N),
    ("fl_l", &[L], L),
    ("fvv_v", &[V, V], V),
    ("fvv_n", &[V, V], N),
    ("fvv_l", &[V, V], L),
    ("fvn_v", &[V, N], V),
    ("fvn_n", &[V, N], N),
    ("fvn_l", &[V, N], L),
    ("fvl_v", &[V, L], V),
    ("fvl_n", &[V, L], N),
    ("fvl_l", &[V, L], L),
    ("fnv_v", &[N, V], V),
    ("fnv_n", &[N, V], N),
    ("fnv_l", &[N, V], L),
    ("fnn_v", &[N, N], V),
    ("fnn_n", &[N, N], N),
    ("fnn_l", &[N, N], L),
    ("fnl_v", &[N, L], V),
    ("fnl_n", &[N, L], N),
    ("fnl_l", &[N, L], L),
    ("flv_v", &[L, V], V),
    ("flv_n", &[L, V], N),
    ("flv_l", &[L, V], L),
    ("fln_v", &[L, N], V),
    ("fln_n", &[L, N], N),
    ("fln_l", &[L, N], L),
    ("fll_v", &[L, L], V),
    ("fll_n", &[L, L], N),
    ("fll_l", &[L, L], L),
    ("fvvv_v", &[V, V, V], V),
    ("fvvv_n", &[V, V, V], N),
    ("fvvv_l", &[V, V, V], L),
    ("fvvn_v", &[V, V, N], V),
    ("fvvn_n", &[V, V, N], N),
    ("fvvn_l", &[V, V, N], L),
    ("fvvl_v", &[V, V, L], V),
    ("fvvl_n", &[V, V, L], N),
    ("fvvl_l", &[V, V, L], L),
    ("fvnv_v", &[V, N, V], V),
    ("fvnv_n", &[V, N, V], N),
    ("fvnv_l", &[V, N, V], L),
    ("fvnn_v", &[V, N, N], V),
    ("fvnn_n", &[V, N, N], N),
    ("fvnn_l", &[V, N, N], L),
    ("fvnl_v", &[V, N, L], V),
    ("fvnl_n", &[V, N, L], N),
    ("fvnl_l", &[V, N, L], L),
    ("fvlv_v", &[V, L, V], V),
    ("fvlv_n", &[V, L, V], N),
    ("fvlv_l", &[V, L, V], L),
    ("fvln_v", &[V, L, N], V),
    ("fvln_n", &[V, L, N], N),
    ("fvln_l", &[V, L, N], L),
    ("fvll_v", &[V, L, L], V),
    ("fvll_n", &[V, L, L], N),
    ("fvll_l", &[V, L, L], L),
    ("fnvv_v", &[N, V, V], V),
    ("fnvv_n", &[N, V, V], N),
    ("fnvv_l", &[N, V, V], L),
    ("fnvn_v", &[N, V, N], V),
    ("fnvn_n", &[N, V, N], N),
    ("fnvn_l", &[N, V, N], L),
    ("fnvl_v", &[N, V, L], V),
    ("fnvl_n", &[N, V, L], N),
    ("fnvl_l", &[N, V, L], L),
    ("fnnv_v", &[N, N, V], V),
    ("fnnv_n", &[N, N, V], N),
    ("fnnv_l", &[N, N, V], L),
    ("fnnn_v", &[N, N, N], V),
    ("fnnn_n", &[N, N, N], N),
    ("fnnn_l", &[N, N, N], L),
    ("fnnl_v", &[N, N, L], V),
    ("fnnl_n", &[N, N, L], N),
    ("fnnl_l", &[N, N, L], L),
    ("fnlv_v", &[N, L, V], V),
    ("fnlv_n", &[N, L, V], N),
    ("fnlv_l", &[N, L, V], L),
    ("fnln_v", &[N, L, N], V),
    ("fnln_n", &[N, L, N], N),
    ("fnln_l", &[N, L, N], L),
    ("fnll_v", &[N, L, L], V),
    ("fnll_n", &[N, L, L], N),
    ("fnll_l", &[N, L, L], L),
    ("flvv_v", &[L, V, V], V),
    ("flvv_n", &[L, V, V], N),
    ("flvv_l", &[L, V, V], L),
    ("flvn_v", &[L, V, N], V),
    ("flvn_n", &[L, V, N], N),
    ("flvn_l", &[L, V, N], L),
    ("flvl_v", &[L, V, L], V),
    ("flvl_n", &[L, V, L], N),
    ("flvl_l", &[L, V, L], L),
    ("flnv_v", &[L, N, V], V),
    ("flnv_n", &[L, N, V], N),
    ("flnv_l", &[L, N, V], L),
    ("flnn_v", &[L, N, N], V),
    ("flnn_n", &[L, N, N], N),
    ("flnn_l", &[L, N, N], L),
    ("flnl_v", &[L, N, L], V),
    ("flnl_n", &[L, N, L], N),
    ("flnl_l", &[L, N, L], L),
    ("fllv_v", &[L, L, V], V),
    ("fllv_n", &[L, L, V], N),
    ("fllv_l", &[L, L, V], L),
    ("flln_v", &[L, L, N], V),
    ("flln_n", &[L, L, N], N),
    ("flln_l", &[L, L, N], L),
    ("flll_v", &[L, L, L], V),
    ("flll_n", &[L, L, L], N),
    ("flll_l", &[L, L, L], L),
    ("fvvvv_n", &[V, V, V, V], N),
    ("fvvvn_l", &[V, V, V, N], L),
    ("fvvvl_v", &[V, V, V, L], V),
    ("fvvnv_n", &[V, V, N, V], N),
    ("fvvnn_l", &[V, V, N, N], L),
    ("fvvnl_v", &[V, V, N, L], V),
    ("fvvlv_n", &[V, V, L, V], N),
    ("fvvln_l", &[V, V, L, N], L),
    ("fvvll_v", &[V, V, L, L], V),
    ("fvnvv_n", &[V, N, V, V], N),
    ("fvnvn_l", &[V, N, V, N], L),
    ("fvnvl_v", &[V, N, V, L], V),
    ("fvnnv_n", &[V, N, N, V], N),
    ("fvnnn_l", &[V, N, N, N], L),
    ("fvnnl_v", &[V, N, N, L], V),
    ("fvnlv_n", &[V, N, L, V], N),
    ("fvnln_l", &[V, N, L, N], L),
    ("fvnll_v", &[V, N, L, L], V),
    ("fvlvv_n", &[V, L, V, V], N),
    ("fvlvn_l", &[V, L, V, N], L),
    ("fvlvl_v", &[V, L, V, L], V),
    ("fvlnv_n", &[V, L, N, V], N),
    ("fvlnn_l", &[V, L, N, N], L),
    ("fvlnl_v", &[V, L, N, L], V),
    ("fvllv_n", &[V, L, L, V], N),
    ("fvlln_l", &[V, L, L, N], L),
    ("fvlll_v", &[V, L, L, L], V),
    ("fnvvv_n", &[N, V, V, V], N),
    ("fnvvn_l", &[N, V, V, N], L),
    ("fnvvl_v", &[N, V, V, L], V),
    ("fnvnv_n", &[N, V, N, V], N),
    ("fnvnn_l", &[N, V, N, N], L),
    ("fnvnl_v", &[N, V, N, L], V),
    ("fnvlv_n", &[N, V, L, V], N),
    ("fnvln_l", &[N, V, L, N], L),
    ("fnvll_v", &[N, V, L, L], V),
    ("fnnvv_n", &[N, N, V, V], N),
    ("fnnvn_l", &[N, N, V, N], L),
    ("fnnvl_v", &[N, N, V, L], V),
    ("fnnnv_n", &[N, N, N, V], N),
    ("fnnnn_l", &[N, N, N, N], L),
    ("fnnnl_v", &[N, N, N, L], V),
    ("fnnlv_n", &[N, N, L, V], N),
    ("fnnln_l", &[N, N, L, N], L),
    ("fnnll_v", &[N, N, L, L], V),
    ("fnlvv_n", &[N, L, V, V], N),
    ("fnlvn_l", &[N, L, V, N], L),
    ("fnlvl_v", &[N, L, V, L], V),
    ("fnlnv_n", &[N, L, N, V], N),
    ("fnlnn_l", &[N, L, N, N], L),
    ("fnlnl_v", &[N, L, N, L], V),
    ("fnllv_n", &[N, L, L, V], N),
    ("fnlln_l", &[N, L, L, N], L),
    ("fnlll_v", &[N, L, L, L], V),
    ("flvvv_n", &[L, V, V, V], N),
    ("flvvn_l", &[L, V, V, N], L),
    ("flvvl_v", &[L, V, V, L], V),
    ("flvnv_n", &[L, V, N, V], N),
    ("flvnn_l", &[L, V, N, N], L),
    ("flvnl_v", &[L, V, N, L], V),
    ("flvlv_n", &[L, V, L, V], N),
    ("flvln_l", &[L, V, L, N], L),
    ("flvll_v", &[L, V, L, L], V),
    ("flnvv_n", &[L, N, V, V], N),
    ("flnvn_l", &[L, N, V, N], L),
    ("flnvl_v", &[L, N, V, L], V),
    ("flnnv_n", &[L, N, N, V], N),
    ("flnnn_l", &[L, N, N, N], L),
    ("flnnl_v", &[L, N, N, L], V),
    ("flnlv_n", &[L, N, L, V], N),
    ("flnln_l", &[L, N, L, N], L),
    ("flnll_v", &[L, N, L, L], V),
    ("fllvv_n", &[L, L, V, V], N),
    ("fllvn_l", &[L, L, V, N], L),
    ("fllvl_v", &[L, L, V, L], V),
    ("fllnv_n", &[L, L, N, V], N),
    ("fllnn_l", &[L, L, N, N], L),
    ("fllnl_v", &[L, L, N, L], V),
    ("flllv_n", &[L, L, L, V], N),
    ("fllln_l", &[L, L, L, N], L),
    ("fllll_v", &[L, L, L, L], V),
    ("flvnlv_n", &[L, V, N, L, V], N),
    ("fvnlvnl_l", &[V, N, L, V, N, L], L),
    ("fnlvnlvn_v", &[N, L, V, N, L, V, N], V),
    ("flvnlvnlv_n", &[L, V, N, L, V, N, L, V], N),
    ("fvnlvnlvnl_l", &[V, N, L, V, N, L, V, N, L], L),
    ("fnlvnlvnlvn_v", &[N, L, V, N, L, V, N, L, V, N], V),
    ("flvnlvnlvnlv_n", &[L, V, N, L, V, N, L, V, N, L, V], N),
    ("fvnlvnlvnlvnl_l", &[V, N, L, V, N, L, V, N, L, V, N, L], L),
    ("fnlvnlvnlvnlvn_v", &[N, L, V, N, L, V, N, L, V, N, L, V, N], V),
    ("flvnlvnlvnlvnlv_n", &[L, V, N, L, V, N, L, V, N, L, V, N, L, V], N),
    ("fvnlvnlvnlvnlvnl_l", &[V, N, L, V, N, L, V, N, L, V, N, L, V, N, L], L),
    ("fnlvnlvnlvnlvnlvn_v", &[N, L, V, N, L, V, N, L, V, N, L, V, N, L, V, N], V),
    ("fvvvvv_v", &[V, V, V, V, V], V),
    ("fnnnnn_v", &[N, N, N, N, N], V),
    ("flllll_v", &[L, L, L, L, L], V),
    ("g", &[V], V),
    ("g_", &[V, V], V),
    ("g__", &[V, V, V], V),
    ("g__1", &[V, V, V, V], V),
    ("g0", &[N], V),
    ("g09", &[L], V),
    ("zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", &[V], V),
];
