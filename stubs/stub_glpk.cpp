// Weak stand-ins for the GLPK C API (aborting); the LP adapter harness overrides the ones the adapter may use.
#include <stdlib.h>
extern "C" {
#define W __attribute__((weak))
W void glp_add_cols(void) { abort(); }
W void glp_add_rows(void) { abort(); }
W void glp_add_vertices(void) { abort(); }
W void glp_adv_basis(void) { abort(); }
W void glp_alloc(void) { abort(); }
W void glp_analyze_bound(void) { abort(); }
W void glp_analyze_coef(void) { abort(); }
W void glp_asnprob_hall(void) { abort(); }
W void glp_asnprob_lp(void) { abort(); }
W void glp_asnprob_okalg(void) { abort(); }
W void glp_assert_(void) { abort(); }
W void glp_at_error(void) { abort(); }
W void glp_bf_exists(void) { abort(); }
W void glp_bf_updated(void) { abort(); }
W void glp_btran(void) { abort(); }
W void glp_cfg_free(void) { abort(); }
W void glp_check_asnprob(void) { abort(); }
W void glp_check_cnfsat(void) { abort(); }
W void glp_check_dup(void) { abort(); }
W void glp_check_kkt(void) { abort(); }
W void glp_close_tee(void) { abort(); }
W void glp_clq_cut(void) { abort(); }
W void glp_config(void) { abort(); }
W void glp_copy_prob(void) { abort(); }
W void glp_cov_free(void) { abort(); }
W void glp_cov_gen1(void) { abort(); }
W void glp_cpp(void) { abort(); }
W void glp_cpx_basis(void) { abort(); }
W void glp_create_index(void) { abort(); }
W void glp_create_prob(void) { abort(); }
W void glp_create_v_index(void) { abort(); }
W void glp_del_arc(void) { abort(); }
W void glp_del_cols(void) { abort(); }
W void glp_del_rows(void) { abort(); }
W void glp_del_vertices(void) { abort(); }
W void glp_delete_graph(void) { abort(); }
W void glp_delete_index(void) { abort(); }
W void glp_delete_prob(void) { abort(); }
W void glp_delete_v_index(void) { abort(); }
W void glp_difftime(void) { abort(); }
W void glp_dual_rtest(void) { abort(); }
W void glp_erase_graph(void) { abort(); }
W void glp_erase_prob(void) { abort(); }
W void glp_error_hook(void) { abort(); }
W void glp_eval_tab_col(void) { abort(); }
W void glp_eval_tab_row(void) { abort(); }
W void glp_exact(void) { abort(); }
W void glp_factorize(void) { abort(); }
W void glp_find_col(void) { abort(); }
W void glp_find_row(void) { abort(); }
W void glp_find_vertex(void) { abort(); }
W void glp_free(void) { abort(); }
W int glp_free_env(void) { return 0; }
W void glp_ftran(void) { abort(); }
W void glp_get_bfcp(void) { abort(); }
W void glp_get_bhead(void) { abort(); }
W void glp_get_col_bind(void) { abort(); }
W void glp_get_col_dual(void) { abort(); }
W void glp_get_col_kind(void) { abort(); }
W void glp_get_col_lb(void) { abort(); }
W void glp_get_col_name(void) { abort(); }
W void glp_get_col_prim(void) { abort(); }
W void glp_get_col_stat(void) { abort(); }
W void glp_get_col_type(void) { abort(); }
W void glp_get_col_ub(void) { abort(); }
W void glp_get_dual_stat(void) { abort(); }
W void glp_get_it_cnt(void) { abort(); }
W void glp_get_mat_col(void) { abort(); }
W void glp_get_mat_row(void) { abort(); }
W void glp_get_num_bin(void) { abort(); }
W void glp_get_num_cols(void) { abort(); }
W void glp_get_num_int(void) { abort(); }
W void glp_get_num_nz(void) { abort(); }
W void glp_get_num_rows(void) { abort(); }
W void glp_get_obj_coef(void) { abort(); }
W void glp_get_obj_dir(void) { abort(); }
W void glp_get_obj_name(void) { abort(); }
W void glp_get_obj_val(void) { abort(); }
W void glp_get_prim_stat(void) { abort(); }
W void glp_get_prob_name(void) { abort(); }
W void glp_get_rii(void) { abort(); }
W void glp_get_row_bind(void) { abort(); }
W void glp_get_row_dual(void) { abort(); }
W void glp_get_row_lb(void) { abort(); }
W void glp_get_row_name(void) { abort(); }
W void glp_get_row_prim(void) { abort(); }
W void glp_get_row_stat(void) { abort(); }
W void glp_get_row_type(void) { abort(); }
W void glp_get_row_ub(void) { abort(); }
W void glp_get_sjj(void) { abort(); }
W void glp_get_status(void) { abort(); }
W void glp_get_unbnd_ray(void) { abort(); }
W void glp_gmi_cut(void) { abort(); }
W void glp_gmi_gen(void) { abort(); }
W void glp_gridgen(void) { abort(); }
W void glp_init_cpxcp(void) { abort(); }
W void glp_init_env(void) { abort(); }
W void glp_init_iocp(void) { abort(); }
W void glp_init_iptcp(void) { abort(); }
W void glp_init_mpscp(void) { abort(); }
W void glp_init_smcp(void) { abort(); }
W void glp_interior(void) { abort(); }
W void glp_intfeas1(void) { abort(); }
W void glp_intopt(void) { abort(); }
W void glp_ios_add_row(void) { abort(); }
W void glp_ios_best_node(void) { abort(); }
W void glp_ios_branch_upon(void) { abort(); }
W void glp_ios_can_branch(void) { abort(); }
W void glp_ios_clear_pool(void) { abort(); }
W void glp_ios_curr_node(void) { abort(); }
W void glp_ios_del_row(void) { abort(); }
W void glp_ios_get_prob(void) { abort(); }
W void glp_ios_heur_sol(void) { abort(); }
W void glp_ios_mip_gap(void) { abort(); }
W void glp_ios_next_node(void) { abort(); }
W void glp_ios_node_bound(void) { abort(); }
W void glp_ios_node_data(void) { abort(); }
W void glp_ios_node_level(void) { abort(); }
W void glp_ios_pool_size(void) { abort(); }
W void glp_ios_prev_node(void) { abort(); }
W void glp_ios_reason(void) { abort(); }
W void glp_ios_row_attr(void) { abort(); }
W void glp_ios_select_node(void) { abort(); }
W void glp_ios_terminate(void) { abort(); }
W void glp_ios_tree_size(void) { abort(); }
W void glp_ios_up_node(void) { abort(); }
W void glp_ipt_col_dual(void) { abort(); }
W void glp_ipt_col_prim(void) { abort(); }
W void glp_ipt_obj_val(void) { abort(); }
W void glp_ipt_row_dual(void) { abort(); }
W void glp_ipt_row_prim(void) { abort(); }
W void glp_ipt_status(void) { abort(); }
W void glp_load_matrix(void) { abort(); }
W void glp_maxflow_ffalg(void) { abort(); }
W void glp_maxflow_lp(void) { abort(); }
W void glp_mem_limit(void) { abort(); }
W void glp_mem_usage(void) { abort(); }
W void glp_mincost_lp(void) { abort(); }
W void glp_mincost_okalg(void) { abort(); }
W void glp_mincost_relax4(void) { abort(); }
W void glp_minisat1(void) { abort(); }
W void glp_mip_col_val(void) { abort(); }
W void glp_mip_obj_val(void) { abort(); }
W void glp_mip_row_val(void) { abort(); }
W void glp_mip_status(void) { abort(); }
W void glp_mir_free(void) { abort(); }
W void glp_mir_gen(void) { abort(); }
W void glp_mpl_alloc_wksp(void) { abort(); }
W void glp_mpl_build_prob(void) { abort(); }
W void glp_mpl_free_wksp(void) { abort(); }
W void glp_mpl_generate(void) { abort(); }
W void glp_mpl_init_rand(void) { abort(); }
W void glp_mpl_postsolve(void) { abort(); }
W void glp_mpl_read_data(void) { abort(); }
W void glp_mpl_read_model(void) { abort(); }
W void glp_netgen(void) { abort(); }
W void glp_netgen_prob(void) { abort(); }
W void glp_npp_build_prob(void) { abort(); }
W void glp_npp_free_wksp(void) { abort(); }
W void glp_npp_load_prob(void) { abort(); }
W void glp_npp_obtain_sol(void) { abort(); }
W void glp_npp_postprocess(void) { abort(); }
W void glp_npp_preprocess1(void) { abort(); }
W void glp_open_tee(void) { abort(); }
W void glp_prim_rtest(void) { abort(); }
W void glp_print_ipt(void) { abort(); }
W void glp_print_mip(void) { abort(); }
W void glp_print_ranges(void) { abort(); }
W void glp_print_sol(void) { abort(); }
W void glp_printf(void) { abort(); }
W void glp_puts(void) { abort(); }
W void glp_read_asnprob(void) { abort(); }
W void glp_read_ccdata(void) { abort(); }
W void glp_read_cnfsat(void) { abort(); }
W void glp_read_graph(void) { abort(); }
W void glp_read_ipt(void) { abort(); }
W void glp_read_lp(void) { abort(); }
W void glp_read_maxflow(void) { abort(); }
W void glp_read_mincost(void) { abort(); }
W void glp_read_mip(void) { abort(); }
W void glp_read_mps(void) { abort(); }
W void glp_read_prob(void) { abort(); }
W void glp_read_sol(void) { abort(); }
W void glp_realloc(void) { abort(); }
W void glp_rmfgen(void) { abort(); }
W void glp_scale_prob(void) { abort(); }
W void glp_set_bfcp(void) { abort(); }
W void glp_set_col_bnds(void) { abort(); }
W void glp_set_col_kind(void) { abort(); }
W void glp_set_col_name(void) { abort(); }
W void glp_set_col_stat(void) { abort(); }
W void glp_set_graph_name(void) { abort(); }
W void glp_set_it_cnt(void) { abort(); }
W void glp_set_mat_col(void) { abort(); }
W void glp_set_mat_row(void) { abort(); }
W void glp_set_obj_coef(void) { abort(); }
W void glp_set_obj_dir(void) { abort(); }
W void glp_set_obj_name(void) { abort(); }
W void glp_set_prob_name(void) { abort(); }
W void glp_set_rii(void) { abort(); }
W void glp_set_row_bnds(void) { abort(); }
W void glp_set_row_name(void) { abort(); }
W void glp_set_row_stat(void) { abort(); }
W void glp_set_sjj(void) { abort(); }
W void glp_set_vertex_name(void) { abort(); }
W void glp_simplex(void) { abort(); }
W void glp_sort_matrix(void) { abort(); }
W void glp_std_basis(void) { abort(); }
W void glp_strong_comp(void) { abort(); }
W void glp_term_hook(void) { abort(); }
W int glp_term_out(int) { return 0; }
W void glp_time(void) { abort(); }
W void glp_top_sort(void) { abort(); }
W void glp_transform_col(void) { abort(); }
W void glp_transform_row(void) { abort(); }
W void glp_unscale_prob(void) { abort(); }
W void glp_version(void) { abort(); }
W void glp_vprintf(void) { abort(); }
W void glp_warm_up(void) { abort(); }
W void glp_wclique_exact(void) { abort(); }
W void glp_weak_comp(void) { abort(); }
W void glp_write_asnprob(void) { abort(); }
W void glp_write_ccdata(void) { abort(); }
W void glp_write_cnfsat(void) { abort(); }
W void glp_write_graph(void) { abort(); }
W void glp_write_ipt(void) { abort(); }
W void glp_write_lp(void) { abort(); }
W void glp_write_maxflow(void) { abort(); }
W void glp_write_mincost(void) { abort(); }
W void glp_write_mip(void) { abort(); }
W void glp_write_mps(void) { abort(); }
W void glp_write_prob(void) { abort(); }
W void glp_write_sol(void) { abort(); }
}
