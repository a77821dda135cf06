#[macro_use]
mod rt;
mod adv;
mod asy;
mod show;
mod total;
mod tap;
mod serve;
mod setup;
mod det;
mod disc;
mod enc;
mod hdr;
mod net;
mod res;
mod text;
mod spec;
mod svc;
mod rec;
mod wire;

entries! {
    show { sh_question sh_record sh_a sh_aaaa sh_names sh_pointer sh_mx sh_srv sh_soa sh_txt sh_txt_any sh_txt_empty sh_txt_long sh_names_long sh_other_long sh_other sh_bad sh_codes sh_errors sh_v4_in_v6 sh_full }
    setup { su_make su_timeout su_drop }
    serve { sv_sequence sv_cancel sv_any sv_question sv_register sv_big sv_send sv_long sv_logged sv_socket }
    tap { tap_sections tap_many tap_long tap_question tap_class tap_header tap_record tap_types tap_ttl tap_any tap_bytes tap_cut tap_big tap_sequence tap_socket }
    total { t_walk t_walk_long t_questions_long t_record_cut t_deep t_questions t_names t_record t_data t_data_late t_chain t_receivers t_received_records t_show_question t_show_codes t_show_data t_show_long t_show_values t_show_numbers t_show_header }
    asy { as_resolve as_resolve_any as_resolve_name as_resolve_servers as_logged as_resolve_one as_resolve_again as_resolve_cancel as_resolve_send as_add as_text as_discover as_discover_records as_discover_alike as_discover_for as_discover_clock as_discover_again as_discover_cancel as_discover_big as_discover_long as_resolve_many as_discover_send }
    det { det_srv det_order det_mixed det_header det_cut det_sequence det_logged det_many det_clock both_instances both_many both_types both_details both_hosts both_walk }
    disc { br_instances br_types br_repeat br_distinct br_alike br_header br_mixed br_type br_cut br_any br_big br_sequence br_logged br_clock br_stop br_stop_big br_long br_many br_send_fails br_again br_retransmit query_browse query_details query_discovery }
    res { res_header res_records res_types res_cut res_any res_raw res_big res_sequence res_logged res_multicast res_again res_many res_timeout srv_v4 srv_many srv_v6 srv_multicast srv_add srv_text srv_again srv_send_fails query_lookup query_lookup_long query_sent }
    svc { svc_type svc_instance svc_new svc_order svc_order3 svc_hash svc_show svc_transport svc_details txt_one txt_value txt_long txt_long_key txt_many txt_two txt_three txt_flag txt_show txt_advertised }
    adv { adv_types adv_header adv_names adv_many adv_regs adv_lengths adv_metadata adv_both adv_layout adv_extra adv_counts adv_cut adv_any adv_any_long adv_history adv_trunc adv_trunc_at adv_logged adv_scale adv_grow adv_long adv_flags }
    hdr { hdr_get hdr_set hdr_seq hdr_len match_type match_class codes names_type names_qtype names_other }
    text { label_len label_bytes parse_short parse_utf8 parse_wide parse_long show_label show_long name_many show_name show_parse name_collect name_iters name_extend name_eq }
    enc { enc_answer enc_authority enc_additional enc_sections enc_defaults enc_header enc_counts enc_huge enc_txt_limits short_q short_qa short_rrr short_aa short_types short_header short_long short_header_late }
    wire { names_hdr names_10 names_12 names_14 names_long names_total names_far names_chain }
    rec { frame_next frame_iter frame_skip frame_mix frame_four frame_skip_four frame_names frame_many frame_huge frame_unicast frame_adapters rd_a rd_aaaa rd_cname rd_ns rd_ptr rd_txt rd_mx rd_srv rd_soa rd_soa_short rd_name_shapes rd_txt_long rd_type }
}
