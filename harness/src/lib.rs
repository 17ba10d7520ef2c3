#![allow(static_mut_refs, clippy::all)]
pub mod rt;
pub mod vfs;
pub mod web;
pub mod fx;
pub mod sig;
#[cfg(feature = "native")]
#[path = "../../engine/src/hash.rs"]
pub mod hash;
#[cfg(feature = "server")]
pub mod prog;
macro_rules! table { ($($m:ident: $($f:ident)*;)*) => { $(pub mod $m;)* #[cfg(feature = "native")] pub static TABLE: &[(&str, extern "C" fn())] = &[$($((stringify!($f), $m::$f),)*)*]; } }
table! {
    probe: h_probe h_probe2;
    data: d_put_small d_put_large d_huge d_range_small d_range_big d_range_beyond d_range_any d_put_key d_meta_value d_meta_name d_meta_many d_meta_key d_meta_key_far d_meta_history d_meta_history5 d_meta_form d_copy d_copy_source d_copy_refused d_short d_absent;
    fault: f_enospc f_crash f_body f_delete f_read;
    multi: m_assemble m_sizes m_history m_history6 m_refuse m_ids m_many m_huge;
    params: r_all_params x_headers;
    hdr: p_range p_date p_date_pairs p_sha256 p_auth p_auth_date p_auth_date_pairs p_copy;
    conc: c_pairs c_three c_three_all c_split c_large c_buckets c_buckets_three c_buckets_three_all c_buckets_split c_parts c_parts_three c_parts_split c_cancel c_cancel_read;
    list: l_sets l_prefix l_history l_history5 l_delete_key l_delete_last l_delete_many l_buckets l_buckets5 l_missing_bucket l_bucket_names l_bucket_full l_many l_isolation l_confined l_confined_bucket;
    auth: a_gate_header a_gate_garbage a_gate_presigned a_gate_form a_gate_other a_keys a_tamper_path a_tamper_query a_tamper_rest a_tamper_unsigned_header a_tamper_payload a_tamper_many a_accept_ops a_accept_bytes a_accept_utf8 a_accept_sizes a_accept_scope a_accept_form a_expiry a_expiry_dates a_expiry_fields;
    time: t_objects t_buckets;
    xml: x_out x_out_absent x_error x_error_own x_code_names x_delete x_long x_complete x_create x_refuse;
    route: r_bucket r_shared r_key r_key_len r_unsupported r_unsupported_other r_unknown r_params r_header_params r_garbage_header r_garbage_query r_garbage_uri r_garbage_body r_garbage_form;
    body: b_chunk_tamper b_chunk_truncate b_chunk_store b_chunk_frag b_chunk_pairs b_chunk_sizes b_chunk_long b_chunk_long_tamper b_chunk_empty r_garbage_signed_form r_garbage_chunked b_form_cut1 b_form_cut2 b_form_pieces b_form_sizes b_form_fields b_form_names b_form_headers b_form_lines b_form_truncate;
}
