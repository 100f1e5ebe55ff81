#pragma once
#include "fdb_types.h"
#ifdef __cplusplus
extern "C" {
#endif
fdb_config fdb_get_default_config(void);
fdb_kvs_config fdb_get_default_kvs_config(void);
fdb_status fdb_open(fdb_file_handle** out, const char* filename, fdb_config* config);
fdb_status fdb_open_custom_cmp(fdb_file_handle** out, const char* filename, fdb_config* config,
                               size_t num_functions, char** kvs_names,
                               fdb_custom_cmp_variable* functions, void** user_params);
fdb_status fdb_close(fdb_file_handle* h);
fdb_status fdb_kvs_open(fdb_file_handle* h, fdb_kvs_handle** out, const char* name,
                        fdb_kvs_config* config);
fdb_status fdb_kvs_close(fdb_kvs_handle* h);
fdb_status fdb_set(fdb_kvs_handle* h, fdb_doc* doc);
fdb_status fdb_del(fdb_kvs_handle* h, fdb_doc* doc);
fdb_status fdb_get(fdb_kvs_handle* h, fdb_doc* doc);
fdb_status fdb_get_metaonly(fdb_kvs_handle* h, fdb_doc* doc);
fdb_status fdb_get_nearest(fdb_kvs_handle* h, const void* key, size_t keylen, fdb_doc* doc,
                           fdb_get_nearest_opt_t opt);
fdb_status fdb_get_byoffset_raw(fdb_kvs_handle* h, fdb_doc* doc);
fdb_status fdb_commit(fdb_file_handle* h, fdb_commit_opt_t opt);
fdb_status fdb_sync_file(fdb_file_handle* h);
fdb_status fdb_snapshot_open(fdb_kvs_handle* in, fdb_kvs_handle** out, fdb_seqnum_t seqnum);
fdb_status fdb_get_kvs_seqnum(fdb_kvs_handle* h, fdb_seqnum_t* out);
fdb_status fdb_get_kvs_info(fdb_kvs_handle* h, fdb_kvs_info* info);
fdb_status fdb_get_file_info(fdb_file_handle* h, fdb_file_info* info);
fdb_status fdb_get_all_snap_markers(fdb_file_handle* h, fdb_snapshot_info_t** out, uint64_t* num);
fdb_status fdb_free_snap_markers(fdb_snapshot_info_t* m, uint64_t num);
fdb_status fdb_iterator_init(fdb_kvs_handle* h, fdb_iterator** out, const void* min_key,
                             size_t min_keylen, const void* max_key, size_t max_keylen,
                             fdb_iterator_opt_t opt);
fdb_status fdb_iterator_sequence_init(fdb_kvs_handle* h, fdb_iterator** out,
                                      fdb_seqnum_t min_seq, fdb_seqnum_t max_seq,
                                      fdb_iterator_opt_t opt);
fdb_status fdb_iterator_seek(fdb_iterator* it, const void* key, size_t keylen,
                             fdb_iterator_seek_opt_t direction);
fdb_status fdb_iterator_seek_byseq(fdb_iterator* it, fdb_seqnum_t seqnum,
                                   fdb_iterator_seek_opt_t direction);
fdb_status fdb_iterator_seek_to_min(fdb_iterator* it);
fdb_status fdb_iterator_seek_to_max(fdb_iterator* it);
fdb_status fdb_iterator_next(fdb_iterator* it);
fdb_status fdb_iterator_prev(fdb_iterator* it);
fdb_status fdb_iterator_get(fdb_iterator* it, fdb_doc** doc);
fdb_status fdb_iterator_get_metaonly(fdb_iterator* it, fdb_doc** doc);
fdb_status fdb_iterator_close(fdb_iterator* it);
fdb_status fdb_traverse_index(fdb_kvs_handle* h, void* start_key, size_t start_keylen,
                              fdb_index_traversal_callback cb, void* ctx);
fdb_status fdb_doc_free(fdb_doc* doc);
void fdb_set_log_callback_ex_global(fdb_log_callback_ex cb, void* ctx);
size_t fdb_get_buffer_cache_used(void);
void fdb_print_cache_stats(void);
fdb_status fdb_shutdown(void);
const char* fdb_error_msg(fdb_status s);
#ifdef __cplusplus
}
#endif
