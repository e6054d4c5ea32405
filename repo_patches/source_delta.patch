From 08bf61a821a60030bb83c873039e8b46881aa009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 01/60] fix: carry buf_map local/remote types with their full
 width

---
 src/server/include/pdc_client_server_common.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/include/pdc_client_server_common.h b/src/server/include/pdc_client_server_common.h
index 98edcac..1051fa3 100644
--- a/src/server/include/pdc_client_server_common.h
+++ b/src/server/include/pdc_client_server_common.h
@@ -2569,12 +2569,12 @@ hg_proc_buf_map_in_t(hg_proc_t proc, void *data)
         // HG_LOG_ERROR("Proc error");
         return ret;
     }
-    ret = hg_proc_uint8_t(proc, &struct_data->local_type);
+    ret = hg_proc_int32_t(proc, &struct_data->local_type);
     if (ret != HG_SUCCESS) {
         // HG_LOG_ERROR("Proc error");
         return ret;
     }
-    ret = hg_proc_uint8_t(proc, &struct_data->remote_type);
+    ret = hg_proc_int32_t(proc, &struct_data->remote_type);
     if (ret != HG_SUCCESS) {
         // HG_LOG_ERROR("Proc error");
         return ret;
-- 
2.43.0


From 5520516eb7ff0b270f3da7d2861f1d04d384101c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 02/60] fix: propagate every serialisation failure in hg_proc
 routines

---
 src/server/include/pdc_client_server_common.h | 5 +++++
 src/server/pdc_client_server_common.c         | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/server/include/pdc_client_server_common.h b/src/server/include/pdc_client_server_common.h
index 1051fa3..f273c77 100644
--- a/src/server/include/pdc_client_server_common.h
+++ b/src/server/include/pdc_client_server_common.h
@@ -1421,6 +1421,7 @@ hg_proc_region_transform_and_lock_in_t(hg_proc_t proc, void *data)
     ret = hg_proc_int64_t(proc, &struct_data->transform_data_size);
     if (ret != HG_SUCCESS) {
         // HG_LOG_ERROR("Proc error");
+        return ret;
     }
     ret = hg_proc_uint64_t(proc, &struct_data->client_data_ptr);
     if (ret != HG_SUCCESS) {
@@ -3270,6 +3271,10 @@ hg_proc_pdc_histogram_t(hg_proc_t proc, void *data)
                 /* FALLTHRU */
             case HG_ENCODE:
                 ret = hg_proc_raw(proc, struct_data->range, struct_data->nbin * sizeof(double) * 2);
+                if (ret != HG_SUCCESS) {
+                    // HG_LOG_ERROR("Proc error");
+                    return ret;
+                }
                 ret = hg_proc_raw(proc, struct_data->bin, struct_data->nbin * sizeof(uint64_t));
                 break;
             case HG_FREE:
diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index d90f83b..41ecc77 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -136,6 +136,10 @@ hg_proc_pdc_query_xfer_t(hg_proc_t proc, void *data)
                 /* FALLTHRU */
             case HG_ENCODE:
                 ret = hg_proc_raw(proc, struct_data->combine_ops, struct_data->n_combine_ops * sizeof(int));
+                if (ret != HG_SUCCESS) {
+                    // HG_LOG_ERROR("Proc error");
+                    return ret;
+                }
                 ret = hg_proc_raw(proc, struct_data->constraints,
                                   struct_data->n_constraints * sizeof(pdc_query_constraint_t));
                 break;
-- 
2.43.0


From c4b487648577de00f6dff6ee487a9b3eded719c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 03/60] fix: decode and answer RPCs with the registered message
 types

---
 src/server/pdc_client_server_common.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index 41ecc77..7493c77 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -3680,6 +3680,8 @@ HG_TEST_RPC_CB(region_transform_release, handle)
     hg_return_t           ret_value = HG_SUCCESS;
     hg_return_t           hg_ret;
     region_lock_in_t      in;
+    /* the message sent for this RPC is larger than region_lock_in_t */
+    region_transform_and_lock_in_t transform_in;
     region_lock_out_t     out;
     const struct hg_info *hg_info = NULL;
     data_server_region_t *target_obj;
@@ -3702,7 +3704,16 @@ HG_TEST_RPC_CB(region_transform_release, handle)
     FUNC_ENTER(NULL);
 
     // Decode input
-    HG_Get_input(handle, &in);
+    HG_Get_input(handle, &transform_in);
+    in.meta_server_id = transform_in.meta_server_id;
+    in.obj_id         = transform_in.obj_id;
+    in.access_type    = transform_in.access_type;
+    in.local_reg_id   = transform_in.local_reg_id;
+    in.region         = transform_in.region;
+    in.mapping        = transform_in.mapping;
+    in.data_type      = transform_in.data_type;
+    in.data_unit      = PDC_get_var_type_size(transform_in.data_type);
+    in.lock_mode      = transform_in.lock_mode;
     /* Get info from handle */
 
     hg_info = HG_Get_info(handle);
@@ -3819,7 +3830,7 @@ HG_TEST_RPC_CB(region_transform_release, handle)
             // Perform lock release function
             PDC_Data_Server_region_release(&in, &out);
             HG_Respond(handle, NULL, NULL, &out);
-            HG_Free_input(handle, &in);
+            HG_Free_input(handle, &transform_in);
             HG_Destroy(handle);
         }
     }
@@ -3829,7 +3840,7 @@ done:
     if (error == 1) {
         out.ret = 0;
         HG_Respond(handle, NULL, NULL, &out);
-        HG_Free_input(handle, &in);
+        HG_Free_input(handle, &transform_in);
         HG_Destroy(handle);
     }
 
@@ -6579,7 +6590,7 @@ PDC_FUNC_DECLARE_REGISTER(server_lookup_client)
 PDC_FUNC_DECLARE_REGISTER(server_lookup_remote_server)
 PDC_FUNC_DECLARE_REGISTER(client_test_connect)
 PDC_FUNC_DECLARE_REGISTER(notify_io_complete)
-PDC_FUNC_DECLARE_REGISTER_IN_OUT(send_shm_bulk_rpc, bulk_rpc_in_t, bulk_rpc_out_t)
+PDC_FUNC_DECLARE_REGISTER_IN_OUT(send_shm_bulk_rpc, bulk_rpc_in_t, pdc_int_ret_t)
 PDC_FUNC_DECLARE_REGISTER_IN_OUT(query_read_obj_name_client_rpc, query_read_obj_name_in_t,
                                  query_read_obj_name_out_t)
 PDC_FUNC_DECLARE_REGISTER(notify_region_update)
@@ -6617,7 +6628,7 @@ PDC_FUNC_DECLARE_REGISTER_IN_OUT(region_transform_release, region_transform_and_
 PDC_FUNC_DECLARE_REGISTER_IN_OUT(region_analysis_release, region_analysis_and_lock_in_t, region_lock_out_t)
 PDC_FUNC_DECLARE_REGISTER_IN_OUT(query_partial, metadata_query_transfer_in_t, metadata_query_transfer_out_t)
 PDC_FUNC_DECLARE_REGISTER_IN_OUT(query_kvtag, pdc_kvtag_t, metadata_query_transfer_out_t)
-PDC_FUNC_DECLARE_REGISTER(bulk_rpc)
+PDC_FUNC_DECLARE_REGISTER_IN_OUT(bulk_rpc, bulk_rpc_in_t, pdc_int_ret_t)
 PDC_FUNC_DECLARE_REGISTER(data_server_read)
 PDC_FUNC_DECLARE_REGISTER(data_server_write)
 PDC_FUNC_DECLARE_REGISTER(data_server_read_check)
-- 
2.43.0


From e61618b370bee63491456215eb82e5f19e267081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 04/60] fix: carry region_storage_meta storage_location as the
 array it is

---
 src/server/include/pdc_client_server_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/include/pdc_client_server_common.h b/src/server/include/pdc_client_server_common.h
index f273c77..4429752 100644
--- a/src/server/include/pdc_client_server_common.h
+++ b/src/server/include/pdc_client_server_common.h
@@ -3222,7 +3222,7 @@ hg_proc_region_storage_meta_t(hg_proc_t proc, void *data)
         // HG_LOG_ERROR("Proc error");
         return ret;
     }
-    ret = hg_proc_hg_string_t(proc, &struct_data->storage_location);
+    ret = hg_proc_raw(proc, struct_data->storage_location, sizeof(struct_data->storage_location));
     if (ret != HG_SUCCESS) {
         // HG_LOG_ERROR("Proc error");
         return ret;
-- 
2.43.0


From 30e0e71207767041f074139f42e0cf490f57fac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 05/60] fix: report the containing relation in
 PDC_check_region_relation

---
 src/server/pdc_server_region/pdc_server_region_cache.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index 40564e7..fbdf805 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -102,6 +102,7 @@ PDC_check_region_relation(uint64_t *offset, uint64_t *size, uint64_t *offset2, u
     if (flag) {
         return PDC_REGION_CONTAINED;
     }
+    flag = 1;
     for (i = 0; i < ndim; ++i) {
         if (offset[i] > offset2[i] || offset[i] + size[i] < offset2[i] + size2[i]) {
             flag = 0;
-- 
2.43.0


From 413e5b3deb27788b1a590dedfb37253db3205edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 06/60] fix: scale the source offset by the element size when
 merging cached regions

---
 src/server/pdc_server_region/pdc_server_region_cache.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index fbdf805..1e51f18 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -655,7 +655,8 @@ merge_requests(uint64_t *start, uint64_t *end, int request_size, char **buf, uin
         }
         else {
             if (end[i] > new_end[0][index]) {
-                memcpy(ptr, buf[i] + new_end[0][index] - start[i], (end[i] - new_end[0][index]) * unit);
+                memcpy(ptr, buf[i] + (new_end[0][index] - start[i]) * unit,
+                       (end[i] - new_end[0][index]) * unit);
                 ptr += (end[i] - new_end[0][index]) * unit;
                 new_end[0][index] = end[i];
             }
-- 
2.43.0


From 0dd919688bc04330a89a87e25f4a0e98e9ba507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 07/60] fix: update every cached copy of the written elements

---
 .../pdc_server_region/pdc_server_region_cache.c      | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index 1e51f18..4964fc4 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -561,23 +561,21 @@ PDC_transfer_request_data_write_out(uint64_t obj_id, int obj_ndim, const uint64_
         // data.
         region_cache_iter = obj_cache->region_cache;
         while (region_cache_iter != NULL) {
-            flag = 0;
             PDC_region_overlap_detect(region_info->ndim, region_info->offset, region_info->size,
                                       region_cache_iter->region_cache_info->offset,
                                       region_cache_iter->region_cache_info->size, &overlap_offset,
                                       &overlap_size);
             if (overlap_offset) {
-                flag = detect_region_contained(region_info->offset, region_info->size,
-                                               region_cache_iter->region_cache_info->offset,
-                                               region_cache_iter->region_cache_info->size, region_info->ndim);
+                if (detect_region_contained(region_info->offset, region_info->size,
+                                            region_cache_iter->region_cache_info->offset,
+                                            region_cache_iter->region_cache_info->size, region_info->ndim)) {
+                    flag = 1;
+                }
                 memcpy_overlap_subregion(
                     region_info->ndim, unit, buf, region_info->offset, region_info->size,
                     region_cache_iter->region_cache_info->buf, region_cache_iter->region_cache_info->offset,
                     region_cache_iter->region_cache_info->size, overlap_offset, overlap_size);
                 free(overlap_offset);
-                if (flag) {
-                    break;
-                }
             }
             /*
              else {
-- 
2.43.0


From 89baa776007d49367b84e2035f001720bba54dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 08/60] fix: do not touch a cached object after the cache lock
 was dropped

---
 src/server/pdc_server_region/pdc_server_region_cache.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index 4964fc4..bd97ea0 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -472,6 +472,7 @@ PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dim
     memcpy(region_cache_info->size, size, sizeof(uint64_t) * ndim);
     memcpy(region_cache_info->buf, buf, sizeof(char) * buf_size);
     total_cache_size += buf_size;
+    gettimeofday(&(obj_cache->timestamp), NULL);
 
     pthread_mutex_unlock(&pdc_obj_cache_list_mutex);
 
@@ -488,8 +489,6 @@ PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dim
     // printf("created cache region at offset %llu, buf size %llu, unit = %ld, ndim = %ld, obj_id = %llu\n",
     //       offset[0], buf_size, unit, ndim, (long long unsigned)obj_cache->obj_id);
 
-    gettimeofday(&(obj_cache->timestamp), NULL);
-
     return 0;
 }
 
-- 
2.43.0


From 405085bbbb373edc8a1e339398a855f480adb96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 09/60] fix: do not refuse a small write far inside a stored
 region

---
 src/server/pdc_server_region/pdc_server_data.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 9b3ae5b..643517f 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -4789,13 +4789,6 @@ PDC_Server_data_write_out(uint64_t obj_id, struct pdc_region_info *region_info,
             if (region_info->ndim == 1) {
                 // 1D can overwrite data in region directly
                 pos = (overlap_offset[0] - overlap_region->start[0]) * unit;
-                if (pos > write_size) {
-                    printf("==PDC_SERVER[%d]: Error with buf pos calculation %llu / %llu! @ line %d\n",
-                           pdc_server_rank_g, pos, write_size, __LINE__);
-                    ret_value = -1;
-                    goto done;
-                }
-
                 lseek(region->fd, overlap_region->offset + pos, SEEK_SET);
 #ifdef PDC_TIMING
                 start_posix = MPI_Wtime();
-- 
2.43.0


From 203e6d3641d0352bc88e84abf828e1e2cefab70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 10/60] fix: refuse unknown or closed ids instead of
 dereferencing them

PDC_LIST_SEARCH read the entry before testing it for NULL, so PDC_find_id
crashed on an id that is not registered, and many callers used the result
of PDC_find_id without checking it.
---
 src/api/pdc_client_connect.c               | 30 +++++++++++++++++----
 src/api/pdc_obj/pdc_cont.c                 | 12 ++++++---
 src/api/pdc_obj/pdc_mpi.c                  | 13 ++++++---
 src/api/pdc_obj/pdc_obj.c                  | 17 +++++++-----
 src/api/pdc_obj/pdc_prop.c                 |  9 ++++---
 src/api/pdc_region/pdc_region.c            |  8 ++++--
 src/api/pdc_region/pdc_region_transfer.c   | 31 +++++++++++++++++-----
 src/api/pdc_transform/pdc_transform.c      |  6 +++--
 src/commons/utils/include/pdc_linkedlist.h |  2 +-
 9 files changed, 95 insertions(+), 33 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index b890062..00d2d98 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -5493,15 +5493,24 @@ PDC_Client_add_objects_to_container(int nobj, pdcid_t *local_obj_ids, pdcid_t lo
 
     obj_ids = (uint64_t *)malloc(sizeof(uint64_t) * nobj);
     for (i = 0; i < nobj; i++) {
-        id_info    = PDC_find_id(local_obj_ids[i]);
+        id_info = PDC_find_id(local_obj_ids[i]);
+        if (id_info == NULL) {
+            free(obj_ids);
+            PGOTO_ERROR(FAIL, "cannot locate object ID");
+        }
         obj_ids[i] = ((struct _pdc_obj_info *)(id_info->obj_ptr))->obj_info_pub->meta_id;
     }
 
-    id_info      = PDC_find_id(local_cont_id);
+    id_info = PDC_find_id(local_cont_id);
+    if (id_info == NULL) {
+        free(obj_ids);
+        PGOTO_ERROR(FAIL, "cannot locate container ID");
+    }
     cont_meta_id = ((struct _pdc_cont_info *)(id_info->obj_ptr))->cont_info_pub->meta_id;
 
     ret_value = PDC_Client_add_del_objects_to_container(nobj, obj_ids, cont_meta_id, ADD_OBJ);
 
+done:
     FUNC_LEAVE(ret_value);
 }
 
@@ -5519,15 +5528,24 @@ PDC_Client_del_objects_to_container(int nobj, pdcid_t *local_obj_ids, pdcid_t lo
 
     obj_ids = (uint64_t *)malloc(sizeof(uint64_t) * nobj);
     for (i = 0; i < nobj; i++) {
-        id_info    = PDC_find_id(local_obj_ids[i]);
+        id_info = PDC_find_id(local_obj_ids[i]);
+        if (id_info == NULL) {
+            free(obj_ids);
+            PGOTO_ERROR(FAIL, "cannot locate object ID");
+        }
         obj_ids[i] = ((struct _pdc_obj_info *)(id_info->obj_ptr))->obj_info_pub->meta_id;
     }
 
-    id_info      = PDC_find_id(local_cont_id);
+    id_info = PDC_find_id(local_cont_id);
+    if (id_info == NULL) {
+        free(obj_ids);
+        PGOTO_ERROR(FAIL, "cannot locate container ID");
+    }
     cont_meta_id = ((struct _pdc_cont_info *)(id_info->obj_ptr))->cont_info_pub->meta_id;
 
     ret_value = PDC_Client_add_del_objects_to_container(nobj, obj_ids, cont_meta_id, DEL_OBJ);
 
+done:
     FUNC_LEAVE(ret_value);
 }
 
@@ -7725,7 +7743,9 @@ PDCobj_put_data(const char *obj_name, void *data, uint64_t size, pdcid_t cont_id
     FUNC_ENTER(NULL);
 
     id_info = PDC_find_id(cont_id);
-    info    = (struct _pdc_cont_info *)(id_info->obj_ptr);
+    if (id_info == NULL)
+        PGOTO_ERROR(0, "cannot locate container ID");
+    info = (struct _pdc_cont_info *)(id_info->obj_ptr);
 
     obj_prop = PDCprop_create(PDC_OBJ_CREATE, info->cont_pt->pdc->local_id);
     PDCprop_set_obj_type(obj_prop, PDC_CHAR);
diff --git a/src/api/pdc_obj/pdc_cont.c b/src/api/pdc_obj/pdc_cont.c
index 4366c41..9b35d8c 100644
--- a/src/api/pdc_obj/pdc_cont.c
+++ b/src/api/pdc_obj/pdc_cont.c
@@ -70,7 +70,9 @@ PDCcont_create(const char *cont_name, pdcid_t cont_prop_id)
         PGOTO_ERROR(0, "PDC pub container memory allocation failed");
     p->cont_info_pub->name = strdup(cont_name);
 
-    id_info   = PDC_find_id(cont_prop_id);
+    id_info = PDC_find_id(cont_prop_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(0, "cannot locate container property ID");
     cont_prop = (struct _pdc_cont_prop *)(id_info->obj_ptr);
 
     p->cont_pt = (struct _pdc_cont_prop *)PDC_calloc(1, sizeof(struct _pdc_cont_prop));
@@ -119,7 +121,9 @@ PDCcont_create_col(const char *cont_name, pdcid_t cont_prop_id)
         PGOTO_ERROR(0, "PDC pub container memory allocation failed");
     p->cont_info_pub->name = strdup(cont_name);
 
-    id_info   = PDC_find_id(cont_prop_id);
+    id_info = PDC_find_id(cont_prop_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(0, "cannot locate container property ID");
     cont_prop = (struct _pdc_cont_prop *)(id_info->obj_ptr);
 
     p->cont_pt = (struct _pdc_cont_prop *)PDC_calloc(1, sizeof(struct _pdc_cont_prop));
@@ -169,7 +173,9 @@ PDC_cont_create_local(pdcid_t pdc, const char *cont_name, uint64_t cont_meta_id)
 
     cont_prop_id = PDCprop_create(PDC_CONT_CREATE, pdc);
 
-    id_info    = PDC_find_id(cont_prop_id);
+    id_info = PDC_find_id(cont_prop_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(0, "cannot locate container property ID");
     cont_prop  = (struct _pdc_cont_prop *)(id_info->obj_ptr);
     p->cont_pt = (struct _pdc_cont_prop *)PDC_calloc(1, sizeof(struct _pdc_cont_prop));
     if (!p->cont_pt)
diff --git a/src/api/pdc_obj/pdc_mpi.c b/src/api/pdc_obj/pdc_mpi.c
index 4db4d04..237b90c 100644
--- a/src/api/pdc_obj/pdc_mpi.c
+++ b/src/api/pdc_obj/pdc_mpi.c
@@ -35,7 +35,7 @@ PDCobj_create_mpi(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, in
     pdcid_t               ret_value = SUCCEED;
     struct _pdc_obj_info *p         = NULL;
     struct _pdc_id_info * id_info   = NULL;
-    int                   rank;
+    int                   rank, local_ok, global_ok;
 
     FUNC_ENTER(NULL);
 
@@ -46,8 +46,14 @@ PDCobj_create_mpi(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, in
     else
         ret_value = PDC_obj_create(cont_id, obj_name, obj_prop_id, PDC_OBJ_LOCAL);
 
-    id_info = PDC_find_id(ret_value);
-    p       = (struct _pdc_obj_info *)(id_info->obj_ptr);
+    /* every rank takes part in the broadcasts below, so all of them give up if one has no object */
+    id_info   = PDC_find_id(ret_value);
+    local_ok  = (id_info != NULL);
+    global_ok = 0;
+    MPI_Allreduce(&local_ok, &global_ok, 1, MPI_INT, MPI_MIN, comm);
+    if (!global_ok || id_info == NULL)
+        PGOTO_ERROR(0, "unable to create the object on every rank");
+    p = (struct _pdc_obj_info *)(id_info->obj_ptr);
 
     MPI_Bcast(&(p->obj_info_pub->meta_id), 1, MPI_LONG_LONG, rank_id, comm);
     MPI_Bcast(&(p->obj_info_pub->metadata_server_id), 1, MPI_UINT32_T, rank_id, comm);
@@ -56,6 +62,7 @@ PDCobj_create_mpi(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, in
     // printf("PDCobj_create_mpi: obj partition for %s is %u @ rank %d\n", obj_name, (unsigned)
     // (((pdc_metadata_t *)p->metadata)->region_partition),rank);
     // PDC_Client_attach_metadata_to_local_obj((char *)obj_name, p->meta_id, p->cont->meta_id, p);
+done:
     FUNC_LEAVE(ret_value);
 }
 
diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 9b307e5..e19ca9c 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -251,6 +251,8 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
     }
     else {
         id_info = PDC_find_id(cont_id);
+        if (id_info == NULL)
+            PGOTO_ERROR(0, "cannot locate container ID");
         /* struct _pdc_cont_info field */
         cont_info = (struct _pdc_cont_info *)(id_info->obj_ptr);
 
@@ -283,7 +285,9 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
         meta_id                         = p->cont->cont_info_pub->meta_id;
     }
 
-    id_info  = PDC_find_id(obj_prop_id);
+    id_info = PDC_find_id(obj_prop_id);
+    if (id_info == NULL)
+        PGOTO_ERROR(0, "cannot locate object property ID");
     obj_prop = (struct _pdc_obj_prop *)(id_info->obj_ptr);
 
     /* struct _pdc_obj_prop field */
@@ -974,9 +978,8 @@ PDCobj_set_dims(pdcid_t obj_id, int ndim, uint64_t *dims)
 
     FUNC_ENTER(NULL);
     info = PDC_find_id(obj_id);
-    if (info == NULL) {
-        fprintf(stderr, "PDCobj_set_dims: cannnot find obj id @ line %d\n", __LINE__);
-    }
+    if (info == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate object ID");
     object = (struct _pdc_obj_info *)(info->obj_ptr);
     if (object->local_transfer_request_size) {
         // We do not allow setting obj dims while the region transfer requests are taking places.
@@ -1011,14 +1014,14 @@ PDCobj_get_dims(pdcid_t obj_id, int *ndim, uint64_t **dims)
     FUNC_ENTER(NULL);
 
     info = PDC_find_id(obj_id);
-    if (info == NULL) {
-        fprintf(stderr, "PDCobj_set_dims: cannnot find obj id @ line %d\n", __LINE__);
-    }
+    if (info == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate object ID");
     object = (struct _pdc_obj_info *)(info->obj_ptr);
     *ndim  = object->obj_pt->obj_prop_pub->ndim;
     *dims  = (uint64_t *)malloc(sizeof(uint64_t) * ndim[0]);
     memcpy(*dims, object->obj_pt->obj_prop_pub->dims, sizeof(uint64_t) * ndim[0]);
 
+done:
     FUNC_LEAVE(ret_value);
 }
 
diff --git a/src/api/pdc_obj/pdc_prop.c b/src/api/pdc_obj/pdc_prop.c
index 65f1985..49859f6 100644
--- a/src/api/pdc_obj/pdc_prop.c
+++ b/src/api/pdc_obj/pdc_prop.c
@@ -66,6 +66,11 @@ PDCprop_create(pdc_prop_type_t type, pdcid_t pdcid)
 
     FUNC_ENTER(NULL);
 
+    id_info = PDC_find_id(pdcid);
+    if (id_info == NULL)
+        PGOTO_ERROR(0, "cannot locate PDC ID");
+    pdc_class = (struct _pdc_class *)(id_info->obj_ptr);
+
     if (type == PDC_CONT_CREATE) {
         p = (struct _pdc_cont_prop *)PDC_malloc(sizeof(struct _pdc_cont_prop));
         if (!p)
@@ -73,8 +78,6 @@ PDCprop_create(pdc_prop_type_t type, pdcid_t pdcid)
         p->cont_life    = PDC_PERSIST;
         new_id_c        = PDC_id_register(PDC_CONT_PROP, p);
         p->cont_prop_id = new_id_c;
-        id_info         = PDC_find_id(pdcid);
-        pdc_class       = (struct _pdc_class *)(id_info->obj_ptr);
         p->pdc          = (struct _pdc_class *)PDC_calloc(1, sizeof(struct _pdc_class));
         if (p->pdc == NULL)
             PGOTO_ERROR(0, "PDC class allocation failed");
@@ -103,8 +106,6 @@ PDCprop_create(pdc_prop_type_t type, pdcid_t pdcid)
         q->buf                            = NULL;
         new_id_o                          = PDC_id_register(PDC_OBJ_PROP, q);
         q->obj_prop_pub->obj_prop_id      = new_id_o;
-        id_info                           = PDC_find_id(pdcid);
-        pdc_class                         = (struct _pdc_class *)(id_info->obj_ptr);
         q->pdc                            = (struct _pdc_class *)PDC_calloc(1, sizeof(struct _pdc_class));
         if (q->pdc == NULL)
             PGOTO_ERROR(0, "PDC class allocation failed");
diff --git a/src/api/pdc_region/pdc_region.c b/src/api/pdc_region/pdc_region.c
index 5b5aa1f..3e4e702 100644
--- a/src/api/pdc_region/pdc_region.c
+++ b/src/api/pdc_region/pdc_region.c
@@ -223,7 +223,9 @@ PDCbuf_obj_map(void *buf, pdc_var_type_t local_type, pdcid_t local_reg, pdcid_t
     FUNC_ENTER(NULL);
 
     reginfo1 = PDC_find_id(local_reg);
-    reg1     = (struct pdc_region_info *)(reginfo1->obj_ptr);
+    if (reginfo1 == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate local region ID");
+    reg1 = (struct pdc_region_info *)(reginfo1->obj_ptr);
 
     objinfo2 = PDC_find_id(remote_obj);
     if (objinfo2 == NULL)
@@ -234,7 +236,9 @@ PDCbuf_obj_map(void *buf, pdc_var_type_t local_type, pdcid_t local_reg, pdcid_t
     remote_type    = obj2->obj_pt->obj_prop_pub->type;
 
     reginfo2 = PDC_find_id(remote_reg);
-    reg2     = (struct pdc_region_info *)(reginfo2->obj_ptr);
+    if (reginfo2 == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate remote region ID");
+    reg2 = (struct pdc_region_info *)(reginfo2->obj_ptr);
     if (obj2->obj_pt->obj_prop_pub->ndim != reg2->ndim)
         PGOTO_ERROR(FAIL, "remote object dimension and region dimension does not match");
     for (i = 0; i < reg2->ndim; i++)
diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index ee4e48c..c89fa2a 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -199,12 +199,16 @@ PDCregion_transfer_create(void *buf, pdc_access_t access_type, pdcid_t obj_id, p
 
     FUNC_ENTER(NULL);
     reginfo1 = PDC_find_id(local_reg);
+    if (reginfo1 == NULL)
+        PGOTO_ERROR(0, "cannot locate local region ID");
     reg1     = (struct pdc_region_info *)(reginfo1->obj_ptr);
     reginfo2 = PDC_find_id(remote_reg);
+    if (reginfo2 == NULL)
+        PGOTO_ERROR(0, "cannot locate remote region ID");
     reg2     = (struct pdc_region_info *)(reginfo2->obj_ptr);
     objinfo2 = PDC_find_id(obj_id);
     if (objinfo2 == NULL)
-        PGOTO_ERROR(FAIL, "cannot locate remote object ID");
+        PGOTO_ERROR(0, "cannot locate remote object ID");
     obj2 = (struct _pdc_obj_info *)(objinfo2->obj_ptr);
     // remote_meta_id = obj2->obj_info_pub->meta_id;
 
@@ -928,7 +932,12 @@ prepare_start_all_requests(pdcid_t *transfer_request_id, int size,
     *posix_transfer_request_id_ptr = (pdcid_t *)malloc(sizeof(pdcid_t) * size);
 
     for (i = 0; i < size; ++i) {
-        transferinfo     = PDC_find_id(transfer_request_id[i]);
+        transferinfo = PDC_find_id(transfer_request_id[i]);
+        if (transferinfo == NULL) {
+            fprintf(stderr, "PDC Client PDCregion_transfer_start_all cannot locate transfer request @ line %d\n",
+                    __LINE__);
+            return FAIL;
+        }
         transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
         if (transfer_request->metadata_id != NULL) {
             printf("PDC Client PDCregion_transfer_start_all attempt to start existing transfer request @ "
@@ -1429,6 +1438,8 @@ PDCregion_transfer_start(pdcid_t transfer_request_id)
     FUNC_ENTER(NULL);
 
     transferinfo = PDC_find_id(transfer_request_id);
+    if (transferinfo == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate transfer request ID");
 
     transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
 
@@ -1597,7 +1608,9 @@ PDCregion_transfer_status(pdcid_t transfer_request_id, pdc_transfer_status_t *co
 
     FUNC_ENTER(NULL);
 
-    transferinfo     = PDC_find_id(transfer_request_id);
+    transferinfo = PDC_find_id(transfer_request_id);
+    if (transferinfo == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate transfer request ID");
     transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
     if (transfer_request->metadata_id != NULL) {
         unit = transfer_request->unit;
@@ -1711,7 +1724,9 @@ PDCregion_transfer_wait_all(pdcid_t *transfer_request_id, int size)
     total_requests        = 0;
     transfer_request_head = NULL;
     for (i = 0; i < size; ++i) {
-        transferinfo     = PDC_find_id(transfer_request_id[i]);
+        transferinfo = PDC_find_id(transfer_request_id[i]);
+        if (transferinfo == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate transfer request ID");
         transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
         if (!transfer_request->metadata_id) {
             fprintf(stderr,
@@ -1852,7 +1867,9 @@ PDCregion_transfer_wait_all(pdcid_t *transfer_request_id, int size)
     }
 
     for (i = 0; i < size; ++i) {
-        transferinfo     = PDC_find_id(transfer_request_id[i]);
+        transferinfo = PDC_find_id(transfer_request_id[i]);
+        if (transferinfo == NULL)
+            continue;
         transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
         unit             = transfer_request->unit;
 
@@ -1910,7 +1927,9 @@ PDCregion_transfer_wait(pdcid_t transfer_request_id)
 
     FUNC_ENTER(NULL);
 
-    transferinfo     = PDC_find_id(transfer_request_id);
+    transferinfo = PDC_find_id(transfer_request_id);
+    if (transferinfo == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate transfer request ID");
     transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
     if (transfer_request->metadata_id != NULL) {
         // For region dynamic case, it is implemented in the aggregated version for portability.
diff --git a/src/api/pdc_transform/pdc_transform.c b/src/api/pdc_transform/pdc_transform.c
index 884cbf4..5ed6e9f 100644
--- a/src/api/pdc_transform/pdc_transform.c
+++ b/src/api/pdc_transform/pdc_transform.c
@@ -145,7 +145,8 @@ PDCobj_transform_register(char *func, pdcid_t obj_id, int current_state, int nex
                 }
             }
             // Flag the destination region with the transform
-            reg2->registered_op |= PDC_TRANSFORM;
+            if (reg2 != NULL)
+                reg2->registered_op |= PDC_TRANSFORM;
         }
         PDC_Client_register_region_transform(userdefinedftn, loadpath, src_region_id, dest_region_id,
                                              dest_object_id, current_state, thisFtn->nextState,
@@ -225,7 +226,8 @@ PDCbuf_map_transform_register(char *func, void *buf, pdcid_t src_region_id, pdci
     // We do this here because the target region is what
     // will eventually be locked and then unlocked to enable
     // a mapping data transfer.
-    region_info->registered_op |= PDC_TRANSFORM;
+    if (region_info != NULL)
+        region_info->registered_op |= PDC_TRANSFORM;
 
     thisFtn->op_type        = PDC_DATA_MAP;
     thisFtn->when           = when;
diff --git a/src/commons/utils/include/pdc_linkedlist.h b/src/commons/utils/include/pdc_linkedlist.h
index a9de691..1c04fdd 100644
--- a/src/commons/utils/include/pdc_linkedlist.h
+++ b/src/commons/utils/include/pdc_linkedlist.h
@@ -109,7 +109,7 @@
     for ((var) = ((head_ptr)->head); (var); (var) = ((var)->entry_field_name.next))
 
 #define PDC_LIST_SEARCH(var, head_ptr, entry_field_name, item, value)                                        \
-    for ((var) = ((head_ptr)->head); (((var)->item != value) && (var));                                      \
+    for ((var) = ((head_ptr)->head); ((var) && ((var)->item != value));                                      \
          (var) = ((var)->entry_field_name.next))
 
 #define PDC_LIST_SEARCH_CONT_NAME(var, head_ptr, entry_field_name, member, n, name)                          \
-- 
2.43.0


From a900d2be87e7c70616a28cb90c7ea8c520332279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 11/60] fix: keep the end of an object's transfer request list
 when its last entry is removed

The list's end kept pointing at the freed entry, and the next request
started on the object was linked to it.
---
 src/api/pdc_region/pdc_region_transfer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index c89fa2a..594c5b7 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -370,6 +370,8 @@ remove_local_transfer_request(struct _pdc_obj_info *p, pdcid_t transfer_request_
             else {
                 // Not the first element, just take the current element away.
                 previous->next = temp->next;
+                if (p->local_transfer_request_end == temp)
+                    p->local_transfer_request_end = previous;
                 free(temp);
             }
             p->local_transfer_request_size--;
-- 
2.43.0


From 0c392257034f9719978fccb4890fb77722543d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 12/60] fix: wait for an object's pending transfers on close
 without freeing their list twice

PDC_obj_close freed the request list before PDCregion_transfer_wait_all
walked and freed it again, and stopped closing requests early because the
size it looped over shrinks while waiting.
---
 src/api/pdc_obj/pdc_obj.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index e19ca9c..b2c52de 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -396,8 +396,8 @@ PDC_obj_close(struct _pdc_obj_info *op)
 {
     perr_t                      ret_value = SUCCEED;
     pdcid_t *                   transfer_request_id;
-    pdc_local_transfer_request *temp, *previous;
-    int                         i;
+    pdc_local_transfer_request *temp;
+    int                         i, n_requests;
 
     FUNC_ENTER(NULL);
 
@@ -407,13 +407,13 @@ PDC_obj_close(struct _pdc_obj_info *op)
         i                   = 0;
         while (temp != NULL) {
             transfer_request_id[i] = temp->local_id;
-            previous               = temp;
             temp                   = temp->next;
-            free(previous);
             ++i;
         }
-        PDCregion_transfer_wait_all(transfer_request_id, op->local_transfer_request_size);
-        for (i = 0; i < op->local_transfer_request_size; ++i) {
+        // Waiting detaches the requests from the object: the list is taken apart there, and its size changes.
+        n_requests = i;
+        PDCregion_transfer_wait_all(transfer_request_id, n_requests);
+        for (i = 0; i < n_requests; ++i) {
             PDCregion_transfer_close(transfer_request_id[i]);
         }
         free(transfer_request_id);
-- 
2.43.0


From d54cdfc596c68d5523e7aef7d7887530c44bc6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:59 +0000
Subject: [PATCH 13/60] fix: release a transfer request when it is closed

Closing a completed (or never started) request did nothing, so the id stayed
registered and its memory leaked; closing one in progress freed it while its
object still listed it.
---
 src/api/pdc_region/pdc_region_transfer.c | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 594c5b7..a61ccbd 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -291,20 +291,12 @@ PDCregion_transfer_close(pdcid_t transfer_request_id)
         goto done;
     }
     transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
-    if (transfer_request->metadata_id == NULL) {
-        goto done;
-    }
+    // A request that was started but not waited for is still in progress: the server uses its buffers and the
+    // object lists it. Complete it first, which also detaches it from the object.
+    if (transfer_request->metadata_id != NULL)
+        PDCregion_transfer_wait(transfer_request_id);
 
-    // Check for consistency
-    /*
-        pdc_consistency_t consistency = transfer_request->consistency;
-        if (consistency == PDC_CONSISTENCY_POSIX || consistency == PDC_CONSISTENCY_COMMIT ||
-            consistency == PDC_CONSISTENCY_SESSION) {
-            PDCregion_transfer_wait(transfer_request_id);
-        }
-    */
     free(transfer_request->local_region_offset);
-    free(transfer_request->metadata_id);
     free(transfer_request);
 
     /* When the reference count reaches zero the resources are freed */
-- 
2.43.0


From d435f4cebd658864b54dc6ee1156e7526b837305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 14/60] fix: do not loop forever over an id whose object cannot
 be freed

---
 src/utils/pdc_interface.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utils/pdc_interface.c b/src/utils/pdc_interface.c
index 827ae4d..71fc1ac 100644
--- a/src/utils/pdc_interface.c
+++ b/src/utils/pdc_interface.c
@@ -256,14 +256,15 @@ PDC_id_list_clear(PDC_type_t type)
 {
     perr_t               ret_value = SUCCEED;
     struct PDC_id_type * type_ptr;
-    struct _pdc_id_info *id_ptr;
+    struct _pdc_id_info *id_ptr, *next;
 
     FUNC_ENTER(NULL);
 
     type_ptr = (pdc_id_list_g->PDC_id_type_list_g)[type];
 
-    while (!PDC_LIST_IS_EMPTY(&type_ptr->ids)) {
-        id_ptr = (&type_ptr->ids)->head;
+    /* entries whose object cannot be freed stay registered */
+    for (id_ptr = (&type_ptr->ids)->head; id_ptr != NULL; id_ptr = next) {
+        next = PDC_LIST_NEXT(id_ptr, entry);
         if (!type_ptr->free_func || (type_ptr->free_func)((void *)id_ptr->obj_ptr) >= 0) {
             PDC_MUTEX_LOCK(type_ptr->ids);
             PDC_LIST_REMOVE(id_ptr, entry);
-- 
2.43.0


From 9e9bd607b29a707f7d839f59a6dedef38be805fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 15/60] fix: register an object's id only once the object is
 complete

A creation the server refused left an id registered for a half-built object,
which PDCclose then dereferenced.
---
 src/api/pdc_obj/pdc_obj.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index b2c52de..0aeee89 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -337,7 +337,6 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
     if (!p->obj_info_pub)
         PGOTO_ERROR(0, "PDC pub object memory allocation failed");
     p->obj_info_pub->name      = strdup(obj_name);
-    p->obj_info_pub->local_id  = PDC_id_register(PDC_OBJ, p);
     p->obj_info_pub->meta_id   = 0;
     p->obj_info_pub->server_id = 0;
     if (location == PDC_OBJ_GLOBAL) {
@@ -364,6 +363,8 @@ PDC_obj_create(pdcid_t cont_id, const char *obj_name, pdcid_t obj_prop_id, _pdc_
     for (i = 0; i < obj_prop->obj_prop_pub->ndim; i++)
         p->obj_info_pub->obj_pt->dims[i] = obj_prop->obj_prop_pub->dims[i];
 
+    p->obj_info_pub->local_id = PDC_id_register(PDC_OBJ, p);
+
     ret_value = p->obj_info_pub->local_id;
 
 done:
@@ -627,7 +628,6 @@ PDCobj_open_common(const char *obj_name, pdcid_t pdc, int is_col)
     if (strlen(out->obj_name) > 0)
         p->obj_info_pub->name = strdup(out->obj_name);
     p->obj_info_pub->meta_id            = out->obj_id;
-    p->obj_info_pub->local_id           = PDC_id_register(PDC_OBJ, p);
     p->obj_info_pub->metadata_server_id = metadata_server_id;
 
     memcpy(p->obj_info_pub->obj_pt, p->obj_pt->obj_prop_pub, sizeof(struct pdc_obj_prop));
@@ -637,6 +637,8 @@ PDCobj_open_common(const char *obj_name, pdcid_t pdc, int is_col)
     for (i = 0; i < p->obj_pt->obj_prop_pub->ndim; i++)
         p->obj_info_pub->obj_pt->dims[i] = p->obj_pt->obj_prop_pub->dims[i];
 
+    p->obj_info_pub->local_id = PDC_id_register(PDC_OBJ, p);
+
     ret_value = p->obj_info_pub->local_id;
 
 done:
-- 
2.43.0


From 3f65851605805e6fda50f300c0aa4846b718e719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 16/60] fix: refuse unknown ids in tag, analysis and container
 queries

---
 src/api/pdc_analysis/pdc_analysis.c           |  9 +++++-
 .../pdc_analysis_and_transforms_connect.c     |  6 ++--
 src/api/pdc_client_connect.c                  | 32 ++++++++++++++++---
 src/api/pdc_obj/pdc_cont.c                    |  2 ++
 4 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/src/api/pdc_analysis/pdc_analysis.c b/src/api/pdc_analysis/pdc_analysis.c
index 0add847..342c688 100644
--- a/src/api/pdc_analysis/pdc_analysis.c
+++ b/src/api/pdc_analysis/pdc_analysis.c
@@ -76,6 +76,9 @@ iterator_init(pdcid_t objectId, pdcid_t reg_id, int blocks, struct _pdc_iterator
 
     FUNC_ENTER(NULL);
 
+    if (object_info == NULL)
+        PGOTO_ERROR(-1, "cannot locate object ID");
+
     /* Gather Information about the underlying object, e.g.
      * the object data type, object size, etc. refers to the
      * containing array. These are for the most part, applicable
@@ -168,6 +171,8 @@ iterator_init(pdcid_t objectId, pdcid_t reg_id, int blocks, struct _pdc_iterator
          */
 
         region_info = PDCregion_get_info(reg_id);
+        if (region_info == NULL)
+            PGOTO_ERROR(-1, "cannot locate region ID");
 
         /* How many rows in the selected region? */
         if (iter->storage_order == ROW_major) {
@@ -563,7 +568,9 @@ PDCobj_data_getNextBlock(pdcid_t iter, void **nextBlock, size_t *dims)
                 thisIter->srcNext += thisIter->startOffset + thisIter->skipCount;
             }
             else if (execution_locus == CLIENT_MEMORY) {
-                object_info  = PDC_obj_get_info(thisIter->objectId);
+                object_info = PDC_obj_get_info(thisIter->objectId);
+                if (object_info == NULL)
+                    PGOTO_ERROR(0, "cannot locate object ID");
                 obj_prop_ptr = object_info->obj_pt;
                 if (obj_prop_ptr) {
                     thisIter->srcNext = thisIter->srcStart = obj_prop_ptr->buf;
diff --git a/src/api/pdc_analysis/pdc_analysis_and_transforms_connect.c b/src/api/pdc_analysis/pdc_analysis_and_transforms_connect.c
index 4fd664e..cde180a 100644
--- a/src/api/pdc_analysis/pdc_analysis_and_transforms_connect.c
+++ b/src/api/pdc_analysis/pdc_analysis_and_transforms_connect.c
@@ -188,8 +188,10 @@ PDC_Client_register_obj_analysis(struct _pdc_region_analysis_ftn_info *thisFtn,
         PGOTO_ERROR(FAIL, "PDC_Client_register_obj_analysis(): Could not allocate my_rpc_state");
 
     if (pdc_server_selection_g != PDC_SERVER_DEFAULT) {
-        thisIter      = &PDC_Block_iterator_cache[in_local];
-        obj_prop      = PDC_obj_get_info(thisIter->objectId);
+        thisIter = &PDC_Block_iterator_cache[in_local];
+        obj_prop = PDC_obj_get_info(thisIter->objectId);
+        if (obj_prop == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate object ID");
         input_server  = obj_prop->obj_info_pub->server_id;
         output_server = input_server;
     }
diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 00d2d98..3fd35df 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -2010,7 +2010,9 @@ PDC_Client_add_tag(pdcid_t obj_id, const char *tag)
     if (tag == NULL || tag[0] == 0)
         PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: - invalid tag content!", pdc_client_mpi_rank_g);
 
-    obj_prop  = PDC_obj_get_info(obj_id);
+    obj_prop = PDC_obj_get_info(obj_id);
+    if (obj_prop == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate object ID");
     meta_id   = obj_prop->obj_info_pub->meta_id;
     server_id = PDC_get_server_by_obj_id(meta_id, pdc_server_num_g);
 
@@ -2232,6 +2234,8 @@ PDC_Client_delete_metadata(char *delete_name, pdcid_t obj_delete_prop)
     FUNC_ENTER(NULL);
 
     delete_prop = PDC_obj_prop_get_info(obj_delete_prop);
+    if (delete_prop == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate object property ID");
     // Fill input structure
     in.obj_name  = delete_name;
     in.time_step = delete_prop->time_step;
@@ -2638,6 +2642,8 @@ PDC_Client_send_name_recv_id(const char *obj_name, uint64_t cont_id, pdcid_t obj
 #endif
 
     create_prop = PDC_obj_prop_get_info(obj_create_prop);
+    if (create_prop == NULL)
+        PGOTO_ERROR(FAIL, "cannot locate object property ID");
 
     if (obj_name == NULL)
         PGOTO_ERROR(FAIL, "Cannot create object with empty object name");
@@ -7083,13 +7089,17 @@ PDC_add_kvtag(pdcid_t obj_id, pdc_kvtag_t *kvtag, int is_cont)
     FUNC_ENTER(NULL);
 
     if (is_cont == 0) {
-        obj_prop      = PDC_obj_get_info(obj_id);
+        obj_prop = PDC_obj_get_info(obj_id);
+        if (obj_prop == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate object ID");
         meta_id       = obj_prop->obj_info_pub->meta_id;
         in.obj_id     = meta_id;
         in.hash_value = PDC_get_hash_by_name(obj_prop->obj_info_pub->name);
     }
     else {
-        cont_prop     = PDC_cont_get_info(obj_id);
+        cont_prop = PDC_cont_get_info(obj_id);
+        if (cont_prop == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate container ID");
         meta_id       = cont_prop->cont_info_pub->meta_id;
         in.obj_id     = meta_id;
         in.hash_value = PDC_get_hash_by_name(cont_prop->cont_info_pub->name);
@@ -7191,13 +7201,17 @@ PDC_get_kvtag(pdcid_t obj_id, char *tag_name, pdc_kvtag_t **kvtag, int is_cont)
     FUNC_ENTER(NULL);
 
     if (is_cont == 0) {
-        obj_prop      = PDC_obj_get_info(obj_id);
+        obj_prop = PDC_obj_get_info(obj_id);
+        if (obj_prop == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate object ID");
         meta_id       = obj_prop->obj_info_pub->meta_id;
         in.obj_id     = meta_id;
         in.hash_value = PDC_get_hash_by_name(obj_prop->obj_info_pub->name);
     }
     else {
-        cont_prop     = PDC_cont_get_info(obj_id);
+        cont_prop = PDC_cont_get_info(obj_id);
+        if (cont_prop == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate container ID");
         meta_id       = cont_prop->cont_info_pub->meta_id;
         in.obj_id     = meta_id;
         in.hash_value = PDC_get_hash_by_name(cont_prop->cont_info_pub->name);
@@ -7497,10 +7511,14 @@ PDCtag_delete(pdcid_t obj_id, char *tag_name, int is_cont)
 
     if (is_cont) {
         cont_prop = PDC_cont_get_info(obj_id);
+        if (cont_prop == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate container ID");
         meta_id   = cont_prop->cont_info_pub->meta_id;
     }
     else {
         obj_prop = PDC_obj_get_info(obj_id);
+        if (obj_prop == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate object ID");
         meta_id  = obj_prop->obj_info_pub->meta_id;
     }
 
@@ -7852,10 +7870,14 @@ PDC_Client_del_metadata(pdcid_t obj_id, int is_cont)
 
     if (is_cont) {
         cont_prop = PDC_cont_get_info(obj_id);
+        if (cont_prop == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate container ID");
         meta_id   = cont_prop->cont_info_pub->meta_id;
     }
     else {
         obj_prop = PDC_obj_get_info(obj_id);
+        if (obj_prop == NULL)
+            PGOTO_ERROR(FAIL, "cannot locate object ID");
         meta_id  = obj_prop->obj_info_pub->meta_id;
     }
 
diff --git a/src/api/pdc_obj/pdc_cont.c b/src/api/pdc_obj/pdc_cont.c
index 9b35d8c..95c78bc 100644
--- a/src/api/pdc_obj/pdc_cont.c
+++ b/src/api/pdc_obj/pdc_cont.c
@@ -371,6 +371,8 @@ PDCcont_get_info(const char *cont_name)
     cont_id = PDC_find_byname(PDC_CONT, cont_name);
 
     tmp = PDC_cont_get_info(cont_id);
+    if (tmp == NULL)
+        PGOTO_ERROR(NULL, "cannot locate container");
 
     ret_value = (struct pdc_cont_info *)PDC_calloc(1, sizeof(struct pdc_cont_info));
     if (!ret_value)
-- 
2.43.0


From ceda6e26287aa4cb94293fff1833818a1eb89f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:14 +0000
Subject: [PATCH 17/60] fix: register a property's id only once the property is
 complete

---
 src/api/pdc_obj/pdc_prop.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/api/pdc_obj/pdc_prop.c b/src/api/pdc_obj/pdc_prop.c
index 49859f6..1bd33d6 100644
--- a/src/api/pdc_obj/pdc_prop.c
+++ b/src/api/pdc_obj/pdc_prop.c
@@ -75,15 +75,15 @@ PDCprop_create(pdc_prop_type_t type, pdcid_t pdcid)
         p = (struct _pdc_cont_prop *)PDC_malloc(sizeof(struct _pdc_cont_prop));
         if (!p)
             PGOTO_ERROR(0, "PDC container property memory allocation failed");
-        p->cont_life    = PDC_PERSIST;
-        new_id_c        = PDC_id_register(PDC_CONT_PROP, p);
-        p->cont_prop_id = new_id_c;
-        p->pdc          = (struct _pdc_class *)PDC_calloc(1, sizeof(struct _pdc_class));
+        p->cont_life = PDC_PERSIST;
+        p->pdc       = (struct _pdc_class *)PDC_calloc(1, sizeof(struct _pdc_class));
         if (p->pdc == NULL)
             PGOTO_ERROR(0, "PDC class allocation failed");
         if (pdc_class->name)
             p->pdc->name = strdup(pdc_class->name);
         p->pdc->local_id = pdc_class->local_id;
+        new_id_c         = PDC_id_register(PDC_CONT_PROP, p);
+        p->cont_prop_id  = new_id_c;
 
         ret_value = new_id_c;
     }
@@ -104,8 +104,6 @@ PDCprop_create(pdc_prop_type_t type, pdcid_t pdcid)
         q->time_step                      = 0;
         q->tags                           = NULL;
         q->buf                            = NULL;
-        new_id_o                          = PDC_id_register(PDC_OBJ_PROP, q);
-        q->obj_prop_pub->obj_prop_id      = new_id_o;
         q->pdc                            = (struct _pdc_class *)PDC_calloc(1, sizeof(struct _pdc_class));
         if (q->pdc == NULL)
             PGOTO_ERROR(0, "PDC class allocation failed");
@@ -116,6 +114,8 @@ PDCprop_create(pdc_prop_type_t type, pdcid_t pdcid)
         q->data_state    = 0;
         q->locus         = CLIENT_MEMORY;
         memset(&q->transform_prop, 0, sizeof(struct _pdc_transform_state));
+        new_id_o                     = PDC_id_register(PDC_OBJ_PROP, q);
+        q->obj_prop_pub->obj_prop_id = new_id_o;
 
         ret_value = new_id_o;
     }
@@ -157,8 +157,6 @@ PDCprop_obj_dup(pdcid_t prop_id)
     q->obj_prop_pub = (struct pdc_obj_prop *)PDC_malloc(sizeof(struct pdc_obj_prop));
     if (!q->obj_prop_pub)
         PGOTO_ERROR(0, "PDC object property memory allocation failed");
-    new_id                            = PDC_id_register(PDC_OBJ_PROP, q);
-    q->obj_prop_pub->obj_prop_id      = new_id;
     q->obj_prop_pub->ndim             = info->obj_prop_pub->ndim;
     q->obj_prop_pub->dims             = (uint64_t *)malloc(info->obj_prop_pub->ndim * sizeof(uint64_t));
     q->obj_prop_pub->type             = PDC_UNKNOWN;
@@ -174,6 +172,9 @@ PDCprop_obj_dup(pdcid_t prop_id)
         q->pdc->name = strdup(info->pdc->name);
     q->pdc->local_id = info->pdc->local_id;
 
+    new_id                       = PDC_id_register(PDC_OBJ_PROP, q);
+    q->obj_prop_pub->obj_prop_id = new_id;
+
     ret_value = new_id;
 
 done:
-- 
2.43.0


From 2562f5f029b853b2b1e6c6d441b1d7794f56b207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 18/60] fix: do not release the bulk buffers of an earlier
 start_all twice

---
 src/api/pdc_region/pdc_region_transfer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index a61ccbd..6d51b66 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -1454,6 +1454,10 @@ PDCregion_transfer_start(pdcid_t transfer_request_id)
 
     attach_local_transfer_request(transfer_request->obj_pointer, transfer_request_id);
 
+    // The bulk buffers of an earlier start_all were released when it completed
+    transfer_request->bulk_buf     = NULL;
+    transfer_request->bulk_buf_ref = NULL;
+
     // Pack local region to a contiguous memory buffer
     unit = transfer_request->unit;
 
-- 
2.43.0


From a99d0013c38d9b829c77064046e693558bd6f811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 19/60] fix: release the part lists when a status query
 completes a transfer

---
 src/api/pdc_region/pdc_region_transfer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 6d51b66..44f1bf6 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -1655,8 +1655,8 @@ PDCregion_transfer_status(pdcid_t transfer_request_id, pdc_transfer_status_t *co
                 transfer_request->access_type, transfer_request->n_obj_servers, transfer_request->new_buf,
                 transfer_request->bulk_buf, transfer_request->bulk_buf_ref, transfer_request->read_bulk_buf);
             free(transfer_request->output_offsets);
-            // free(transfer_request->output_sizes);
-            // free(transfer_request->sub_offsets);
+            free(transfer_request->output_sizes);
+            free(transfer_request->sub_offsets);
             if (transfer_request->output_buf) {
                 free(transfer_request->output_buf);
             }
-- 
2.43.0


From 66dd99f23f5eb02f18db20a6e9ae2caa05800cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 20/60] fix: group metadata queries by metadata server

---
 src/api/pdc_region/pdc_region_transfer.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 44f1bf6..9c1cb05 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -158,11 +158,11 @@ sort_by_metadata_server_start_all(const void *elem1, const void *elem2)
 {
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wcast-qual"
-    if ((*(pdc_transfer_request_start_all_pkg **)elem1)->transfer_request->metadata_id >
-        (*(pdc_transfer_request_start_all_pkg **)elem2)->transfer_request->metadata_id)
+    if ((*(pdc_transfer_request_start_all_pkg **)elem1)->transfer_request->metadata_server_id >
+        (*(pdc_transfer_request_start_all_pkg **)elem2)->transfer_request->metadata_server_id)
         return 1;
-    if ((*(pdc_transfer_request_start_all_pkg **)elem1)->transfer_request->metadata_id <
-        (*(pdc_transfer_request_start_all_pkg **)elem2)->transfer_request->metadata_id)
+    if ((*(pdc_transfer_request_start_all_pkg **)elem1)->transfer_request->metadata_server_id <
+        (*(pdc_transfer_request_start_all_pkg **)elem2)->transfer_request->metadata_server_id)
         return -1;
     return 0;
 #pragma GCC diagnostic pop
-- 
2.43.0


From ea1fa78916ad0f461363e46b9ae60b9f1a27dd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 21/60] fix: start dynamically partitioned requests that
 overlap no stored region

---
 src/api/pdc_region/pdc_region_transfer.c | 92 +++++++++++++++---------
 1 file changed, 58 insertions(+), 34 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 9c1cb05..7ea09cf 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -629,8 +629,25 @@ pack_region_metadata_query(pdc_transfer_request_start_all_pkg **transfer_request
     FUNC_LEAVE(ret_value);
 }
 
+/*
+ * Read how many parts a request is split into and prepare their lists.
+ */
+static void
+unpack_region_counter(pdc_transfer_request *local_request, char **ptr, int *counter)
+{
+    *counter = *(int *)(*ptr);
+    *ptr += sizeof(int);
+    local_request->n_obj_servers  = *counter;
+    local_request->output_offsets = (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
+    local_request->output_sizes   = (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
+    local_request->sub_offsets    = (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
+    local_request->obj_servers    = (uint32_t *)malloc(sizeof(uint32_t) * local_request->n_obj_servers);
+    set_obj_server_bufs(local_request);
+}
+
 static perr_t
-unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **transfer_request_input,
+unpack_region_metadata_query(char *buf, int n_objs,
+                             pdc_transfer_request_start_all_pkg **transfer_request_input,
                              pdc_transfer_request_start_all_pkg **transfer_request_head_ptr,
                              pdc_transfer_request_start_all_pkg **transfer_request_end_ptr, int *size_ptr)
 {
@@ -665,23 +682,14 @@ unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **tra
                 (pdc_transfer_request_start_all_pkg *)malloc(sizeof(pdc_transfer_request_start_all_pkg));
             transfer_request_end = transfer_request_head;
         }
-        // Obj ID + Obj dim + region offset + region size
-        if (!counter) {
-            counter = *(int *)ptr;
-            ptr += sizeof(int);
-            local_request                = transfer_request_input[index]->transfer_request;
-            local_request->n_obj_servers = counter;
-            local_request->output_offsets =
-                (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
-            local_request->output_sizes =
-                (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
-            local_request->sub_offsets =
-                (uint64_t **)malloc(sizeof(uint64_t *) * local_request->n_obj_servers);
-            local_request->obj_servers = (uint32_t *)malloc(sizeof(uint32_t) * local_request->n_obj_servers);
-            // printf("unpack_region_metadata_query: checkpoint %d, local_request = %llu, index = %d\n",
-            // __LINE__, (long long unsigned) local_request, index);
-            set_obj_server_bufs(local_request);
+        // A request without any overlapping region has no part
+        while (!counter) {
+            unpack_region_counter(transfer_request_input[index]->transfer_request, &ptr, &counter);
+            local_request = transfer_request_input[index]->transfer_request;
+            if (!counter)
+                index++;
         }
+        // Obj ID + Obj dim + region offset + region size
         transfer_request_end->next             = NULL;
         transfer_request_end->transfer_request = local_request;
         transfer_request_end->data_server_id   = *(uint32_t *)ptr;
@@ -738,6 +746,9 @@ unpack_region_metadata_query(char *buf, pdc_transfer_request_start_all_pkg **tra
         // printf("unpack_region_metadata_query: @ line %d\n", __LINE__);
     }
 
+    for (; index < n_objs; ++index)
+        unpack_region_counter(transfer_request_input[index]->transfer_request, &ptr, &counter);
+
     *transfer_request_head_ptr = transfer_request_head;
     *transfer_request_end_ptr  = transfer_request_end;
     *size_ptr += size;
@@ -791,6 +802,7 @@ register_metadata(pdc_transfer_request_start_all_pkg **transfer_request_input, i
             // fprintf(stderr, "register_metadata[%d]: checkpoint %d, metadata_server_id = %u, total_buf_size
             // = %lu\n", pdc_client_mpi_rank_g, __LINE__,
             // transfer_requests[index]->transfer_request->metadata_server_id, total_buf_size);
+            query_id = 0;
             PDC_Client_transfer_request_metadata_query(
                 buf, total_buf_size, n_objs, transfer_requests[index]->transfer_request->metadata_server_id,
                 is_write, &output_buf_size, &query_id);
@@ -806,17 +818,22 @@ register_metadata(pdc_transfer_request_start_all_pkg **transfer_request_input, i
                     output_buf, output_buf_size, query_id,
                     transfer_requests[index]->transfer_request->metadata_server_id);
                 // fprintf(stderr, "register_metadata: checkpoint %d\n", __LINE__);
-                unpack_region_metadata_query(output_buf, transfer_requests + index, &transfer_request_head,
-                                             &transfer_request_end, &output_size);
+                unpack_region_metadata_query(output_buf, n_objs, transfer_requests + index,
+                                             &transfer_request_head, &transfer_request_end, &output_size);
                 // fprintf(stderr, "register_metadata: checkpoint %d\n", __LINE__);
                 free(output_buf);
-                if (transfer_request_front_head) {
-                    previous->next = transfer_request_head;
-                }
-                else {
-                    transfer_request_front_head = transfer_request_head;
+                if (transfer_request_head) {
+                    if (transfer_request_front_head) {
+                        previous->next = transfer_request_head;
+                    }
+                    else {
+                        transfer_request_front_head = transfer_request_head;
+                    }
+                    previous = transfer_request_end;
                 }
-                previous = transfer_request_end;
+            }
+            else {
+                ret_value = FAIL;
             }
             index = i;
         }
@@ -831,6 +848,7 @@ register_metadata(pdc_transfer_request_start_all_pkg **transfer_request_input, i
         // fprintf(stderr, "register_metadata[%d]: checkpoint %d, metadata_server_id = %u, total_buf_size =
         // %lu\n", pdc_client_mpi_rank_g, __LINE__,
         // transfer_requests[index]->transfer_request->metadata_server_id, total_buf_size);
+        query_id = 0;
         PDC_Client_transfer_request_metadata_query(
             buf, total_buf_size, n_objs, transfer_requests[index]->transfer_request->metadata_server_id,
             is_write, &output_buf_size, &query_id);
@@ -845,21 +863,26 @@ register_metadata(pdc_transfer_request_start_all_pkg **transfer_request_input, i
                 output_buf, output_buf_size, query_id,
                 transfer_requests[index]->transfer_request->metadata_server_id);
             // fprintf(stderr, "register_metadata: checkpoint %d\n", __LINE__);
-            unpack_region_metadata_query(output_buf, transfer_requests + index, &transfer_request_head,
-                                         &transfer_request_end, &output_size);
+            unpack_region_metadata_query(output_buf, n_objs, transfer_requests + index,
+                                         &transfer_request_head, &transfer_request_end, &output_size);
             // fprintf(stderr, "register_metadata: output_size = %d, checkpoint %d\n", output_size, __LINE__);
             free(output_buf);
-            if (transfer_request_front_head) {
-                previous->next = transfer_request_head;
-            }
-            else {
-                transfer_request_front_head = transfer_request_head;
+            if (transfer_request_head) {
+                if (transfer_request_front_head) {
+                    previous->next = transfer_request_head;
+                }
+                else {
+                    transfer_request_front_head = transfer_request_head;
+                }
+                previous = transfer_request_end;
             }
-            previous = transfer_request_end;
+        }
+        else {
+            ret_value = FAIL;
         }
     }
 
-    if (output_size) {
+    if (size) {
         transfer_request_output = (pdc_transfer_request_start_all_pkg **)malloc(
             sizeof(pdc_transfer_request_start_all_pkg *) * (output_size + remain_size));
         transfer_request_head = transfer_request_front_head;
@@ -1616,6 +1639,7 @@ PDCregion_transfer_status(pdcid_t transfer_request_id, pdc_transfer_status_t *co
         if (transfer_request->region_partition == PDC_REGION_STATIC ||
             transfer_request->region_partition == PDC_REGION_DYNAMIC ||
             transfer_request->region_partition == PDC_REGION_LOCAL) {
+            *completed = PDC_TRANSFER_STATUS_COMPLETE;
             for (i = 0; i < transfer_request->n_obj_servers; ++i) {
                 ret_value = PDC_Client_transfer_request_status(transfer_request->metadata_id[i],
                                                                transfer_request->obj_servers[i], completed);
-- 
2.43.0


From f682b8405845c1976c30aa3fae6a90cc72850490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 22/60] fix: release the packed parts of dynamically
 partitioned writes

---
 src/api/pdc_region/pdc_region_transfer.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 7ea09cf..0a603c5 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -1123,6 +1123,11 @@ finish_start_all_requests(pdc_transfer_request_start_all_pkg **write_transfer_re
 {
     int i;
     for (i = 0; i < write_size; ++i) {
+        // The part was packed into the bulk buffer (other partitions send the request's own buffers).
+        if (write_transfer_request[i]->transfer_request->region_partition == PDC_REGION_DYNAMIC ||
+            write_transfer_request[i]->transfer_request->region_partition == PDC_REGION_LOCAL) {
+            free(write_transfer_request[i]->buf);
+        }
         free(write_transfer_request[i]);
     }
     for (i = 0; i < read_size; ++i) {
@@ -1130,12 +1135,8 @@ finish_start_all_requests(pdc_transfer_request_start_all_pkg **write_transfer_re
     }
     // MPI_Barrier(MPI_COMM_WORLD);
     // fprintf(stderr, "checkpoint %d\n", __LINE__);
-    if (write_size) {
-        free(write_transfer_request);
-    }
-    if (read_size) {
-        free(read_transfer_request);
-    }
+    free(write_transfer_request);
+    free(read_transfer_request);
     return 0;
 }
 
-- 
2.43.0


From 641f54d902f1eba953e6a24b7f720ace0a57036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:07 +0000
Subject: [PATCH 23/60] fix: start no request of a start_all call unless all
 can be started

---
 src/api/pdc_region/pdc_region_transfer.c | 73 +++++++++++++++++-------
 1 file changed, 51 insertions(+), 22 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 0a603c5..19a78ea 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -565,6 +565,17 @@ pack_region_buffer(char *buf, uint64_t *obj_dims, size_t total_data_size, int lo
     FUNC_LEAVE(ret_value);
 }
 
+/*
+ * Take back a request that no data server can serve, so that it is not left listed as pending.
+ */
+static void
+cancel_transfer_request(pdc_transfer_request *transfer_request, pdcid_t transfer_request_id)
+{
+    if (transfer_request->local_region_ndim > 1)
+        free(transfer_request->new_buf);
+    remove_local_transfer_request(transfer_request->obj_pointer, transfer_request_id);
+}
+
 static perr_t
 set_obj_server_bufs(pdc_transfer_request *transfer_request)
 {
@@ -940,14 +951,15 @@ prepare_start_all_requests(pdcid_t *transfer_request_id, int size,
     struct _pdc_id_info * transferinfo;
     pdc_transfer_request *transfer_request;
     int                   set_output_buf = 0;
+    perr_t                ret_value      = SUCCEED;
 
-    write_request_pkgs             = NULL;
-    read_request_pkgs              = NULL;
-    write_size                     = 0;
-    read_size                      = 0;
-    posix_size_ptr[0]              = 0;
-    *posix_transfer_request_id_ptr = (pdcid_t *)malloc(sizeof(pdcid_t) * size);
+    write_request_pkgs = NULL;
+    read_request_pkgs  = NULL;
+    write_size         = 0;
+    read_size          = 0;
+    posix_size_ptr[0]  = 0;
 
+    // Nothing is started unless every request can be.
     for (i = 0; i < size; ++i) {
         transferinfo = PDC_find_id(transfer_request_id[i]);
         if (transferinfo == NULL) {
@@ -962,10 +974,14 @@ prepare_start_all_requests(pdcid_t *transfer_request_id, int size,
                    __LINE__);
             return FAIL;
         }
-        if (transfer_request->consistency == PDC_CONSISTENCY_POSIX) {
-            posix_transfer_request_id_ptr[0][posix_size_ptr[0]] = transfer_request_id[i];
-            posix_size_ptr[0]++;
-        }
+    }
+    *posix_transfer_request_id_ptr = (pdcid_t *)malloc(sizeof(pdcid_t) * size);
+
+    for (i = 0; i < size; ++i) {
+        transferinfo = PDC_find_id(transfer_request_id[i]);
+        if (transferinfo == NULL)
+            continue;
+        transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
 
         attach_local_transfer_request(transfer_request->obj_pointer, transfer_request_id[i]);
         unit = transfer_request->unit;
@@ -988,7 +1004,9 @@ prepare_start_all_requests(pdcid_t *transfer_request_id, int size,
             if (transfer_request->n_obj_servers == 0) {
                 printf("PDC_Client %d, %s: error with static region partition, no server is selected!\n",
                        pdc_client_mpi_rank_g, __func__);
-                return FAIL;
+                cancel_transfer_request(transfer_request, transfer_request_id[i]);
+                ret_value = FAIL;
+                continue;
             }
             for (j = 0; j < transfer_request->n_obj_servers; ++j) {
                 request_pkgs =
@@ -1077,6 +1095,10 @@ prepare_start_all_requests(pdcid_t *transfer_request_id, int size,
             transfer_request->region_partition != PDC_REGION_LOCAL) {
             set_obj_server_bufs(transfer_request);
         }
+        if (transfer_request->consistency == PDC_CONSISTENCY_POSIX) {
+            posix_transfer_request_id_ptr[0][posix_size_ptr[0]] = transfer_request_id[i];
+            posix_size_ptr[0]++;
+        }
     }
 
     if (write_size) {
@@ -1087,7 +1109,9 @@ prepare_start_all_requests(pdcid_t *transfer_request_id, int size,
             write_transfer_request[i] = request_pkgs;
             request_pkgs              = request_pkgs->next;
         }
-        register_metadata(write_transfer_request, write_size, 1, &transfer_request_output, &output_size);
+        if (register_metadata(write_transfer_request, write_size, 1, &transfer_request_output,
+                              &output_size) != SUCCEED)
+            ret_value = FAIL;
         *write_transfer_request_ptr = transfer_request_output;
         *write_size_ptr             = output_size;
         qsort(*write_transfer_request_ptr, *write_size_ptr, sizeof(pdc_transfer_request_start_all_pkg *),
@@ -1104,7 +1128,9 @@ prepare_start_all_requests(pdcid_t *transfer_request_id, int size,
             read_transfer_request[i] = request_pkgs;
             request_pkgs             = request_pkgs->next;
         }
-        register_metadata(read_transfer_request, read_size, 0, &transfer_request_output, &output_size);
+        if (register_metadata(read_transfer_request, read_size, 0, &transfer_request_output, &output_size) !=
+            SUCCEED)
+            ret_value = FAIL;
         *read_transfer_request_ptr = transfer_request_output;
         *read_size_ptr             = output_size;
         qsort(*read_transfer_request_ptr, *read_size_ptr, sizeof(pdc_transfer_request_start_all_pkg *),
@@ -1113,7 +1139,7 @@ prepare_start_all_requests(pdcid_t *transfer_request_id, int size,
     else {
         *read_size_ptr = 0;
     }
-    return SUCCEED;
+    return ret_value;
 }
 
 static int
@@ -1348,7 +1374,7 @@ PDCregion_transfer_start_all(pdcid_t *transfer_request_id, int size)
     perr_t                               ret_value  = SUCCEED;
     int                                  write_size = 0, read_size = 0, posix_size = 0;
     pdc_transfer_request_start_all_pkg **write_transfer_requests = NULL, **read_transfer_requests = NULL;
-    pdcid_t *                            posix_transfer_request_id;
+    pdcid_t *                            posix_transfer_request_id = NULL;
 
     FUNC_ENTER(NULL);
     // Split write and read requests. Handle them separately.
@@ -1472,7 +1498,7 @@ PDCregion_transfer_start(pdcid_t transfer_request_id)
     // Aggregated method will take care of this type of operation.
     if (transfer_request->region_partition == PDC_REGION_DYNAMIC ||
         transfer_request->region_partition == PDC_REGION_LOCAL) {
-        PDCregion_transfer_start_all(&transfer_request_id, 1);
+        ret_value = PDCregion_transfer_start_all(&transfer_request_id, 1);
         goto done;
     }
 
@@ -1503,7 +1529,8 @@ PDCregion_transfer_start(pdcid_t transfer_request_id)
         if (transfer_request->n_obj_servers == 0) {
             printf("PDC_Client %d, %s: error with static region partition, no server is selected!\n",
                    pdc_client_mpi_rank_g, __func__);
-            return FAIL;
+            cancel_transfer_request(transfer_request, transfer_request_id);
+            PGOTO_DONE(FAIL);
         }
         /*
                 printf("n_obj_servers = %d\n", transfer_request->n_obj_servers);
@@ -1524,11 +1551,13 @@ PDCregion_transfer_start(pdcid_t transfer_request_id)
             if (transfer_request->access_type == PDC_READ) {
                 transfer_request->read_bulk_buf[i] = transfer_request->output_buf[i];
             }
-            ret_value = PDC_Client_transfer_request(
-                transfer_request->output_buf[i], transfer_request->obj_id, transfer_request->obj_servers[i],
-                transfer_request->obj_ndim, transfer_request->obj_dims, transfer_request->remote_region_ndim,
-                transfer_request->output_offsets[i], transfer_request->output_sizes[i], unit,
-                transfer_request->access_type, transfer_request->metadata_id + i);
+            if (PDC_Client_transfer_request(
+                    transfer_request->output_buf[i], transfer_request->obj_id,
+                    transfer_request->obj_servers[i], transfer_request->obj_ndim, transfer_request->obj_dims,
+                    transfer_request->remote_region_ndim, transfer_request->output_offsets[i],
+                    transfer_request->output_sizes[i], unit, transfer_request->access_type,
+                    transfer_request->metadata_id + i) != SUCCEED)
+                ret_value = FAIL;
         }
     }
     else if (transfer_request->region_partition == PDC_OBJ_STATIC) {
-- 
2.43.0


From 63c2bf6e4de1da873a5377b34a031b55553592e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:07 +0000
Subject: [PATCH 24/60] fix: report a failed part of a region transfer

---
 src/api/pdc_region/pdc_region_transfer.c | 40 ++++++++++++++----------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index 19a78ea..f16e357 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -1306,9 +1306,11 @@ PDC_Client_start_all_requests(pdc_transfer_request_start_all_pkg **transfer_requ
             bulk_buf_ref[0] = n_objs;
             // printf("checkpoint @ line %d, index = %d, dataserver_id = %d, n_objs = %d\n", __LINE__, index,
             // transfer_requests[index]->data_server_id, n_objs);
-            PDC_Client_transfer_request_all(n_objs, transfer_requests[index]->transfer_request->access_type,
-                                            transfer_requests[index]->data_server_id, bulk_buf, bulk_buf_size,
-                                            metadata_id + index);
+            if (PDC_Client_transfer_request_all(n_objs,
+                                                transfer_requests[index]->transfer_request->access_type,
+                                                transfer_requests[index]->data_server_id, bulk_buf,
+                                                bulk_buf_size, metadata_id + index) != SUCCEED)
+                ret_value = FAIL;
             // printf("transfer request towards data server %d\n", transfer_requests[index]->data_server_id);
             for (j = index; j < i; ++j) {
                 // All requests share the same bulk buffer, reference counter is also shared among all
@@ -1341,9 +1343,10 @@ PDC_Client_start_all_requests(pdc_transfer_request_start_all_pkg **transfer_requ
         bulk_buf_ref[0] = n_objs;
         // printf("checkpoint @ line %d, index = %d, dataserver_id = %d, n_objs = %d\n", __LINE__, index,
         // transfer_requests[index]->data_server_id, n_objs);
-        PDC_Client_transfer_request_all(n_objs, transfer_requests[index]->transfer_request->access_type,
-                                        transfer_requests[index]->data_server_id, bulk_buf, bulk_buf_size,
-                                        metadata_id + index);
+        if (PDC_Client_transfer_request_all(n_objs, transfer_requests[index]->transfer_request->access_type,
+                                            transfer_requests[index]->data_server_id, bulk_buf, bulk_buf_size,
+                                            metadata_id + index) != SUCCEED)
+            ret_value = FAIL;
         // printf("transfer request towards data server %d\n", transfer_requests[index]->data_server_id);
         for (j = index; j < size; ++j) {
             // All requests share the same bulk buffer, reference counter is also shared among all
@@ -1393,10 +1396,12 @@ PDCregion_transfer_start_all(pdcid_t *transfer_request_id, int size)
     */
 
     // Start write requests
-    PDC_Client_start_all_requests(write_transfer_requests, write_size);
+    if (PDC_Client_start_all_requests(write_transfer_requests, write_size) != SUCCEED)
+        ret_value = FAIL;
     // printf("PDCregion_transfer_start_all: checkpoint %d\n", __LINE__);
     // Start read requests
-    PDC_Client_start_all_requests(read_transfer_requests, read_size);
+    if (PDC_Client_start_all_requests(read_transfer_requests, read_size) != SUCCEED)
+        ret_value = FAIL;
     /*
         fprintf(stderr, "PDCregion_transfer_start_all: checkpoint %d\n", __LINE__);
         MPI_Barrier(MPI_COMM_WORLD);
@@ -1841,8 +1846,9 @@ PDCregion_transfer_wait_all(pdcid_t *transfer_request_id, int size)
             }
 
             // printf("PDCregion_transfer_wait_all: checkpoint %d\n", __LINE__);
-            PDC_Client_transfer_request_wait_all(n_objs, metadata_ids + index,
-                                                 transfer_requests[index]->data_server_id);
+            if (PDC_Client_transfer_request_wait_all(n_objs, metadata_ids + index,
+                                                     transfer_requests[index]->data_server_id) != SUCCEED)
+                ret_value = FAIL;
             for (j = index; j < i; ++j) {
                 if (transfer_requests[j]->transfer_request->region_partition == PDC_REGION_STATIC ||
                     transfer_requests[j]->transfer_request->region_partition == PDC_REGION_DYNAMIC ||
@@ -1879,8 +1885,9 @@ PDCregion_transfer_wait_all(pdcid_t *transfer_request_id, int size)
         for (j = index; j < total_requests; ++j) {
             metadata_ids[j] = transfer_requests[j]->metadata_id;
         }
-        PDC_Client_transfer_request_wait_all(n_objs, metadata_ids + index,
-                                             transfer_requests[index]->data_server_id);
+        if (PDC_Client_transfer_request_wait_all(n_objs, metadata_ids + index,
+                                                 transfer_requests[index]->data_server_id) != SUCCEED)
+            ret_value = FAIL;
         for (j = index; j < total_requests; ++j) {
             if (transfer_requests[j]->transfer_request->region_partition == PDC_REGION_STATIC ||
                 transfer_requests[j]->transfer_request->region_partition == PDC_REGION_DYNAMIC ||
@@ -1987,7 +1994,7 @@ PDCregion_transfer_wait(pdcid_t transfer_request_id)
         // For region dynamic case, it is implemented in the aggregated version for portability.
         if (transfer_request->region_partition == PDC_REGION_DYNAMIC ||
             transfer_request->region_partition == PDC_REGION_LOCAL) {
-            PDCregion_transfer_wait_all(&transfer_request_id, 1);
+            ret_value = PDCregion_transfer_wait_all(&transfer_request_id, 1);
             goto done;
         }
 
@@ -1996,9 +2003,10 @@ PDCregion_transfer_wait(pdcid_t transfer_request_id)
         if (transfer_request->region_partition == PDC_REGION_STATIC) {
 
             for (i = 0; i < transfer_request->n_obj_servers; ++i) {
-                ret_value = PDC_Client_transfer_request_wait(transfer_request->metadata_id[i],
-                                                             transfer_request->obj_servers[i],
-                                                             transfer_request->access_type);
+                if (PDC_Client_transfer_request_wait(transfer_request->metadata_id[i],
+                                                     transfer_request->obj_servers[i],
+                                                     transfer_request->access_type) != SUCCEED)
+                    ret_value = FAIL;
                 // printf("finished waiting for data from server %d, output_offsets = %lu, output_size = %lu,
                 // metadata_id = %lu\n", transfer_request->obj_servers[i],
                 // transfer_request->output_offsets[i][0], transfer_request->output_sizes[i][0],
-- 
2.43.0


From 91e96eedb31408f2de0837607cbd2e37cb859ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 25/60] fix: refuse a wait_all call before building its request
 list

---
 src/api/pdc_region/pdc_region_transfer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index f16e357..d8141ce 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -1793,6 +1793,12 @@ PDCregion_transfer_wait_all(pdcid_t *transfer_request_id, int size)
             ret_value = FAIL;
             goto done;
         }
+    }
+    for (i = 0; i < size; ++i) {
+        transferinfo = PDC_find_id(transfer_request_id[i]);
+        if (transferinfo == NULL)
+            continue;
+        transfer_request = (pdc_transfer_request *)(transferinfo->obj_ptr);
         total_requests += transfer_request->n_obj_servers;
         for (j = 0; j < transfer_request->n_obj_servers; ++j) {
             if (transfer_request_head) {
-- 
2.43.0


From 7b949873b465587d2295db7de22324e21d5fc10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 26/60] fix: checkpoint the stored regions, not the pointers to
 them

---
 .../pdc_server_region_transfer_metadata_query.c                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
index 4e41132..2bc794f 100644
--- a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
+++ b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
@@ -226,7 +226,7 @@ transfer_request_metadata_query_checkpoint(char **checkpoint, uint64_t *checkpoi
         while (region_temp) {
             memcpy(ptr, &(region_temp->data_server_id), sizeof(uint32_t));
             ptr += sizeof(uint32_t);
-            memcpy(ptr, &(region_temp->reg_offset), sizeof(uint64_t) * obj_temp->ndim * 2);
+            memcpy(ptr, region_temp->reg_offset, sizeof(uint64_t) * obj_temp->ndim * 2);
             ptr += sizeof(uint64_t) * obj_temp->ndim * 2;
             region_temp = region_temp->next;
         }
-- 
2.43.0


From 2f28b5c4eca0ae3b6db4aef733e53c4cf2b69ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 27/60] fix: restore every region and object of a metadata
 checkpoint

---
 .../pdc_server_region_transfer_metadata_query.c            | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
index 2bc794f..7229918 100644
--- a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
+++ b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
@@ -79,13 +79,14 @@ transfer_request_metadata_query_init(int pdc_server_size_input, char *checkpoint
         for (i = 0; i < n_objs; ++i) {
             if (metadata_server_objs) {
                 metadata_server_objs_end->next =
-                    (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_region_metadata));
+                    (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_metadata_pkg));
                 metadata_server_objs_end = metadata_server_objs_end->next;
             }
             else {
-                metadata_server_objs     = (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_region_metadata));
+                metadata_server_objs     = (pdc_obj_metadata_pkg *)malloc(sizeof(pdc_obj_metadata_pkg));
                 metadata_server_objs_end = metadata_server_objs;
             }
+            metadata_server_objs_end->next = NULL;
 
             metadata_server_objs_end->obj_id = *(uint64_t *)ptr;
             ptr += sizeof(uint64_t);
@@ -110,7 +111,7 @@ transfer_request_metadata_query_init(int pdc_server_size_input, char *checkpoint
             ptr += sizeof(uint64_t) * metadata_server_objs_end->ndim * 2;
 
             for (j = 1; j < reg_count; ++j) {
-                metadata_server_objs_end->regions->next =
+                metadata_server_objs_end->regions_end->next =
                     (pdc_region_metadata_pkg *)malloc(sizeof(pdc_region_metadata_pkg));
                 metadata_server_objs_end->regions_end = metadata_server_objs_end->regions_end->next;
 
-- 
2.43.0


From 2e0c2dd7d3fee505f01c6afafc3d8fbe5b9c63e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 28/60] fix: count the answer for unknown objects when sizing a
 metadata query's answer

---
 .../pdc_server_region_transfer_metadata_query.c             | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
index 7229918..e7a0d79 100644
--- a/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
+++ b/src/server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
@@ -263,6 +263,8 @@ metadata_query_buf_create(pdc_obj_region_metadata *regions, int size, uint64_t *
     transfer_request_counter_total = 0;
     transfer_request_counters      = (int *)calloc(size, sizeof(int));
     for (i = 0; i < size; ++i) {
+        // Every region has a counter, also if its object is not known
+        total_data_size += sizeof(int);
         temp = metadata_server_objs;
         // First check which obj list
         while (temp) {
@@ -284,8 +286,8 @@ metadata_query_buf_create(pdc_obj_region_metadata *regions, int size, uint64_t *
                 region_metadata = region_metadata->next;
             }
             transfer_request_counter_total += transfer_request_counters[i];
-            total_data_size += sizeof(int) + transfer_request_counters[i] *
-                                                 (sizeof(uint32_t) + sizeof(uint64_t) * regions[i].ndim * 2);
+            total_data_size += transfer_request_counters[i] *
+                               (sizeof(uint32_t) + sizeof(uint64_t) * regions[i].ndim * 2);
         }
         else {
             printf("metadata_query_buf_create: Unable to find the object with ID %lu\n",
-- 
2.43.0


From 14221e9d0384c4656461f4189f67248ec3718985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:36 +0000
Subject: [PATCH 29/60] fix: complete a transfer whose parts were seen complete
 by different status queries

---
 src/api/pdc_region/pdc_region_transfer.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/api/pdc_region/pdc_region_transfer.c b/src/api/pdc_region/pdc_region_transfer.c
index d8141ce..fdf84eb 100644
--- a/src/api/pdc_region/pdc_region_transfer.c
+++ b/src/api/pdc_region/pdc_region_transfer.c
@@ -1676,11 +1676,14 @@ PDCregion_transfer_status(pdcid_t transfer_request_id, pdc_transfer_status_t *co
             transfer_request->region_partition == PDC_REGION_LOCAL) {
             *completed = PDC_TRANSFER_STATUS_COMPLETE;
             for (i = 0; i < transfer_request->n_obj_servers; ++i) {
-                ret_value = PDC_Client_transfer_request_status(transfer_request->metadata_id[i],
+                *completed = PDC_TRANSFER_STATUS_PENDING;
+                ret_value  = PDC_Client_transfer_request_status(transfer_request->metadata_id[i],
                                                                transfer_request->obj_servers[i], completed);
-                if (*completed != PDC_TRANSFER_STATUS_COMPLETE) {
+                // A server forgets a part once it has reported that the part is complete.
+                if (ret_value != SUCCEED || *completed == PDC_TRANSFER_STATUS_PENDING) {
                     goto done;
                 }
+                *completed = PDC_TRANSFER_STATUS_COMPLETE;
             }
             // If we reach here, then all transfers are finished.
             for (i = 0; i < transfer_request->n_obj_servers; ++i) {
@@ -1722,7 +1725,8 @@ PDCregion_transfer_status(pdcid_t transfer_request_id, pdc_transfer_status_t *co
             free(transfer_request->obj_servers);
         }
         else if (transfer_request->region_partition == PDC_OBJ_STATIC) {
-            ret_value = PDC_Client_transfer_request_status(transfer_request->metadata_id[0],
+            *completed = PDC_TRANSFER_STATUS_PENDING;
+            ret_value  = PDC_Client_transfer_request_status(transfer_request->metadata_id[0],
                                                            transfer_request->data_server_id, completed);
             if (*completed != PDC_TRANSFER_STATUS_COMPLETE) {
                 goto done;
-- 
2.43.0


From f3a18bea17187684ad511c00a01dfca2488112ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 30/60] fix: answer a wait_all call whose requests were all
 reported complete before

---
 .../pdc_server_region/pdc_server_region_request_handler.h       | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_region_request_handler.h b/src/server/pdc_server_region/pdc_server_region_request_handler.h
index 04ab484..d8d833c 100644
--- a/src/server/pdc_server_region/pdc_server_region_request_handler.h
+++ b/src/server/pdc_server_region/pdc_server_region_request_handler.h
@@ -276,8 +276,6 @@ transfer_request_wait_all_bulk_transfer_cb(const struct hg_cb_info *info)
         // unsigned)transfer_request_id, get_server_rank());
         if (status == PDC_TRANSFER_STATUS_PENDING) {
             PDC_try_finish_request(transfer_request_id, local_bulk_args->handle, handle_ref, 1);
-        }
-        if (status != PDC_TRANSFER_STATUS_COMPLETE) {
             fast_return = 0;
         }
     }
-- 
2.43.0


From 27849e307b968170419c8c930ed21afe3cfbe140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 31/60] fix: release what the server keeps of a finished
 transfer or metadata query

---
 .../pdc_server_region_request_handler.h                | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/server/pdc_server_region/pdc_server_region_request_handler.h b/src/server/pdc_server_region/pdc_server_region_request_handler.h
index d8d833c..a4c406b 100644
--- a/src/server/pdc_server_region/pdc_server_region_request_handler.h
+++ b/src/server/pdc_server_region/pdc_server_region_request_handler.h
@@ -370,6 +370,8 @@ transfer_request_bulk_transfer_write_cb(const struct hg_cb_info *info)
     PDC_finish_request(local_bulk_args->transfer_request_id);
     pthread_mutex_unlock(&transfer_request_status_mutex);
     free(local_bulk_args->data_buf);
+    free(remote_reg_info->offset);
+    free(remote_reg_info->size);
     free(remote_reg_info);
 
     HG_Bulk_free(local_bulk_args->bulk_handle);
@@ -380,6 +382,8 @@ transfer_request_bulk_transfer_write_cb(const struct hg_cb_info *info)
     pdc_timestamp_register(pdc_transfer_request_inner_write_bulk_timestamps, start, end);
 #endif
 
+    free(local_bulk_args);
+
     FUNC_LEAVE(ret);
 }
 
@@ -404,6 +408,8 @@ transfer_request_bulk_transfer_read_cb(const struct hg_cb_info *info)
     ret = HG_SUCCESS;
 
     HG_Bulk_free(local_bulk_args->bulk_handle);
+    free(local_bulk_args->data_buf);
+    free(local_bulk_args);
 
 #ifdef PDC_TIMING
     end = MPI_Wtime();
@@ -645,6 +651,7 @@ transfer_request_metadata_query_bulk_transfer_cb(const struct hg_cb_info *info)
     ret     = HG_Respond(local_bulk_args->handle, NULL, NULL, &out);
     HG_Bulk_free(local_bulk_args->bulk_handle);
     HG_Destroy(local_bulk_args->handle);
+    free(local_bulk_args);
     FUNC_LEAVE(ret);
 }
 
@@ -703,6 +710,7 @@ transfer_request_metadata_query2_bulk_transfer_cb(const struct hg_cb_info *info)
     ret = HG_Respond(local_bulk_args->handle, NULL, NULL, &out);
     HG_Bulk_free(local_bulk_args->bulk_handle);
     HG_Destroy(local_bulk_args->handle);
+    free(local_bulk_args);
     FUNC_LEAVE(ret);
 }
 
@@ -890,6 +898,8 @@ HG_TEST_RPC_CB(transfer_request, handle)
         ret_value = HG_Bulk_transfer(info->context, transfer_request_bulk_transfer_read_cb, local_bulk_args,
                                      HG_BULK_PUSH, info->addr, in.local_bulk_handle, 0,
                                      local_bulk_args->bulk_handle, 0, total_mem_size, HG_OP_ID_IGNORE);
+        free(remote_reg_info->offset);
+        free(remote_reg_info->size);
         free(remote_reg_info);
     }
     if (ret_value != HG_SUCCESS) {
-- 
2.43.0


From 4826d2f0ea3ba42411498c8c9a8ab98dd3c244ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 32/60] fix: a deque that is full keeps its elements when it
 grows, and never shrinks to nothing

---
 src/commons/collections/pdc_deque.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/commons/collections/pdc_deque.c b/src/commons/collections/pdc_deque.c
index 5d2280c..b31a2ca 100644
--- a/src/commons/collections/pdc_deque.c
+++ b/src/commons/collections/pdc_deque.c
@@ -23,7 +23,7 @@ resize_deque(PDC_deque_t *deque, size_t new_capacity)
     }
 
     size_t i = 0;
-    while (deque->head != deque->tail) {
+    while (i < deque->size) {
         new_data[i++] = deque->data[deque->head];
         deque->head   = (deque->head + 1) % deque->capacity;
     }
@@ -66,7 +66,7 @@ PDC_deque_pop_front(PDC_deque_t *deque)
     void *value = deque->data[deque->head];
     deque->head = (deque->head + 1) % deque->capacity;
     deque->size--;
-    if (deque->size <= deque->capacity / 4) {
+    if (deque->capacity > DEFAULT_CAPACITY && deque->size <= deque->capacity / 4) {
         resize_deque(deque, deque->capacity / 2);
     }
     return value;
@@ -81,7 +81,7 @@ PDC_deque_pop_back(PDC_deque_t *deque)
     deque->tail = (deque->tail - 1 + deque->capacity) % deque->capacity;
     void *value = deque->data[deque->tail];
     deque->size--;
-    if (deque->size <= deque->capacity / 4) {
+    if (deque->capacity > DEFAULT_CAPACITY && deque->size <= deque->capacity / 4) {
         resize_deque(deque, deque->capacity / 2);
     }
     return value;
-- 
2.43.0


From 8528d3639093655ff3be54fd169ed97f4d194060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 33/60] fix: a vector always grows by at least one slot and
 keeps its items when memory is short

---
 src/commons/collections/pdc_vector.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/commons/collections/pdc_vector.c b/src/commons/collections/pdc_vector.c
index ac28c64..f438abe 100644
--- a/src/commons/collections/pdc_vector.c
+++ b/src/commons/collections/pdc_vector.c
@@ -56,11 +56,16 @@ pdc_vector_add(PDC_VECTOR *vector, void *item)
 
     // Expand the array of items if necessary.
     if (vector->item_count >= vector->capacity) {
-        vector->capacity *= vector->expansion_factor;
-        vector->items = (void **)realloc(vector->items, vector->capacity * sizeof(void *));
-        if (vector->items == NULL) {
+        size_t new_capacity = vector->capacity * vector->expansion_factor;
+        if (new_capacity <= vector->item_count) {
+            new_capacity = vector->item_count + 1;
+        }
+        void **new_items = (void **)realloc(vector->items, new_capacity * sizeof(void *));
+        if (new_items == NULL) {
             return;
         }
+        vector->items    = new_items;
+        vector->capacity = new_capacity;
     }
 
     // Add the new item to the end of the array.
-- 
2.43.0


From 8abc4363554fc5b521ce142b93a93d934742b63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 34/60] fix: double keys that compare equal have the same hash

---
 src/commons/collections/pdc_hash_table.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/commons/collections/pdc_hash_table.c b/src/commons/collections/pdc_hash_table.c
index c75bac5..b8caca2 100644
--- a/src/commons/collections/pdc_hash_table.c
+++ b/src/commons/collections/pdc_hash_table.c
@@ -131,7 +131,7 @@ pdc_default_double_hash_func(HashTableKey value)
     else {
         int    exp;
         double frexp_d = frexp(abs_d, &exp);
-        return (unsigned int)((frexp_d * (1 << 31)) + exp);
+        return (unsigned int)((frexp_d * (1U << 31)) + exp);
     }
 }
 
@@ -141,7 +141,7 @@ pdc_default_double_equal_func(HashTableKey value1, HashTableKey value2)
     double d1 = *(const double *)value1;
     double d2 = *(const double *)value2;
 
-    return fabs(d1 - d2) < 1e-9; // use a small epsilon for comparing floats
+    return d1 == d2; // keys that are equal must have the same hash
 }
 
 /************ Default function pointer **************/
-- 
2.43.0


From 859f13da14cec4694eef976a7c01ed812db7ff7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:41 +0000
Subject: [PATCH 35/60] fix: a bloom filter starts empty, keeps its members
 when it grows and is freed completely

---
 src/server/dablooms/pdc_dablooms.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/server/dablooms/pdc_dablooms.c b/src/server/dablooms/pdc_dablooms.c
index 2be56c8..d20e1ab 100644
--- a/src/server/dablooms/pdc_dablooms.c
+++ b/src/server/dablooms/pdc_dablooms.c
@@ -32,13 +32,23 @@ dablooms_version(void)
 void
 free_bitmap(bitmap_t *bitmap)
 {
+    if (bitmap != NULL)
+        free(bitmap->array);
     free(bitmap);
 }
 
 bitmap_t *
 bitmap_resize(bitmap_t *bitmap, size_t new_size)
 {
-    bitmap->array = PDC_malloc(new_size);
+    /* counters start at zero, and those already there are kept */
+    char *array = PDC_calloc(1, new_size);
+    if (array == NULL)
+        return NULL;
+    if (bitmap->array != NULL) {
+        memcpy(array, bitmap->array, bitmap->bytes < new_size ? bitmap->bytes : new_size);
+        free(bitmap->array);
+    }
+    bitmap->array = array;
     bitmap->bytes = new_size;
     return bitmap;
 }
@@ -170,7 +180,7 @@ free_counting_bloom(counting_bloom_t *bloom)
     if (bloom != NULL) {
         free(bloom->hashes);
         bloom->hashes = NULL;
-        free(bloom->bitmap);
+        free_bitmap(bloom->bitmap);
         free(bloom);
         bloom = NULL;
     }
-- 
2.43.0


From 851993e0e17788bf77560411d0e3ce113750cf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:18 +0000
Subject: [PATCH 36/60] fix: deleting an object by id releases exactly that
 object, once

The list entry was freed and then followed by the iteration, and a whole
table entry was removed under the hash of a freed name; the number of
objects was counted down even when there was none to delete.
---
 src/server/pdc_server_metadata.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 02380fc..71c6a3f 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -933,6 +933,7 @@ PDC_Server_delete_metadata_by_id(metadata_delete_by_id_in_t *in, metadata_delete
     HashTablePair     pair;
     uint64_t          target_obj_id;
     int               n_entry;
+    int               is_removed = 0;
 
     FUNC_ENTER(NULL);
 
@@ -1007,11 +1008,12 @@ PDC_Server_delete_metadata_by_id(metadata_delete_by_id_in_t *in, metadata_delete
                     }
                     else {
                         // This is the last item under the current entry, remove the hash entry
-                        uint32_t hash_key = PDC_get_hash_by_name(elt->obj_name);
-                        hash_table_remove(metadata_hash_table_g, &hash_key);
+                        hash_table_remove(metadata_hash_table_g, pair.key);
                     }
-                    out->ret  = 1;
-                    ret_value = SUCCEED;
+                    out->ret   = 1;
+                    ret_value  = SUCCEED;
+                    is_removed = 1;
+                    goto done;
                 }
             } // DL_FOREACH
         }     // while
@@ -1052,7 +1054,8 @@ done:
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_lock(&n_metadata_mutex_g);
 #endif
-    n_metadata_g--;
+    if (is_removed)
+        n_metadata_g--;
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&n_metadata_mutex_g);
 #endif
@@ -1180,7 +1183,8 @@ PDC_delete_metadata_from_hash_table(metadata_delete_in_t *in, metadata_delete_ou
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_lock(&n_metadata_mutex_g);
 #endif
-    n_metadata_g--;
+    if (ret_value == SUCCEED)
+        n_metadata_g--;
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&n_metadata_mutex_g);
 #endif
-- 
2.43.0


From 325155fe90b66bc2a0243065a2e0a4ba3e291935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:18 +0000
Subject: [PATCH 37/60] fix: find the tags of a container whose name shares its
 hash with an object

The tag requests gave up when the objects under the hash value did not
include the id, and took a container of a different id for the one asked
for. The answer to a get now carries the tag's type, and tag values of
different sizes are not compared beyond the shorter one.
---
 src/server/pdc_server_metadata.c | 59 ++++++++++++--------------------
 1 file changed, 21 insertions(+), 38 deletions(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 71c6a3f..b51fcc4 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -1620,7 +1620,7 @@ _is_matching_kvtag(pdc_kvtag_t *in, pdc_kvtag_t *kvtag)
     }
     else { // FIXME: for all numeric types, we use memcmp to compare, for exact value query, but we also
            // have to support range query.
-        if (memcmp(in->value, kvtag->value, in->size) != 0)
+        if (in->size != kvtag->size || memcmp(in->value, kvtag->value, in->size) != 0)
             return FALSE;
     }
 
@@ -2859,27 +2859,21 @@ PDC_Server_add_kvtag_someta(metadata_add_kvtag_in_t *in, metadata_add_tag_out_t
     perr_t                       ret_value = SUCCEED;
     pdc_hash_table_entry_head *  lookup_value;
     pdc_cont_hash_table_entry_t *cont_lookup_value;
+    pdc_metadata_t *             target = NULL;
     uint32_t                     hash_key;
 
     hash_key = in->hash_value;
 
     lookup_value = hash_table_lookup(metadata_hash_table_g, &hash_key);
-    if (lookup_value != NULL) {
-        pdc_metadata_t *target;
+    if (lookup_value != NULL)
         target = find_metadata_by_id_from_list(lookup_value->metadata, in->obj_id);
-        if (target != NULL) {
-            PDC_add_kvtag_to_list(&target->kvtag_list_head, &in->kvtag);
-            out->ret = 1;
-        } // if (lookup_value != NULL)
-        else {
-            // Object not found
-            ret_value = FAIL;
-            out->ret  = -1;
-        }
-    }      // if lookup_value != NULL
+    if (target != NULL) {
+        PDC_add_kvtag_to_list(&target->kvtag_list_head, &in->kvtag);
+        out->ret = 1;
+    }
     else { // look for containers
         cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
-        if (cont_lookup_value != NULL) {
+        if (cont_lookup_value != NULL && cont_lookup_value->cont_id == in->obj_id) {
             PDC_add_kvtag_to_list(&cont_lookup_value->kvtag_list_head, &in->kvtag);
             out->ret = 1;
         }
@@ -2988,6 +2982,7 @@ PDC_get_kvtag_value_from_list(pdc_kvtag_list_t **list_head, char *key, metadata_
         if (strcmp(elt->kvtag->name, key) == 0) {
             out->kvtag.name  = elt->kvtag->name;
             out->kvtag.size  = elt->kvtag->size;
+            out->kvtag.type  = elt->kvtag->type;
             out->kvtag.value = elt->kvtag->value;
             break;
         }
@@ -3114,27 +3109,22 @@ PDC_Server_get_kvtag_someta(metadata_get_kvtag_in_t *in, metadata_get_kvtag_out_
     uint64_t                     obj_id;
     pdc_hash_table_entry_head *  lookup_value;
     pdc_cont_hash_table_entry_t *cont_lookup_value;
+    pdc_metadata_t *             target = NULL;
 
     hash_key = in->hash_value;
     obj_id   = in->obj_id;
 
     lookup_value = hash_table_lookup(metadata_hash_table_g, &hash_key);
-    if (lookup_value != NULL) {
-        pdc_metadata_t *target;
+    if (lookup_value != NULL)
         target = find_metadata_by_id_from_list(lookup_value->metadata, obj_id);
-        if (target != NULL) {
-            PDC_get_kvtag_value_from_list(&target->kvtag_list_head, in->key, out);
-            out->ret = 1;
-        }
-        else {
-            ret_value = FAIL;
-            out->ret  = -1;
-        }
+    if (target != NULL) {
+        PDC_get_kvtag_value_from_list(&target->kvtag_list_head, in->key, out);
+        out->ret = 1;
     }
     else {
 
         cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
-        if (cont_lookup_value != NULL) {
+        if (cont_lookup_value != NULL && cont_lookup_value->cont_id == obj_id) {
             PDC_get_kvtag_value_from_list(&cont_lookup_value->kvtag_list_head, in->key, out);
             out->ret = 1;
         }
@@ -3312,29 +3302,22 @@ PDC_Server_del_kvtag_someta(metadata_get_kvtag_in_t *in, metadata_add_tag_out_t
     uint64_t                     obj_id;
     pdc_hash_table_entry_head *  lookup_value;
     pdc_cont_hash_table_entry_t *cont_lookup_value;
+    pdc_metadata_t *             target = NULL;
 
     hash_key = in->hash_value;
     obj_id   = in->obj_id;
 
     // Look obj tags first
     lookup_value = hash_table_lookup(metadata_hash_table_g, &hash_key);
-    if (lookup_value != NULL) {
-        pdc_metadata_t *target;
+    if (lookup_value != NULL)
         target = find_metadata_by_id_from_list(lookup_value->metadata, obj_id);
-        if (target != NULL) {
-            ret_value = PDC_del_kvtag_value_from_list(&target->kvtag_list_head, in->key);
-            out->ret  = 1;
-        }
-        else {
-            ret_value = FAIL;
-            out->ret  = -1;
-            printf("==PDC_SERVER[%d]: %s - failed to find requested kvtag [%s]\n", pdc_server_rank_g,
-                   __func__, in->key);
-        }
+    if (target != NULL) {
+        ret_value = PDC_del_kvtag_value_from_list(&target->kvtag_list_head, in->key);
+        out->ret  = 1;
     }
     else {
         cont_lookup_value = hash_table_lookup(container_hash_table_g, &hash_key);
-        if (cont_lookup_value != NULL) {
+        if (cont_lookup_value != NULL && cont_lookup_value->cont_id == obj_id) {
             PDC_del_kvtag_value_from_list(&cont_lookup_value->kvtag_list_head, in->key);
             out->ret = 1;
         }
-- 
2.43.0


From 63c1d2fdab6b7ba41aef26ef424332d082089e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:18 +0000
Subject: [PATCH 38/60] fix: keep containers apart by name, with room for all
 their objects

A container whose name has the hash of another one got that one's id;
the first list of objects added was written beyond its space when long;
an object whose time step was updated was no longer found through the
bloom filter.
---
 src/server/pdc_server_metadata.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index b51fcc4..3806c10 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -844,8 +844,14 @@ PDC_Server_update_metadata(metadata_update_in_t *in, metadata_update_out_t *out)
                 // Check and find valid update fields
                 // Currently user_id, obj_name are not supported to be updated in this way
                 // obj_name change is done through client with delete and add operation.
-                if (in->new_metadata.time_step != -1)
+                if (in->new_metadata.time_step != -1) {
+                    // The time step is part of the key the bloom filter knows the object by
+                    if (lookup_value->bloom != NULL)
+                        PDC_Server_remove_from_bloom(target, lookup_value->bloom);
                     target->time_step = in->new_metadata.time_step;
+                    if (lookup_value->bloom != NULL)
+                        PDC_Server_add_to_bloom(target, lookup_value->bloom);
+                }
                 if (in->new_metadata.app_name[0] != 0 &&
                     !(in->new_metadata.app_name[0] == ' ' && in->new_metadata.app_name[1] == 0))
                     strcpy(target->app_name, in->new_metadata.app_name);
@@ -2217,7 +2223,11 @@ PDC_Server_create_container(gen_cont_id_in_t *in, gen_cont_id_out_t *out)
         // Is this hash value exist in the Hash table?
         if (lookup_value != NULL) {
             // Check if there exist container identical to current one
-            out->cont_id = lookup_value->cont_id;
+            if (strcmp(lookup_value->cont_name, in->cont_name) == 0)
+                out->cont_id = lookup_value->cont_id;
+            else
+                printf("==PDC_SERVER[%d]: %s - container [%s] has the same hash value as [%s]!\n",
+                       pdc_server_rank_g, __func__, in->cont_name, lookup_value->cont_name);
         }
         else {
             hash_key = (uint32_t *)malloc(sizeof(uint32_t));
@@ -2445,8 +2455,8 @@ PDC_Server_container_add_objs(int n_obj, uint64_t *obj_ids, uint64_t cont_id)
     if (cont_entry != NULL) {
         // Check if need to allocate space
         if (cont_entry->n_allocated == 0) {
-            cont_entry->n_allocated = PDC_ALLOC_BASE_NUM;
-            cont_entry->obj_ids     = (uint64_t *)PDC_calloc(sizeof(uint64_t), PDC_ALLOC_BASE_NUM);
+            cont_entry->n_allocated = n_obj > PDC_ALLOC_BASE_NUM ? n_obj : PDC_ALLOC_BASE_NUM;
+            cont_entry->obj_ids     = (uint64_t *)PDC_calloc(sizeof(uint64_t), cont_entry->n_allocated);
             total_mem_usage_g += sizeof(uint64_t) * cont_entry->n_allocated;
         }
         else if (cont_entry->n_allocated < cont_entry->n_obj + n_obj) {
-- 
2.43.0


From 12aa0e1cb6a7bf9082e4c970e9d4ccb85a38a171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:33 +0000
Subject: [PATCH 39/60] fix: a single * matches every string, and splitting on
 a delimiter that matches nothing ends

---
 src/commons/utils/string_utils.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/commons/utils/string_utils.c b/src/commons/utils/string_utils.c
index 546d567..c923e29 100644
--- a/src/commons/utils/string_utils.c
+++ b/src/commons/utils/string_utils.c
@@ -61,7 +61,8 @@ simple_matches(const char *str, const char *pattern)
             result = (tok == NULL ? 0 : endsWith(str, tok));
             break;
         case PATTERN_MIDDLE:
-            tok    = substring(pattern, 1, strlen(pattern) - 1);
+            // a single "*" is both the leading and the trailing one
+            tok    = substring(pattern, 1, strlen(pattern) > 1 ? strlen(pattern) - 1 : 1);
             result = (tok == NULL ? 0 : contains(str, tok));
             break;
         default:
@@ -116,6 +117,10 @@ substring(const char *str, int start, int end)
     // Length of the original string
     int str_len = strlen(str);
 
+    if (start > str_len) {
+        return NULL;
+    }
+
     // Adjust end if it is beyond the length of the string
     if (end > str_len) {
         end = str_len;
@@ -252,7 +257,8 @@ split_string(const char *str, const char *delim, char ***result, int *result_len
     regmatch_t  pmatch[1];
 
     // Count matches
-    while (regexec(&regex, tmp, 1, pmatch, 0) != REG_NOMATCH) {
+    // A match of nothing separates nothing (and would never advance)
+    while (regexec(&regex, tmp, 1, pmatch, 0) != REG_NOMATCH && pmatch[0].rm_eo > 0) {
         count++;
         tmp += pmatch[0].rm_eo;
     }
@@ -260,6 +266,7 @@ split_string(const char *str, const char *delim, char ***result, int *result_len
     *result_len = count + 1;
     *result     = (char **)malloc((*result_len) * sizeof(char *));
     if (!*result) {
+        regfree(&regex);
         return -1; // Memory allocation failed
     }
 
-- 
2.43.0


From 963cee47b35ea521cd6cdfd056abcef99f6bb657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:33 +0000
Subject: [PATCH 40/60] fix: tag matching returns a tag of its own, leaks
 nothing and accepts lists without the tag

---
 src/commons/utils/query_utils.c | 36 +++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/commons/utils/query_utils.c b/src/commons/utils/query_utils.c
index c0ea640..2717cfb 100644
--- a/src/commons/utils/query_utils.c
+++ b/src/commons/utils/query_utils.c
@@ -259,9 +259,20 @@ has_tag(const char *tagslist, const char *tagname)
 int
 has_tag_p(const char *tagslist, const char *pattern)
 {
-    return (k_v_matches_p(tagslist, pattern, NULL) != NULL);
+    char *matched_kv = k_v_matches_p(tagslist, pattern, NULL);
+    int   ret        = (matched_kv != NULL);
+    free(matched_kv);
+    return ret;
 }
 
+/**
+ * Find the first tag in the list of tags that matches the given patterns.
+ *
+ * @param tagslist
+ * @param key_pattern
+ * @param value_pattern
+ * @return a copy of the tag, to be freed by the caller; NULL if no tag matches
+ */
 char *
 k_v_matches_p(const char *tagslist, const char *key_pattern, const char *value_pattern)
 {
@@ -304,7 +315,7 @@ k_v_matches_p(const char *tagslist, const char *key_pattern, const char *value_p
             }
 
             if (pattern_matches) {
-                rst_kv = tag_kv;
+                rst_kv = strdup(tag_kv);
                 break;
             }
         }
@@ -312,7 +323,7 @@ k_v_matches_p(const char *tagslist, const char *key_pattern, const char *value_p
     }
 
     if (_tags_list != NULL) {
-        // free(_tags_list);
+        free(_tags_list);
     }
     return rst_kv;
 }
@@ -334,13 +345,22 @@ is_value_match(const char *tagslist, const char *tagname, const char *val)
 int
 is_value_match_p(const char *tagslist, const char *tagname, const char *pattern)
 {
-    return (k_v_matches_p(tagslist, tagname, pattern) != NULL);
+    char *matched_kv = k_v_matches_p(tagslist, tagname, pattern);
+    int   ret        = (matched_kv != NULL);
+    free(matched_kv);
+    return ret;
 }
 int
 is_value_in_range(const char *tagslist, const char *tagname, int from, int to)
 {
-    const char *matched_kv = k_v_matches_p(tagslist, tagname, NULL);
-    char *      value      = get_value(matched_kv, '=');
-    int         v          = atoi(value);
-    return (v >= from && v <= to);
+    char *matched_kv = k_v_matches_p(tagslist, tagname, NULL);
+    char *value      = NULL;
+    int   ret        = 0;
+    if (matched_kv != NULL) {
+        value = get_value(matched_kv, '=');
+        ret   = (atoi(value) >= from && atoi(value) <= to);
+    }
+    free(value);
+    free(matched_kv);
+    return ret;
 }
-- 
2.43.0


From 53cb653c5f728ced81d0f0349006c7af40b90858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:48 +0000
Subject: [PATCH 41/60] fix: send index queries to every server that may hold a
 match, and read no further than the word

---
 src/commons/index/dart/dart_core.c | 99 +++++++++++++++++++-----------
 1 file changed, 62 insertions(+), 37 deletions(-)

diff --git a/src/commons/index/dart/dart_core.c b/src/commons/index/dart/dart_core.c
index 43410f4..38fee3f 100644
--- a/src/commons/index/dart/dart_core.c
+++ b/src/commons/index/dart/dart_core.c
@@ -80,14 +80,14 @@ get_base_virtual_node_id_by_string(DART *dart, char *str)
     int      n = 0;
     uint64_t c;
     uint64_t rst = 0;
-    uint64_t i_t_n;
+    uint64_t i_t_n   = 0;
     int      met_end = 0;
     for (n = 1; n <= dart->dart_tree_height; n++) {
-        if (str[n - 1] == '\0') { // test if the string ends.
+        if (met_end == 0 && str[n - 1] == '\0') { // test if the string ends.
             met_end = 1;
         }
-        if (str[n - 1] != '\0' && met_end == 0) { // if not, we calculate the character index.
-            i_t_n = ((uint64_t)str[n - 1]) % dart->alphabet_size;
+        if (met_end == 0) { // if not, we calculate the character index.
+            i_t_n = ((uint64_t)(unsigned char)str[n - 1]) % dart->alphabet_size;
         }
         c = (i_t_n) * ((uint64_t)uint32_pow(dart->alphabet_size, dart->dart_tree_height - n));
         rst += c;
@@ -261,7 +261,8 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(DART *dart, uint64_
     // we first let reconciled virtual node to be the base virtual node.
     uint64_t reconciled_vnode_idx = base_vnode_idx;
 
-    if (dart->dart_tree_height <= 1) {
+    // without any character, there is nothing to pick an alternative by.
+    if (dart->dart_tree_height <= 1 || word[0] == '\0') {
         return reconciled_vnode_idx;
     }
 
@@ -288,13 +289,13 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(DART *dart, uint64_
         else {
             // otherwise, pre_leaf_index should be the index of proceeding character of the
             // leaf-level character in the alphabet.
-            pre_leaf_index = (int)word[last_c_index - 1] % dart->alphabet_size;
+            pre_leaf_index = (int)(unsigned char)word[last_c_index - 1] % dart->alphabet_size;
         }
     }
     else {
         // if the length of the word exceeds the height of the DART partition tree,
         // definitely, post-leaf character exists.
-        post_leaf_index = (int)word[last_c_index + 1] % dart->alphabet_size;
+        post_leaf_index = (int)(unsigned char)word[last_c_index + 1] % dart->alphabet_size;
         // but, there is a case where DART partition tree is of height 1.
         // in this case, there will be no pre-leaf character.
         if (tree_height <= 1) {
@@ -302,10 +303,10 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(DART *dart, uint64_
         }
         else {
             // otherwise, there will be a pre-leaf character.
-            pre_leaf_index = (int)word[last_c_index - 1] % dart->alphabet_size;
+            pre_leaf_index = (int)(unsigned char)word[last_c_index - 1] % dart->alphabet_size;
         }
     }
-    int leaf_index = (int)word[last_c_index] % dart->alphabet_size;
+    int leaf_index = (int)(unsigned char)word[last_c_index] % dart->alphabet_size;
 
     int leaf_post_sum  = leaf_index + pre_leaf_index + post_leaf_index;
     int leaf_post_diff = abs(post_leaf_index - leaf_index - pre_leaf_index);
@@ -331,7 +332,7 @@ get_reconciled_vnode_id_with_power_of_two_choice_rehashing_2(DART *dart, uint64_
     int ir_idx = (int)ceil((double)(dart->alphabet_size / 2));
 
     // We also calculate the region start position.
-    uint64_t region_start = ((((int)word[0] + ir_idx) % dart->alphabet_size)) *
+    uint64_t region_start = ((((int)(unsigned char)word[0] + ir_idx) % dart->alphabet_size)) *
                             region_size; // ((reconciled_vnode_idx)/region_size) * (region_size);
     // Finally, the reconciled vnode index is calculated.
     // reconciled_vnode_idx = (0 + region_start + region_offset) % dart->num_vnode;
@@ -418,6 +419,18 @@ get_server_ids_for_insert(DART *dart_g, char *keyword, get_server_info_callback
     return rst_len;
 }
 
+/**
+ * Mark the servers of a (circular) range of virtual nodes.
+ */
+static void
+mark_servers_of_vnodes(DART *dart, uint64_t first_vnode, uint64_t num_vnode, char *is_marked)
+{
+    uint64_t i;
+    for (i = 0; i < num_vnode; i++) {
+        is_marked[get_server_id_by_vnode_id(dart, (first_vnode + i) % dart->num_vnode)] = 1;
+    }
+}
+
 /**
  * This function gives all the server ID according to the given query token.
  * The query token should not contain any wildcard sign.
@@ -458,8 +471,12 @@ get_server_ids_for_query(DART *dart_g, char *token, dart_op_type_t op_type, uint
 
     // We first eliminate possibility of INFIX query.
     // Note: if suffix tree mode is ON, we don't have to search all servers.
+    // An empty token is part of every keyword.
+    if ((token[0] == '\0' && op_type != OP_DELETE)
 #ifndef PDC_DART_SFX_TREE
-    if (op_type == OP_INFIX_QUERY) {
+        || op_type == OP_INFIX_QUERY
+#endif
+    ) {
         out[0] = (uint64_t *)calloc(dart_g->num_server, sizeof(uint64_t));
         int i  = 0;
         for (i = 0; i < dart_g->num_server; i++) {
@@ -467,35 +484,42 @@ get_server_ids_for_query(DART *dart_g, char *token, dart_op_type_t op_type, uint
         }
         return dart_g->num_server;
     }
-#endif
 
     // for prefix/suffix query, we seek for proper parent region and only perform query broadcast for that
     // region. when suffix tree mode is ON: suffix query == exact query, infix query == prefix query.
-    if (strlen(token) < dart_g->dart_tree_height && (op_type == OP_PREFIX_QUERY
+    if (strlen(token) <= dart_g->dart_tree_height && (op_type == OP_PREFIX_QUERY
 #ifdef PDC_DART_SFX_TREE
-                                                     || op_type == OP_INFIX_QUERY
+                                                      || op_type == OP_INFIX_QUERY
 #else
-                                                     || op_type == OP_SUFFIX_QUERY
+                                                      || op_type == OP_SUFFIX_QUERY
 #endif
-                                                     )) {
+                                                      )) {
 
-        // TODO: currently broadcast request to all virtual nodes in one region.
+        // TODO: currently broadcast request to all virtual nodes in the regions a keyword can be in.
         // TODO: we have to consider if we can reduce the number of nodes we need to
         // access as the prefix length grows.
-        int region_size  = dart_g->num_vnode / dart_g->alphabet_size;
-        int region_start = ((((int)token[0] % dart_g->alphabet_size) + 0) * region_size);
-
-        uint64_t server_start = get_server_id_by_vnode_id(dart_g, region_start);
-        uint64_t server_end   = get_server_id_by_vnode_id(dart_g, region_start + region_size - 1);
-
-        int num_srvs    = server_end - server_start + 1;
-        out[0]          = (uint64_t *)calloc(num_srvs, sizeof(uint64_t));
-        int num_srv_ids = 0;
+        uint64_t region_size  = dart_g->num_vnode / dart_g->alphabet_size;
+        uint64_t first_char   = (unsigned char)token[0];
+        uint64_t region_start = (first_char % dart_g->alphabet_size) * region_size;
+        char *   is_target    = (char *)calloc(dart_g->num_server, sizeof(char));
+        int      num_srvs     = 0;
+
+        // the base virtual node of a keyword is in the region of its first character.
+        mark_servers_of_vnodes(dart_g, region_start, region_size, is_target);
+        // its alternative virtual node depends on characters behind the token as well,
+        // it can be anywhere in two regions (see how the region offset is determined).
+        uint64_t ir_idx = (uint64_t)ceil((double)(dart_g->alphabet_size / 2));
+        uint64_t alter_start =
+            (region_start + ((first_char + ir_idx) % dart_g->alphabet_size) * region_size) % dart_g->num_vnode;
+        mark_servers_of_vnodes(dart_g, alter_start, 2 * region_size, is_target);
 
-        uint64_t srvId = server_start;
-        for (; srvId <= server_end; srvId++) {
-            out[0][num_srv_ids++] = srvId;
+        out[0] = (uint64_t *)calloc(dart_g->num_server, sizeof(uint64_t));
+        for (uint64_t srvId = 0; srvId < dart_g->num_server; srvId++) {
+            if (is_target[srvId]) {
+                out[0][num_srvs++] = srvId;
+            }
         }
+        free(is_target);
         return num_srvs;
     }
     else {
@@ -535,6 +559,8 @@ get_server_ids_for_query(DART *dart_g, char *token, dart_op_type_t op_type, uint
             for (i = 0; i < num_alter_reps; i++) {
                 out[0][num_base_reps + i] = alter_replicas[i];
             }
+            free(base_replicas);
+            free(alter_replicas);
             return num_base_reps + num_alter_reps;
         }
         else {
@@ -549,6 +575,8 @@ get_server_ids_for_query(DART *dart_g, char *token, dart_op_type_t op_type, uint
                 rst_size  = 2;
                 out[0][1] = alter_replicas[rep_index];
             }
+            free(base_replicas);
+            free(alter_replicas);
             return rst_size;
         }
     }
@@ -659,15 +687,12 @@ DHT_hash(DART *dart_g, size_t len, char *key, dart_op_type_t op_type, index_hash
     else if (op_type == OP_EXACT_QUERY) {
         is_full_scan = 0;
     }
-    else if (op_type == OP_PREFIX_QUERY || op_type == OP_SUFFIX_QUERY) {
-        if (len > 1) {
-            is_full_scan = 1;
-        }
-        else {
-            is_full_scan = 0;
-        }
+    else if (op_type == OP_PREFIX_QUERY) {
+        // only the hash of the initial can be told from a prefix, unless the prefix may be the whole that is
+        // hashed.
+        is_full_scan = (len > 1 || strlen(key) <= len);
     }
-    else if (op_type == OP_INFIX_QUERY) {
+    else if (op_type == OP_SUFFIX_QUERY || op_type == OP_INFIX_QUERY) {
         is_full_scan = 1;
     }
 
-- 
2.43.0


From bda186f5537484e4ce11422a52569c5f9ac12ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:48 +0000
Subject: [PATCH 42/60] fix: a key or value pattern of a single * no longer
 dereferences NULL

---
 src/api/pdc_client_connect.c           | 3 ++-
 src/server/pdc_server_metadata_index.c | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 3fd35df..124d0fa 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -8777,7 +8777,8 @@ PDC_Client_search_obj_ref_through_dart(dart_hash_algo_t hash_algo, char *query_s
         case PATTERN_MIDDLE:
             // tok = (char *)calloc(strlen(k_query)-2, sizeof(char));
             // strncpy(tok, &k_query[1], strlen(k_query)-2);
-            affix   = substring(k_query, 1, strlen(k_query) - 1);
+            // a single "*" is both the leading and the trailing one
+            affix   = substring(k_query, 1, strlen(k_query) > 1 ? strlen(k_query) - 1 : 1);
             tok     = strdup(affix);
             dart_op = OP_INFIX_QUERY;
             break;
diff --git a/src/server/pdc_server_metadata_index.c b/src/server/pdc_server_metadata_index.c
index 1e91c42..9aad148 100644
--- a/src/server/pdc_server_metadata_index.c
+++ b/src/server/pdc_server_metadata_index.c
@@ -555,7 +555,9 @@ level_one_art_callback(void *data, const unsigned char *key, uint32_t key_len, v
                 }
                 break;
             case PATTERN_MIDDLE:
-                tok            = substring(secondary_query, 1, strlen(secondary_query) - 1);
+                // a single "*" is both the leading and the trailing one
+                tok            = substring(secondary_query, 1,
+                                strlen(secondary_query) > 1 ? strlen(secondary_query) - 1 : 1);
                 secondary_trie = (art_tree *)leafcnt->extra_prefix_index;
                 if (secondary_trie != NULL) {
 #ifndef PDC_DART_SFX_TREE
@@ -651,7 +653,8 @@ metadata_index_search(char *query, int index_type, uint64_t *n_obj_ids_ptr, uint
                 break;
             case PATTERN_MIDDLE:
                 qType_string = "Infix";
-                tok          = substring(k_query, 1, strlen(k_query) - 1);
+                // a single "*" is both the leading and the trailing one
+                tok          = substring(k_query, 1, strlen(k_query) > 1 ? strlen(k_query) - 1 : 1);
 #ifndef PDC_DART_SFX_TREE
                 param->level_one_infix = tok;
                 art_iter(art_key_prefix_tree_g, level_one_art_callback, param);
-- 
2.43.0


From a859074f53e4ec9944a1c401aad904c6cbd18d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:48 +0000
Subject: [PATCH 43/60] fix: radix tree: order bytes as unsigned, read no
 further than the key, end a prefix walk at a mismatch

---
 src/commons/collections/art.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/commons/collections/art.c b/src/commons/collections/art.c
index 6d15e1d..111baf5 100644
--- a/src/commons/collections/art.c
+++ b/src/commons/collections/art.c
@@ -327,6 +327,9 @@ art_search(const art_tree *t, const unsigned char *key, int key_len)
             if (prefix_len != min(MAX_PREFIX_LEN, n->partial_len))
                 return NULL;
             depth = depth + n->partial_len;
+            // Only part of the prefix is compared: the key may be shorter
+            if (depth > key_len)
+                return NULL;
         }
 
         // Recursively search
@@ -493,7 +496,9 @@ add_child16(art_node16 *n, art_node **ref, unsigned char c, void *child)
         __m128i cmp;
 
         // Compare the key to all 16 stored keys
-        cmp = _mm_cmplt_epi8(_mm_set1_epi8(c), _mm_loadu_si128((__m128i *)n->keys));
+        // (keys are unsigned, the comparison is signed: move both by half the range)
+        cmp = _mm_cmplt_epi8(_mm_set1_epi8((char)(c ^ 0x80)),
+                             _mm_xor_si128(_mm_loadu_si128((__m128i *)n->keys), _mm_set1_epi8((char)0x80)));
 
         // Use a mask to ignore children that don't exist
         unsigned bitfield = _mm_movemask_epi8(cmp) & mask;
@@ -502,7 +507,9 @@ add_child16(art_node16 *n, art_node **ref, unsigned char c, void *child)
         __m128i cmp;
 
         // Compare the key to all 16 stored keys
-        cmp = _mm_cmplt_epi8(_mm_set1_epi8(c), _mm_loadu_si128((__m128i *)n->keys));
+        // (keys are unsigned, the comparison is signed: move both by half the range)
+        cmp = _mm_cmplt_epi8(_mm_set1_epi8((char)(c ^ 0x80)),
+                             _mm_xor_si128(_mm_loadu_si128((__m128i *)n->keys), _mm_set1_epi8((char)0x80)));
 
         // Use a mask to ignore children that don't exist
         unsigned bitfield = _mm_movemask_epi8(cmp) & mask;
@@ -893,6 +900,9 @@ recursive_delete(art_node *n, art_node **ref, const unsigned char *key, int key_
             return NULL;
         }
         depth = depth + n->partial_len;
+        // Only part of the prefix is compared: the key may be shorter
+        if (depth > key_len)
+            return NULL;
     }
 
     // Find child node
@@ -1073,16 +1083,16 @@ art_iter_prefix(art_tree *t, const unsigned char *key, int key_len, art_callback
                 prefix_len = n->partial_len;
             }
 
-            // If there is no match, search is terminated
-            if (!prefix_len) {
-                return 0;
-
-                // If we've matched the prefix, iterate on this node
-            }
-            else if (depth + prefix_len == key_len) {
+            // If we've matched the prefix, iterate on this node
+            if (depth + prefix_len == key_len) {
                 return recursive_iter(n, cb, data);
             }
 
+            // If the match ends inside this node's prefix, search is terminated
+            if ((uint32_t)prefix_len < n->partial_len) {
+                return 0;
+            }
+
             // if there is a full match, go deeper
             depth = depth + n->partial_len;
         }
-- 
2.43.0


From b540b6080c1ccf41b15fd94876b0a8e57d069608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:01 +0000
Subject: [PATCH 44/60] fix: a restarted server gets everything the last run
 held, and only from a complete checkpoint

A restart lost the objects and kv tags of containers and followed addresses of the
previous process, gave new objects the identifiers of restored ones, and reset the
number of objects after it had restored them, so that listing all of them wrote
outside its buffer. A checkpoint that could not be written was reported as done and
had already replaced the last one; a restart from such a file went on with whatever
happened to be in memory.
---
 src/server/pdc_server.c | 236 ++++++++++++++++++++++++++++++++++------
 1 file changed, 201 insertions(+), 35 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index d73fd9b..1841cc3 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -962,6 +962,7 @@ drc_access_again:
 
     // TODO: support restart with different number of servers than previous run
     char checkpoint_file[ADDR_MAX + sizeof(int) + 1];
+    n_metadata_g = 0;
     if (is_restart_g == 1) {
         snprintf(checkpoint_file, ADDR_MAX, "%s/%d/metadata_checkpoint.%d", pdc_server_tmp_dir_g,
                  pdc_server_rank_g, pdc_server_rank_g);
@@ -995,8 +996,6 @@ drc_access_again:
     // Initalize atomic variable to finalize server
     hg_atomic_set32(&close_server_g, 0);
 
-    n_metadata_g = 0;
-
     // Initialize DART
     PDC_Server_dart_init();
 
@@ -1208,6 +1207,66 @@ PDC_Server_checkpoint_cb()
     return HG_SUCCESS;
 }
 
+/*
+ * Write one kv tag to a checkpoint file
+ */
+static void
+PDC_Server_checkpoint_kvtag(pdc_kvtag_t *kvtag, FILE *file)
+{
+    int key_len = strlen(kvtag->name) + 1;
+
+    fwrite(&key_len, sizeof(int), 1, file);
+    fwrite(kvtag->name, key_len, 1, file);
+    fwrite(&kvtag->size, sizeof(uint32_t), 1, file);
+    fwrite(&kvtag->type, sizeof(int8_t), 1, file);
+    fwrite(kvtag->value, kvtag->size, 1, file);
+}
+
+/*
+ * Read one kv tag from a checkpoint file
+ *
+ * \return NULL on failure
+ */
+static pdc_kvtag_list_t *
+PDC_Server_restart_kvtag(FILE *file)
+{
+    int               key_len;
+    pdc_kvtag_list_t *kvtag_list = (pdc_kvtag_list_t *)calloc(1, sizeof(pdc_kvtag_list_t));
+
+    kvtag_list->kvtag = (pdc_kvtag_t *)calloc(1, sizeof(pdc_kvtag_t));
+    if (fread(&key_len, sizeof(int), 1, file) != 1) {
+        printf("Read failed for key_len\n");
+        goto error;
+    }
+    kvtag_list->kvtag->name = malloc(key_len);
+    if (fread((void *)(kvtag_list->kvtag->name), key_len, 1, file) != 1) {
+        printf("Read failed for kvtag_list->kvtag->name\n");
+        goto error;
+    }
+    if (fread(&kvtag_list->kvtag->size, sizeof(uint32_t), 1, file) != 1) {
+        printf("Read failed for kvtag_list->kvtag->size\n");
+        goto error;
+    }
+    if (fread(&kvtag_list->kvtag->type, sizeof(int8_t), 1, file) != 1) {
+        printf("Read failed for kvtag_list->kvtag->type\n");
+        goto error;
+    }
+    kvtag_list->kvtag->value = malloc(kvtag_list->kvtag->size);
+    if (kvtag_list->kvtag->size > 0 &&
+        fread(kvtag_list->kvtag->value, kvtag_list->kvtag->size, 1, file) != 1) {
+        printf("Read failed for kvtag_list->kvtag->value\n");
+        goto error;
+    }
+    return kvtag_list;
+
+error:
+    free(kvtag_list->kvtag->name);
+    free(kvtag_list->kvtag->value);
+    free(kvtag_list->kvtag);
+    free(kvtag_list);
+    return NULL;
+}
+
 /*
  * Checkpoint in-memory metadata to persistant storage, each server writes to one file
  *
@@ -1224,15 +1283,17 @@ PDC_Server_checkpoint()
     pdc_kvtag_list_t *           kvlist_elt;
     pdc_hash_table_entry_head *  head;
     pdc_cont_hash_table_entry_t *cont_head;
-    int n_entry, metadata_size = 0, region_count = 0, n_region, n_objs, n_write_region = 0, n_kvtag, key_len;
+    int n_entry, metadata_size = 0, region_count = 0, n_region, n_objs, n_write_region = 0, n_kvtag;
     uint32_t          hash_key;
     HashTablePair     pair;
     char              checkpoint_file[ADDR_MAX], checkpoint_file_local[ADDR_MAX], cmd[4096];
+    char              checkpoint_file_new[ADDR_MAX + 8];
     HashTableIterator hash_table_iter;
     char *            checkpoint;
     char *            env_char;
     uint64_t          checkpoint_size;
     bool              use_tmpfs = false;
+    int               write_failed;
     FILE *            file;
 
     FUNC_ENTER(NULL);
@@ -1265,10 +1326,12 @@ PDC_Server_checkpoint()
         fflush(stdout);
     }
 
+    // The previous checkpoint is only replaced once the new one is complete
+    snprintf(checkpoint_file_new, ADDR_MAX + 8, "%s.new", checkpoint_file);
     if (use_tmpfs)
         file = fopen(checkpoint_file_local, "w+");
     else
-        file = fopen(checkpoint_file, "w+");
+        file = fopen(checkpoint_file_new, "w+");
 
     if (file == NULL) {
         printf("==PDC_SERVER[%d]: %s - Checkpoint file open error", pdc_server_rank_g, __func__);
@@ -1288,6 +1351,18 @@ PDC_Server_checkpoint()
         hash_key = PDC_get_hash_by_name(cont_head->cont_name);
         fwrite(&hash_key, sizeof(uint32_t), 1, file);
         fwrite(cont_head, sizeof(pdc_cont_hash_table_entry_t), 1, file);
+
+        // Write object list
+        if (cont_head->n_obj > 0)
+            fwrite(cont_head->obj_ids, sizeof(uint64_t), cont_head->n_obj, file);
+
+        // Write kv tags
+        DL_COUNT(cont_head->kvtag_list_head, kvlist_elt, n_kvtag);
+        fwrite(&n_kvtag, sizeof(int), 1, file);
+        DL_FOREACH(cont_head->kvtag_list_head, kvlist_elt)
+        {
+            PDC_Server_checkpoint_kvtag(kvlist_elt->kvtag, file);
+        }
     }
 
     // DHT
@@ -1315,12 +1390,7 @@ PDC_Server_checkpoint()
             fwrite(&n_kvtag, sizeof(int), 1, file);
             DL_FOREACH(elt->kvtag_list_head, kvlist_elt)
             {
-                key_len = strlen(kvlist_elt->kvtag->name) + 1;
-                fwrite(&key_len, sizeof(int), 1, file);
-                fwrite(kvlist_elt->kvtag->name, key_len, 1, file);
-                fwrite(&kvlist_elt->kvtag->size, sizeof(uint32_t), 1, file);
-                fwrite(&kvlist_elt->kvtag->type, sizeof(int8_t), 1, file);
-                fwrite(kvlist_elt->kvtag->value, kvlist_elt->kvtag->size, 1, file);
+                PDC_Server_checkpoint_kvtag(kvlist_elt->kvtag, file);
             }
 
             // Write region info
@@ -1391,8 +1461,25 @@ PDC_Server_checkpoint()
     transfer_request_metadata_query_checkpoint(&checkpoint, &checkpoint_size);
     fwrite(&checkpoint_size, sizeof(uint64_t), 1, file);
     fwrite(checkpoint, checkpoint_size, 1, file);
+    free(checkpoint);
 
-    fclose(file);
+    // New objects must not get the identifiers of the existing ones after a restart
+    fwrite(&pdc_id_seq_g, sizeof(uint64_t), 1, file);
+
+    write_failed = ferror(file);
+    if (fclose(file) != 0)
+        write_failed = 1;
+    if (write_failed) {
+        printf("==PDC_SERVER[%d]: %s - Checkpoint file write error\n", pdc_server_rank_g, __func__);
+        ret_value = FAIL;
+        goto done;
+    }
+
+    if (!use_tmpfs && rename(checkpoint_file_new, checkpoint_file) != 0) {
+        printf("==PDC_SERVER[%d]: %s - Checkpoint file rename error\n", pdc_server_rank_g, __func__);
+        ret_value = FAIL;
+        goto done;
+    }
 
     if (use_tmpfs) {
 #ifdef PDC_TIMING
@@ -1402,7 +1489,11 @@ PDC_Server_checkpoint()
 #endif
         // Copy from /tmp to target under $PDC_TMPDIR
         snprintf(cmd, 4096, "mv %s %s", checkpoint_file_local, checkpoint_file);
-        system(cmd);
+        if (system(cmd) != 0) {
+            printf("==PDC_SERVER[%d]: %s - Checkpoint file move error\n", pdc_server_rank_g, __func__);
+            ret_value = FAIL;
+            goto done;
+        }
     }
 
 #ifdef PDC_TIMING
@@ -1461,7 +1552,7 @@ PDC_Server_restart(char *filename)
 {
     perr_t ret_value = SUCCEED;
     int    n_entry, count, i, j, nobj = 0, all_nobj = 0, all_n_region, n_region, n_objs, total_region = 0,
-                              n_kvtag, key_len;
+                              n_kvtag;
     int                          n_cont, all_cont;
     pdc_metadata_t *             metadata, *elt;
     region_list_t *              region_list;
@@ -1471,6 +1562,7 @@ PDC_Server_restart(char *filename)
     unsigned                     idx;
     uint64_t                     checkpoint_size;
     char *                       checkpoint_buf;
+    FILE *                       file = NULL;
 #ifdef PDC_TIMING
     double start = MPI_Wtime();
 #endif
@@ -1485,7 +1577,7 @@ PDC_Server_restart(char *filename)
         goto done;
     }
 
-    FILE *file = fopen(filename, "r");
+    file = fopen(filename, "r");
     if (file == NULL) {
         printf("==PDC_SERVER[%d]: %s -  Checkpoint file open FAILED [%s]!", pdc_server_rank_g, __func__,
                filename);
@@ -1500,12 +1592,16 @@ PDC_Server_restart(char *filename)
 
     if (fread(&n_cont, sizeof(int), 1, file) != 1) {
         printf("Read failed for n_count\n");
+        ret_value = FAIL;
+        goto done;
     }
     all_cont = n_cont;
     while (n_cont > 0) {
         hash_key = (uint32_t *)malloc(sizeof(uint32_t));
         if (fread(hash_key, sizeof(uint32_t), 1, file) != 1) {
             printf("Read failed for hash_key\n");
+            ret_value = FAIL;
+            goto done;
         }
         total_mem_usage_g += sizeof(uint32_t);
 
@@ -1514,6 +1610,33 @@ PDC_Server_restart(char *filename)
         total_mem_usage_g += sizeof(pdc_cont_hash_table_entry_t);
         if (fread(cont_entry, sizeof(pdc_cont_hash_table_entry_t), 1, file) != 1) {
             printf("Read failed for cont_entry\n");
+            ret_value = FAIL;
+            goto done;
+        }
+
+        // The pointers are those of the previous run
+        cont_entry->obj_ids         = NULL;
+        cont_entry->kvtag_list_head = NULL;
+        if (cont_entry->n_allocated > 0)
+            cont_entry->obj_ids = (uint64_t *)calloc(cont_entry->n_allocated, sizeof(uint64_t));
+        if (cont_entry->n_obj > 0 && fread(cont_entry->obj_ids, sizeof(uint64_t), cont_entry->n_obj, file) !=
+                                         (size_t)cont_entry->n_obj) {
+            printf("Read failed for cont_entry->obj_ids\n");
+            ret_value = FAIL;
+            goto done;
+        }
+        if (fread(&n_kvtag, sizeof(int), 1, file) != 1) {
+            printf("Read failed for n_kvtag\n");
+            ret_value = FAIL;
+            goto done;
+        }
+        for (j = 0; j < n_kvtag; j++) {
+            pdc_kvtag_list_t *kvtag_list = PDC_Server_restart_kvtag(file);
+            if (kvtag_list == NULL) {
+                ret_value = FAIL;
+                goto done;
+            }
+            DL_APPEND(cont_entry->kvtag_list_head, kvtag_list);
         }
 
 #ifdef ENABLE_MULTITHREAD
@@ -1532,15 +1655,21 @@ PDC_Server_restart(char *filename)
 
     if (fread(&n_entry, sizeof(int), 1, file) != 1) {
         printf("Read failed for n_entry\n");
+        ret_value = FAIL;
+        goto done;
     }
     while (n_entry > 0) {
         if (fread(&count, sizeof(int), 1, file) != 1) {
             printf("Read failed for count\n");
+            ret_value = FAIL;
+            goto done;
         }
 
         hash_key = (uint32_t *)malloc(sizeof(uint32_t));
         if (fread(hash_key, sizeof(uint32_t), 1, file) != 1) {
             printf("Read failed for hash_key\n");
+            ret_value = FAIL;
+            goto done;
         }
         total_mem_usage_g += sizeof(uint32_t);
 
@@ -1556,6 +1685,8 @@ PDC_Server_restart(char *filename)
         for (i = 0; i < count; i++) {
             if (fread(metadata + i, sizeof(pdc_metadata_t), 1, file) != 1) {
                 printf("Read failed for metadata\n");
+                ret_value = FAIL;
+                goto done;
             }
 
             (metadata + i)->storage_region_list_head       = NULL;
@@ -1571,32 +1702,22 @@ PDC_Server_restart(char *filename)
             // Read kv tags
             if (fread(&n_kvtag, sizeof(int), 1, file) != 1) {
                 printf("Read failed for n_kvtag\n");
+                ret_value = FAIL;
+                goto done;
             }
             for (j = 0; j < n_kvtag; j++) {
-                pdc_kvtag_list_t *kvtag_list = (pdc_kvtag_list_t *)calloc(1, sizeof(pdc_kvtag_list_t));
-                kvtag_list->kvtag            = (pdc_kvtag_t *)malloc(sizeof(pdc_kvtag_t));
-                if (fread(&key_len, sizeof(int), 1, file) != 1) {
-                    printf("Read failed for key_len\n");
-                }
-                kvtag_list->kvtag->name = malloc(key_len);
-                if (fread((void *)(kvtag_list->kvtag->name), key_len, 1, file) != 1) {
-                    printf("Read failed for kvtag_list->kvtag->name\n");
-                }
-                if (fread(&kvtag_list->kvtag->size, sizeof(uint32_t), 1, file) != 1) {
-                    printf("Read failed for kvtag_list->kvtag->size\n");
-                }
-                if (fread(&kvtag_list->kvtag->type, sizeof(int8_t), 1, file) != 1) {
-                    printf("Read failed for kvtag_list->kvtag->type\n");
-                }
-                kvtag_list->kvtag->value = malloc(kvtag_list->kvtag->size);
-                if (fread(kvtag_list->kvtag->value, kvtag_list->kvtag->size, 1, file) != 1) {
-                    printf("Read failed for kvtag_list->kvtag->value\n");
+                pdc_kvtag_list_t *kvtag_list = PDC_Server_restart_kvtag(file);
+                if (kvtag_list == NULL) {
+                    ret_value = FAIL;
+                    goto done;
                 }
                 DL_APPEND((metadata + i)->kvtag_list_head, kvtag_list);
             }
 
             if (fread(&n_region, sizeof(int), 1, file) != 1) {
                 printf("Read failed for n_region\n");
+                ret_value = FAIL;
+                goto done;
             }
             if (n_region < 0) {
                 printf("==PDC_SERVER[%d]: %s -  Checkpoint file region number ERROR!", pdc_server_rank_g,
@@ -1614,19 +1735,27 @@ PDC_Server_restart(char *filename)
                 region_list = (region_list_t *)malloc(sizeof(region_list_t));
                 if (fread(region_list, sizeof(region_list_t), 1, file) != 1) {
                     printf("Read failed for region_list\n");
+                    ret_value = FAIL;
+                    goto done;
                 }
 
                 int has_hist = 0;
                 if (fread(&has_hist, sizeof(int), 1, file) != 1) {
                     printf("Read failed for has_list\n");
+                    ret_value = FAIL;
+                    goto done;
                 }
                 if (has_hist == 1) {
                     region_list->region_hist = (pdc_histogram_t *)malloc(sizeof(pdc_histogram_t));
                     if (fread(&region_list->region_hist->dtype, sizeof(int), 1, file) != 1) {
                         printf("Read failed for region_list->region_hist->dtype\n");
+                        ret_value = FAIL;
+                        goto done;
                     }
                     if (fread(&region_list->region_hist->nbin, sizeof(int), 1, file) != 1) {
                         printf("Read failed for region_list->region_hist->nbin\n");
+                        ret_value = FAIL;
+                        goto done;
                     }
                     if (region_list->region_hist->nbin == 0) {
                         printf("==PDC_SERVER[%d]: %s -  Checkpoint file histogram size is 0!",
@@ -1639,15 +1768,22 @@ PDC_Server_restart(char *filename)
                         (uint64_t *)malloc(sizeof(uint64_t) * region_list->region_hist->nbin);
 
                     if (fread(region_list->region_hist->range, sizeof(double),
-                              region_list->region_hist->nbin * 2, file) != 1) {
+                              region_list->region_hist->nbin * 2,
+                              file) != (size_t)region_list->region_hist->nbin * 2) {
                         printf("Read failed for region_list->region_hist->range\n");
+                        ret_value = FAIL;
+                        goto done;
                     }
                     if (fread(region_list->region_hist->bin, sizeof(uint64_t), region_list->region_hist->nbin,
-                              file) != 1) {
+                              file) != (size_t)region_list->region_hist->nbin) {
                         printf("Read failed for region_list->region_hist->bin\n");
+                        ret_value = FAIL;
+                        goto done;
                     }
                     if (fread(&region_list->region_hist->incr, sizeof(double), 1, file) != 1) {
                         printf("Read failed for region_list->region_hist->incr\n");
+                        ret_value = FAIL;
+                        goto done;
                     }
                 }
 
@@ -1688,7 +1824,6 @@ PDC_Server_restart(char *filename)
                 DL_APPEND((metadata + i)->storage_region_list_head, region_list);
             } // For j
             total_region += n_region;
-
             DL_SORT((metadata + i)->storage_region_list_head, region_cmp);
         } // For i
 
@@ -1713,6 +1848,8 @@ PDC_Server_restart(char *filename)
 
     if (fread(&n_objs, sizeof(int), 1, file) != 1) {
         printf("Read failed for n_objs\n");
+        ret_value = FAIL;
+        goto done;
     }
 
     for (i = 0; i < n_objs; ++i) {
@@ -1722,31 +1859,57 @@ PDC_Server_restart(char *filename)
         new_obj_reg->storage_location = (char *)malloc(sizeof(char) * ADDR_MAX);
         if (fread(&new_obj_reg->obj_id, sizeof(uint64_t), 1, file) != 1) {
             printf("Read failed for obj_id\n");
+            ret_value = FAIL;
+            goto done;
         }
         if (fread(&n_region, sizeof(int), 1, file) != 1) {
             printf("Read failed for n_region\n");
+            ret_value = FAIL;
+            goto done;
         }
         DL_APPEND(dataserver_region_g, new_obj_reg);
         for (j = 0; j < n_region; j++) {
             region_list_t *new_region_list = (region_list_t *)malloc(sizeof(region_list_t));
             if (fread(new_region_list, sizeof(region_list_t), 1, file) != 1) {
                 printf("Read failed for new_region_list\n");
+                ret_value = FAIL;
+                goto done;
             }
+            // The pointers are those of the previous run
+            new_region_list->region_hist             = NULL;
+            new_region_list->buf                     = NULL;
+            new_region_list->io_cache_region         = NULL;
+            new_region_list->overlap_storage_regions = NULL;
+            new_region_list->lock_handle             = NULL;
+            new_region_list->bulk_handle             = NULL;
+            new_region_list->addr                    = NULL;
+            new_region_list->meta                    = NULL;
             DL_APPEND(new_obj_reg->region_storage_head, new_region_list);
         }
     }
 
     if (fread(&checkpoint_size, sizeof(uint64_t), 1, file) != 1) {
         printf("Read failed for checkpoint size\n");
+        ret_value = FAIL;
+        goto done;
     }
     /* printf("checkpoint size for metadata query = %lu\n", checkpoint_size); */
     checkpoint_buf = (char *)malloc(checkpoint_size);
     if (fread(checkpoint_buf, checkpoint_size, 1, file) != 1) {
         printf("Read failed for checkpoint buf\n");
+        ret_value = FAIL;
+        goto done;
     }
     transfer_request_metadata_query_init(pdc_server_size_g, checkpoint_buf);
     free(checkpoint_buf);
 
+    if (fread(&pdc_id_seq_g, sizeof(uint64_t), 1, file) != 1) {
+        printf("Read failed for object id sequence\n");
+        ret_value = FAIL;
+        goto done;
+    }
+    n_metadata_g = nobj;
+
     fclose(file);
     file = NULL;
 
@@ -1765,6 +1928,9 @@ PDC_Server_restart(char *filename)
     }
 
 done:
+    if (file != NULL)
+        fclose(file);
+
 #ifdef PDC_TIMING
     pdc_server_timings->PDCserver_restart += MPI_Wtime() - start;
 #endif
-- 
2.43.0


From 65b75cc3bb551740381536ff8202e125768ae66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:12 +0000
Subject: [PATCH 45/60] fix: the cache flush thread and the request handlers
 share the region list under a lock

---
 src/server/pdc_server.c                       |  3 +
 .../pdc_server_region/pdc_server_data.c       | 78 +++++++++++++------
 .../pdc_server_region_cache.c                 | 10 ++-
 3 files changed, 65 insertions(+), 26 deletions(-)

diff --git a/src/server/pdc_server.c b/src/server/pdc_server.c
index 1841cc3..a007e0b 100644
--- a/src/server/pdc_server.c
+++ b/src/server/pdc_server.c
@@ -166,6 +166,7 @@ pdc_data_server_io_list_t *  pdc_data_server_read_list_head_g    = NULL;
 pdc_data_server_io_list_t *  pdc_data_server_write_list_head_g   = NULL;
 update_storage_meta_list_t * pdc_update_storage_meta_list_head_g = NULL;
 extern data_server_region_t *dataserver_region_g;
+extern pthread_mutex_t       dataserver_region_mutex_g;
 
 /*
  * Init the remote server info structure
@@ -1445,6 +1446,7 @@ PDC_Server_checkpoint()
 
     // Note data server region are managed by data server instead of metadata server
     data_server_region_t *region = NULL;
+    pthread_mutex_lock(&dataserver_region_mutex_g);
     DL_COUNT(dataserver_region_g, region, n_objs);
     fwrite(&n_objs, sizeof(int), 1, file);
     DL_FOREACH(dataserver_region_g, region)
@@ -1457,6 +1459,7 @@ PDC_Server_checkpoint()
             fwrite(region_elt, sizeof(region_list_t), 1, file);
         }
     }
+    pthread_mutex_unlock(&dataserver_region_mutex_g);
 
     transfer_request_metadata_query_checkpoint(&checkpoint, &checkpoint_size);
     fwrite(&checkpoint_size, sizeof(uint64_t), 1, file);
diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 643517f..7503f22 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -58,6 +58,8 @@
 
 // Global object region info list in local data server
 data_server_region_t *      dataserver_region_g     = NULL;
+// Protects the list, and the files and storage regions of its entries: the cache flush thread uses them as well
+pthread_mutex_t dataserver_region_mutex_g = PTHREAD_MUTEX_INITIALIZER;
 data_server_region_unmap_t *dataserver_region_unmap = NULL;
 
 int pdc_buffered_bulk_update_total_g = 0;
@@ -279,8 +281,11 @@ PDC_Server_region_lock_status(PDC_mapping_info_t *mapped_region, int *lock_statu
     FUNC_LEAVE(ret_value);
 }
 
-data_server_region_t *
-PDC_Server_get_obj_region(pdcid_t obj_id)
+/*
+ * Caller must hold dataserver_region_mutex_g
+ */
+static data_server_region_t *
+find_obj_region(pdcid_t obj_id)
 {
     data_server_region_t *ret_value = NULL;
     data_server_region_t *elt       = NULL;
@@ -298,6 +303,20 @@ PDC_Server_get_obj_region(pdcid_t obj_id)
     FUNC_LEAVE(ret_value);
 }
 
+data_server_region_t *
+PDC_Server_get_obj_region(pdcid_t obj_id)
+{
+    data_server_region_t *ret_value = NULL;
+
+    FUNC_ENTER(NULL);
+
+    pthread_mutex_lock(&dataserver_region_mutex_g);
+    ret_value = find_obj_region(obj_id);
+    pthread_mutex_unlock(&dataserver_region_mutex_g);
+
+    FUNC_LEAVE(ret_value);
+}
+
 perr_t
 PDC_Server_clear_obj_region()
 {
@@ -306,6 +325,7 @@ PDC_Server_clear_obj_region()
     region_list_t *       elt2, *tmp2;
 
     FUNC_ENTER(NULL);
+    pthread_mutex_lock(&dataserver_region_mutex_g);
     if (dataserver_region_g != NULL) {
         DL_FOREACH_SAFE(dataserver_region_g, elt, tmp)
         {
@@ -318,9 +338,13 @@ PDC_Server_clear_obj_region()
             free(elt);
         }
     }
+    pthread_mutex_unlock(&dataserver_region_mutex_g);
     FUNC_LEAVE(ret_value);
 }
 
+/*
+ * Caller must hold dataserver_region_mutex_g
+ */
 perr_t
 PDC_Server_register_obj_region_by_pointer(data_server_region_t **new_obj_reg_ptr, pdcid_t obj_id,
                                           int close_flag)
@@ -367,6 +391,9 @@ done:
     FUNC_LEAVE(ret_value);
 } // End PDC_Server_register_obj_region
 
+/*
+ * Caller must hold dataserver_region_mutex_g
+ */
 perr_t
 PDC_Server_unregister_obj_region_by_pointer(data_server_region_t *new_obj_reg, int close_flag)
 {
@@ -388,8 +415,10 @@ PDC_Server_register_obj_region(pdcid_t obj_id)
     data_server_region_t *new_obj_reg;
 
     FUNC_ENTER(NULL);
-    new_obj_reg = PDC_Server_get_obj_region(obj_id);
+    pthread_mutex_lock(&dataserver_region_mutex_g);
+    new_obj_reg = find_obj_region(obj_id);
     PDC_Server_register_obj_region_by_pointer(&new_obj_reg, obj_id, 1);
+    pthread_mutex_unlock(&dataserver_region_mutex_g);
 
     FUNC_LEAVE(ret_value);
 } // End PDC_Server_register_obj_region
@@ -401,8 +430,10 @@ PDC_Server_unregister_obj_region(pdcid_t obj_id)
     perr_t                ret_value = SUCCEED;
 
     FUNC_ENTER(NULL);
-    new_obj_reg = PDC_Server_get_obj_region(obj_id);
+    pthread_mutex_lock(&dataserver_region_mutex_g);
+    new_obj_reg = find_obj_region(obj_id);
     PDC_Server_unregister_obj_region_by_pointer(new_obj_reg, 1);
+    pthread_mutex_unlock(&dataserver_region_mutex_g);
 
     FUNC_LEAVE(ret_value);
 } // End PDC_Server_unregister_obj_region
@@ -471,7 +502,9 @@ PDC_Data_Server_region_lock(region_lock_in_t *in, region_lock_out_t *out, hg_han
         new_obj_reg->region_buf_map_head      = NULL;
         new_obj_reg->region_lock_request_head = NULL;
         new_obj_reg->region_storage_head      = NULL;
+        pthread_mutex_lock(&dataserver_region_mutex_g);
         DL_APPEND(dataserver_region_g, new_obj_reg);
+        pthread_mutex_unlock(&dataserver_region_mutex_g);
     }
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&region_struct_mutex_g);
@@ -817,8 +850,10 @@ PDC_Data_Server_buf_unmap(const struct hg_info *info, buf_unmap_in_t *in)
     }
 
     if (target_obj->region_buf_map_head == NULL && pdc_server_rank_g == 0) {
+        pthread_mutex_lock(&dataserver_region_mutex_g);
         close(target_obj->fd);
         target_obj->fd = -1;
+        pthread_mutex_unlock(&dataserver_region_mutex_g);
     }
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&data_buf_map_mutex_g);
@@ -1264,7 +1299,9 @@ PDC_Data_Server_buf_map(const struct hg_info *info, buf_map_in_t *in, region_lis
             goto done;
         }
         new_obj_reg->storage_location = strdup(storage_location);
+        pthread_mutex_lock(&dataserver_region_mutex_g);
         DL_APPEND(dataserver_region_g, new_obj_reg);
+        pthread_mutex_unlock(&dataserver_region_mutex_g);
     }
 #ifdef ENABLE_MULTITHREAD
     hg_thread_mutex_unlock(&region_struct_mutex_g);
@@ -1395,18 +1432,12 @@ void *
 PDC_Server_maybe_allocate_region_buf_ptr(pdcid_t obj_id, region_info_transfer_t region, size_t type_size)
 {
     void *                ret_value  = NULL;
-    data_server_region_t *target_obj = NULL, *elt = NULL;
+    data_server_region_t *target_obj = NULL;
     region_buf_map_t *    tmp;
 
     FUNC_ENTER(NULL);
 
-    if (dataserver_region_g == NULL)
-        PGOTO_ERROR(NULL, "===PDC SERVER: PDC_Server_get_region_buf_ptr() - object list is NULL");
-    DL_FOREACH(dataserver_region_g, elt)
-    {
-        if (obj_id == elt->obj_id)
-            target_obj = elt;
-    }
+    target_obj = PDC_Server_get_obj_region(obj_id);
     if (target_obj == NULL)
         PGOTO_ERROR(NULL, "===PDC SERVER: PDC_Server_get_region_buf_ptr() - cannot locate object");
 
@@ -1456,18 +1487,12 @@ void *
 PDC_Server_get_region_buf_ptr(pdcid_t obj_id, region_info_transfer_t region)
 {
     void *                ret_value  = NULL;
-    data_server_region_t *target_obj = NULL, *elt = NULL;
+    data_server_region_t *target_obj = NULL;
     region_buf_map_t *    tmp;
 
     FUNC_ENTER(NULL);
 
-    if (dataserver_region_g == NULL)
-        PGOTO_ERROR(NULL, "===PDC SERVER: PDC_Server_get_region_buf_ptr() - object list is NULL");
-    DL_FOREACH(dataserver_region_g, elt)
-    {
-        if (obj_id == elt->obj_id)
-            target_obj = elt;
-    }
+    target_obj = PDC_Server_get_obj_region(obj_id);
     if (target_obj == NULL)
         PGOTO_ERROR(NULL, "===PDC SERVER: PDC_Server_get_region_buf_ptr() - cannot locate object");
 
@@ -4745,7 +4770,8 @@ PDC_Server_data_write_out(uint64_t obj_id, struct pdc_region_info *region_info,
 
     if (region_info->ndim >= 3)
         write_size *= region_info->size[2];
-    region = PDC_Server_get_obj_region(obj_id);
+    pthread_mutex_lock(&dataserver_region_mutex_g);
+    region = find_obj_region(obj_id);
     PDC_Server_register_obj_region_by_pointer(&region, obj_id, 0);
 
     region_list_t *request_region = (region_list_t *)calloc(1, sizeof(region_list_t));
@@ -5042,6 +5068,7 @@ PDC_Server_data_write_out(uint64_t obj_id, struct pdc_region_info *region_info,
 #endif
     /* printf("==PDC_SERVER[%d]: write region %llu bytes\n", pdc_server_rank_g, request_region->data_size); */
 done:
+    pthread_mutex_unlock(&dataserver_region_mutex_g);
     fflush(stdout);
     FUNC_LEAVE(ret_value);
 } // End PDC_Server_data_write_out
@@ -5062,7 +5089,8 @@ PDC_Server_data_read_from(uint64_t obj_id, struct pdc_region_info *region_info,
 #ifdef PDC_TIMING
     double start = MPI_Wtime(), start_posix;
 #endif
-    region = PDC_Server_get_obj_region(obj_id);
+    pthread_mutex_lock(&dataserver_region_mutex_g);
+    region = find_obj_region(obj_id);
     /*
         if (region == NULL) {
             printf("cannot locate file handle\n");
@@ -5314,6 +5342,7 @@ PDC_Server_data_read_from(uint64_t obj_id, struct pdc_region_info *region_info,
 #endif
 
 done:
+    pthread_mutex_unlock(&dataserver_region_mutex_g);
     fflush(stdout);
     FUNC_LEAVE(ret_value);
 }
@@ -7801,8 +7830,11 @@ attach_local_storage_region_to_query(pdc_query_t *query)
     if (obj_reg == NULL) {
         printf("==PDC_SERVER[%d]: %s - cannot find region from object!\n", pdc_server_rank_g, __func__);
     }
-    else
+    else {
+        pthread_mutex_lock(&dataserver_region_mutex_g);
         query->constraint->storage_region_list_head = obj_reg->region_storage_head;
+        pthread_mutex_unlock(&dataserver_region_mutex_g);
+    }
 
     return SUCCEED;
 }
diff --git a/src/server/pdc_server_region/pdc_server_region_cache.c b/src/server/pdc_server_region/pdc_server_region_cache.c
index bd97ea0..2278cb9 100644
--- a/src/server/pdc_server_region/pdc_server_region_cache.c
+++ b/src/server/pdc_server_region/pdc_server_region_cache.c
@@ -47,7 +47,6 @@ PDC_region_server_cache_init()
     pdc_recycle_close_flag = 0;
     pthread_mutex_init(&pdc_obj_cache_list_mutex, NULL);
     pthread_mutex_init(&pdc_cache_mutex, NULL);
-    pthread_create(&pdc_recycle_thread, NULL, &PDC_region_cache_clock_cycle, NULL);
     total_cache_size = 0;
 
     p = getenv("PDC_SERVER_CACHE_MAX_SIZE");
@@ -60,6 +59,9 @@ PDC_region_server_cache_init()
 
     obj_cache_list     = NULL;
     obj_cache_list_end = NULL;
+
+    // The thread uses all of the above
+    pthread_create(&pdc_recycle_thread, NULL, &PDC_region_cache_clock_cycle, NULL);
     return 0;
 }
 
@@ -401,6 +403,7 @@ PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dim
 {
     pdc_obj_cache *         obj_cache_iter, *obj_cache = NULL;
     struct pdc_region_info *region_cache_info;
+    size_t                  cache_size;
     if (obj_ndim != ndim && obj_ndim > 0) {
         printf("PDC_region_cache_register reports obj_ndim != ndim, %d != %d\n", obj_ndim, ndim);
         return FAIL;
@@ -472,17 +475,18 @@ PDC_region_cache_register(uint64_t obj_id, int obj_ndim, const uint64_t *obj_dim
     memcpy(region_cache_info->size, size, sizeof(uint64_t) * ndim);
     memcpy(region_cache_info->buf, buf, sizeof(char) * buf_size);
     total_cache_size += buf_size;
+    cache_size = total_cache_size;
     gettimeofday(&(obj_cache->timestamp), NULL);
 
     pthread_mutex_unlock(&pdc_obj_cache_list_mutex);
 
-    if (total_cache_size > maximum_cache_size) {
+    if (cache_size > maximum_cache_size) {
         int server_rank = 0;
 #ifdef ENABLE_MPI
         MPI_Comm_rank(MPI_COMM_WORLD, &server_rank);
 #endif
         printf("==PDC_SERVER[%d]: server cache full %.1f / %.1f MB, will flush to storage\n", server_rank,
-               total_cache_size / 1048576.0, maximum_cache_size / 1048576.0);
+               cache_size / 1048576.0, maximum_cache_size / 1048576.0);
         PDC_region_cache_flush_all();
     }
 
-- 
2.43.0


From 33a620275610fced675d6bf6f7282bfba2b2526a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:04 +0000
Subject: [PATCH 46/60] fix: thread pool: own end flag, wake every waiter,
 failed threads, late unlock, late pause signal

---
 src/commons/utils/thpool.c | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/commons/utils/thpool.c b/src/commons/utils/thpool.c
index 2e3fec4..d844977 100644
--- a/src/commons/utils/thpool.c
+++ b/src/commons/utils/thpool.c
@@ -41,7 +41,6 @@
 #define err(str)
 #endif
 
-static volatile int threads_keepalive;
 static volatile int threads_on_hold;
 
 /* ========================== STRUCTURES ============================ */
@@ -79,6 +78,7 @@ typedef struct thread {
 /* Threadpool */
 typedef struct thpool_ {
     thread **       threads;             /* pointer to threads        */
+    volatile int    threads_keepalive;   /* cleared to end the threads */
     volatile int    num_threads_alive;   /* threads currently alive   */
     volatile int    num_threads_working; /* threads currently working */
     pthread_mutex_t thcount_lock;        /* used for thread count etc */
@@ -112,8 +112,7 @@ struct thpool_ *
 thpool_init(int num_threads)
 {
 
-    threads_on_hold   = 0;
-    threads_keepalive = 1;
+    threads_on_hold = 0;
 
     if (num_threads < 0) {
         num_threads = 0;
@@ -126,6 +125,7 @@ thpool_init(int num_threads)
         err("thpool_init(): Could not allocate memory for thread pool\n");
         return NULL;
     }
+    thpool_p->threads_keepalive   = 1;
     thpool_p->num_threads_alive   = 0;
     thpool_p->num_threads_working = 0;
 
@@ -151,14 +151,20 @@ thpool_init(int num_threads)
     /* Thread init */
     int n;
     for (n = 0; n < num_threads; n++) {
-        thread_init(thpool_p, &thpool_p->threads[n], n);
+        if (thread_init(thpool_p, &thpool_p->threads[n], n) == -1)
+            break;
 #if THPOOL_DEBUG
         printf("THPOOL_DEBUG: Created thread %d in pool \n", n);
 #endif
     }
 
     /* Wait for threads to initialize */
-    while (thpool_p->num_threads_alive != num_threads) {
+    while (thpool_p->num_threads_alive != n) {
+    }
+
+    if (n != num_threads) {
+        thpool_destroy(thpool_p);
+        return NULL;
     }
 
     return thpool_p;
@@ -208,7 +214,7 @@ thpool_destroy(thpool_ *thpool_p)
     volatile int threads_total = thpool_p->num_threads_alive;
 
     /* End each thread 's infinite loop */
-    threads_keepalive = 0;
+    thpool_p->threads_keepalive = 0;
 
     /* Give one second to kill idle threads */
     double TIMEOUT = 1.0;
@@ -227,6 +233,10 @@ thpool_destroy(thpool_ *thpool_p)
         sleep(1);
     }
 
+    /* The last thread may not have released the lock yet */
+    pthread_mutex_lock(&thpool_p->thcount_lock);
+    pthread_mutex_unlock(&thpool_p->thcount_lock);
+
     /* Job queue cleanup */
     jobqueue_destroy(&thpool_p->jobqueue);
     /* Deallocs */
@@ -243,6 +253,7 @@ void
 thpool_pause(thpool_ *thpool_p)
 {
     int n;
+    threads_on_hold = 1;
     for (n = 0; n < thpool_p->num_threads_alive; n++) {
         pthread_kill(thpool_p->threads[n]->pthread, SIGUSR1);
     }
@@ -279,7 +290,7 @@ thread_init(thpool_ *thpool_p, struct thread **thread_p, int id)
 {
 
     *thread_p = (struct thread *)malloc(sizeof(struct thread));
-    if (thread_p == NULL) {
+    if (*thread_p == NULL) {
         err("thread_init(): Could not allocate memory for thread\n");
         return -1;
     }
@@ -287,7 +298,11 @@ thread_init(thpool_ *thpool_p, struct thread **thread_p, int id)
     (*thread_p)->thpool_p = thpool_p;
     (*thread_p)->id       = id;
 
-    pthread_create(&(*thread_p)->pthread, NULL, (void *)thread_do, (*thread_p));
+    if (pthread_create(&(*thread_p)->pthread, NULL, (void *)thread_do, (*thread_p)) != 0) {
+        err("thread_init(): Could not create thread\n");
+        free(*thread_p);
+        return -1;
+    }
     pthread_detach((*thread_p)->pthread);
     return 0;
 }
@@ -297,7 +312,6 @@ static void
 thread_hold(int sig_id)
 {
     (void)sig_id;
-    threads_on_hold = 1;
     while (threads_on_hold) {
         sleep(1);
     }
@@ -345,11 +359,11 @@ thread_do(struct thread *thread_p)
     thpool_p->num_threads_alive += 1;
     pthread_mutex_unlock(&thpool_p->thcount_lock);
 
-    while (threads_keepalive) {
+    while (thpool_p->threads_keepalive) {
 
         bsem_wait(thpool_p->jobqueue.has_jobs);
 
-        if (threads_keepalive) {
+        if (thpool_p->threads_keepalive) {
 
             pthread_mutex_lock(&thpool_p->thcount_lock);
             thpool_p->num_threads_working++;
@@ -369,7 +383,7 @@ thread_do(struct thread *thread_p)
             pthread_mutex_lock(&thpool_p->thcount_lock);
             thpool_p->num_threads_working--;
             if (!thpool_p->num_threads_working) {
-                pthread_cond_signal(&thpool_p->threads_all_idle);
+                pthread_cond_broadcast(&thpool_p->threads_all_idle);
             }
             pthread_mutex_unlock(&thpool_p->thcount_lock);
         }
-- 
2.43.0


From 454bd3fa56a576283742341824525a53b205006a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:37 +0000
Subject: [PATCH 47/60] fix: answer an analysis registration whose function
 cannot be loaded

---
 src/api/pdc_analysis/pdc_analysis_common.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/api/pdc_analysis/pdc_analysis_common.c b/src/api/pdc_analysis/pdc_analysis_common.c
index e04a8d6..e803f83 100644
--- a/src/api/pdc_analysis/pdc_analysis_common.c
+++ b/src/api/pdc_analysis/pdc_analysis_common.c
@@ -459,6 +459,7 @@ HG_TEST_RPC_CB(analysis_ftn, handle)
     void *                                ftnHandle      = NULL;
     int (*ftnPtr)(pdcid_t, pdcid_t)                      = NULL;
     int result;
+    int responded = 0;
 
     FUNC_ENTER(NULL);
 
@@ -466,6 +467,8 @@ HG_TEST_RPC_CB(analysis_ftn, handle)
     // Decode input
     HG_Get_input(handle, &in);
 
+    out.remote_ftn_id = registrationId;
+
     if (PDC_get_ftnPtr_(in.ftn_name, in.loadpath, &ftnHandle) < 0)
         PGOTO_ERROR(FAIL, "PDC_get_ftnPtr_ returned an error!");
 
@@ -511,6 +514,7 @@ HG_TEST_RPC_CB(analysis_ftn, handle)
     }
 
     HG_Respond(handle, NULL, NULL, &out);
+    responded = 1;
 
     /* We NORMALLY don't call the actual function on a simple registration of
      * the analysis. The only time that we do is when BOTH object data iterators
@@ -533,6 +537,8 @@ HG_TEST_RPC_CB(analysis_ftn, handle)
 
 done:
     fflush(stdout);
+    if (!responded)
+        HG_Respond(handle, NULL, NULL, &out);
     HG_Free_input(handle, &in);
     HG_Destroy(handle);
 
-- 
2.43.0


From 32c7fea93a0a7bc8cfac5f0e2ca84803efa867fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:37 +0000
Subject: [PATCH 48/60] fix: do not answer an unmap request twice when the
 metadata server is looked up

---
 src/server/pdc_server_region/pdc_server_data.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 7503f22..2208aab 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -954,7 +954,6 @@ server_send_buf_unmap_addr_rpc_cb(const struct hg_cb_info *callback_info)
     }
 
 done:
-    HG_Respond(tranx_args->handle, NULL, NULL, &out);
     HG_Free_input(tranx_args->handle, &(tranx_args->in));
     HG_Destroy(tranx_args->handle);
     HG_Free_output(handle, &out);
-- 
2.43.0


From bf2b7b7b1ff0d5ee9f66c98463cb5b2b719bd7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:37 +0000
Subject: [PATCH 49/60] fix: answer every request exactly once and give its
 handle back on failure paths

---
 src/server/pdc_client_server_common.c | 160 ++++++++++++++++++--------
 1 file changed, 111 insertions(+), 49 deletions(-)

diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index 7493c77..b1a7c1f 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -1600,12 +1600,12 @@ HG_TEST_RPC_CB(gen_cont_id, handle)
     if (ret_value != SUCCEED)
         PGOTO_ERROR(ret_value, "==PDC_SERVER: error with container object creation");
 
+done:
+    fflush(stdout);
     HG_Respond(handle, NULL, NULL, &out);
     HG_Free_input(handle, &in);
     HG_Destroy(handle);
 
-done:
-    fflush(stdout);
     FUNC_LEAVE(ret_value);
 }
 
@@ -2037,7 +2037,11 @@ HG_TEST_RPC_CB(flush_obj_all, handle)
     HG_Get_input(handle, &in);
 
     if (in.tag != 44) {
-        PGOTO_ERROR(ret_value, "==PDC_SERVER[x]: Error with input tag");
+        out.ret = 0;
+        HG_Respond(handle, NULL, NULL, &out);
+        HG_Free_input(handle, &in);
+        HG_Destroy(handle);
+        PGOTO_ERROR(HG_OTHER_ERROR, "==PDC_SERVER[x]: Error with input tag");
     }
 
     ret_value = HG_Free_input(handle, &in);
@@ -2305,10 +2309,12 @@ transform_and_region_release_bulk_transfer_cb(const struct hg_cb_info *hg_cb_inf
 
     if (hg_cb_info->ret == HG_CANCELED) {
         out.ret = 0;
+        HG_Respond(bulk_args->handle, NULL, NULL, &out);
         PGOTO_ERROR(HG_OTHER_ERROR, "HG_Bulk_transfer() was successfully canceled");
     }
     else if (hg_cb_info->ret != HG_SUCCESS) {
         out.ret = 0;
+        HG_Respond(bulk_args->handle, NULL, NULL, &out);
         PGOTO_ERROR(HG_PROTOCOL_ERROR, "Error in region_release_bulk_transfer_cb()");
     }
     buf            = (char *)bulk_args->data_buf;
@@ -2486,10 +2492,12 @@ analysis_and_region_release_bulk_transfer_cb(const struct hg_cb_info *hg_cb_info
 
     if (hg_cb_info->ret == HG_CANCELED) {
         out.ret = 0;
+        HG_Respond(bulk_args->handle, NULL, NULL, &out);
         PGOTO_ERROR(HG_OTHER_ERROR, "HG_Bulk_transfer() was successfully canceled\n");
     }
     else if (hg_cb_info->ret != HG_SUCCESS) {
         out.ret = 0;
+        HG_Respond(bulk_args->handle, NULL, NULL, &out);
         PGOTO_ERROR(HG_PROTOCOL_ERROR, "Error in region_release_bulk_transfer_cb()");
     }
 
@@ -2665,10 +2673,12 @@ buf_map_region_release_bulk_transfer_cb(const struct hg_cb_info *hg_cb_info)
 
     if (hg_cb_info->ret == HG_CANCELED) {
         out.ret = 0;
+        HG_Respond(bulk_args->handle, NULL, NULL, &out);
         PGOTO_ERROR(HG_OTHER_ERROR, "HG_Bulk_transfer() was successfully canceled");
     }
     else if (hg_cb_info->ret != HG_SUCCESS) {
         out.ret = 0;
+        HG_Respond(bulk_args->handle, NULL, NULL, &out);
         PGOTO_ERROR(HG_PROTOCOL_ERROR, "Error in region_release_bulk_transfer_cb()");
     }
 
@@ -2754,9 +2764,11 @@ done:
     fflush(stdout);
 
 #ifndef ENABLE_MULTITHREAD
-    free(remote_reg_info->offset);
-    free(remote_reg_info->size);
-    free(remote_reg_info);
+    if (remote_reg_info != NULL) {
+        free(remote_reg_info->offset);
+        free(remote_reg_info->size);
+        free(remote_reg_info);
+    }
 
     HG_Bulk_free(bulk_args->remote_bulk_handle);
     HG_Free_input(bulk_args->handle, &(bulk_args->in));
@@ -2791,10 +2803,12 @@ obj_map_region_release_bulk_transfer_cb(const struct hg_cb_info *hg_cb_info)
 
     if (hg_cb_info->ret == HG_CANCELED) {
         out.ret = 0;
+        HG_Respond(bulk_args->handle, NULL, NULL, &out);
         PGOTO_ERROR(HG_OTHER_ERROR, "HG_Bulk_transfer() was successfully canceled\n");
     }
     else if (hg_cb_info->ret != HG_SUCCESS) {
         out.ret = 0;
+        HG_Respond(bulk_args->handle, NULL, NULL, &out);
         PGOTO_ERROR(HG_PROTOCOL_ERROR, "Error in region_release_bulk_transfer_cb()");
     }
 
@@ -2909,9 +2923,8 @@ HG_TEST_RPC_CB(region_release, handle)
         {
             if (PDC_is_same_region_list(request_region, elt) == 1 && elt->reg_dirty_from_buf == 1 &&
                 hg_atomic_get32(&(elt->buf_map_refcount)) == 0) {
-                dirty_reg = 1;
-                size      = HG_Bulk_get_size(elt->bulk_handle);
-                data_buf  = (void *)calloc(1, size);
+                size     = HG_Bulk_get_size(elt->bulk_handle);
+                data_buf = (void *)calloc(1, size);
                 // data transfer
                 server_region              = (struct pdc_region_info *)malloc(sizeof(struct pdc_region_info));
                 server_region->ndim        = 1;
@@ -2926,12 +2939,16 @@ HG_TEST_RPC_CB(region_release, handle)
                  * tm.tm_sec); */
 
                 ret_value = PDC_Server_data_read_direct(elt->from_obj_id, server_region, data_buf);
-                if (ret_value != SUCCEED)
+                if (ret_value != SUCCEED) {
+                    error = 1;
                     PGOTO_ERROR(HG_OTHER_ERROR, "==PDC SERVER: PDC_Server_data_read_direct() failed");
+                }
                 hg_ret = HG_Bulk_create(hg_info->hg_class, 1, &data_buf, &size, HG_BULK_READWRITE,
                                         &lock_local_bulk_handle);
-                if (hg_ret != HG_SUCCESS)
+                if (hg_ret != HG_SUCCESS) {
+                    error = 1;
                     PGOTO_ERROR(hg_ret, "==PDC SERVER ERROR: Could not create bulk data handle");
+                }
 
                 lock_update_bulk_args = (struct region_lock_update_bulk_args *)malloc(
                     sizeof(struct region_lock_update_bulk_args));
@@ -2946,15 +2963,18 @@ HG_TEST_RPC_CB(region_release, handle)
                 hg_ret = HG_Bulk_transfer(hg_info->context, region_release_update_bulk_transfer_cb,
                                           lock_update_bulk_args, HG_BULK_PUSH, elt->addr, elt->bulk_handle, 0,
                                           lock_local_bulk_handle, 0, size, HG_OP_ID_IGNORE);
-                if (hg_ret != HG_SUCCESS)
+                if (hg_ret != HG_SUCCESS) {
+                    error = 1;
                     PGOTO_ERROR(hg_ret, "==PDC SERVER ERROR: HG_TEST_RPC_CB(region_release, handle) could "
                                         "not write bulk data");
+                }
+                dirty_reg = 1;
+                break;
             }
 
             if (PDC_is_same_region_list(request_region, elt) == 1 && elt->reg_dirty_from_buf == 1 &&
                 hg_atomic_get32(&(elt->buf_map_refcount)) > 0) {
-                dirty_reg = 1;
-                tmp       = (region_list_t *)malloc(sizeof(region_list_t));
+                tmp = (region_list_t *)malloc(sizeof(region_list_t));
                 DL_FOREACH_SAFE(target_obj->region_buf_map_head, eltt2, eltt_tmp)
                 {
                     PDC_region_transfer_t_to_list_t(&(eltt2->remote_region_unit), tmp);
@@ -3133,10 +3153,12 @@ HG_TEST_RPC_CB(region_release, handle)
                                                 "map Could not write bulk data");
                         }
 #endif
+                        dirty_reg = 1;
                         break;
                     }
                 }
                 free(tmp);
+                break;
             }
         }
 #ifdef ENABLE_MULTITHREAD
@@ -3169,8 +3191,7 @@ HG_TEST_RPC_CB(region_release, handle)
         {
             if (PDC_is_same_region_list(request_region, elt) == 1 && elt->reg_dirty_from_buf == 1 &&
                 hg_atomic_get32(&(elt->buf_map_refcount)) > 0) {
-                dirty_reg = 1;
-                tmp       = (region_list_t *)malloc(sizeof(region_list_t));
+                tmp = (region_list_t *)malloc(sizeof(region_list_t));
                 DL_FOREACH(target_obj->region_buf_map_head, eltt)
                 {
                     PDC_region_transfer_t_to_list_t(&(eltt->remote_region_unit), tmp);
@@ -3292,8 +3313,8 @@ HG_TEST_RPC_CB(region_release, handle)
                         if (size != size2) {
                             error = 1;
                             printf("==PDC_SERVER: local size %llu, remote %llu\n", size, size2);
-                            /* PGOTO_ERROR(HG_OTHER_ERROR, "===PDC SERVER: HG_TEST_RPC_CB(region_release,
-                             * handle) local and remote bulk size does not match"); */
+                            PGOTO_ERROR(HG_OTHER_ERROR, "===PDC SERVER: HG_TEST_RPC_CB(region_release, "
+                                                        "handle) local and remote bulk size does not match");
                         }
                         hg_ret = HG_Bulk_transfer(hg_info->context, buf_map_region_release_bulk_transfer_cb,
                                                   buf_map_bulk_args, HG_BULK_PULL, eltt->local_addr,
@@ -3304,6 +3325,7 @@ HG_TEST_RPC_CB(region_release, handle)
                             PGOTO_ERROR(hg_ret, "===PDC SERVER: HG_TEST_RPC_CB(region_release, handle) buf "
                                                 "map Could not read bulk data");
                         }
+                        dirty_reg = 1;
                         break;
                     }
                 }
@@ -3410,8 +3432,7 @@ region_read_transform_release(region_transform_and_lock_in_t *in, hg_handle_t ha
         }
         if ((PDC_is_same_region_list(request_region, elt) == 1) && (elt->reg_dirty_from_buf == 1) &&
             (hg_atomic_get32(&(elt->buf_map_refcount)) > 0)) {
-            dirty_reg = 1;
-            tmp       = (region_list_t *)malloc(sizeof(region_list_t));
+            tmp = (region_list_t *)malloc(sizeof(region_list_t));
             DL_FOREACH(target_obj->region_buf_map_head, eltt2)
             {
                 PDC_region_transfer_t_to_list_t(&(eltt2->remote_region_unit), tmp);
@@ -3509,9 +3530,12 @@ region_read_transform_release(region_transform_and_lock_in_t *in, hg_handle_t ha
                     if (hg_ret != HG_SUCCESS)
                         PGOTO_ERROR(hg_ret, "===PDC SERVER: obj map Could not write bulk data");
 #endif
+                    dirty_reg = 1;
+                    break;
                 }
             }
             free(tmp);
+            break;
         }
     }
 #ifdef ENABLE_MULTITHREAD
@@ -3524,7 +3548,7 @@ done:
         // Perform lock release function
         PDC_Data_Server_region_release((region_lock_in_t *)in, &out);
         HG_Respond(handle, NULL, NULL, &out);
-        HG_Free_input(handle, &in);
+        HG_Free_input(handle, in);
         HG_Destroy(handle);
     }
 
@@ -3577,8 +3601,7 @@ HG_TEST_RPC_CB(transform_region_release, handle)
         {
             if (PDC_is_same_region_list(request_region, elt) == 1 && elt->reg_dirty_from_buf == 1 &&
                 hg_atomic_get32(&(elt->buf_map_refcount)) > 0) {
-                dirty_reg = 1;
-                tmp       = (region_list_t *)malloc(sizeof(region_list_t));
+                tmp = (region_list_t *)malloc(sizeof(region_list_t));
                 DL_FOREACH(target_obj->region_buf_map_head, eltt)
                 {
                     PDC_region_transfer_t_to_list_t(&(eltt->remote_region_unit), tmp);
@@ -3587,8 +3610,10 @@ HG_TEST_RPC_CB(transform_region_release, handle)
                         remote_count = 1;
                         data_ptrs_to = (void **)malloc(sizeof(void *));
                         data_size_to = (size_t *)malloc(sizeof(size_t));
-                        if ((data_buf == NULL) || (data_ptrs_to == NULL) || (data_size_to == NULL))
+                        if ((data_buf == NULL) || (data_ptrs_to == NULL) || (data_size_to == NULL)) {
+                            error = 1;
                             PGOTO_ERROR(HG_OTHER_ERROR, "==PDC SERVER: Memory allocation failed");
+                        }
 
                         *data_ptrs_to = data_buf;
                         *data_size_to = in.transform_data_size;
@@ -3605,6 +3630,7 @@ HG_TEST_RPC_CB(transform_region_release, handle)
                         buf_map_bulk_args = (struct buf_map_transform_and_release_bulk_args *)malloc(
                             sizeof(struct buf_map_transform_and_release_bulk_args));
                         if (buf_map_bulk_args == NULL) {
+                            error = 1;
                             PGOTO_ERROR(HG_OTHER_ERROR, "HG_TEST_RPC_CB(transform_region_release, handle): "
                                                         "buf_map_bulk_args memory allocation failed");
                         }
@@ -3642,9 +3668,12 @@ HG_TEST_RPC_CB(transform_region_release, handle)
                             PGOTO_ERROR(HG_OTHER_ERROR, "===PDC SERVER: HG_TEST_RPC_CB(region_release, "
                                                         "handle) buf map Could not read bulk data");
                         }
+                        dirty_reg = 1;
+                        break;
                     }
                 }
                 free(tmp);
+                break;
             }
         }
 #ifdef ENABLE_MULTITHREAD
@@ -3718,8 +3747,10 @@ HG_TEST_RPC_CB(region_transform_release, handle)
 
     hg_info = HG_Get_info(handle);
 
-    if (in.access_type == PDC_READ)
+    if (in.access_type == PDC_READ) {
+        error = 1;
         PGOTO_ERROR(HG_OTHER_ERROR, "release %" PRId64 " access_type==READ NOT SUPPORTED YET!", in.obj_id);
+    }
 
     // ************************************************************
     // write lock release with mapping case
@@ -3737,8 +3768,7 @@ HG_TEST_RPC_CB(region_transform_release, handle)
         {
             if (PDC_is_same_region_list(request_region, elt) == 1 && elt->reg_dirty_from_buf == 1 &&
                 hg_atomic_get32(&(elt->buf_map_refcount)) > 0) {
-                dirty_reg = 1;
-                tmp       = (region_list_t *)malloc(sizeof(region_list_t));
+                tmp = (region_list_t *)malloc(sizeof(region_list_t));
                 DL_FOREACH(target_obj->region_buf_map_head, eltt)
                 {
                     PDC_region_transfer_t_to_list_t(&(eltt->remote_region_unit), tmp);
@@ -3784,6 +3814,7 @@ HG_TEST_RPC_CB(region_transform_release, handle)
                         buf_map_bulk_args = (struct buf_map_release_bulk_args *)malloc(
                             sizeof(struct buf_map_release_bulk_args));
                         if (buf_map_bulk_args == NULL) {
+                            error = 1;
                             PGOTO_ERROR(HG_OTHER_ERROR, "HG_TEST_RPC_CB(region_release, handle): "
                                                         "buf_map_bulk_args memory allocation failed");
                         }
@@ -3816,9 +3847,12 @@ HG_TEST_RPC_CB(region_transform_release, handle)
                             PGOTO_ERROR(hg_ret, "===PDC SERVER: HG_TEST_RPC_CB(region_release, handle) buf "
                                                 "map Could not read bulk data");
                         }
+                        dirty_reg = 1;
+                        break;
                     }
                 }
                 free(tmp);
+                break;
             }
         }
 #ifdef ENABLE_MULTITHREAD
@@ -3899,9 +3933,8 @@ HG_TEST_RPC_CB(region_analysis_release, handle)
         {
             if (PDC_is_same_region_list(request_region, elt) == 1 && elt->reg_dirty_from_buf == 1 &&
                 hg_atomic_get32(&(elt->buf_map_refcount)) == 0) {
-                dirty_reg = 1;
-                size      = HG_Bulk_get_size(elt->bulk_handle);
-                data_buf  = (void *)calloc(1, size);
+                size     = HG_Bulk_get_size(elt->bulk_handle);
+                data_buf = (void *)calloc(1, size);
                 // data transfer
                 server_region              = (struct pdc_region_info *)malloc(sizeof(struct pdc_region_info));
                 server_region->ndim        = 1;
@@ -3910,12 +3943,16 @@ HG_TEST_RPC_CB(region_analysis_release, handle)
                 (server_region->size)[0]   = size;
                 (server_region->offset)[0] = in.lock_release.region.start_0;
                 ret_value = PDC_Server_data_read_direct(elt->from_obj_id, server_region, data_buf);
-                if (ret_value != SUCCEED)
+                if (ret_value != SUCCEED) {
+                    error = 1;
                     PGOTO_ERROR(HG_OTHER_ERROR, "==PDC SERVER: PDC_Server_data_read_direct() failed");
+                }
                 hg_ret = HG_Bulk_create(hg_info->hg_class, 1, &data_buf, &size, HG_BULK_READWRITE,
                                         &lock_local_bulk_handle);
-                if (hg_ret != HG_SUCCESS)
+                if (hg_ret != HG_SUCCESS) {
+                    error = 1;
                     PGOTO_ERROR(hg_ret, "==PDC SERVER ERROR: Could not create bulk data handle");
+                }
 
                 lock_update_bulk_args = (struct region_lock_update_bulk_args *)malloc(
                     sizeof(struct region_lock_update_bulk_args));
@@ -3930,16 +3967,19 @@ HG_TEST_RPC_CB(region_analysis_release, handle)
                 hg_ret = HG_Bulk_transfer(hg_info->context, region_release_update_bulk_transfer_cb,
                                           lock_update_bulk_args, HG_BULK_PUSH, elt->addr, elt->bulk_handle, 0,
                                           lock_local_bulk_handle, 0, size, HG_OP_ID_IGNORE);
-                if (hg_ret != HG_SUCCESS)
+                if (hg_ret != HG_SUCCESS) {
+                    error = 1;
                     PGOTO_ERROR(
                         hg_ret,
                         "==PDC SERVER ERROR: region_release_bulk_transfer_cb() could not write bulk data");
+                }
+                dirty_reg = 1;
+                break;
             }
 
             if (PDC_is_same_region_list(request_region, elt) == 1 && elt->reg_dirty_from_buf == 1 &&
                 hg_atomic_get32(&(elt->buf_map_refcount)) > 0) {
-                dirty_reg = 1;
-                tmp       = (region_list_t *)malloc(sizeof(region_list_t));
+                tmp = (region_list_t *)malloc(sizeof(region_list_t));
                 DL_FOREACH(target_obj->region_buf_map_head, eltt2)
                 {
                     PDC_region_transfer_t_to_list_t(&(eltt2->remote_region_unit), tmp);
@@ -4041,9 +4081,12 @@ HG_TEST_RPC_CB(region_analysis_release, handle)
                                                 "map Could not write bulk data");
                         }
 #endif
+                        dirty_reg = 1;
+                        break;
                     }
                 }
                 free(tmp);
+                break;
             }
         }
 #ifdef ENABLE_MULTITHREAD
@@ -4072,8 +4115,7 @@ HG_TEST_RPC_CB(region_analysis_release, handle)
         DL_FOREACH(lock_obj->region_lock_head, elt)
         {
             if (PDC_is_same_region_list(request_region, elt) == 1 && elt->obj_id == in.analysis.obj_id) {
-                dirty_reg = 1;
-                tmp       = (region_list_t *)malloc(sizeof(region_list_t));
+                tmp = (region_list_t *)malloc(sizeof(region_list_t));
                 DL_FOREACH(target_obj->region_buf_map_head, eltt)
                 {
                     PDC_region_transfer_t_to_list_t(&(eltt->remote_region_unit), tmp);
@@ -4148,9 +4190,11 @@ HG_TEST_RPC_CB(region_analysis_release, handle)
 
                         buf_map_bulk_args = (struct buf_map_analysis_and_release_bulk_args *)malloc(
                             sizeof(struct buf_map_analysis_and_release_bulk_args));
-                        if (buf_map_bulk_args == NULL)
+                        if (buf_map_bulk_args == NULL) {
+                            error = 1;
                             PGOTO_ERROR(HG_OTHER_ERROR, "HG_TEST_RPC_CB(region_release, handle): "
                                                         "buf_map_bulk_args memory allocation failed");
+                        }
 
                         // memset(buf_map_bulk_args, 0, sizeof(struct buf_map_release_bulk_args));
                         memset(buf_map_bulk_args, 0, sizeof(struct buf_map_analysis_and_release_bulk_args));
@@ -4184,9 +4228,12 @@ HG_TEST_RPC_CB(region_analysis_release, handle)
                             PGOTO_ERROR(hg_ret, "===PDC SERVER: HG_TEST_RPC_CB(region_release, handle) buf "
                                                 "map Could not read bulk data");
                         }
+                        dirty_reg = 1;
+                        break;
                     }
                 }
                 free(tmp);
+                break;
             }
         }
 #ifdef ENABLE_MULTITHREAD
@@ -4281,13 +4328,12 @@ HG_TEST_RPC_CB(buf_unmap, handle)
     ret = PDC_Data_Server_buf_unmap(info, &in);
     if (ret != SUCCEED) {
         out.ret = 0;
-        PGOTO_ERROR(
-            HG_OTHER_ERROR,
-            "===PDC_DATA_SERVER: HG_TEST_RPC_CB(buf_unmap, handle) - PDC_Data_Server_buf_unmap() failed");
-        fflush(stdout);
         HG_Respond(handle, NULL, NULL, &out);
         HG_Free_input(handle, &in);
         HG_Destroy(handle);
+        PGOTO_ERROR(
+            HG_OTHER_ERROR,
+            "===PDC_DATA_SERVER: HG_TEST_RPC_CB(buf_unmap, handle) - PDC_Data_Server_buf_unmap() failed");
     }
     else {
         out.ret = 1;
@@ -4469,6 +4515,7 @@ HG_TEST_RPC_CB(buf_map, handle)
     region_buf_map_t *    new_buf_map_ptr = NULL;
     void *                data_ptr;
     size_t                ndim;
+    int                   error = 0;
 #ifdef PDC_TIMING
     double start, end;
 #endif
@@ -4498,11 +4545,11 @@ HG_TEST_RPC_CB(buf_map, handle)
                                   in.remote_region_nounit.count_2 * in.remote_region_nounit.count_3 *
                                   in.remote_unit);
     else {
-        out.ret = 0;
+        error = 1;
         PGOTO_ERROR(HG_OTHER_ERROR, "===PDC Data Server: object dim is not supported");
     }
     if (data_ptr == NULL) {
-        out.ret = 0;
+        error = 1;
         PGOTO_ERROR(HG_OTHER_ERROR, "===PDC Data Server: object memory allocation failed");
     }
 
@@ -4513,7 +4560,7 @@ HG_TEST_RPC_CB(buf_map, handle)
     new_buf_map_ptr = PDC_Data_Server_buf_map(info, &in, request_region, data_ptr);
 
     if (new_buf_map_ptr == NULL) {
-        out.ret = 1;
+        out.ret = 0;
         free(data_ptr);
         HG_Respond(handle, NULL, NULL, &out);
         HG_Free_input(handle, &in);
@@ -4533,6 +4580,12 @@ HG_TEST_RPC_CB(buf_map, handle)
 #endif
 done:
     fflush(stdout);
+    if (error == 1) {
+        out.ret = 0;
+        HG_Respond(handle, NULL, NULL, &out);
+        HG_Free_input(handle, &in);
+        HG_Destroy(handle);
+    }
     FUNC_LEAVE(ret_value);
 }
 
@@ -4991,6 +5044,8 @@ HG_TEST_RPC_CB(update_region_loc, handle)
                     in.obj_id);
     }
 
+done:
+    fflush(stdout);
     /* HG_Respond(handle, NULL, NULL, &out); */
     HG_Respond(handle, NULL, NULL, &out);
 
@@ -4999,8 +5054,6 @@ HG_TEST_RPC_CB(update_region_loc, handle)
 
     free(input_region);
 
-done:
-    fflush(stdout);
     FUNC_LEAVE(ret_value);
 }
 
@@ -6351,6 +6404,7 @@ HG_TEST_RPC_CB(send_bulk_rpc, handle)
     hg_bulk_t             local_bulk_handle  = HG_BULK_NULL;
     struct bulk_args_t *  bulk_arg           = NULL;
     bulk_rpc_in_t         in_struct;
+    pdc_int_ret_t         out;
     hg_return_t (*func_ptr)(const struct hg_cb_info *hg_cb_info);
     struct hg_cb_info callback_info;
 
@@ -6386,8 +6440,14 @@ HG_TEST_RPC_CB(send_bulk_rpc, handle)
     else if (in_struct.op_id == PDC_BULK_QUERY_METADATA) {
         func_ptr = &PDC_recv_query_metadata_bulk;
     }
-    else
+    else {
+        out.ret = -1;
+        HG_Respond(handle, NULL, NULL, &out);
+        HG_Free_input(handle, &in_struct);
+        HG_Destroy(handle);
+        free(bulk_arg);
         PGOTO_ERROR(HG_OTHER_ERROR, "== Invalid bulk op ID!");
+    }
 
     if (in_struct.cnt > 0) {
         bulk_arg->nbytes = HG_Bulk_get_size(origin_bulk_handle);
@@ -6398,10 +6458,13 @@ HG_TEST_RPC_CB(send_bulk_rpc, handle)
         ret_value =
             HG_Bulk_transfer(hg_info->context, func_ptr, bulk_arg, HG_BULK_PULL, hg_info->addr,
                              origin_bulk_handle, 0, local_bulk_handle, 0, bulk_arg->nbytes, HG_OP_ID_IGNORE);
+        HG_Free_input(handle, &in_struct);
         if (ret_value != HG_SUCCESS)
             PGOTO_ERROR(ret_value, "Could not read bulk data");
     }
     else {
+        // the callback gives the handle back
+        HG_Free_input(handle, &in_struct);
         callback_info.arg = bulk_arg;
         callback_info.ret = HG_SUCCESS;
         func_ptr(&callback_info);
@@ -6409,7 +6472,6 @@ HG_TEST_RPC_CB(send_bulk_rpc, handle)
 
 done:
     fflush(stdout);
-    HG_Free_input(handle, &in_struct);
 
     FUNC_LEAVE(ret_value);
 }
-- 
2.43.0


From 16ba9be6dc50d5930231f6ef04ea849395398b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:08 +0000
Subject: [PATCH 50/60] fix: client calls destroyed a handle they had not
 created yet

---
 src/api/pdc_client_connect.c | 44 ++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 124d0fa..1da32f4 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -1998,7 +1998,7 @@ PDC_Client_add_tag(pdcid_t obj_id, const char *tag)
 {
     perr_t                         ret_value = SUCCEED;
     hg_return_t                    hg_ret    = 0;
-    hg_handle_t                    metadata_add_tag_handle;
+    hg_handle_t                    metadata_add_tag_handle = HG_HANDLE_NULL;
     uint64_t                       meta_id;
     uint32_t                       server_id;
     struct _pdc_obj_info *         obj_prop;
@@ -2090,7 +2090,7 @@ PDC_Client_update_metadata(pdc_metadata_t *old, pdc_metadata_t *new)
     uint32_t                       server_id = 0;
     metadata_update_in_t           in;
     struct _pdc_client_lookup_args lookup_args;
-    hg_handle_t                    metadata_update_handle;
+    hg_handle_t                    metadata_update_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
@@ -2179,7 +2179,7 @@ PDC_Client_delete_metadata_by_id(uint64_t obj_id)
     metadata_delete_by_id_in_t     in;
     uint32_t                       server_id;
     struct _pdc_client_lookup_args lookup_args;
-    hg_handle_t                    metadata_delete_by_id_handle;
+    hg_handle_t                    metadata_delete_by_id_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
@@ -2229,7 +2229,7 @@ PDC_Client_delete_metadata(char *delete_name, pdcid_t obj_delete_prop)
     int                            hash_name_value;
     uint32_t                       server_id;
     struct _pdc_client_lookup_args lookup_args;
-    hg_handle_t                    metadata_delete_handle;
+    hg_handle_t                    metadata_delete_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
@@ -2350,7 +2350,7 @@ PDC_Client_query_metadata_name_timestep(const char *obj_name, int time_step, pdc
     uint32_t                        server_id;
     metadata_query_in_t             in;
     struct _pdc_metadata_query_args lookup_args;
-    hg_handle_t                     metadata_query_handle;
+    hg_handle_t                     metadata_query_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
@@ -2474,7 +2474,7 @@ PDC_Client_create_cont_id(const char *cont_name, pdcid_t cont_create_prop ATTRIB
     gen_cont_id_in_t               in;
     uint32_t                       hash_name_value;
     struct _pdc_client_lookup_args lookup_args;
-    hg_handle_t                    rpc_handle;
+    hg_handle_t                    rpc_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
@@ -2563,7 +2563,7 @@ PDC_Client_obj_reset_dims(const char *obj_name, int time_step, int ndim, uint64_
     uint32_t                        server_id;
     obj_reset_dims_in_t             in;
     struct _pdc_obj_reset_dims_args lookup_args;
-    hg_handle_t                     obj_reset_dims_handle;
+    hg_handle_t                     obj_reset_dims_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
@@ -2632,7 +2632,7 @@ PDC_Client_send_name_recv_id(const char *obj_name, uint64_t cont_id, pdcid_t obj
     gen_obj_id_in_t                in;
     uint32_t                       hash_name_value;
     struct _pdc_client_lookup_args lookup_args;
-    hg_handle_t                    rpc_handle;
+    hg_handle_t                    rpc_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
@@ -2840,7 +2840,7 @@ PDC_Client_buf_unmap(pdcid_t remote_obj_id, pdcid_t remote_reg_id, struct pdc_re
     uint32_t                 data_server_id, meta_server_id;
     struct _pdc_buf_map_args unmap_args;
 
-    hg_handle_t client_send_buf_unmap_handle;
+    hg_handle_t client_send_buf_unmap_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 #ifdef PDC_TIMING
@@ -3575,7 +3575,7 @@ PDC_Client_buf_map(pdcid_t local_region_id, pdcid_t remote_obj_id, size_t ndim,
     size_t *                 data_size = NULL;
     size_t                   unit, unit_to;
     struct _pdc_buf_map_args map_args;
-    hg_handle_t              client_send_buf_map_handle;
+    hg_handle_t              client_send_buf_map_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 #ifdef PDC_TIMING
@@ -3737,7 +3737,7 @@ PDC_Client_region_lock(pdcid_t remote_obj_id, struct _pdc_obj_info *object_info,
     uint32_t                     server_id, meta_server_id;
     region_lock_in_t             in;
     struct _pdc_region_lock_args lookup_args;
-    hg_handle_t                  region_lock_handle;
+    hg_handle_t                  region_lock_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 #ifdef PDC_TIMING
@@ -4752,7 +4752,7 @@ PDC_Client_data_server_read(struct pdc_request *request)
     hg_return_t                    hg_ret;
     struct _pdc_client_lookup_args lookup_args;
     data_server_read_in_t          in;
-    hg_handle_t                    data_server_read_handle;
+    hg_handle_t                    data_server_read_handle = HG_HANDLE_NULL;
     int                            server_id, n_client, n_update;
     pdc_metadata_t *               meta;
     struct pdc_region_info *       region;
@@ -4885,7 +4885,7 @@ PDC_Client_data_server_write_check(struct pdc_request *request, int *status)
     hg_return_t                    hg_ret;
     struct _pdc_client_lookup_args lookup_args;
     data_server_write_check_in_t   in;
-    hg_handle_t                    data_server_write_check_handle;
+    hg_handle_t                    data_server_write_check_handle = HG_HANDLE_NULL;
     int                            server_id;
     pdc_metadata_t *               meta;
     struct pdc_region_info *       region;
@@ -5561,7 +5561,7 @@ PDC_Client_add_tags_to_container(pdcid_t cont_id, char *tags)
 {
     perr_t                 ret_value = SUCCEED;
     hg_return_t            hg_ret    = HG_SUCCESS;
-    hg_handle_t            rpc_handle;
+    hg_handle_t            rpc_handle = HG_HANDLE_NULL;
     uint32_t               server_id;
     struct _pdc_id_info *  info;
     struct _pdc_cont_info *object;
@@ -5648,7 +5648,7 @@ PDC_Client_query_container_name(const char *cont_name, uint64_t *cont_meta_id)
     uint32_t                         hash_name_value, server_id;
     container_query_in_t             in;
     struct _pdc_container_query_args lookup_args;
-    hg_handle_t                      container_query_handle;
+    hg_handle_t                      container_query_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
@@ -6010,7 +6010,7 @@ PDC_Client_server_checkpoint(uint32_t server_id)
     hg_return_t                    hg_ret;
     pdc_int_send_t                 in;
     struct _pdc_client_lookup_args lookup_args;
-    hg_handle_t                    rpc_handle;
+    hg_handle_t                    rpc_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
@@ -6102,7 +6102,7 @@ PDC_Client_send_client_shm_info(uint32_t server_id, char *shm_addr, uint64_t siz
     hg_return_t                    hg_ret;
     send_shm_in_t                  in;
     struct _pdc_client_lookup_args lookup_args;
-    hg_handle_t                    rpc_handle;
+    hg_handle_t                    rpc_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
@@ -7080,7 +7080,7 @@ PDC_add_kvtag(pdcid_t obj_id, pdc_kvtag_t *kvtag, int is_cont)
     hg_return_t                    hg_ret    = 0;
     uint64_t                       meta_id;
     uint32_t                       server_id;
-    hg_handle_t                    metadata_add_kvtag_handle;
+    hg_handle_t                    metadata_add_kvtag_handle = HG_HANDLE_NULL;
     metadata_add_kvtag_in_t        in;
     struct _pdc_obj_info *         obj_prop;
     struct _pdc_cont_info *        cont_prop;
@@ -7192,7 +7192,7 @@ PDC_get_kvtag(pdcid_t obj_id, char *tag_name, pdc_kvtag_t **kvtag, int is_cont)
     hg_return_t                hg_ret    = 0;
     uint64_t                   meta_id;
     uint32_t                   server_id;
-    hg_handle_t                metadata_get_kvtag_handle;
+    hg_handle_t                metadata_get_kvtag_handle = HG_HANDLE_NULL;
     metadata_get_kvtag_in_t    in;
     struct _pdc_get_kvtag_args lookup_args;
     struct _pdc_obj_info *     obj_prop;
@@ -7501,7 +7501,7 @@ PDCtag_delete(pdcid_t obj_id, char *tag_name, int is_cont)
     hg_return_t                    hg_ret    = 0;
     uint64_t                       meta_id;
     uint32_t                       server_id;
-    hg_handle_t                    metadata_del_kvtag_handle;
+    hg_handle_t                    metadata_del_kvtag_handle = HG_HANDLE_NULL;
     metadata_get_kvtag_in_t        in;
     struct _pdc_obj_info *         obj_prop;
     struct _pdc_cont_info *        cont_prop;
@@ -8200,7 +8200,7 @@ PDC_Client_get_sel_data(pdcid_t obj_id, pdc_selection_t *sel, void *data)
 {
     perr_t                         ret_value = SUCCEED;
     hg_return_t                    hg_ret;
-    hg_handle_t                    handle;
+    hg_handle_t                    handle = HG_HANDLE_NULL;
     int                            i;
     uint32_t                       server_id;
     uint64_t                       meta_id, off;
@@ -8462,7 +8462,7 @@ dart_retrieve_server_info_cb(uint32_t serverId)
     }
 
     // Mercury comm here.
-    hg_handle_t dart_get_server_info_handle;
+    hg_handle_t dart_get_server_info_handle = HG_HANDLE_NULL;
     HG_Create(send_context_g, pdc_server_info_g[serverId].addr, dart_get_server_info_g,
               &dart_get_server_info_handle);
     dart_get_server_info_in_t in;
-- 
2.43.0


From 043a321a7ca8faa43c1350c605ecd4355127347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:08 +0000
Subject: [PATCH 51/60] fix: analysis and transform registration used a counter
 and a context of their own that were never set

---
 .../pdc_analysis_and_transforms_connect.c     | 56 ++++++++++---------
 src/api/pdc_client_connect.c                  |  4 +-
 2 files changed, 31 insertions(+), 29 deletions(-)

diff --git a/src/api/pdc_analysis/pdc_analysis_and_transforms_connect.c b/src/api/pdc_analysis/pdc_analysis_and_transforms_connect.c
index cde180a..18c6006 100644
--- a/src/api/pdc_analysis/pdc_analysis_and_transforms_connect.c
+++ b/src/api/pdc_analysis/pdc_analysis_and_transforms_connect.c
@@ -27,8 +27,9 @@
 #include "pdc_analysis_pkg.h"
 #include "pdc_transforms_common.h"
 
-static hg_context_t *     send_context_g     = NULL;
-static hg_atomic_int32_t *atomic_work_todo_g = NULL;
+// Shared with the other client calls (pdc_client_connect.c)
+extern hg_context_t *    send_context_g;
+extern hg_atomic_int32_t atomic_work_todo_g;
 
 /* Forward References:: */
 // Analysis and Transformations
@@ -59,9 +60,6 @@ PDC_Client_send_iter_recv_id(pdcid_t iter_id, pdcid_t *meta_id)
     struct _pdc_obj_info *     object_info;
 
     FUNC_ENTER(NULL);
-    if (atomic_work_todo_g == NULL) {
-        hg_atomic_init32(atomic_work_todo_g, 0);
-    }
 
     my_rpc_state_p = (struct _pdc_my_rpc_state *)calloc(1, sizeof(struct _pdc_my_rpc_state));
     if (my_rpc_state_p == NULL)
@@ -117,7 +115,7 @@ PDC_Client_send_iter_recv_id(pdcid_t iter_id, pdcid_t *meta_id)
     if (hg_ret != HG_SUCCESS)
         PGOTO_ERROR(FAIL, "PDC_client_send_iter_recv_id(): Could not start HG_Forward()");
 
-    hg_atomic_incr32(atomic_work_todo_g);
+    hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
 
     if (my_rpc_state_p->value == 0) {
@@ -129,8 +127,10 @@ PDC_Client_send_iter_recv_id(pdcid_t iter_id, pdcid_t *meta_id)
 
 done:
     fflush(stdout);
-    HG_Destroy(my_rpc_state_p->handle);
-    free(my_rpc_state_p);
+    if (my_rpc_state_p != NULL) {
+        HG_Destroy(my_rpc_state_p->handle);
+        free(my_rpc_state_p);
+    }
 
     FUNC_LEAVE(ret_value);
 }
@@ -157,7 +157,7 @@ client_register_iterator_rpc_cb(const struct hg_cb_info *info)
 
 done:
     fflush(stdout);
-    hg_atomic_decr32(atomic_work_todo_g);
+    hg_atomic_decr32(&atomic_work_todo_g);
     HG_Free_output(info->info.forward.handle, &output);
 
     FUNC_LEAVE(ret_value);
@@ -179,9 +179,6 @@ PDC_Client_register_obj_analysis(struct _pdc_region_analysis_ftn_info *thisFtn,
     struct _pdc_obj_info *     obj_prop;
 
     FUNC_ENTER(NULL);
-    if (atomic_work_todo_g == NULL) {
-        hg_atomic_init32(atomic_work_todo_g, 0);
-    }
 
     my_rpc_state_p = (struct _pdc_my_rpc_state *)calloc(1, sizeof(struct _pdc_my_rpc_state));
     if (my_rpc_state_p == NULL)
@@ -236,11 +233,12 @@ PDC_Client_register_obj_analysis(struct _pdc_region_analysis_ftn_info *thisFtn,
     // client_test_connect_lookup_cb
     HG_Create(send_context_g, pdc_server_info_g[server_id].addr, analysis_ftn_register_id_g,
               &my_rpc_state_p->handle);
-    hg_ret = HG_Forward(my_rpc_state_p->handle, client_register_analysis_rpc_cb, my_rpc_state_p, &in);
+    my_rpc_state_p->value = -1;
+    hg_ret                = HG_Forward(my_rpc_state_p->handle, client_register_analysis_rpc_cb, my_rpc_state_p, &in);
     if (hg_ret != HG_SUCCESS)
         PGOTO_ERROR(FAIL, "PDC_Client_register_obj_analysis(): Could not start HG_Forward()");
 
-    hg_atomic_incr32(atomic_work_todo_g);
+    hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
 
     if (my_rpc_state_p->value < 0) {
@@ -251,8 +249,10 @@ PDC_Client_register_obj_analysis(struct _pdc_region_analysis_ftn_info *thisFtn,
 
 done:
     fflush(stdout);
-    HG_Destroy(my_rpc_state_p->handle);
-    free(my_rpc_state_p);
+    if (my_rpc_state_p != NULL) {
+        HG_Destroy(my_rpc_state_p->handle);
+        free(my_rpc_state_p);
+    }
 
     FUNC_LEAVE(ret_value);
 }
@@ -279,7 +279,7 @@ client_register_analysis_rpc_cb(const struct hg_cb_info *info)
 
 done:
     fflush(stdout);
-    hg_atomic_decr32(atomic_work_todo_g);
+    hg_atomic_decr32(&atomic_work_todo_g);
     HG_Free_output(info->info.forward.handle, &output);
 
     FUNC_LEAVE(ret_value);
@@ -299,9 +299,6 @@ PDC_Client_register_region_transform(const char *func, const char *loadpath,
     struct _pdc_my_rpc_state *my_rpc_state_p;
 
     FUNC_ENTER(NULL);
-    if (atomic_work_todo_g == NULL) {
-        hg_atomic_init32(atomic_work_todo_g, 0);
-    }
 
     my_rpc_state_p = (struct _pdc_my_rpc_state *)calloc(1, sizeof(struct _pdc_my_rpc_state));
     if (my_rpc_state_p == NULL)
@@ -330,11 +327,12 @@ PDC_Client_register_region_transform(const char *func, const char *loadpath,
     // client_test_connect_lookup_cb
     HG_Create(send_context_g, pdc_server_info_g[server_id].addr, transform_ftn_register_id_g,
               &my_rpc_state_p->handle);
-    hg_ret = HG_Forward(my_rpc_state_p->handle, client_register_transform_rpc_cb, my_rpc_state_p, &in);
+    my_rpc_state_p->value = -1;
+    hg_ret                = HG_Forward(my_rpc_state_p->handle, client_register_transform_rpc_cb, my_rpc_state_p, &in);
     if (hg_ret != HG_SUCCESS)
         PGOTO_ERROR(FAIL, "Could not start HG_Forward()");
 
-    hg_atomic_incr32(atomic_work_todo_g);
+    hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
 
     if (my_rpc_state_p->value < 0) {
@@ -346,8 +344,10 @@ done:
     fflush(stdout);
     if (object_info)
         PDC_free_obj_info(object_info);
-    HG_Destroy(my_rpc_state_p->handle);
-    free(my_rpc_state_p);
+    if (my_rpc_state_p != NULL) {
+        HG_Destroy(my_rpc_state_p->handle);
+        free(my_rpc_state_p);
+    }
 
     FUNC_LEAVE(ret_value);
 }
@@ -357,8 +357,9 @@ done:
 static hg_return_t
 client_register_transform_rpc_cb(const struct hg_cb_info *info)
 {
-    hg_return_t         ret_value = HG_SUCCESS;
-    transform_ftn_out_t output;
+    hg_return_t               ret_value      = HG_SUCCESS;
+    struct _pdc_my_rpc_state *my_rpc_state_p = info->arg;
+    transform_ftn_out_t       output;
 
     FUNC_ENTER(NULL);
 
@@ -367,12 +368,13 @@ client_register_transform_rpc_cb(const struct hg_cb_info *info)
         if (ret_value != HG_SUCCESS)
             PGOTO_ERROR(ret_value, "PDC_CLIENT: Unable to read the server return values");
 
+        my_rpc_state_p->value = output.ret;
         PDC_update_transform_server_meta_index(output.client_index, output.ret);
     }
 
 done:
     fflush(stdout);
-    hg_atomic_decr32(atomic_work_todo_g);
+    hg_atomic_decr32(&atomic_work_todo_g);
     HG_Free_output(info->info.forward.handle, &output);
 
     FUNC_LEAVE(ret_value);
diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 1da32f4..8d2ef3b 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -108,13 +108,13 @@ double read_bb_size_g = 0.0;
 
 static int           mercury_has_init_g = 0;
 static hg_class_t *  send_class_g       = NULL;
-static hg_context_t *send_context_g     = NULL;
+hg_context_t *       send_context_g     = NULL;
 int                  query_id_g         = 0;
 
 // flags for RPC request and Bulk transfer.
 // When a work is put in the queue, increase todo_g by 1
 // When a work is done and popped from the queue, decrease (todo_g) by 1.
-static hg_atomic_int32_t atomic_work_todo_g;
+hg_atomic_int32_t        atomic_work_todo_g;
 hg_atomic_int32_t        bulk_todo_g;
 // When a work is initialized, set done_g flag to 0.
 // When a work is done, set done_g flag to 1 using atomic cas operation.
-- 
2.43.0


From 19f256fdea64a29a7ecc5c1d09dbfd2a0159387f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:08 +0000
Subject: [PATCH 52/60] fix: client waits: counts, undecoded answers,
 unreported failures, handles given back once

---
 src/api/include/pdc_client_connect.h          |   2 +
 src/api/pdc_client_connect.c                  | 311 ++++++++++++------
 src/server/include/pdc_client_server_common.h |   1 +
 3 files changed, 210 insertions(+), 104 deletions(-)

diff --git a/src/api/include/pdc_client_connect.h b/src/api/include/pdc_client_connect.h
index acf8fa7..634e44d 100644
--- a/src/api/include/pdc_client_connect.h
+++ b/src/api/include/pdc_client_connect.h
@@ -85,10 +85,12 @@ struct _pdc_client_transform_args {
 
 struct _pdc_metadata_query_args {
     pdc_metadata_t *data;
+    int32_t         ret;
 };
 
 struct _pdc_container_query_args {
     uint64_t cont_id;
+    int32_t  ret;
 };
 
 struct _pdc_obj_reset_dims_args {
diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 8d2ef3b..9ddaab3 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -234,8 +234,11 @@ pdc_client_check_int_ret_cb(const struct hg_cb_info *callback_info)
     lookup_args = (struct _pdc_client_lookup_args *)callback_info->arg;
 
     ret_value = HG_Get_output(handle, &output);
-    if (ret_value != HG_SUCCESS)
+    if (ret_value != HG_SUCCESS) {
+        if (lookup_args != NULL)
+            lookup_args->ret = -1;
         PGOTO_ERROR(ret_value, "==Error with HG_Get_output");
+    }
 
     if (output.ret != 1)
         printf("==%s() - Return value [%d] is NOT expected\n", __func__, output.ret);
@@ -375,12 +378,13 @@ client_send_flush_obj_all_rpc_cb(const struct hg_cb_info *callback_info)
     handle     = callback_info->info.forward.handle;
     rpc_return = (int *)callback_info->arg;
 
+    *rpc_return = -1;
     ret_value   = HG_Get_output(handle, &output);
-    *rpc_return = output.ret;
     if (ret_value != HG_SUCCESS) {
         printf("PDC_CLIENT[%d]: flush_obj_all_rpc_cb error with HG_Get_output\n", pdc_client_mpi_rank_g);
         goto done;
     }
+    *rpc_return = output.ret;
 
 done:
     // printf("client close RPC is finished here, return value = %d\n", output.ret);
@@ -432,12 +436,13 @@ client_send_flush_obj_rpc_cb(const struct hg_cb_info *callback_info)
     handle     = callback_info->info.forward.handle;
     rpc_return = (int *)callback_info->arg;
 
+    *rpc_return = -1;
     ret_value   = HG_Get_output(handle, &output);
-    *rpc_return = output.ret;
     if (ret_value != HG_SUCCESS) {
         printf("PDC_CLIENT[%d]: flush_obj_rpc_cb error with HG_Get_output\n", pdc_client_mpi_rank_g);
         goto done;
     }
+    *rpc_return = output.ret;
 
 done:
     // printf("client close RPC is finished here, return value = %d\n", output.ret);
@@ -461,12 +466,13 @@ client_send_close_all_server_rpc_cb(const struct hg_cb_info *callback_info)
     handle     = callback_info->info.forward.handle;
     rpc_return = (int *)callback_info->arg;
 
+    *rpc_return = -1;
     ret_value   = HG_Get_output(handle, &output);
-    *rpc_return = output.ret;
     if (ret_value != HG_SUCCESS || output.ret != 88) {
         printf("PDC_CLIENT[%d]: close_all_server_rpc_cb error with HG_Get_output\n", pdc_client_mpi_rank_g);
         goto done;
     }
+    *rpc_return = output.ret;
 
 done:
     // printf("client close RPC is finished here, return value = %d\n", output.ret);
@@ -800,13 +806,18 @@ client_test_connect_lookup_cb(const struct hg_cb_info *callback_info)
     uint32_t                        server_id;
     struct _pdc_client_lookup_args *client_lookup_args;
     client_test_connect_in_t        in;
-    hg_handle_t                     client_test_handle;
+    hg_handle_t                     client_test_handle = HG_HANDLE_NULL;
 
     FUNC_ENTER(NULL);
 
     client_lookup_args = (struct _pdc_client_lookup_args *)callback_info->arg;
     server_id          = client_lookup_args->server_id;
 
+    // The connection is made when the server has answered
+    client_lookup_args->ret = -1;
+    if (callback_info->ret != HG_SUCCESS)
+        PGOTO_ERROR(callback_info->ret, "Could not look up the address of server %u", server_id);
+
     pdc_server_info_g[server_id].addr       = callback_info->info.lookup.addr;
     pdc_server_info_g[server_id].addr_valid = 1;
 
@@ -825,6 +836,10 @@ client_test_connect_lookup_cb(const struct hg_cb_info *callback_info)
 
 done:
     fflush(stdout);
+    if (ret_value != HG_SUCCESS) {
+        HG_Destroy(client_test_handle);
+        hg_atomic_decr32(&atomic_work_todo_g);
+    }
     FUNC_LEAVE(ret_value);
 }
 
@@ -868,6 +883,11 @@ PDC_Client_lookup_server(int server_id, int is_init)
     hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
 
+    if (lookup_args.ret < 0) {
+        pdc_server_info_g[server_id].addr_valid = 0;
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: no answer from server %d", pdc_client_mpi_rank_g, server_id);
+    }
+
     if (is_client_debug_g == 1) {
         printf("==PDC_CLIENT[%5d]: - connected to server %5d\n", pdc_client_mpi_rank_g,
                lookup_args.server_id);
@@ -981,8 +1001,10 @@ client_region_release_rpc_cb(const struct hg_cb_info *callback_info)
 
     /* Get output from server*/
     ret_value = HG_Get_output(handle, &output);
-    if (ret_value != HG_SUCCESS)
+    if (ret_value != HG_SUCCESS) {
+        client_lookup_args->ret = -1;
         PGOTO_ERROR(FAIL, "==PDC_CLIENT: client_region_release_rpc_cb - HG_Get_output error!");
+    }
 
     client_lookup_args->ret = output.ret;
 
@@ -1581,7 +1603,7 @@ done:
 static hg_return_t
 metadata_query_bulk_cb(const struct hg_cb_info *callback_info)
 {
-    hg_return_t                   ret_value;
+    hg_return_t                   ret_value, output_ret;
     struct bulk_args_t *          client_lookup_args;
     hg_handle_t                   handle;
     metadata_query_transfer_out_t output;
@@ -1599,29 +1621,30 @@ metadata_query_bulk_cb(const struct hg_cb_info *callback_info)
     handle             = callback_info->info.forward.handle;
 
     // Get output from server
-    ret_value = HG_Get_output(handle, &output);
+    client_lookup_args->n_meta = 0;
+    client_lookup_args->ret    = 1;
+
+    ret_value = output_ret = HG_Get_output(handle, &output);
     if (ret_value != HG_SUCCESS)
         PGOTO_ERROR(ret_value, "==PDC_CLIENT[%d]: - error HG_Get_output", pdc_client_mpi_rank_g);
 
-    n_meta                     = output.ret;
-    client_lookup_args->n_meta = n_meta;
+    client_lookup_args->ret = 0;
+    n_meta                  = output.ret;
     if (n_meta == 0) {
         client_lookup_args->meta_arr = NULL;
         PGOTO_DONE(ret_value);
     }
-    else
-        client_lookup_args->meta_arr = (pdc_metadata_t **)calloc(n_meta, sizeof(pdc_metadata_t *));
 
     // We have received the bulk handle from server (server uses hg_respond)
     // Use this to initiate a bulk transfer
     origin_bulk_handle = output.bulk_handle;
     hg_info            = HG_Get_info(handle);
 
-    bulk_args = (struct bulk_args_t *)malloc(sizeof(struct bulk_args_t));
+    bulk_args = (struct bulk_args_t *)calloc(1, sizeof(struct bulk_args_t));
 
     bulk_args->handle = handle;
     bulk_args->nbytes = HG_Bulk_get_size(origin_bulk_handle);
-    bulk_args->n_meta = client_lookup_args->n_meta;
+    bulk_args->n_meta = n_meta;
 
     recv_meta = (void *)calloc(sizeof(pdc_metadata_t), n_meta);
 
@@ -1641,11 +1664,13 @@ metadata_query_bulk_cb(const struct hg_cb_info *callback_info)
     PDC_Client_check_bulk(send_context_g);
 
     client_lookup_args->meta_arr = bulk_args->meta_arr;
+    client_lookup_args->n_meta   = n_meta;
 
 done:
     fflush(stdout);
     hg_atomic_decr32(&atomic_work_todo_g);
-    HG_Free_output(handle, &output);
+    if (output_ret == HG_SUCCESS)
+        HG_Free_output(handle, &output);
 
     FUNC_LEAVE(ret_value);
 }
@@ -1741,6 +1766,10 @@ PDC_partial_query(int is_list_all, int user_id, const char *app_name, const char
         hg_atomic_set32(&atomic_work_todo_g, 1);
         PDC_Client_check_response(&send_context_g);
 
+        HG_Destroy(query_partial_handle);
+        if (lookup_args.ret != 0)
+            PGOTO_ERROR(FAIL, "==CLIENT[%d]: query failed on server %u", pdc_client_mpi_rank_g, server_id);
+
         if (lookup_args.n_meta == 0)
             continue;
 
@@ -1765,7 +1794,6 @@ PDC_partial_query(int is_list_all, int user_id, const char *app_name, const char
             n_recv++;
         }
 
-        HG_Destroy(query_partial_handle);
     }
 
     // TODO: need to be careful when freeing the lookup_args, as it include the results returned to user
@@ -1825,6 +1853,10 @@ PDC_Client_query_tag(const char *tags, int *n_res, pdc_metadata_t ***out)
         hg_atomic_set32(&atomic_work_todo_g, 1);
         PDC_Client_check_response(&send_context_g);
 
+        HG_Destroy(query_partial_handle);
+        if (lookup_args.ret != 0)
+            PGOTO_ERROR(FAIL, "==CLIENT[%d]: query failed on server %u", pdc_client_mpi_rank_g, server_id);
+
         if ((lookup_args.n_meta) == 0)
             continue;
 
@@ -1849,7 +1881,6 @@ PDC_Client_query_tag(const char *tags, int *n_res, pdc_metadata_t ***out)
             n_recv++;
         }
 
-        HG_Destroy(query_partial_handle);
     } // for server_id
 
     // TODO: need to be careful when freeing the lookup_args, as it include the results returned to user
@@ -1862,7 +1893,7 @@ done:
 static hg_return_t
 metadata_query_rpc_cb(const struct hg_cb_info *callback_info)
 {
-    hg_return_t                      ret_value;
+    hg_return_t                      ret_value, output_ret;
     struct _pdc_metadata_query_args *client_lookup_args;
     hg_handle_t                      handle;
     metadata_query_out_t             output;
@@ -1872,8 +1903,11 @@ metadata_query_rpc_cb(const struct hg_cb_info *callback_info)
     client_lookup_args = (struct _pdc_metadata_query_args *)callback_info->arg;
     handle             = callback_info->info.forward.handle;
 
+    client_lookup_args->data = NULL;
+    client_lookup_args->ret  = -1;
+
     /* Get output from server*/
-    ret_value = HG_Get_output(handle, &output);
+    ret_value = output_ret = HG_Get_output(handle, &output);
     if (ret_value != HG_SUCCESS)
         PGOTO_ERROR(ret_value, "==PDC_CLIENT[%d]: metadata_query_rpc_cb error with HG_Get_output",
                     pdc_client_mpi_rank_g);
@@ -1892,11 +1926,13 @@ metadata_query_rpc_cb(const struct hg_cb_info *callback_info)
         ret_value = PDC_metadata_init(client_lookup_args->data);
         ret_value = PDC_transfer_t_to_metadata_t(&output.ret, client_lookup_args->data);
     }
+    client_lookup_args->ret = 1;
 
 done:
     fflush(stdout);
     hg_atomic_decr32(&atomic_work_todo_g);
-    HG_Free_output(handle, &output);
+    if (output_ret == HG_SUCCESS)
+        HG_Free_output(handle, &output);
 
     FUNC_LEAVE(ret_value);
 }
@@ -2266,7 +2302,7 @@ PDC_Client_delete_metadata(char *delete_name, pdcid_t obj_delete_prop)
     PDC_Client_check_response(&send_context_g);
 
     if (lookup_args.ret != 1)
-        printf("PDC_CLIENT: delete NOT successful ... ret_value = %d\n", lookup_args.ret);
+        PGOTO_ERROR(FAIL, "PDC_CLIENT: delete NOT successful ... ret_value = %d", lookup_args.ret);
 
 done:
     fflush(stdout);
@@ -2285,7 +2321,7 @@ PDC_Client_query_metadata_name_only(const char *obj_name, pdc_metadata_t **out)
     metadata_query_in_t               in;
     struct _pdc_metadata_query_args **lookup_args;
     uint32_t                          server_id;
-    uint32_t                          i, count = 0;
+    uint32_t                          i, count = 0, n_sent = 0;
     hg_handle_t *                     metadata_query_handle;
 
     FUNC_ENTER(NULL);
@@ -2297,8 +2333,14 @@ PDC_Client_query_metadata_name_only(const char *obj_name, pdc_metadata_t **out)
     in.time_step  = 0;
     in.hash_value = PDC_get_hash_by_name(obj_name);
 
-    lookup_args = (struct _pdc_metadata_query_args **)malloc(sizeof(struct _pdc_metadata_query_args *) *
-                                                             pdc_server_num_g);
+    lookup_args = (struct _pdc_metadata_query_args **)calloc(pdc_server_num_g,
+                                                             sizeof(struct _pdc_metadata_query_args *));
+
+    // Connecting waits for an answer too, so connect before the first query is sent
+    for (server_id = 0; server_id < (uint32_t)pdc_server_num_g; server_id++) {
+        if (PDC_Client_try_lookup_server(server_id, 0) != SUCCEED)
+            PGOTO_ERROR(FAIL, "==CLIENT[%d]: ERROR with PDC_Client_try_lookup_server", pdc_client_mpi_rank_g);
+    }
 
     for (server_id = 0; server_id < (uint32_t)pdc_server_num_g; server_id++) {
         lookup_args[server_id] =
@@ -2307,34 +2349,42 @@ PDC_Client_query_metadata_name_only(const char *obj_name, pdc_metadata_t **out)
         // Debug statistics for counting number of messages sent to each server.
         debug_server_id_count[server_id]++;
 
-        if (PDC_Client_try_lookup_server(server_id, 0) != SUCCEED)
-            PGOTO_ERROR(FAIL, "==CLIENT[%d]: ERROR with PDC_Client_try_lookup_server", pdc_client_mpi_rank_g);
-
         HG_Create(send_context_g, pdc_server_info_g[server_id].addr, metadata_query_register_id_g,
                   &metadata_query_handle[server_id]);
 
         hg_ret =
             HG_Forward(metadata_query_handle[server_id], metadata_query_rpc_cb, lookup_args[server_id], &in);
-        if (hg_ret != HG_SUCCESS)
-            PGOTO_ERROR(FAIL, "PDC_Client_query_metadata_name_only(): Could not start HG_Forward()");
+        if (hg_ret != HG_SUCCESS) {
+            HG_Destroy(metadata_query_handle[server_id]);
+            ret_value = FAIL;
+            break;
+        }
+        n_sent++;
     }
 
     // Wait for response from server
-    hg_atomic_set32(&atomic_work_todo_g, pdc_server_num_g);
+    hg_atomic_set32(&atomic_work_todo_g, n_sent);
     PDC_Client_check_response(&send_context_g);
 
-    for (i = 0; i < (uint32_t)pdc_server_num_g; i++) {
-        if (lookup_args[i]->data != NULL) {
+    for (i = 0; i < n_sent; i++) {
+        if (lookup_args[i]->ret != 1)
+            ret_value = FAIL;
+        else if (lookup_args[i]->data != NULL) {
             *out = lookup_args[i]->data;
             count++;
         }
 
-        // TODO lookup_args[i] are not freed
         HG_Destroy(metadata_query_handle[i]);
     }
 
+    if (ret_value != SUCCEED)
+        PGOTO_ERROR(FAIL, "PDC_Client_query_metadata_name_only(): not every server was asked and answered");
+
 done:
     fflush(stdout);
+    for (i = 0; i < (uint32_t)pdc_server_num_g; i++)
+        free(lookup_args[i]);
+    free(lookup_args);
     free(metadata_query_handle);
 
     FUNC_LEAVE(ret_value);
@@ -2375,11 +2425,6 @@ PDC_Client_query_metadata_name_timestep(const char *obj_name, int time_step, pdc
     in.hash_value = PDC_get_hash_by_name(obj_name);
     in.time_step  = time_step;
 
-    lookup_args.data = (pdc_metadata_t *)malloc(sizeof(pdc_metadata_t));
-    if (lookup_args.data == NULL)
-        PGOTO_ERROR(FAIL, "==PDC_CLIENT: ERROR - PDC_Client_query_metadata_with_name() "
-                          "cannnot allocate space for client_lookup_args->data");
-
     hg_ret = HG_Forward(metadata_query_handle, metadata_query_rpc_cb, &lookup_args, &in);
     if (hg_ret != HG_SUCCESS)
         PGOTO_ERROR(FAIL,
@@ -2389,6 +2434,9 @@ PDC_Client_query_metadata_name_timestep(const char *obj_name, int time_step, pdc
     // Wait for response from server
     hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
+    if (lookup_args.ret != 1)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: metadata query failed", pdc_client_mpi_rank_g);
+
     *out = lookup_args.data;
     // printf("rank = %d, PDC_Client_query_metadata_name_timestep = %u\n", pdc_client_mpi_rank_g,
     // out[0]->data_server_id);
@@ -2605,6 +2653,8 @@ PDC_Client_obj_reset_dims(const char *obj_name, int time_step, int ndim, uint64_
     // Wait for response from server
     hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
+    if (lookup_args.ret < 0)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: reset dims failed", pdc_client_mpi_rank_g);
     if (lookup_args.ret == 2) {
         *reset = 1;
     }
@@ -2788,6 +2838,8 @@ PDC_Client_close_all_server()
             hg_ret = HG_Destroy(close_server_handle);
             if (hg_ret != HG_SUCCESS)
                 PGOTO_ERROR(FAIL, "PDC_Client_close_all_server(): Could not destroy handle");
+            if (rpc_return != 88)
+                PGOTO_ERROR(FAIL, "PDC_Client_close_all_server(): server %u not closed", server_id);
         } // End pdc_client_mpi_rank_g < pdc_server_num_g
     }     // End pdc_client_mpi_size_g >= pdc_server_num_g
     else {
@@ -2816,6 +2868,8 @@ PDC_Client_close_all_server()
                 hg_ret = HG_Destroy(close_server_handle);
                 if (hg_ret != HG_SUCCESS)
                     PGOTO_ERROR(FAIL, "PDC_Client_close_all_server(): Could not destroy handle");
+                if (rpc_return != 88)
+                    PGOTO_ERROR(FAIL, "PDC_Client_close_all_server(): server %u not closed", server_id);
             }
         } // End of mpi_rank == 0
     }     // End pdc_client_mpi_size_g < pdc_server_num_g
@@ -2963,6 +3017,8 @@ PDC_Client_flush_obj(uint64_t obj_id)
         hg_ret = HG_Destroy(flush_obj_handle);
         if (hg_ret != HG_SUCCESS)
             PGOTO_ERROR(FAIL, "PDC_Client_flush_obj(): Could not destroy handle");
+        if (rpc_return != 1)
+            PGOTO_ERROR(FAIL, "PDC_Client_flush_obj(): flush failed on server %u", server_id);
     }
 done:
     fflush(stdout);
@@ -3003,6 +3059,8 @@ PDC_Client_flush_obj_all()
         hg_ret = HG_Destroy(flush_obj_all_handle);
         if (hg_ret != HG_SUCCESS)
             PGOTO_ERROR(FAIL, "PDC_Client_flush_obj_all(): Could not destroy handle");
+        if (rpc_return != 1)
+            PGOTO_ERROR(FAIL, "PDC_Client_flush_obj_all(): flush failed on server %u", server_id);
     }
 done:
     fflush(stdout);
@@ -3074,6 +3132,7 @@ PDC_Client_transfer_request_all(int n_objs, pdc_access_t access_type, uint32_t d
                     __LINE__);
     hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
+    HG_Destroy(client_send_transfer_request_all_handle);
 
 #ifdef PDC_TIMING
     end = MPI_Wtime();
@@ -3090,13 +3149,12 @@ PDC_Client_transfer_request_all(int n_objs, pdc_access_t access_type, uint32_t d
         printf("PDC_Client_transfer_request() checkpoint, first value is %d @ line %d\n", ((int *)buf)[0],
                __LINE__);
     */
+    if (transfer_args.ret != 1)
+        PGOTO_ERROR(FAIL, "PDC_CLIENT: transfer request failed... @ line %d\n", __LINE__);
     for (i = 0; i < n_objs; ++i) {
         metadata_id[i] = transfer_args.metadata_id + i;
     }
-    if (transfer_args.ret != 1)
-        PGOTO_ERROR(FAIL, "PDC_CLIENT: transfer request failed... @ line %d\n", __LINE__);
 
-    HG_Destroy(client_send_transfer_request_all_handle);
 done:
     fflush(stdout);
     FUNC_LEAVE(ret_value);
@@ -3155,11 +3213,11 @@ PDC_Client_transfer_request_metadata_query2(char *buf, uint64_t total_buf_size,
             __LINE__);
     hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
+    HG_Destroy(client_send_transfer_request_metadata_query2_handle);
 
     if (transfer_args.ret != 1)
         PGOTO_ERROR(FAIL, "PDC_CLIENT: transfer_request_metadata_query2 failed... @ line %d\n", __LINE__);
 
-    HG_Destroy(client_send_transfer_request_metadata_query2_handle);
 
 #ifdef PDC_TIMING
     end = MPI_Wtime();
@@ -3226,13 +3284,13 @@ PDC_Client_transfer_request_metadata_query(char *buf, uint64_t total_buf_size, i
             __LINE__);
     hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
+    HG_Destroy(client_send_transfer_request_metadata_query_handle);
     if (transfer_args.ret != 1)
         PGOTO_ERROR(FAIL, "PDC_CLIENT: transfer_request_metadata_query failed... @ line %d\n", __LINE__);
 
     *output_buf_size = transfer_args.total_buf_size;
     *query_id        = transfer_args.query_id;
 
-    HG_Destroy(client_send_transfer_request_metadata_query_handle);
 
 #ifdef PDC_TIMING
     end = MPI_Wtime();
@@ -3300,6 +3358,7 @@ PDC_Client_transfer_request_wait_all(int n_objs, pdcid_t *transfer_request_id, u
                     __LINE__);
     hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
+    HG_Destroy(client_send_transfer_request_wait_all_handle);
 
     /*
 
@@ -3310,7 +3369,6 @@ PDC_Client_transfer_request_wait_all(int n_objs, pdcid_t *transfer_request_id, u
     if (transfer_args.ret != 1)
         PGOTO_ERROR(FAIL, "PDC_CLIENT: transfer request wait all failed... @ line %d\n", __LINE__);
 
-    HG_Destroy(client_send_transfer_request_wait_all_handle);
 
 #ifdef PDC_TIMING
     end = MPI_Wtime();
@@ -3416,6 +3474,7 @@ PDC_Client_transfer_request(void *buf, pdcid_t obj_id, uint32_t data_server_id,
                     __LINE__);
     hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
+    HG_Destroy(client_send_transfer_request_handle);
 
 #ifdef PDC_TIMING
     end = MPI_Wtime();
@@ -3428,12 +3487,11 @@ PDC_Client_transfer_request(void *buf, pdcid_t obj_id, uint32_t data_server_id,
         pdc_timestamp_register(pdc_client_transfer_request_start_write_timestamps, function_start, end);
     }
 #endif
-    *metadata_id = transfer_args.metadata_id;
-
     if (transfer_args.ret != 1)
         PGOTO_ERROR(FAIL, "PDC_CLIENT: transfer request failed... @ line %d\n", __LINE__);
 
-    HG_Destroy(client_send_transfer_request_handle);
+    *metadata_id = transfer_args.metadata_id;
+
 done:
     fflush(stdout);
     FUNC_LEAVE(ret_value);
@@ -3472,11 +3530,11 @@ PDC_Client_transfer_request_status(pdcid_t transfer_request_id, uint32_t data_se
                     __LINE__);
     hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
+    HG_Destroy(client_send_transfer_request_status_handle);
 
     if (transfer_args.ret != 1)
         PGOTO_ERROR(FAIL, "PDC_CLIENT: transfer request failed... @ line %d\n", __LINE__);
 
-    HG_Destroy(client_send_transfer_request_status_handle);
     *completed = transfer_args.status;
 done:
     fflush(stdout);
@@ -3534,6 +3592,7 @@ PDC_Client_transfer_request_wait(pdcid_t transfer_request_id, uint32_t data_serv
                     __LINE__);
     hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
+    HG_Destroy(client_send_transfer_request_wait_handle);
 
 #ifdef PDC_TIMING
     end = MPI_Wtime();
@@ -3550,7 +3609,6 @@ PDC_Client_transfer_request_wait(pdcid_t transfer_request_id, uint32_t data_serv
     if (transfer_args.ret != 1)
         PGOTO_ERROR(FAIL, "PDC_CLIENT: transfer request failed... @ line %d\n", __LINE__);
 
-    HG_Destroy(client_send_transfer_request_wait_handle);
 
 done:
     fflush(stdout);
@@ -4480,7 +4538,7 @@ done:
 static hg_return_t
 data_server_read_check_rpc_cb(const struct hg_cb_info *callback_info)
 {
-    hg_return_t                     ret_value = HG_SUCCESS;
+    hg_return_t                     ret_value = HG_SUCCESS, output_ret;
     struct _pdc_client_lookup_args *client_lookup_args;
 
     FUNC_ENTER(NULL);
@@ -4490,7 +4548,7 @@ data_server_read_check_rpc_cb(const struct hg_cb_info *callback_info)
 
     /* Get output from server*/
     data_server_read_check_out_t output;
-    ret_value = HG_Get_output(handle, &output);
+    ret_value = output_ret = HG_Get_output(handle, &output);
     if (ret_value != HG_SUCCESS) {
         client_lookup_args->ret        = -1;
         client_lookup_args->ret_string = " ";
@@ -4508,7 +4566,8 @@ data_server_read_check_rpc_cb(const struct hg_cb_info *callback_info)
 done:
     fflush(stdout);
     hg_atomic_decr32(&atomic_work_todo_g);
-    HG_Free_output(handle, &output);
+    if (output_ret == HG_SUCCESS)
+        HG_Free_output(handle, &output);
 
     FUNC_LEAVE(ret_value);
 }
@@ -4656,6 +4715,7 @@ PDC_Client_data_server_read_check(int server_id, uint32_t client_id, pdc_metadat
     // Wait for response from server
     hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
+    HG_Destroy(data_server_read_check_handle);
 
     *status = lookup_args.ret;
     if (lookup_args.ret != 1 && lookup_args.ret != 111) {
@@ -4663,7 +4723,6 @@ PDC_Client_data_server_read_check(int server_id, uint32_t client_id, pdc_metadat
         if (is_client_debug_g)
             printf("==PDC_CLIENT[%d]: %s- IO request has not been fulfilled by server\n",
                    pdc_client_mpi_rank_g, __func__);
-        HG_Destroy(data_server_read_check_handle);
         if (lookup_args.ret == -1)
             ret_value = FAIL;
         PGOTO_DONE(ret_value);
@@ -4700,7 +4759,6 @@ PDC_Client_data_server_read_check(int server_id, uint32_t client_id, pdc_metadat
         if (munmap(shm_base, read_size) == -1) {
             // PGOTO_ERROR(FAIL, "==PDC_CLIENT: Unmap failed: %s", strerror(errno));
         }
-        HG_Destroy(data_server_read_check_handle);
     } // end of check io
 
     // close:
@@ -5403,9 +5461,11 @@ PDC_Client_add_del_objects_to_container_cb(const struct hg_cb_info *callback_inf
 
     cb_args = (update_region_storage_meta_bulk_args_t *)callback_info->arg;
     // Sent the bulk handle with rpc and get a response
-    ret_value = HG_Get_output(handle, &bulk_rpc_ret);
+    cb_args->ret = -1;
+    ret_value    = HG_Get_output(handle, &bulk_rpc_ret);
     if (ret_value != HG_SUCCESS)
         PGOTO_ERROR(ret_value, "Could not get output");
+    cb_args->ret = 1;
 
     ret_value = HG_Free_output(handle, &bulk_rpc_ret);
     if (ret_value != HG_SUCCESS)
@@ -5416,9 +5476,8 @@ PDC_Client_add_del_objects_to_container_cb(const struct hg_cb_info *callback_inf
     if (ret_value != HG_SUCCESS)
         PGOTO_ERROR(ret_value, "Could not free bulk data handle");
 
-    HG_Destroy(cb_args->rpc_handle);
-
 done:
+    HG_Destroy(handle);
     fflush(stdout);
     hg_atomic_decr32(&atomic_work_todo_g);
 
@@ -5480,6 +5539,9 @@ PDC_Client_add_del_objects_to_container(int nobj, uint64_t *obj_ids, uint64_t co
     hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
 
+    if (cb_args.ret != 1)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: request failed on server %u", pdc_client_mpi_rank_g, server_id);
+
 done:
     fflush(stdout);
     FUNC_LEAVE(ret_value);
@@ -5562,6 +5624,8 @@ PDC_Client_add_tags_to_container(pdcid_t cont_id, char *tags)
     perr_t                 ret_value = SUCCEED;
     hg_return_t            hg_ret    = HG_SUCCESS;
     hg_handle_t            rpc_handle = HG_HANDLE_NULL;
+
+    struct _pdc_client_lookup_args lookup_args;
     uint32_t               server_id;
     struct _pdc_id_info *  info;
     struct _pdc_cont_info *object;
@@ -5596,14 +5660,15 @@ PDC_Client_add_tags_to_container(pdcid_t cont_id, char *tags)
     add_tag_rpc_in.tags = tags;
 
     /* Forward call to remote addr */
-    hg_ret = HG_Forward(rpc_handle, pdc_client_check_int_ret_cb, NULL, &add_tag_rpc_in);
+    hg_ret = HG_Forward(rpc_handle, pdc_client_check_int_ret_cb, &lookup_args, &add_tag_rpc_in);
     if (hg_ret != HG_SUCCESS)
         PGOTO_ERROR(FAIL, "Could not forward call");
 
     hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
 
-    ret_value = SUCCEED;
+    if (lookup_args.ret != 1)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: adding tags to container failed", pdc_client_mpi_rank_g);
 
 done:
     fflush(stdout);
@@ -5625,11 +5690,15 @@ container_query_rpc_cb(const struct hg_cb_info *callback_info)
     client_lookup_args = (struct _pdc_container_query_args *)callback_info->arg;
     handle             = callback_info->info.forward.handle;
 
+    client_lookup_args->cont_id = 0;
+    client_lookup_args->ret     = -1;
+
     ret_value = HG_Get_output(handle, &output);
     if (ret_value != HG_SUCCESS)
         PGOTO_ERROR(ret_value, "==PDC_CLIENT[%d]: error with HG_Get_output", pdc_client_mpi_rank_g);
 
     client_lookup_args->cont_id = output.cont_id;
+    client_lookup_args->ret     = 1;
 
 done:
     fflush(stdout);
@@ -5681,6 +5750,9 @@ PDC_Client_query_container_name(const char *cont_name, uint64_t *cont_meta_id)
     hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
 
+    if (lookup_args.ret != 1)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: container query failed", pdc_client_mpi_rank_g);
+
     *cont_meta_id = lookup_args.cont_id;
 
 done:
@@ -5729,9 +5801,11 @@ PDC_Client_query_read_obj_name_cb(const struct hg_cb_info *callback_info)
     cb_args = (update_region_storage_meta_bulk_args_t *)callback_info->arg;
 
     // Sent the bulk handle with rpc and get a response
-    ret_value = HG_Get_output(handle, &bulk_rpc_ret);
+    cb_args->ret = -1;
+    ret_value    = HG_Get_output(handle, &bulk_rpc_ret);
     if (ret_value != HG_SUCCESS)
         PGOTO_ERROR(ret_value, "Could not get output");
+    cb_args->ret = 1;
 
     ret_value = HG_Free_output(handle, &bulk_rpc_ret);
     if (ret_value != HG_SUCCESS)
@@ -5743,9 +5817,8 @@ PDC_Client_query_read_obj_name_cb(const struct hg_cb_info *callback_info)
         PGOTO_ERROR(ret_value, "Could not free bulk data handle");
 
     /* Free other malloced resources*/
-    HG_Destroy(cb_args->rpc_handle);
-
 done:
+    HG_Destroy(handle);
     fflush(stdout);
     hg_atomic_decr32(&atomic_work_todo_g);
 
@@ -5885,6 +5958,9 @@ PDC_Client_query_name_read_entire_obj(int nobj, char **obj_names, void ***out_bu
     hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
 
+    if (cb_args.ret != 1)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: request failed on server %u", pdc_client_mpi_rank_g, server_id);
+
     // Wait for server to complete all reads
     hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
@@ -6034,6 +6110,9 @@ PDC_Client_server_checkpoint(uint32_t server_id)
     hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
 
+    if (lookup_args.ret != 1)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: checkpoint failed on server %u", pdc_client_mpi_rank_g, server_id);
+
 done:
     fflush(stdout);
     HG_Destroy(rpc_handle);
@@ -6211,7 +6290,7 @@ PDC_add_storage_meta_to_io_list(pdc_data_server_io_list_t **list, region_storage
 perr_t
 PDC_send_region_storage_meta_shm(uint32_t server_id, int n, region_storage_meta_t *storage_meta)
 {
-    perr_t                                 ret_value;
+    perr_t                                 ret_value = SUCCEED;
     hg_return_t                            hg_ret;
     bulk_rpc_in_t                          bulk_rpc_in;
     hg_handle_t                            rpc_handle;
@@ -6254,6 +6333,9 @@ PDC_send_region_storage_meta_shm(uint32_t server_id, int n, region_storage_meta_
     hg_atomic_set32(&atomic_work_todo_g, 1);
     PDC_Client_check_response(&send_context_g);
 
+    if (cb_args.ret != 1)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: request failed on server %u", pdc_client_mpi_rank_g, server_id);
+
 done:
     fflush(stdout);
     FUNC_LEAVE(ret_value);
@@ -6582,6 +6664,9 @@ PDC_Client_query_multi_storage_info(int nobj, char **obj_names, region_storage_m
         hg_atomic_set32(&atomic_work_todo_g, 1);
         PDC_Client_check_response(&send_context_g);
 
+        if (cb_args.ret != 1)
+            PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: request failed on server %u", pdc_client_mpi_rank_g, server_id);
+
         // Wait for server initiated bulk xfer
         hg_atomic_set32(&atomic_work_todo_g, 1);
         PDC_Client_check_response(&send_context_g);
@@ -7139,7 +7224,7 @@ PDC_add_kvtag(pdcid_t obj_id, pdc_kvtag_t *kvtag, int is_cont)
     PDC_Client_check_response(&send_context_g);
 
     if (lookup_args.ret != 1)
-        printf("PDC_CLIENT: add kvtag NOT successful ... ret_value = %d\n", lookup_args.ret);
+        PGOTO_ERROR(FAIL, "PDC_CLIENT: add kvtag NOT successful ... ret_value = %d", lookup_args.ret);
 
 done:
     fflush(stdout);
@@ -7152,14 +7237,14 @@ static hg_return_t
 metadata_get_kvtag_rpc_cb(const struct hg_cb_info *callback_info)
 {
 
-    hg_return_t                 ret_value          = HG_SUCCESS;
+    hg_return_t                 ret_value          = HG_SUCCESS, output_ret;
     struct _pdc_get_kvtag_args *client_lookup_args = (struct _pdc_get_kvtag_args *)callback_info->arg;
     hg_handle_t                 handle             = callback_info->info.forward.handle;
     metadata_get_kvtag_out_t    output;
 
     FUNC_ENTER(NULL);
 
-    ret_value = HG_Get_output(handle, &output);
+    ret_value = output_ret = HG_Get_output(handle, &output);
     if (ret_value != HG_SUCCESS) {
         client_lookup_args->ret = -1;
         PGOTO_ERROR(ret_value, "==PDC_CLIENT[%d]: %s error with HG_Get_output", pdc_client_mpi_rank_g,
@@ -7180,7 +7265,8 @@ metadata_get_kvtag_rpc_cb(const struct hg_cb_info *callback_info)
 done:
     fflush(stdout);
     hg_atomic_decr32(&atomic_work_todo_g);
-    HG_Free_output(handle, &output);
+    if (output_ret == HG_SUCCESS)
+        HG_Free_output(handle, &output);
 
     FUNC_LEAVE(ret_value);
 }
@@ -7243,7 +7329,7 @@ PDC_get_kvtag(pdcid_t obj_id, char *tag_name, pdc_kvtag_t **kvtag, int is_cont)
     PDC_Client_check_response(&send_context_g);
 
     if (lookup_args.ret != 1)
-        printf("PDC_CLIENT: get kvtag NOT successful ... ret_value = %d\n", lookup_args.ret);
+        PGOTO_ERROR(FAIL, "PDC_CLIENT: get kvtag NOT successful ... ret_value = %d", lookup_args.ret);
 
 done:
     fflush(stdout);
@@ -7257,8 +7343,7 @@ kvtag_query_bulk_cb(const struct hg_cb_info *hg_cb_info)
 {
     hg_return_t         ret_value = HG_SUCCESS;
     struct bulk_args_t *bulk_args;
-    hg_bulk_t           origin_bulk_handle = hg_cb_info->info.bulk.origin_handle;
-    hg_bulk_t           local_bulk_handle  = hg_cb_info->info.bulk.local_handle;
+    hg_bulk_t           local_bulk_handle =  hg_cb_info->info.bulk.local_handle;
     uint32_t            n_meta, actual_cnt;
     void *              buf = NULL;
     uint64_t            buf_sizes[1];
@@ -7286,6 +7371,7 @@ kvtag_query_bulk_cb(const struct hg_cb_info *hg_cb_info)
             bulk_args->obj_ids[i] = *u64_arr_ptr;
             u64_arr_ptr++;
         }
+        bulk_args->ret = 0;
 
         // HG_Bulk_access(local_bulk_handle, 0, bulk_args->nbytes, HG_BULK_READWRITE, 1, &buf, buf_sizes,
         //                &actual_cnt);
@@ -7301,10 +7387,6 @@ kvtag_query_bulk_cb(const struct hg_cb_info *hg_cb_info)
     if (ret_value != HG_SUCCESS)
         PGOTO_ERROR(ret_value, "Could not free HG bulk handle");
 
-    ret_value = HG_Bulk_free(origin_bulk_handle);
-    if (ret_value != HG_SUCCESS)
-        PGOTO_ERROR(ret_value, "Could not free HG bulk handle");
-
 done:
     hg_atomic_decr32(&bulk_todo_g);
     hg_atomic_cas32(&bulk_transfer_done_g, 0, 1);
@@ -7317,11 +7399,12 @@ done:
 static hg_return_t
 kvtag_query_forward_cb(const struct hg_cb_info *callback_info)
 {
-    hg_return_t                   ret_value;
+    hg_return_t                   ret_value, output_ret;
     struct bulk_args_t *          bulk_arg;
     hg_handle_t                   handle;
     metadata_query_transfer_out_t output;
     uint32_t                      n_meta;
+    int                           bulk_started = 0;
     hg_op_id_t                    hg_bulk_op_id;
     hg_bulk_t                     local_bulk_handle  = HG_BULK_NULL;
     hg_bulk_t                     origin_bulk_handle = HG_BULK_NULL;
@@ -7332,8 +7415,12 @@ kvtag_query_forward_cb(const struct hg_cb_info *callback_info)
     bulk_arg = (struct bulk_args_t *)callback_info->arg;
     handle   = callback_info->info.forward.handle;
 
+    bulk_arg->n_meta  = 0;
+    bulk_arg->obj_ids = NULL;
+    bulk_arg->ret     = 1;
+
     // Get output from server
-    ret_value = HG_Get_output(handle, &output);
+    ret_value = output_ret = HG_Get_output(handle, &output);
     if (ret_value != HG_SUCCESS)
         PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: error HG_Get_output", pdc_client_mpi_rank_g);
 
@@ -7341,17 +7428,11 @@ kvtag_query_forward_cb(const struct hg_cb_info *callback_info)
     bulk_arg->server_memory_consumption = output.server_memory_consumption;
 
     if (output.bulk_handle == HG_BULK_NULL || output.ret == 0) {
-        hg_atomic_decr32(&bulk_todo_g);
-        // hg_atomic_decr32(&atomic_work_todo_g);
-        bulk_arg->n_meta  = 0;
-        bulk_arg->obj_ids = NULL;
-        HG_Free_output(handle, &output);
-        HG_Destroy(handle);
+        bulk_arg->ret = 0;
         PGOTO_DONE(ret_value);
     }
 
-    n_meta           = output.ret;
-    bulk_arg->n_meta = n_meta;
+    n_meta = output.ret;
 
     // We have received the bulk handle from server (server uses hg_respond)
     origin_bulk_handle = output.bulk_handle;
@@ -7359,7 +7440,6 @@ kvtag_query_forward_cb(const struct hg_cb_info *callback_info)
 
     bulk_arg->handle  = handle;
     bulk_arg->nbytes  = HG_Bulk_get_size(origin_bulk_handle);
-    bulk_arg->obj_ids = bulk_arg->obj_ids;
 
     /* Create a new bulk handle to read the data */
     HG_Bulk_create(hg_info->hg_class, 1, NULL, (hg_size_t *)&bulk_arg->nbytes, HG_BULK_READWRITE,
@@ -7372,10 +7452,18 @@ kvtag_query_forward_cb(const struct hg_cb_info *callback_info)
     if (ret_value != HG_SUCCESS)
         PGOTO_ERROR(FAIL, "Could not read bulk data");
 
+    // The bulk callback ends the wait and gives the handle back
+    bulk_arg->n_meta = n_meta;
+    bulk_started     = 1;
+
 done:
     fflush(stdout);
-    hg_atomic_decr32(&atomic_work_todo_g);
-    HG_Free_output(handle, &output);
+    if (output_ret == HG_SUCCESS)
+        HG_Free_output(handle, &output);
+    if (!bulk_started) {
+        HG_Destroy(handle);
+        hg_atomic_decr32(&bulk_todo_g);
+    }
 
     FUNC_LEAVE(ret_value);
 }
@@ -7441,9 +7529,13 @@ PDC_Client_query_kvtag_server(uint32_t server_id, const pdc_kvtag_t *kvtag, int
     server_time_total_g[server_id] += bulk_arg->server_time_elapsed;
     server_mem_usage_g[server_id] = bulk_arg->server_memory_consumption;
 
-    *n_res = bulk_arg->n_meta;
-    if (*n_res > 0)
-        *out = bulk_arg->obj_ids;
+    if (bulk_arg->ret != 0)
+        ret_value = FAIL;
+    else {
+        *n_res = bulk_arg->n_meta;
+        if (*n_res > 0)
+            *out = bulk_arg->obj_ids;
+    }
     free(bulk_arg);
     // TODO: need to be careful when freeing the lookup_args, as it include the results returned to user
 
@@ -7551,7 +7643,7 @@ PDCtag_delete(pdcid_t obj_id, char *tag_name, int is_cont)
     PDC_Client_check_response(&send_context_g);
 
     if (lookup_args.ret != 1)
-        printf("PDC_CLIENT: del kvtag NOT successful ... ret_value = %d\n", lookup_args.ret);
+        PGOTO_ERROR(FAIL, "PDC_CLIENT: del kvtag NOT successful ... ret_value = %d", lookup_args.ret);
 
 done:
     fflush(stdout);
@@ -8086,11 +8178,11 @@ PDC_send_data_query(pdc_query_t *query, pdc_query_get_op_t get_op, uint64_t *nhi
         hg_atomic_set32(&atomic_work_todo_g, 1);
         PDC_Client_check_response(&send_context_g);
 
+        HG_Destroy(handle);
+
         if (lookup_args.ret != 1)
             PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: send data query to server %u failed ... ret_value = %d",
                         pdc_client_mpi_rank_g, server_id, lookup_args.ret);
-
-        HG_Destroy(handle);
     }
 
     // Wait for server to send query result
@@ -8441,11 +8533,17 @@ client_dart_get_server_info_cb(const struct hg_cb_info *callback_info)
     /* Get output from server*/
     ret_value = HG_Get_output(handle, &output);
     /* printf("Return value=%llu\n", output.ret); */
-    client_lookup_args->int64_value1 = output.indexed_word_count;
-    client_lookup_args->int64_value2 = output.request_count;
+    if (ret_value == HG_SUCCESS) {
+        client_lookup_args->int64_value1 = output.indexed_word_count;
+        client_lookup_args->int64_value2 = output.request_count;
+        HG_Free_output(handle, &output);
+    }
+    else {
+        client_lookup_args->int64_value1 = 0;
+        client_lookup_args->int64_value2 = 0;
+    }
 
     hg_atomic_decr32(&atomic_work_todo_g);
-    HG_Destroy(handle);
 
     FUNC_LEAVE(ret_value);
 }
@@ -8453,7 +8551,8 @@ client_dart_get_server_info_cb(const struct hg_cb_info *callback_info)
 dart_server
 dart_retrieve_server_info_cb(uint32_t serverId)
 {
-    dart_server ret;
+    dart_server ret                         = {0};
+    hg_handle_t dart_get_server_info_handle = HG_HANDLE_NULL;
 
     perr_t srv_lookup_rst = PDC_Client_try_lookup_server(serverId, 0);
     if (srv_lookup_rst == FAIL) {
@@ -8462,7 +8561,6 @@ dart_retrieve_server_info_cb(uint32_t serverId)
     }
 
     // Mercury comm here.
-    hg_handle_t dart_get_server_info_handle = HG_HANDLE_NULL;
     HG_Create(send_context_g, pdc_server_info_g[serverId].addr, dart_get_server_info_g,
               &dart_get_server_info_handle);
     dart_get_server_info_in_t in;
@@ -8501,7 +8599,7 @@ get_dart_g()
 static hg_return_t
 dart_perform_one_server_on_receive_cb(const struct hg_cb_info *callback_info)
 {
-    hg_return_t                   ret_value;
+    hg_return_t                   ret_value, output_ret;
     struct bulk_args_t *          client_lookup_args;
     hg_handle_t                   handle;
     dart_perform_one_server_out_t output;
@@ -8519,11 +8617,11 @@ dart_perform_one_server_on_receive_cb(const struct hg_cb_info *callback_info)
     // println("[Client_Side_Bulk]  Entering dart_perform_one_server_on_receive_cb. rank = %d",
     // pdc_client_mpi_rank_g);
     client_lookup_args = (struct bulk_args_t *)callback_info->arg;
-    // (client_lookup_args->n_meta) = (uint32_t *)malloc(sizeof(uint32_t));
+    client_lookup_args->ret = 1;
     handle = callback_info->info.forward.handle;
     // println("[Client_Side_Bulk]  before get output. rank = %d", pdc_client_mpi_rank_g);
     // Get output from server
-    ret_value = HG_Get_output(handle, &output);
+    ret_value = output_ret = HG_Get_output(handle, &output);
     if (ret_value != HG_SUCCESS) {
         printf("==PDC_CLIENT[%d]: dart_perform_one_server_on_receive_cb - error HG_Get_output\n",
                pdc_client_mpi_rank_g);
@@ -8539,6 +8637,7 @@ dart_perform_one_server_on_receive_cb(const struct hg_cb_info *callback_info)
     if (ret_value == HG_SUCCESS && output.has_bulk == 0) {
         // printf("=== NO Bulk data should be taken care of.  \n");
         client_lookup_args->n_meta = 0;
+        client_lookup_args->ret    = 0;
         goto done;
     }
 
@@ -8554,6 +8653,7 @@ dart_perform_one_server_on_receive_cb(const struct hg_cb_info *callback_info)
     if (n_meta == 0) {
         client_lookup_args->obj_ids = NULL;
         client_lookup_args->n_meta  = 0;
+        client_lookup_args->ret     = 0;
         goto done;
     }
 
@@ -8609,11 +8709,13 @@ dart_perform_one_server_on_receive_cb(const struct hg_cb_info *callback_info)
             break;
         }
     }
+    client_lookup_args->ret = 0;
 
 done:
     // println("[Client_Side_Bulk]  finish bulk. rank = %d", pdc_client_mpi_rank_g);
     hg_atomic_decr32(&atomic_work_todo_g);
-    HG_Free_output(handle, &output);
+    if (output_ret == HG_SUCCESS)
+        HG_Free_output(handle, &output);
     // we destroy the handle here. There will be no need to clean it up in the loop from the request
     // initiator function
     HG_Destroy(handle);
@@ -8626,7 +8728,7 @@ _dart_send_request_to_one_server(int server_id, dart_perform_one_server_in_t *da
 {
     hg_return_t hg_ret;
     HG_Create(send_context_g, pdc_server_info_g[server_id].addr, dart_perform_one_server_g, handle);
-    if (handle == NULL) {
+    if (*handle == NULL) {
         printf("==CLIENT[%d]: Error with _dart_send_request_to_one_server\n", pdc_client_mpi_rank_g);
         return FAIL;
     }
@@ -8640,6 +8742,7 @@ _dart_send_request_to_one_server(int server_id, dart_perform_one_server_in_t *da
         printf("==CLIENT[%d]: _dart_send_request_to_one_server(): Could not start HG_Forward()\n",
                pdc_client_mpi_rank_g);
         hg_atomic_decr32(&atomic_work_todo_g);
+        HG_Destroy(*handle);
         return FAIL;
     }
     // waiting for response and get the results if any.
@@ -8647,7 +8750,7 @@ _dart_send_request_to_one_server(int server_id, dart_perform_one_server_in_t *da
     // hg_atomic_cas32(&atomic_work_todo_g, 0, num_requests);
     PDC_Client_check_response(&send_context_g); // This will block until all requests are done.
 
-    return SUCCEED;
+    return lookup_args_ptr->ret == 0 ? SUCCEED : FAIL;
 }
 
 int
diff --git a/src/server/include/pdc_client_server_common.h b/src/server/include/pdc_client_server_common.h
index 4429752..cfc294f 100644
--- a/src/server/include/pdc_client_server_common.h
+++ b/src/server/include/pdc_client_server_common.h
@@ -146,6 +146,7 @@ typedef struct update_region_storage_meta_bulk_args_t {
     int         server_id;
     hg_bulk_t   bulk_handle;
     hg_handle_t rpc_handle;
+    int         ret;
 } update_region_storage_meta_bulk_args_t;
 
 typedef struct get_metadata_by_id_args_t {
-- 
2.43.0


From 3ce9604f5834b996cfeda34834176b88b2fc4c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:18 +0000
Subject: [PATCH 53/60] fix: requests were sent with fields their senders had
 not set, or with a region whose conversion failed

---
 .../pdc_analysis_and_transforms_connect.c     |  2 +
 src/api/pdc_client_connect.c                  | 49 +++++++++++++------
 2 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/api/pdc_analysis/pdc_analysis_and_transforms_connect.c b/src/api/pdc_analysis/pdc_analysis_and_transforms_connect.c
index 18c6006..e56a868 100644
--- a/src/api/pdc_analysis/pdc_analysis_and_transforms_connect.c
+++ b/src/api/pdc_analysis/pdc_analysis_and_transforms_connect.c
@@ -61,6 +61,8 @@ PDC_Client_send_iter_recv_id(pdcid_t iter_id, pdcid_t *meta_id)
 
     FUNC_ENTER(NULL);
 
+    memset(&in, 0, sizeof(in));
+
     my_rpc_state_p = (struct _pdc_my_rpc_state *)calloc(1, sizeof(struct _pdc_my_rpc_state));
     if (my_rpc_state_p == NULL)
         PGOTO_ERROR(FAIL, "PDC_Client_send_iter_recv_id(): Could not allocate my_rpc_state");
diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index 9ddaab3..fa3adb7 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -1713,6 +1713,9 @@ PDC_partial_query(int is_list_all, int user_id, const char *app_name, const char
     in.time_step_to   = -1;
     in.ndim           = -1;
     in.tags           = " ";
+    in.k_query        = " ";
+    in.vfrom_query    = " ";
+    in.vto_query      = " ";
 
     if (is_list_all != 1) {
         in.user_id        = user_id;
@@ -1829,6 +1832,9 @@ PDC_Client_query_tag(const char *tags, int *n_res, pdc_metadata_t ***out)
     in.time_step_to   = -1;
     in.ndim           = 0;
     in.tags           = tags;
+    in.k_query        = " ";
+    in.vfrom_query    = " ";
+    in.vto_query      = " ";
 
     *out   = NULL;
     *n_res = 0;
@@ -2150,6 +2156,7 @@ PDC_Client_update_metadata(pdc_metadata_t *old, pdc_metadata_t *new)
     in.obj_id     = old->obj_id;
     in.hash_value = hash_name_value;
 
+    memset(&in.new_metadata, 0, sizeof(in.new_metadata));
     in.new_metadata.user_id   = 0;
     in.new_metadata.time_step = new->time_step;
     in.new_metadata.obj_id    = new->obj_id;
@@ -2634,6 +2641,9 @@ PDC_Client_obj_reset_dims(const char *obj_name, int time_step, int ndim, uint64_
     in.hash_value = PDC_get_hash_by_name(obj_name);
     in.time_step  = time_step;
     in.ndim       = ndim;
+    in.dims0      = 0;
+    in.dims1      = 0;
+    in.dims2      = 0;
     if (in.ndim >= 1) {
         in.dims0 = dims[0];
     }
@@ -2906,7 +2916,8 @@ PDC_Client_buf_unmap(pdcid_t remote_obj_id, pdcid_t remote_reg_id, struct pdc_re
     in.remote_reg_id = remote_reg_id;
 
     unit = PDC_get_var_type_size(data_type);
-    PDC_region_info_t_to_transfer_unit(reginfo, &(in.remote_region), unit);
+    if (PDC_region_info_t_to_transfer_unit(reginfo, &(in.remote_region), unit) != SUCCEED)
+        PGOTO_ERROR(FAIL, "PDC_CLIENT[%d]: invalid region", pdc_client_mpi_rank_g);
 
     // Compute metadata server id
     data_server_id    = ((pdc_metadata_t *)object_info->metadata)->data_server_id;
@@ -3659,11 +3670,13 @@ PDC_Client_buf_map(pdcid_t local_region_id, pdcid_t remote_obj_id, size_t ndim,
     hg_class = HG_Context_get_class(send_context_g);
 
     unit = PDC_get_var_type_size(local_type);
-    PDC_region_info_t_to_transfer_unit(local_region, &(in.local_region), unit);
+    if (PDC_region_info_t_to_transfer_unit(local_region, &(in.local_region), unit) != SUCCEED)
+        PGOTO_ERROR(FAIL, "PDC_CLIENT[%d]: invalid local region", pdc_client_mpi_rank_g);
 
     unit_to = PDC_get_var_type_size(remote_type);
-    PDC_region_info_t_to_transfer_unit(remote_region, &(in.remote_region_unit), unit_to);
-    PDC_region_info_t_to_transfer(remote_region, &(in.remote_region_nounit));
+    if (PDC_region_info_t_to_transfer_unit(remote_region, &(in.remote_region_unit), unit_to) != SUCCEED ||
+        PDC_region_info_t_to_transfer(remote_region, &(in.remote_region_nounit)) != SUCCEED)
+        PGOTO_ERROR(FAIL, "PDC_CLIENT[%d]: invalid remote region", pdc_client_mpi_rank_g);
     in.remote_unit = unit_to;
 
     if (ndim == 1 && local_offset[0] == 0) {
@@ -3824,7 +3837,8 @@ PDC_Client_region_lock(pdcid_t remote_obj_id, struct _pdc_obj_info *object_info,
         PGOTO_ERROR(FAIL, "Dimension %lu is not supported", ndim);
 
     in.data_unit = PDC_get_var_type_size(data_type);
-    PDC_region_info_t_to_transfer_unit(region_info, &(in.region), in.data_unit);
+    if (PDC_region_info_t_to_transfer_unit(region_info, &(in.region), in.data_unit) != SUCCEED)
+        PGOTO_ERROR(FAIL, "PDC_CLIENT[%d]: invalid region", pdc_client_mpi_rank_g);
 
     if (PDC_Client_try_lookup_server(server_id, 0) != SUCCEED)
         PGOTO_ERROR(FAIL, "==CLIENT[%d]: ERROR with PDC_Client_try_lookup_server", pdc_client_mpi_rank_g);
@@ -4461,6 +4475,7 @@ PDC_Client_region_release(pdcid_t remote_obj_id, struct _pdc_obj_info *object_in
     server_id         = ((pdc_metadata_t *)object_info->metadata)->data_server_id;
     meta_server_id    = PDC_get_server_by_obj_id(remote_obj_id, pdc_server_num_g);
     in.meta_server_id = meta_server_id;
+    in.lock_mode      = PDC_BLOCK;
 
     // Debug statistics for counting number of messages sent to each server.
     debug_server_id_count[server_id]++;
@@ -4477,7 +4492,8 @@ PDC_Client_region_release(pdcid_t remote_obj_id, struct _pdc_obj_info *object_in
         PGOTO_ERROR(FAIL, "Dimension %lu is not supported", ndim);
 
     in.data_unit = PDC_get_var_type_size(data_type);
-    PDC_region_info_t_to_transfer_unit(region_info, &(in.region), in.data_unit);
+    if (PDC_region_info_t_to_transfer_unit(region_info, &(in.region), in.data_unit) != SUCCEED)
+        PGOTO_ERROR(FAIL, "PDC_CLIENT[%d]: invalid region", pdc_client_mpi_rank_g);
     if (PDC_Client_try_lookup_server(server_id, 0) != SUCCEED)
         PGOTO_ERROR(FAIL, "==CLIENT[%d]: ERROR with PDC_Client_try_lookup_server", pdc_client_mpi_rank_g);
 
@@ -4695,8 +4711,9 @@ PDC_Client_data_server_read_check(int server_id, uint32_t client_id, pdc_metadat
 
     // Dummy value fill
     in.client_id = client_id;
-    PDC_metadata_t_to_transfer_t(meta, &in.meta);
-    PDC_region_info_t_to_transfer(region, &in.region);
+    if (PDC_metadata_t_to_transfer_t(meta, &in.meta) != SUCCEED ||
+        PDC_region_info_t_to_transfer(region, &in.region) != SUCCEED)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: invalid metadata or region", pdc_client_mpi_rank_g);
 
     for (i = 0; i < region->ndim; i++) {
         read_size *= region->size[i];
@@ -4845,8 +4862,9 @@ PDC_Client_data_server_read(struct pdc_request *request)
     in.cache_percentage = cache_percentage;
     if (request->n_update == 0)
         request->n_update = 1; // Only set to default value if it is not set prior
-    PDC_metadata_t_to_transfer_t(meta, &in.meta);
-    PDC_region_info_t_to_transfer(region, &in.region);
+    if (PDC_metadata_t_to_transfer_t(meta, &in.meta) != SUCCEED ||
+        PDC_region_info_t_to_transfer(region, &in.region) != SUCCEED)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: invalid metadata or region", pdc_client_mpi_rank_g);
 
     if (PDC_Client_try_lookup_server(server_id, 0) != SUCCEED)
         PGOTO_ERROR(FAIL, "==CLIENT[%d]: ERROR with PDC_Client_try_lookup_server", pdc_client_mpi_rank_g);
@@ -4961,8 +4979,9 @@ PDC_Client_data_server_write_check(struct pdc_request *request, int *status)
                     pdc_server_num_g);
 
     in.client_id = pdc_client_mpi_rank_g;
-    PDC_metadata_t_to_transfer_t(meta, &in.meta);
-    PDC_region_info_t_to_transfer(region, &in.region);
+    if (PDC_metadata_t_to_transfer_t(meta, &in.meta) != SUCCEED ||
+        PDC_region_info_t_to_transfer(region, &in.region) != SUCCEED)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: invalid metadata or region", pdc_client_mpi_rank_g);
 
     for (i = 0; i < region->ndim; i++) {
         write_size *= region->size[i];
@@ -5130,8 +5149,9 @@ PDC_Client_data_server_write(struct pdc_request *request)
     in.nclient   = n_client;
     in.nupdate   = n_update;
     in.shm_addr  = request->shm_addr;
-    PDC_metadata_t_to_transfer_t(meta, &in.meta);
-    PDC_region_info_t_to_transfer(region, &in.region);
+    if (PDC_metadata_t_to_transfer_t(meta, &in.meta) != SUCCEED ||
+        PDC_region_info_t_to_transfer(region, &in.region) != SUCCEED)
+        PGOTO_ERROR(FAIL, "==PDC_CLIENT[%d]: invalid metadata or region", pdc_client_mpi_rank_g);
 
     if (PDC_Client_try_lookup_server(server_id, 0) != SUCCEED)
         PGOTO_ERROR(FAIL, "==CLIENT[%d]: ERROR with PDC_Client_try_lookup_server", pdc_client_mpi_rank_g);
@@ -6318,6 +6338,7 @@ PDC_send_region_storage_meta_shm(uint32_t server_id, int n, region_storage_meta_
         PGOTO_ERROR(FAIL, "Could not create bulk data handle");
 
     /* Fill input structure */
+    memset(&bulk_rpc_in, 0, sizeof(bulk_rpc_in));
     bulk_rpc_in.cnt         = n;
     bulk_rpc_in.origin      = pdc_client_mpi_rank_g;
     bulk_rpc_in.bulk_handle = bulk_handle;
-- 
2.43.0


From 30439c4d3b8558a4ab2068a805562a95e6989783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:18 +0000
Subject: [PATCH 54/60] fix: error paths answered with reply fields that were
 never set, and a region was read through NULL before it was tested

---
 src/server/pdc_client_server_common.c  | 6 +++++-
 src/server/pdc_server_metadata.c       | 9 +++++++++
 src/server/pdc_server_metadata_index.c | 2 +-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_client_server_common.c b/src/server/pdc_client_server_common.c
index b1a7c1f..eb99b8b 100644
--- a/src/server/pdc_client_server_common.c
+++ b/src/server/pdc_client_server_common.c
@@ -801,13 +801,14 @@ perr_t
 PDC_region_info_t_to_transfer(struct pdc_region_info *region, region_info_transfer_t *transfer)
 {
     perr_t ret_value = SUCCEED;
-    size_t ndim      = region->ndim;
+    size_t ndim;
 
     FUNC_ENTER(NULL);
 
     if (NULL == region || NULL == transfer)
         PGOTO_ERROR(FAIL, "PDC_region_info_t_to_transfer(): NULL input!");
 
+    ndim = region->ndim;
     if (ndim <= 0 || ndim >= 5)
         PGOTO_ERROR(FAIL, "PDC_region_info_t_to_transfer() unsupported dim: %lu", ndim);
 
@@ -1739,6 +1740,7 @@ HG_TEST_RPC_CB(metadata_query, handle)
         PDC_metadata_t_to_transfer_t(query_result, &out.ret);
     }
     else {
+        memset(&out.ret, 0, sizeof(out.ret));
         out.ret.user_id        = -1;
         out.ret.data_type      = -1;
         out.ret.obj_id         = 0;
@@ -4373,6 +4375,7 @@ HG_TEST_RPC_CB(get_remote_metadata, handle)
     if (meta != NULL)
         PDC_metadata_t_to_transfer_t(meta, &out.ret);
     else {
+        memset(&out.ret, 0, sizeof(out.ret));
         out.ret.user_id       = -1;
         out.ret.data_type     = -1;
         out.ret.obj_id        = 0;
@@ -5077,6 +5080,7 @@ HG_TEST_RPC_CB(get_metadata_by_id, handle)
         PDC_metadata_t_to_transfer_t(target, &out.res_meta);
     else {
         printf("==PDC_SERVER: no matching metadata of obj_id=%" PRIu64 "\n", in.obj_id);
+        memset(&out.res_meta, 0, sizeof(out.res_meta));
         out.res_meta.user_id       = -1;
         out.res_meta.obj_id        = 0;
         out.res_meta.cont_id       = 0;
diff --git a/src/server/pdc_server_metadata.c b/src/server/pdc_server_metadata.c
index 3806c10..66e28c6 100644
--- a/src/server/pdc_server_metadata.c
+++ b/src/server/pdc_server_metadata.c
@@ -688,6 +688,8 @@ PDC_Server_add_tag_metadata(metadata_add_tag_in_t *in, metadata_add_tag_out_t *o
 
     FUNC_ENTER(NULL);
 
+    out->ret = -1;
+
 #ifdef ENABLE_TIMING
     // Timing
     struct timeval pdc_timer_start;
@@ -808,6 +810,8 @@ PDC_Server_update_metadata(metadata_update_in_t *in, metadata_update_out_t *out)
 
     FUNC_ENTER(NULL);
 
+    out->ret = -1;
+
 #ifdef ENABLE_TIMING
     // Timing
     struct timeval pdc_timer_start;
@@ -1083,6 +1087,8 @@ PDC_delete_metadata_from_hash_table(metadata_delete_in_t *in, metadata_delete_ou
 
     FUNC_ENTER(NULL);
 
+    out->ret = -1;
+
 #ifdef ENABLE_TIMING
     // Timing
     struct timeval pdc_timer_start;
@@ -1220,6 +1226,8 @@ PDC_insert_metadata_to_hash_table(gen_obj_id_in_t *in, gen_obj_id_out_t *out)
 
     FUNC_ENTER(NULL);
 
+    out->obj_id = 0;
+
 #ifdef ENABLE_TIMING
     // Timing
     struct timeval pdc_timer_start;
@@ -2720,6 +2728,7 @@ PDC_Server_get_storage_meta_by_names(query_read_names_args_t *args)
     }
 
     /* Fill input structure */
+    memset(&bulk_rpc_in, 0, sizeof(bulk_rpc_in));
     bulk_rpc_in.cnt         = total_region;
     bulk_rpc_in.seq_id      = args->client_seq_id;
     bulk_rpc_in.origin      = pdc_server_rank_g;
diff --git a/src/server/pdc_server_metadata_index.c b/src/server/pdc_server_metadata_index.c
index 9aad148..2c13e62 100644
--- a/src/server/pdc_server_metadata_index.c
+++ b/src/server/pdc_server_metadata_index.c
@@ -713,7 +713,7 @@ PDC_Server_dart_perform_one_server(dart_perform_one_server_in_t *in, dart_perfor
     else if (ref_type == REF_SERVER_ID) {
         obj_locator = in->obj_server_ref;
     }
-    out->has_bulk = 0;
+    memset(out, 0, sizeof(*out));
     // printf("Respond to: in->op_type=%d\n", in->op_type );
     if (op_type == OP_INSERT) {
         metadata_index_create(attr_key, attr_val, obj_locator, hash_algo);
-- 
2.43.0


From 3f447bd800aeda36860f4ba5a334fdd8ac6f3a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:18 +0000
Subject: [PATCH 55/60] fix: bulk announcements between server and client
 carried fields never set, and a histogram never filled was tested

---
 src/server/pdc_server_region/pdc_server_data.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 2208aab..7086a8f 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -623,6 +623,8 @@ PDC_Data_Server_region_release(region_lock_in_t *in, region_lock_out_t *out)
 
     FUNC_ENTER(NULL);
 
+    out->ret = 0;
+
     /* time_t t; */
     /* struct tm tm; */
     /* t = time(NULL); */
@@ -2213,6 +2215,7 @@ PDC_Server_notify_client_multi_io_complete(uint32_t client_id, int client_seq_id
     }
 
     /* Fill input structure */
+    memset(&bulk_rpc_in, 0, sizeof(bulk_rpc_in));
     bulk_rpc_in.cnt         = n_completed;
     bulk_rpc_in.origin      = pdc_server_rank_g;
     bulk_rpc_in.seq_id      = client_seq_id;
@@ -3538,15 +3541,15 @@ PDC_Server_update_region_storagelocation_offset(region_list_t *region, int type)
         in.storage_location = region->storage_location;
         in.type             = type;
         in.has_hist         = 0;
+        memset(&in.hist, 0, sizeof(pdc_histogram_t));
         PDC_region_list_t_to_transfer(region, &(in.region));
 
         if (region->region_hist != NULL) {
             in.has_hist = 1;
-            memset(&in.hist, 0, sizeof(pdc_histogram_t));
             PDC_copy_hist(&in.hist, region->region_hist);
         }
 
-        if (in.hist.nbin == 0) {
+        if (in.has_hist == 1 && in.hist.nbin == 0) {
             printf("==PDC_SERVER[%d]: %s - ERROR sending hist to server %d with 0 bins\n", pdc_server_rank_g,
                    __func__, server_id);
         }
@@ -3905,6 +3908,7 @@ PDC_Server_update_region_storage_meta_bulk_with_cb(bulk_xfer_data_t *          b
         }
 
         /* Fill input structure */
+        memset(&bulk_rpc_in, 0, sizeof(bulk_rpc_in));
         bulk_rpc_in.origin      = pdc_server_rank_g;
         bulk_rpc_in.cnt         = bulk_data->idx;
         bulk_rpc_in.bulk_handle = bulk_handle;
@@ -5779,6 +5783,7 @@ PDC_Server_storage_meta_name_query_bulk_respond(const struct hg_cb_info *callbac
     }
 
     /* Fill input structure */
+    memset(&bulk_rpc_in, 0, sizeof(bulk_rpc_in));
     bulk_rpc_in.cnt         = query_args->n_res;
     bulk_rpc_in.origin      = pdc_server_rank_g;
     bulk_rpc_in.bulk_handle = bulk_handle;
@@ -8004,6 +8009,8 @@ PDC_Server_send_coords_to_client(query_task_t *task)
 
     FUNC_ENTER(NULL);
 
+    memset(&in, 0, sizeof(in));
+
     client_id = task->client_id;
     if (client_id >= pdc_client_num_g) {
         printf("==PDC_SERVER[%d]: %s - client_id %d invalid!\n", pdc_server_rank_g, __func__, client_id);
@@ -8125,6 +8132,7 @@ PDC_Server_send_coords_to_server(query_task_t *task)
     }
 
     // Fill input structure
+    memset(&in, 0, sizeof(in));
     in.ndim        = task->ndim;
     in.cnt         = task->query->sel->nhits;
     in.seq_id      = task->query_id;
@@ -8263,6 +8271,7 @@ PDC_send_data_to_client(int client_id, void *buf, size_t ndim, size_t unit_size,
         }
     }
 
+    memset(&in, 0, sizeof(in));
     in.ndim        = ndim;
     in.cnt         = count;
     in.seq_id2     = client_seq_id;
@@ -9339,6 +9348,7 @@ PDC_Server_send_read_coords_to_server(int server_id, uint64_t *coord, uint64_t n
     }
 
     // Fill input structure
+    memset(&in, 0, sizeof(in));
     in.ndim        = ndim;
     in.cnt         = ncoords;
     in.seq_id      = query_id;
-- 
2.43.0


From 216ac567d8c5b847f2c146f2c76567147c1ee03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:20 +0000
Subject: [PATCH 56/60] fix: creation lost the data type and the consistency,
 opening an absent object read through NULL and left fields unset

---
 src/api/pdc_client_connect.c |  1 +
 src/api/pdc_obj/pdc_obj.c    | 12 +++++++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/api/pdc_client_connect.c b/src/api/pdc_client_connect.c
index fa3adb7..996bf72 100644
--- a/src/api/pdc_client_connect.c
+++ b/src/api/pdc_client_connect.c
@@ -2717,6 +2717,7 @@ PDC_Client_send_name_recv_id(const char *obj_name, uint64_t cont_id, pdcid_t obj
     in.data_type             = create_prop->obj_prop_pub->type;
     in.data.data_server_id   = PDC_CLIENT_DATA_SERVER();
     in.data.region_partition = create_prop->obj_prop_pub->region_partition;
+    in.data.consistency      = create_prop->obj_prop_pub->consistency;
     // printf("prepare for sending region partition %d with obj name %s\n", (int)in.data.region_partition,
     // obj_name);
     *data_server_id = in.data.data_server_id;
diff --git a/src/api/pdc_obj/pdc_obj.c b/src/api/pdc_obj/pdc_obj.c
index 0aeee89..f8f7da1 100644
--- a/src/api/pdc_obj/pdc_obj.c
+++ b/src/api/pdc_obj/pdc_obj.c
@@ -216,7 +216,8 @@ PDC_Client_attach_metadata_to_local_obj(const char *obj_name, uint64_t obj_id, u
     if (NULL != obj_info->obj_pt->data_loc)
 
         strcpy(((pdc_metadata_t *)obj_info->metadata)->data_location, obj_info->obj_pt->data_loc);
-    ((pdc_metadata_t *)obj_info->metadata)->ndim = obj_info->obj_pt->obj_prop_pub->ndim;
+    ((pdc_metadata_t *)obj_info->metadata)->data_type = obj_info->obj_pt->obj_prop_pub->type;
+    ((pdc_metadata_t *)obj_info->metadata)->ndim      = obj_info->obj_pt->obj_prop_pub->ndim;
     if (NULL != obj_info->obj_pt->obj_prop_pub->dims)
         memcpy(((pdc_metadata_t *)obj_info->metadata)->dims, obj_info->obj_pt->obj_prop_pub->dims,
                sizeof(uint64_t) * obj_info->obj_pt->obj_prop_pub->ndim);
@@ -542,10 +543,11 @@ PDCobj_open_common(const char *obj_name, pdcid_t pdc, int is_col)
 
     FUNC_ENTER(NULL);
 
-    p = (struct _pdc_obj_info *)PDC_malloc(sizeof(struct _pdc_obj_info));
+    p = (struct _pdc_obj_info *)PDC_calloc(1, sizeof(struct _pdc_obj_info));
     if (!p)
         PGOTO_ERROR(0, "PDC object memory allocation failed");
-    p->cont = (struct _pdc_cont_info *)PDC_calloc(1, sizeof(struct _pdc_cont_info));
+    p->location = PDC_OBJ_GLOBAL;
+    p->cont     = (struct _pdc_cont_info *)PDC_calloc(1, sizeof(struct _pdc_cont_info));
     if (!p->cont)
         PGOTO_ERROR(0, "PDC object container memory allocation failed");
     p->cont->cont_info_pub = (struct pdc_cont_info *)PDC_calloc(1, sizeof(struct pdc_cont_info));
@@ -579,7 +581,7 @@ PDCobj_open_common(const char *obj_name, pdcid_t pdc, int is_col)
     else
         ret = PDC_Client_query_metadata_name_timestep_agg(obj_name, 0, &out, &metadata_server_id);
 
-    if (ret == FAIL)
+    if (ret == FAIL || out == NULL)
         PGOTO_ERROR(0, "query object failed");
 
     obj_prop = PDCprop_create(PDC_OBJ_CREATE, pdc);
@@ -881,8 +883,8 @@ PDCprop_set_obj_dims(pdcid_t obj_prop, PDC_int_t ndim, uint64_t *dims)
             free(prop->obj_prop_pub->dims);
         }
         prop->obj_prop_pub->dims = (uint64_t *)malloc(ndim * sizeof(uint64_t));
-        prop->obj_prop_pub->ndim = ndim;
     }
+    prop->obj_prop_pub->ndim = ndim;
     memcpy(prop->obj_prop_pub->dims, dims, ndim * sizeof(uint64_t));
 
 done:
-- 
2.43.0


From 2996c33321c0409513f521185d4e49824f7dcb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:20 +0000
Subject: [PATCH 57/60] fix: an object property list was created, and copied,
 with fields never set

---
 src/api/pdc_obj/pdc_prop.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/pdc_obj/pdc_prop.c b/src/api/pdc_obj/pdc_prop.c
index 1bd33d6..c281b3e 100644
--- a/src/api/pdc_obj/pdc_prop.c
+++ b/src/api/pdc_obj/pdc_prop.c
@@ -99,6 +99,8 @@ PDCprop_create(pdc_prop_type_t type, pdcid_t pdcid)
         q->obj_prop_pub->type             = PDC_UNKNOWN;
         q->obj_prop_pub->region_partition = PDC_REGION_STATIC;
         q->obj_prop_pub->consistency      = PDC_CONSISTENCY_EVENTUAL;
+        q->user_id                        = 0;
+        q->kvtag                          = NULL;
         q->data_loc                       = NULL;
         q->app_name                       = NULL;
         q->time_step                      = 0;
@@ -147,6 +149,7 @@ PDCprop_obj_dup(pdcid_t prop_id)
         PGOTO_ERROR(0, "PDC object property memory allocation failed");
     if (info->app_name)
         q->app_name = strdup(info->app_name);
+    q->user_id   = info->user_id;
     q->time_step = info->time_step;
     if (info->tags)
         q->tags = strdup(info->tags);
@@ -161,6 +164,7 @@ PDCprop_obj_dup(pdcid_t prop_id)
     q->obj_prop_pub->dims             = (uint64_t *)malloc(info->obj_prop_pub->ndim * sizeof(uint64_t));
     q->obj_prop_pub->type             = PDC_UNKNOWN;
     q->obj_prop_pub->region_partition = info->obj_prop_pub->region_partition;
+    q->obj_prop_pub->consistency      = info->obj_prop_pub->consistency;
     for (i = 0; i < info->obj_prop_pub->ndim; i++)
         (q->obj_prop_pub->dims)[i] = (info->obj_prop_pub->dims)[i];
 
-- 
2.43.0


From a3a3b489dbc2d65a3d9041b2c20eae910894d26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:24 +0000
Subject: [PATCH 58/60] fix: query bounds, stored as the bits of their type,
 were read as doubles; a range joined with another bound lost one of its own

---
 src/api/pdc_query/pdc_query.c | 69 +++++++----------------------------
 1 file changed, 13 insertions(+), 56 deletions(-)

diff --git a/src/api/pdc_query/pdc_query.c b/src/api/pdc_query/pdc_query.c
index 25df43e..7b2d2ba 100644
--- a/src/api/pdc_query/pdc_query.c
+++ b/src/api/pdc_query/pdc_query.c
@@ -94,7 +94,7 @@ PDCquery_and(pdc_query_t *q1, pdc_query_t *q2)
         return NULL;
 
     // must be same obj, same type, lvalue < rvalue
-    if (q1->constraint && q2->constraint) {
+    if (q1->constraint && q2->constraint && !q1->constraint->is_range && !q2->constraint->is_range) {
         while (q1->constraint->obj_id == q2->constraint->obj_id &&
                q1->constraint->type == q2->constraint->type) {
 
@@ -111,83 +111,40 @@ PDCquery_and(pdc_query_t *q1, pdc_query_t *q2)
                   (q2->constraint->op == PDC_LT || q2->constraint->op == PDC_LTE))) {
                 break;
             }
-            /*
-                        switch (q1->constraint->type) {
-                            case PDC_FLOAT:
-                                flo = *((float *)&q1->constraint->value);
-                                fhi = *((float *)&q2->constraint->value);
-                                if (flo <= fhi)
-                                    can_combine = 1;
-                                break;
-                            case PDC_DOUBLE:
-                                dlo = *((double *)&q1->constraint->value);
-                                dhi = *((double *)&q2->constraint->value);
-                                if (dlo <= dhi)
-                                    can_combine = 1;
-                                break;
-                            case PDC_INT:
-                                ilo = *((int *)&q1->constraint->value);
-                                ihi = *((int *)&q2->constraint->value);
-                                if (ilo <= ihi)
-                                    can_combine = 1;
-                                break;
-                            case PDC_UINT:
-                                ulo = *((uint32_t *)&q1->constraint->value);
-                                uhi = *((uint32_t *)&q2->constraint->value);
-                                if (ulo <= uhi)
-                                    can_combine = 1;
-                                break;
-                            case PDC_INT64:
-                                i64lo = *((int64_t *)&q1->constraint->value);
-                                i64hi = *((int64_t *)&q2->constraint->value);
-                                if (i64lo <= i64hi)
-                                    can_combine = 1;
-                                break;
-                            case PDC_UINT64:
-                                ui64lo = *((uint64_t *)&q1->constraint->value);
-                                ui64hi = *((uint64_t *)&q2->constraint->value);
-                                if (ui64lo <= ui64hi)
-                                    can_combine = 1;
-                                break;
-                            default:
-                                PGOTO_ERROR(NULL, "== error with operator type!");
-                                break;
-                        } // End switch
-            */
             switch (q1->constraint->type) {
                 case PDC_FLOAT:
-                    flo = (float)q1->constraint->value;
-                    fhi = (float)q2->constraint->value;
+                    flo = *((float *)&q1->constraint->value);
+                    fhi = *((float *)&q2->constraint->value);
                     if (flo <= fhi)
                         can_combine = 1;
                     break;
                 case PDC_DOUBLE:
-                    dlo = (double)q1->constraint->value;
-                    dhi = (double)q2->constraint->value;
+                    dlo = *((double *)&q1->constraint->value);
+                    dhi = *((double *)&q2->constraint->value);
                     if (dlo <= dhi)
                         can_combine = 1;
                     break;
                 case PDC_INT:
-                    ilo = (int)q1->constraint->value;
-                    ihi = (int)q2->constraint->value;
+                    ilo = *((int *)&q1->constraint->value);
+                    ihi = *((int *)&q2->constraint->value);
                     if (ilo <= ihi)
                         can_combine = 1;
                     break;
                 case PDC_UINT:
-                    ulo = (uint32_t)q1->constraint->value;
-                    uhi = (uint32_t)q2->constraint->value;
+                    ulo = *((uint32_t *)&q1->constraint->value);
+                    uhi = *((uint32_t *)&q2->constraint->value);
                     if (ulo <= uhi)
                         can_combine = 1;
                     break;
                 case PDC_INT64:
-                    i64lo = (int64_t)q1->constraint->value;
-                    i64hi = (int64_t)q2->constraint->value;
+                    i64lo = *((int64_t *)&q1->constraint->value);
+                    i64hi = *((int64_t *)&q2->constraint->value);
                     if (i64lo <= i64hi)
                         can_combine = 1;
                     break;
                 case PDC_UINT64:
-                    ui64lo = (uint64_t)q1->constraint->value;
-                    ui64hi = (uint64_t)q2->constraint->value;
+                    ui64lo = *((uint64_t *)&q1->constraint->value);
+                    ui64hi = *((uint64_t *)&q2->constraint->value);
                     if (ui64lo <= ui64hi)
                         can_combine = 1;
                     break;
-- 
2.43.0


From b082f514ae7e44373748221634ba024df6e3807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:24 +0000
Subject: [PATCH 59/60] fix: data queries: bounds of ranges and histograms,
 ends of regions, combinations by AND and OR, nested combinations

---
 .../pdc_server_region/pdc_server_data.c       | 255 ++++++++++--------
 1 file changed, 143 insertions(+), 112 deletions(-)

diff --git a/src/server/pdc_server_region/pdc_server_data.c b/src/server/pdc_server_region/pdc_server_data.c
index 7086a8f..0f203fe 100644
--- a/src/server/pdc_server_region/pdc_server_data.c
+++ b/src/server/pdc_server_region/pdc_server_data.c
@@ -6095,62 +6095,31 @@ PDC_region_has_hits_from_hist(pdc_query_constraint_t *constraint, pdc_histogram_
         printf("==PDC_SERVER[%d]: %s -  NULL input!\n", pdc_server_rank_g, __func__);
         return -1;
     }
-    /*
-        switch (constraint->type) {
-            case PDC_FLOAT:
-                value  = (double)(*((float *)&constraint->value));
-                value2 = (double)(*((float *)&constraint->value2));
-                break;
-            case PDC_DOUBLE:
-                value  = (double)(*((double *)&constraint->value));
-                value2 = (double)(*((double *)&constraint->value2));
-                break;
-            case PDC_INT:
-                value  = (double)(*((int *)&constraint->value));
-                value2 = (double)(*((int *)&constraint->value2));
-                break;
-            case PDC_UINT:
-                value  = (double)(*((uint32_t *)&constraint->value));
-                value2 = (double)(*((uint32_t *)&constraint->value2));
-                break;
-            case PDC_INT64:
-                value  = (double)(*((int64_t *)&constraint->value));
-                value2 = (double)(*((int64_t *)&constraint->value2));
-                break;
-            case PDC_UINT64:
-                value  = (double)(*((uint64_t *)&constraint->value));
-                value2 = (double)(*((uint64_t *)&constraint->value2));
-                break;
-            default:
-                printf("==PDC_SERVER[%d]: %s - error with operator type!\n", pdc_server_rank_g, __func__);
-                return -1;
-        }
-    */
     switch (constraint->type) {
         case PDC_FLOAT:
-            value  = (double)constraint->value;
-            value2 = (double)constraint->value2;
+            value  = (double)(*((float *)&constraint->value));
+            value2 = (double)(*((float *)&constraint->value2));
             break;
         case PDC_DOUBLE:
-            value  = (double)constraint->value;
-            value2 = (double)constraint->value2;
+            value  = (double)(*((double *)&constraint->value));
+            value2 = (double)(*((double *)&constraint->value2));
             break;
         case PDC_INT:
-            value  = (double)constraint->value;
-            value2 = (double)constraint->value2;
+            value  = (double)(*((int *)&constraint->value));
+            value2 = (double)(*((int *)&constraint->value2));
             break;
         case PDC_UINT:
-            value  = (double)constraint->value;
-            value2 = (double)constraint->value2;
+            value  = (double)(*((uint32_t *)&constraint->value));
+            value2 = (double)(*((uint32_t *)&constraint->value2));
             break;
 
         case PDC_INT64:
-            value  = (double)constraint->value;
-            value2 = (double)constraint->value2;
+            value  = (double)(*((int64_t *)&constraint->value));
+            value2 = (double)(*((int64_t *)&constraint->value2));
             break;
         case PDC_UINT64:
-            value  = (double)constraint->value;
-            value2 = (double)constraint->value2;
+            value  = (double)(*((uint64_t *)&constraint->value));
+            value2 = (double)(*((uint64_t *)&constraint->value2));
             break;
         default:
             printf("==PDC_SERVER[%d]: %s - error with operator type!\n", pdc_server_rank_g, __func__);
@@ -6479,7 +6448,7 @@ coord_to_region_index(size_t ndim, uint64_t *coord, region_list_t *region, int u
 {
     uint64_t off = 0;
 
-    if (ndim == 0 || coord == NULL || region == NULL || region->start[0] == 0 || region->count[0] == 0) {
+    if (ndim == 0 || coord == NULL || region == NULL || region->count[0] == 0) {
         printf("==PDC_SERVER[%d]: %s - input NULL!\n", pdc_server_rank_g, __func__);
         return 0;
     }
@@ -6513,7 +6482,7 @@ is_coord_within_region(int ndim, uint64_t *coords, region_list_t *region_constra
         coord[i] = coords[i];
         coord[i] *= unit_size;
         if (coord[i] < region_constraint->start[i] ||
-            coord[i] > region_constraint->start[i] + region_constraint->count[i]) {
+            coord[i] >= region_constraint->start[i] + region_constraint->count[i]) {
             return -1;
         }
     }
@@ -6536,13 +6505,30 @@ is_idx_within_region(uint64_t idx, region_list_t *region, region_list_t *region_
         coord[i] *= unit_size;
         coord[i] += region->start[i];
         if (coord[i] < region_constraint->start[i] ||
-            coord[i] > region_constraint->start[i] + region_constraint->count[i]) {
+            coord[i] >= region_constraint->start[i] + region_constraint->count[i]) {
             return -1;
         }
     }
     return 1;
 }
 
+/* Drop the hits that lie in a region known to have none for the condition being combined with AND */
+static void
+PDC_sel_remove_region_hits(pdc_selection_t *sel, region_list_t *region, int unit_size)
+{
+    uint64_t i, n = 0;
+    size_t   ndim = region->ndim;
+
+    for (i = 0; i < sel->nhits; i++) {
+        if (is_coord_within_region(ndim, &sel->coords[i * ndim], region, unit_size) == 1)
+            continue;
+        if (i != n)
+            memcpy(&sel->coords[n * ndim], &sel->coords[i * ndim], ndim * sizeof(uint64_t));
+        n++;
+    }
+    sel->nhits = n;
+}
+
 int
 compare_coords_1d(const void *a, const void *b)
 {
@@ -6695,7 +6681,7 @@ compare_coords_3d(const void *a, const void *b)
             iii = jjj = 0;                                                                                   \
             if (has_dup > 0) {                                                                               \
                 for (idx = 0; idx < (_sel)->nhits; idx++) {                                                  \
-                    while ((_sel)->coords[idx * (_ndim)] == ULLONG_MAX && idx < (_sel)->nhits) {             \
+                    while (idx < (_sel)->nhits && (_sel)->coords[idx * (_ndim)] == ULLONG_MAX) {             \
                         iii++;                                                                               \
                         idx++;                                                                               \
                     }                                                                                        \
@@ -6831,7 +6817,7 @@ compare_coords_3d(const void *a, const void *b)
             iii = jjj = 0;                                                                                   \
             if (has_dup > 0) {                                                                               \
                 for (idx = 0; idx < (_sel)->nhits; idx++) {                                                  \
-                    while ((_sel)->coords[idx * (_ndim)] == ULLONG_MAX && idx < (_sel)->nhits) {             \
+                    while (idx < (_sel)->nhits && (_sel)->coords[idx * (_ndim)] == ULLONG_MAX) {             \
                         iii++;                                                                               \
                         idx++;                                                                               \
                     }                                                                                        \
@@ -7269,9 +7255,17 @@ done:
 
 #endif
 
+static void
+PDC_query_clear_invalid_regions(query_task_t *task)
+{
+    free(task->invalid_region_ids);
+    task->invalid_region_ids = NULL;
+    task->ninvalid_region    = 0;
+}
+
 static perr_t
-PDC_Server_query_evaluate_merge_opt(pdc_query_t *query, query_task_t *task, pdc_query_t *left,
-                                    pdc_query_combine_op_t combine_op)
+PDC_Server_query_evaluate_merge_opt(pdc_query_t *query, query_task_t *task,
+                                    pdc_query_t *left ATTRIBUTE(unused), pdc_query_combine_op_t combine_op)
 {
     perr_t           ret_value = SUCCEED;
     region_list_t *  region_elt, *region_list_head, *cache_region, tmp_region, *region_constraint = NULL;
@@ -7356,61 +7350,30 @@ PDC_Server_query_evaluate_merge_opt(pdc_query_t *query, query_task_t *task, pdc_
 
     // Check if there is a range query that we can combine the evaluation
     if (query->constraint->is_range == 1) {
-        /*
-    switch (query->constraint->type) {
-
-                    case PDC_FLOAT:
-                        flo = *((float *)&query->constraint->value);
-                        fhi = *((float *)&query->constraint->value2);
-                        break;
-                    case PDC_DOUBLE:
-                        dlo = *((double *)&query->constraint->value);
-                        dhi = *((double *)&query->constraint->value2);
-                        break;
-                    case PDC_INT:
-                        ilo = *((int *)&query->constraint->value);
-                        ihi = *((int *)&query->constraint->value2);
-                        break;
-                    case PDC_UINT:
-                        ulo = *((uint32_t *)&query->constraint->value);
-                        uhi = *((uint32_t *)&query->constraint->value2);
-                        break;
-                    case PDC_INT64:
-                        i64lo = *((int64_t *)&query->constraint->value);
-                        i64hi = *((int64_t *)&query->constraint->value2);
-                        break;
-                    case PDC_UINT64:
-                        ui64lo = *((uint64_t *)&query->constraint->value);
-                        ui64hi = *((uint64_t *)&query->constraint->value2);
-                        break;
-                    default:
-                        printf("==PDC_SERVER[%d]: %s - error with operator type!\n", pdc_server_rank_g,
-           __func__); ret_value = FAIL; goto done; } // End switch
-        */
         switch (query->constraint->type) {
             case PDC_FLOAT:
-                flo = (float)query->constraint->value;
-                fhi = (float)query->constraint->value2;
+                flo = *((float *)&query->constraint->value);
+                fhi = *((float *)&query->constraint->value2);
                 break;
             case PDC_DOUBLE:
-                dlo = (double)query->constraint->value;
-                dhi = (double)query->constraint->value2;
+                dlo = *((double *)&query->constraint->value);
+                dhi = *((double *)&query->constraint->value2);
                 break;
             case PDC_INT:
-                ilo = (int)query->constraint->value;
-                ihi = (int)query->constraint->value2;
+                ilo = *((int *)&query->constraint->value);
+                ihi = *((int *)&query->constraint->value2);
                 break;
             case PDC_UINT:
-                ulo = (uint32_t)query->constraint->value;
-                uhi = (uint32_t)query->constraint->value2;
+                ulo = *((uint32_t *)&query->constraint->value);
+                uhi = *((uint32_t *)&query->constraint->value2);
                 break;
             case PDC_INT64:
-                i64lo = (int64_t)query->constraint->value;
-                i64hi = (int64_t)query->constraint->value2;
+                i64lo = *((int64_t *)&query->constraint->value);
+                i64hi = *((int64_t *)&query->constraint->value2);
                 break;
             case PDC_UINT64:
-                ui64lo = (uint64_t)query->constraint->value;
-                ui64hi = (uint64_t)query->constraint->value2;
+                ui64lo = *((uint64_t *)&query->constraint->value);
+                ui64hi = *((uint64_t *)&query->constraint->value2);
                 break;
             default:
                 printf("==PDC_SERVER[%d]: %s - error with operator type!\n", pdc_server_rank_g, __func__);
@@ -7533,8 +7496,10 @@ PDC_Server_query_evaluate_merge_opt(pdc_query_t *query, query_task_t *task, pdc_
                         break;
                     }
                 }
-                if (can_skip == 1)
+                if (can_skip == 1) {
+                    PDC_sel_remove_region_hits(sel, region_elt, unit_size);
                     continue;
+                }
             }
 
             // Skip non-overlap regions with the region constraint
@@ -7569,6 +7534,8 @@ PDC_Server_query_evaluate_merge_opt(pdc_query_t *query, query_task_t *task, pdc_
                         task->invalid_region_ids[task->ninvalid_region] = region_iter;
                         task->ninvalid_region++;
                     }
+                    if (combine_op == PDC_QUERY_AND)
+                        PDC_sel_remove_region_hits(sel, region_elt, unit_size);
                     continue;
                 }
             }
@@ -7662,23 +7629,20 @@ PDC_Server_query_evaluate_merge_opt(pdc_query_t *query, query_task_t *task, pdc_
         } // End DL_FOREACH
     }     // End not use fastbit
 
-    if (n_eval_region == 0 && combine_op == PDC_QUERY_AND) {
-        if (sel->nhits > 0) {
-            sel->nhits = 0;
-            free(sel->coords);
-            sel->coords_alloc = 0;
-            sel->coords       = NULL;
-        }
-    }
+    if (n_eval_region == 0 && combine_op == PDC_QUERY_AND)
+        sel->nhits = 0;
 
 #ifdef ENABLE_TIMING
     if (pdc_server_rank_g == 0 || pdc_server_rank_g == 1)
         gettimeofday(&pdc_timer_start1, 0);
 #endif
 
+    // A region without hits for this condition may have hits for the one it is combined with
+    if (combine_op == PDC_QUERY_OR)
+        PDC_query_clear_invalid_regions(task);
+
     // Remove duplicates
-    if (combine_op == PDC_QUERY_OR && sel->nhits > 1 &&
-        left->constraint->obj_id != query->constraint->obj_id) {
+    if (combine_op == PDC_QUERY_OR && sel->nhits > 1) {
         if (ndim == 1) {
             qsort(sel->coords, sel->nhits, sizeof(uint64_t), compare_coords_1d);
         }
@@ -7737,16 +7701,90 @@ PDC_query_visit_all_with_cb_arg(pdc_query_t *query, void (*func)(pdc_query_t *,
     return;
 }
 
+void
+attach_sel_to_query(pdc_query_t *query, void *sel)
+{
+    if (query != NULL)
+        query->sel = sel;
+}
+
+/* Combine the hits of a nested combination of conditions into those of the query it is part of */
+static perr_t
+PDC_sel_combine(pdc_selection_t *sel, pdc_selection_t *sub, int ndim, pdc_query_combine_op_t combine_op)
+{
+    perr_t    ret_value = SUCCEED;
+    size_t    elem_size = ndim * sizeof(uint64_t);
+    uint64_t  i, n = 0, total = sel->nhits + sub->nhits;
+    uint64_t *coords;
+    int       is_dup;
+
+    if (total == 0)
+        goto done;
+
+    if (total * ndim > sel->coords_alloc) {
+        coords = (uint64_t *)realloc(sel->coords, total * elem_size);
+        if (NULL == coords) {
+            printf("==PDC_SERVER[%d]: %s - error with realloc!\n", pdc_server_rank_g, __func__);
+            ret_value = FAIL;
+            goto done;
+        }
+        sel->coords       = coords;
+        sel->coords_alloc = total * ndim;
+    }
+    memcpy(&sel->coords[sel->nhits * ndim], sub->coords, sub->nhits * elem_size);
+    qsort(sel->coords, total, elem_size,
+          ndim == 1 ? compare_coords_1d : (ndim == 2 ? compare_coords_2d : compare_coords_3d));
+
+    // Each side has an element at most once: both have it when it is there twice
+    for (i = 0; i < total; i++) {
+        is_dup = i + 1 < total &&
+                 memcmp(&sel->coords[i * ndim], &sel->coords[(i + 1) * ndim], elem_size) == 0;
+        if (is_dup || combine_op == PDC_QUERY_OR) {
+            if (n != i)
+                memcpy(&sel->coords[n * ndim], &sel->coords[i * ndim], elem_size);
+            n++;
+        }
+        if (is_dup)
+            i++;
+    }
+    sel->nhits = n;
+
+done:
+    return ret_value;
+}
+
 void
 PDC_query_visit(pdc_query_t *query,
                 perr_t (*func)(pdc_query_t *, query_task_t *, pdc_query_t *, pdc_query_combine_op_t),
                 query_task_t *arg, pdc_query_t *left, pdc_query_combine_op_t combine_op)
 {
+    pdc_selection_t *sel, sub;
+
     if (NULL == query)
         return;
 
     PDC_query_visit(query->left, func, arg, left, combine_op);
-    PDC_query_visit(query->right, func, arg, query->left, query->combine_op);
+
+    if (query->right != NULL && query->right->left != NULL && query->right->combine_op != query->combine_op) {
+        // The right side is a different combination, which has to be evaluated on its own first
+        sel = query->sel;
+        memset(&sub, 0, sizeof(pdc_selection_t));
+        sub.coords_alloc = 8192;
+        sub.coords       = (uint64_t *)calloc(sub.coords_alloc, sizeof(uint64_t));
+        if (NULL == sub.coords) {
+            printf("==PDC_SERVER[%d]: %s - error with calloc!\n", pdc_server_rank_g, __func__);
+            return;
+        }
+        PDC_query_visit_all_with_cb_arg(query->right, attach_sel_to_query, &sub);
+        PDC_query_clear_invalid_regions(arg);
+        PDC_query_visit(query->right, func, arg, NULL, PDC_QUERY_NONE);
+        PDC_query_clear_invalid_regions(arg);
+        PDC_sel_combine(sel, &sub, arg->ndim, query->combine_op);
+        PDC_query_visit_all_with_cb_arg(query->right, attach_sel_to_query, sel);
+        free(sub.coords);
+    }
+    else
+        PDC_query_visit(query->right, func, arg, query->left, query->combine_op);
 
     if (NULL == query->left && NULL == query->right)
         func(query, arg, left, combine_op);
@@ -7802,13 +7840,6 @@ attach_cache_storage_region_to_query(pdc_query_t *query)
     return SUCCEED;
 }
 
-void
-attach_sel_to_query(pdc_query_t *query, void *sel)
-{
-    if (query != NULL)
-        query->sel = sel;
-}
-
 perr_t
 attach_local_storage_region_to_query(pdc_query_t *query)
 
-- 
2.43.0


From a19dce8cbe30b397885e8e8e6dc48abed77dadde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:18 +0000
Subject: [PATCH 60/60] fix: histograms of constant data end, their bins meet,
 and merging spans every histogram

---
 src/api/pdc_analysis/pdc_hist_pkg.c | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/api/pdc_analysis/pdc_hist_pkg.c b/src/api/pdc_analysis/pdc_hist_pkg.c
index 75343a1..e660875 100644
--- a/src/api/pdc_analysis/pdc_hist_pkg.c
+++ b/src/api/pdc_analysis/pdc_hist_pkg.c
@@ -119,8 +119,15 @@ PDC_create_hist(pdc_var_type_t dtype, int nbin, double min, double max)
     if (nbin < 4 || min > max)
         PGOTO_DONE(NULL);
 
-    bin_incr = floor_power_of_2((max - min) / (nbin - 2)); // Excluding first and last bin (open ended)
-    nbin     = ceil((max - min) / bin_incr);
+    bin_incr = (max - min) / (nbin - 2); // Excluding first and last bin (open ended)
+    bin_incr = bin_incr > 0 ? floor_power_of_2(bin_incr) : 1.0;
+
+    // Inner bins start at the first multiple of bin_incr above min and end at the last one below max
+    min_bin = (floor(min / bin_incr) + 1) * bin_incr;
+    max_bin = (ceil(max / bin_incr) - 1) * bin_incr;
+    if (max_bin < min_bin)
+        max_bin = min_bin;
+    nbin = (int)((max_bin - min_bin) / bin_incr) + 2;
 
     hist        = (pdc_histogram_t *)malloc(sizeof(pdc_histogram_t));
     hist->incr  = bin_incr;
@@ -129,16 +136,6 @@ PDC_create_hist(pdc_var_type_t dtype, int nbin, double min, double max)
     hist->bin   = (uint64_t *)calloc(sizeof(uint64_t), nbin);
     hist->nbin  = nbin;
 
-    min_bin = floor(min);
-    while (min_bin <= min) {
-        min_bin += bin_incr;
-    }
-
-    max_bin = ceil(max);
-    while (max_bin >= max) {
-        max_bin -= bin_incr;
-    }
-
     hist->range[0] = min_bin;
     hist->range[1] = min_bin;
 
@@ -365,8 +362,8 @@ PDC_merge_hist(int n, pdc_histogram_t **hists)
     if (n == 0 || NULL == hists)
         PGOTO_DONE(NULL);
 
-    tot_min  = hists[0]->range[1];
-    tot_max  = hists[0]->range[2 * hists[0]->nbin - 2];
+    tot_min  = hists[0]->range[0];
+    tot_max  = hists[0]->range[2 * hists[0]->nbin - 1];
     incr_max = hists[0]->incr;
 
     for (i = 1; i < n; i++) {
-- 
2.43.0

