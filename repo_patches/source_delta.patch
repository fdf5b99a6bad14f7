From 9cd489d9afa55e97ad38f834790cf248d97303ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 001/116] fix: keep the exact size of the object after the old
 designated victim

When a varlen area grows, the old designated victim becomes an ordinary
free object and the following object is marked prev-free. Its header was
rewritten with the rounded-up size, so a record without fields silently
became a record of length 1.
---
 Db/dballoc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 2e9bf9b..7abf2a6 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -665,7 +665,7 @@ gint init_subarea_freespace(void* db, void* area_header, gint arrayindex) {
       nextobj = dv + dvsize;
       nextobjhead = dbfetch(db, nextobj);
       if( isnormalusedobject(nextobjhead) )
-        dbstore(db, nextobj, makeusedobjectsizeprevfree(getusedobjectsize(nextobjhead)));
+        dbstore(db, nextobj, makeusedobjectsizeprevfree(nextobjhead));
       if (freelist!=0) dbstore(db,freelist+2*sizeof(gint),dv); // update prev ptr
       dbstore(db,dv+sizeof(gint),freelist); // store previous freelist
       dbstore(db,dv+2*sizeof(gint),dbaddr(db,&freebuckets[dvindex])); // store ptr to previous
-- 
2.43.0


From 5e2b6003eba73d6073c2e2d7d7473f3dba091dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:54 +0000
Subject: [PATCH 002/116] fix: refuse record sizes that overflow or exceed the
 largest bucket

wg_alloc_gints() multiplied the requested length without checking for
overflow, so an enormous length returned a tiny object, and used index -1
of the bucket array for sizes beyond the last bucket.
---
 Db/dballoc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 7abf2a6..4c75150 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -883,8 +883,9 @@ gint wg_alloc_gints(void* db, void* area_header, gint nr) {
   db_area_header* areah;
 
   areah=(db_area_header*)area_header;
+  // cannot allocate negative sizes or sizes that do not fit in gint
+  if (nr<0 || nr>(gint)((((size_t) -1)>>1)/sizeof(gint))) return 0;
   wantedbytes=nr*sizeof(gint); // object sizes are stored in bytes
-  if (wantedbytes<0) return 0; // cannot allocate negative or zero sizes
   if (wantedbytes<=MIN_VARLENOBJ_SIZE) usedbytes=MIN_VARLENOBJ_SIZE;
   /* XXX: modifying the next line breaks encode_query_param_unistr().
    * Rewrite this using macros to reduce the chance of accidental breakage */
@@ -957,7 +958,9 @@ gint wg_alloc_gints(void* db, void* area_header, gint nr) {
     }
   }
   // next try to find first free object in var-length buckets (shorter first)
-  for(i=wg_freebuckets_index(db,usedbytes);i<EXACTBUCKETS_NR+VARBUCKETS_NR;i++) {
+  i=wg_freebuckets_index(db,usedbytes);
+  if (i<0) return 0; // larger than any bucket
+  for(;i<EXACTBUCKETS_NR+VARBUCKETS_NR;i++) {
     if (freebuckets[i]!=0) {
       size=getfreeobjectsize(dbfetch(db,freebuckets[i]));
       if (size==usedbytes) {
-- 
2.43.0


From 3c3d6d923a9b4e1603060671d95e48648a14a6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:33 +0000
Subject: [PATCH 003/116] fix: setting a field to a record checks for memory
 before changing anything

The list cell for the backlink was allocated last and never checked, so
running out of memory wrote to the start of the segment. Foreign values
that are refused and new fields that already hold data were also noticed
only after the journal entry was written or the old value had been taken
out of the indexes. Reserve the cell and do the checks first.
---
 Db/dbdata.c | 174 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 114 insertions(+), 60 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 66c3c3a..36d909b 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -617,6 +617,7 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 #ifdef USE_BACKLINKING
   gint backlink_list;           /** start of backlinks for this record */
   gint rec_enc = WG_ILLEGAL;    /** this record as encoded value. */
+  gint new_backlink = 0;        /** list cell reserved for the new backlink */
 #endif
   db_memsegment_header *dbh = dbmemsegh(db);
 #ifdef USE_CHILD_DB
@@ -627,11 +628,14 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   recordcheck(db,record,fieldnr,"wg_set_field");
 #endif
 
-#ifdef USE_DBLOG
-  /* Do not proceed before we've logged the operation */
-  if(dbh->logging.active) {
-    if(wg_log_set_field(db,record,fieldnr,data))
-      return -6; /* journal error, cannot write */
+#ifdef USE_CHILD_DB
+  /* Get the offset owner */
+  if(isptr(data)) {
+    offset_owner = get_ptr_owner(db, data);
+    if(!offset_owner) {
+      show_data_error(db, "External reference not recognized");
+      return -5;
+    }
   }
 #endif
 
@@ -639,6 +643,38 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   fieldadr=((gint*)record)+RECORD_HEADER_GINTS+fieldnr;
   fielddata=*fieldadr;
 
+#ifdef USE_BACKLINKING
+  /* A reference to another record needs a list cell. Reserve it before
+   * anything is changed, so that running out of memory has no effect.
+   */
+#ifdef USE_CHILD_DB
+  if(fielddata != data && wg_get_encoded_type(db, data) == WG_RECORDTYPE &&
+    offset_owner == dbmemseg(db)) {
+#else
+  if(fielddata != data && wg_get_encoded_type(db, data) == WG_RECORDTYPE) {
+#endif
+    new_backlink = wg_alloc_fixlen_object(db,
+      &(dbmemsegh(db)->listcell_area_header));
+    if(!new_backlink) {
+      show_data_error(db, "Cannot allocate a backlink");
+      return -4;
+    }
+  }
+#endif
+
+#ifdef USE_DBLOG
+  /* Do not proceed before we've logged the operation */
+  if(dbh->logging.active) {
+    if(wg_log_set_field(db,record,fieldnr,data)) {
+#ifdef USE_BACKLINKING
+      if(new_backlink)
+        wg_free_listcell(db, new_backlink);
+#endif
+      return -6; /* journal error, cannot write */
+    }
+  }
+#endif
+
   /* Skip changes if the value does not change */
   if(fielddata == data) {
     return 0;
@@ -653,8 +689,13 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
     dbh->index_control_area_header.index_table[fieldnr]) {
 #endif
-    if(wg_index_del_field(db, record, fieldnr) < -1)
+    if(wg_index_del_field(db, record, fieldnr) < -1) {
+#ifdef USE_BACKLINKING
+      if(new_backlink)
+        wg_free_listcell(db, new_backlink);
+#endif
       return -3; /* index error */
+    }
   }
 
   /* If there are backlinks, go up the chain and remove the reference
@@ -674,6 +715,8 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
         (gint *) offsettoptr(db, next->car),
         rec_enc, WG_COMPARE_REC_DEPTH-1);
       if(err) {
+        if(new_backlink)
+          wg_free_listcell(db, new_backlink);
         return -4; /* override the error code, for now. */
       }
       if(!next->cdr)
@@ -683,17 +726,6 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
-#ifdef USE_CHILD_DB
-  /* Get the offset owner */
-  if(isptr(data)) {
-    offset_owner = get_ptr_owner(db, data);
-    if(!offset_owner) {
-      show_data_error(db, "External reference not recognized");
-      return -5;
-    }
-  }
-#endif
-
 #ifdef USE_BACKLINKING
   /* Is the old field value a record pointer? If so, remove the backlink.
    * XXX: this can be optimized to use a custom macro instead of
@@ -743,19 +775,6 @@ setfld_backlink_removed:
   }
   (*fieldadr)=data; // store data to field
 
-  /* Update index after new value is written */
-#ifdef USE_INDEX_TEMPLATE
-  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
-    (dbh->index_control_area_header.index_table[fieldnr] ||\
-     dbh->index_control_area_header.index_template_table[fieldnr])) {
-#else
-  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
-    dbh->index_control_area_header.index_table[fieldnr]) {
-#endif
-    if(wg_index_add_field(db, record, fieldnr) < -1)
-      return -3;
-  }
-
 #ifdef USE_BACKLINKING
   /* Is the new field value a record pointer? If so, add a backlink */
 #ifdef USE_CHILD_DB
@@ -766,18 +785,29 @@ setfld_backlink_removed:
 #endif
     gint *rec = (gint *) wg_decode_record(db, data);
     gint *next_offset = rec + RECORD_BACKLINKS_POS;
-    gint new_offset = wg_alloc_fixlen_object(db,
-      &(dbmemsegh(db)->listcell_area_header));
-    gcell *new_cell = (gcell *) offsettoptr(db, new_offset);
+    gcell *new_cell = (gcell *) offsettoptr(db, new_backlink);
 
     while(*next_offset)
       next_offset = &(((gcell *) offsettoptr(db, *next_offset))->cdr);
     new_cell->car = ptrtooffset(db, record);
     new_cell->cdr = 0;
-    *next_offset = new_offset;
+    *next_offset = new_backlink;
   }
 #endif
 
+  /* Update index after new value is written */
+#ifdef USE_INDEX_TEMPLATE
+  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
+    (dbh->index_control_area_header.index_table[fieldnr] ||\
+     dbh->index_control_area_header.index_template_table[fieldnr])) {
+#else
+  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
+    dbh->index_control_area_header.index_table[fieldnr]) {
+#endif
+    if(wg_index_add_field(db, record, fieldnr) < -1)
+      return -3;
+  }
+
 #if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
   /* Create new entries in indexes in all referring records */
   if(backlink_list) {
@@ -824,6 +854,7 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   gint* strptr;
 #ifdef USE_BACKLINKING
   gint backlink_list;           /** start of backlinks for this record */
+  gint new_backlink = 0;        /** list cell reserved for the new backlink */
 #endif
   db_memsegment_header *dbh = dbmemsegh(db);
 #ifdef USE_CHILD_DB
@@ -834,14 +865,6 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   recordcheck(db,record,fieldnr,"wg_set_field");
 #endif
 
-#ifdef USE_DBLOG
-  /* Do not proceed before we've logged the operation */
-  if(dbh->logging.active) {
-    if(wg_log_set_field(db,record,fieldnr,data))
-      return -6; /* journal error, cannot write */
-  }
-#endif
-
 #ifdef USE_CHILD_DB
   /* Get the offset owner */
   if(isptr(data)) {
@@ -853,7 +876,6 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
-  /* Write new value */
   fieldadr=((gint*)record)+RECORD_HEADER_GINTS+fieldnr;
 #ifdef CHECK
   if(*fieldadr) {
@@ -861,6 +883,40 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
     return -2;
   }
 #endif
+
+#ifdef USE_BACKLINKING
+  /* A reference to another record needs a list cell. Reserve it before
+   * anything is changed, so that running out of memory has no effect.
+   */
+#ifdef USE_CHILD_DB
+  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE &&
+    offset_owner == dbmemseg(db)) {
+#else
+  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE) {
+#endif
+    new_backlink = wg_alloc_fixlen_object(db,
+      &(dbmemsegh(db)->listcell_area_header));
+    if(!new_backlink) {
+      show_data_error(db, "Cannot allocate a backlink");
+      return -4;
+    }
+  }
+#endif
+
+#ifdef USE_DBLOG
+  /* Do not proceed before we've logged the operation */
+  if(dbh->logging.active) {
+    if(wg_log_set_field(db,record,fieldnr,data)) {
+#ifdef USE_BACKLINKING
+      if(new_backlink)
+        wg_free_listcell(db, new_backlink);
+#endif
+      return -6; /* journal error, cannot write */
+    }
+  }
+#endif
+
+  /* Write new value */
   (*fieldadr)=data;
 
 #ifdef USE_CHILD_DB
@@ -873,19 +929,6 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
     ++(*(strptr+LONGSTR_REFCOUNT_POS));
   }
 
-  /* Update index after new value is written */
-#ifdef USE_INDEX_TEMPLATE
-  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
-    (dbh->index_control_area_header.index_table[fieldnr] ||\
-     dbh->index_control_area_header.index_template_table[fieldnr])) {
-#else
-  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
-    dbh->index_control_area_header.index_table[fieldnr]) {
-#endif
-    if(wg_index_add_field(db, record, fieldnr) < -1)
-      return -3;
-  }
-
 #ifdef USE_BACKLINKING
   /* Is the new field value a record pointer? If so, add a backlink */
 #ifdef USE_CHILD_DB
@@ -896,18 +939,29 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 #endif
     gint *rec = (gint *) wg_decode_record(db, data);
     gint *next_offset = rec + RECORD_BACKLINKS_POS;
-    gint new_offset = wg_alloc_fixlen_object(db,
-      &(dbmemsegh(db)->listcell_area_header));
-    gcell *new_cell = (gcell *) offsettoptr(db, new_offset);
+    gcell *new_cell = (gcell *) offsettoptr(db, new_backlink);
 
     while(*next_offset)
       next_offset = &(((gcell *) offsettoptr(db, *next_offset))->cdr);
     new_cell->car = ptrtooffset(db, record);
     new_cell->cdr = 0;
-    *next_offset = new_offset;
+    *next_offset = new_backlink;
   }
 #endif
 
+  /* Update index after new value is written */
+#ifdef USE_INDEX_TEMPLATE
+  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
+    (dbh->index_control_area_header.index_table[fieldnr] ||\
+     dbh->index_control_area_header.index_template_table[fieldnr])) {
+#else
+  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
+    dbh->index_control_area_header.index_table[fieldnr]) {
+#endif
+    if(wg_index_add_field(db, record, fieldnr) < -1)
+      return -3;
+  }
+
 #if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
   /* Create new entries in indexes in all referring records. Normal
    * usage scenario would be that the record is also new, so that
-- 
2.43.0


From 709146ea8c70d619b7b7fac9f13365fe36a6acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:33 +0000
Subject: [PATCH 004/116] fix: overwriting a record reference looks at the
 owner of the old value

wg_set_field() used the owner of the new value to decide whether the old
value's backlink must be removed, leaving a stale backlink when a local
reference was replaced by a foreign value, and failing (after changing
the indexes) when a foreign reference was replaced by a local value.
---
 Db/dbdata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 36d909b..572f990 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -734,7 +734,7 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 #ifdef USE_CHILD_DB
   /* Only touch local records */
   if(wg_get_encoded_type(db, fielddata) == WG_RECORDTYPE &&
-    offset_owner == dbmemseg(db)) {
+    get_ptr_owner(db, fielddata) == dbmemseg(db)) {
 #else
   if(wg_get_encoded_type(db, fielddata) == WG_RECORDTYPE) {
 #endif
-- 
2.43.0


From c079b33f2c722d2a06f4c789ea0100cfca992df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:33 +0000
Subject: [PATCH 005/116] fix: adding a row to a hash index checks that its
 list cell was allocated

---
 Db/dbhash.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 3051bc0..139d3eb 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -444,6 +444,12 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
   head_offset = (ha->arraystart)+(sizeof(gint) * hash);
   head = dbfetch(db, head_offset);
 
+  /* Reserve the list cell before changing anything */
+  rec_offset = wg_alloc_fixlen_object(db, &(dbh->listcell_area_header));
+  if(!rec_offset) {
+    return -1;
+  }
+
   /* Traverse the hash chain to check if there is a matching
    * hash string already
    */
@@ -461,6 +467,7 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
          &(dbh->indexhash_area_header),
         lengints + HASHIDX_HEADER_SIZE);
     if(!bucket) {
+      wg_free_listcell(db, rec_offset);
       return -1;
     }
 
@@ -484,7 +491,6 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
 
   /* Add the record offset to the list. */
   rec_head = dbfetch(db, bucket + HASHIDX_RECLIST_POS*sizeof(gint));
-  rec_offset = wg_alloc_fixlen_object(db, &(dbh->listcell_area_header));
   rec_cell = (gcell *) offsettoptr(db, rec_offset);
   rec_cell->car = offset;
   rec_cell->cdr = rec_head;
-- 
2.43.0


From 12960f671108a69145edbce7134a8db17f458187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:40 +0000
Subject: [PATCH 006/116] fix: a sorted index allocates the new node before
 displacing a row

When inserting into a full bounding node and no memory was left for the
new node, the row with the smallest value had already been moved out and
was silently lost from the index.
---
 Db/dbindex.c | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 65b9ddc..e93869f 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -500,6 +500,25 @@ static gint ttree_add_row(void *db, gint index_id, void *rec) {
       //get the minimum element from this node
       int i, j;
       gint cr, minvalue, minvaluerowoffset;
+      struct wg_tnode *glbnode = node;
+      gint newnode = 0;
+
+      /* The minimum moves to the node that holds the greatest lower bound -
+       * must be leaf (can be the initial bounding node). If there is no room
+       * in that node, allocate a new one before changing anything.
+       */
+      if(node->left_child_offset != 0){
+#ifndef TTREE_CHAINED_NODES
+        gint greatestlb = wg_ttree_find_glb_node(db,node->left_child_offset);
+#else
+        gint greatestlb = node->pred_offset;
+#endif
+        glbnode = (struct wg_tnode *)offsettoptr(db, greatestlb);
+      }
+      if(glbnode->number_of_elements >= WG_TNODE_ARRAY_SIZE){
+        newnode = wg_alloc_fixlen_object(db, &dbh->tnode_area_header);
+        if(newnode == 0)return -1;
+      }
 
       minvalue = node->current_min;
       minvaluerowoffset = node->array_of_values[0];
@@ -538,15 +557,7 @@ static gint ttree_add_row(void *db, gint index_id, void *rec) {
         }
       }
 
-      //proceed to the node that holds greatest lower bound - must be leaf (can be the initial bounding node)
-      if(node->left_child_offset != 0){
-#ifndef TTREE_CHAINED_NODES
-        gint greatestlb = wg_ttree_find_glb_node(db,node->left_child_offset);
-#else
-        gint greatestlb = node->pred_offset;
-#endif
-        node = (struct wg_tnode *)offsettoptr(db, greatestlb);
-      }
+      node = glbnode;
       //if the greatest lower bound node has room, insert value
       //otherwise make the new node as right child and put the value there
       if(node->number_of_elements < WG_TNODE_ARRAY_SIZE){
@@ -557,10 +568,7 @@ static gint ttree_add_row(void *db, gint index_id, void *rec) {
 
       }else{
         //create, initialize and save first value
-        struct wg_tnode *leaf;
-        gint newnode = wg_alloc_fixlen_object(db, &dbh->tnode_area_header);
-        if(newnode == 0)return -1;
-        leaf =(struct wg_tnode *)offsettoptr(db,newnode);
+        struct wg_tnode *leaf =(struct wg_tnode *)offsettoptr(db,newnode);
         leaf->parent_offset = ptrtooffset(db,node);
         leaf->left_subtree_height = 0;
         leaf->right_subtree_height = 0;
-- 
2.43.0


From decc8cba4e37644ce65fe934624f3ff8be1a02b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:52 +0000
Subject: [PATCH 007/116] fix: creating an index checks every allocation and
 undoes a failed attempt

Running out of memory while creating an index lost whole index lists,
wrote through offset 0 or reported success for an incomplete index, and
an invalid index type left a half-made index behind. The match record of
a template was entered into existing indexes as if it was data, and the
reference count of a new template was not initialised.
---
 Db/dbindex.c | 136 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 96 insertions(+), 40 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index e93869f..c3ca6de 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1388,6 +1388,8 @@ static gint create_ttree_index(void *db, gint index_id){
   /* allocate (+ init) root node for new index tree and save
    * the offset into index_array */
   node = wg_alloc_fixlen_object(db, &dbh->tnode_area_header);
+  if(!node)
+    return -1;
   nodest =(struct wg_tnode *)offsettoptr(db,node);
   nodest->parent_offset = 0;
   nodest->left_subtree_height = 0;
@@ -1418,7 +1420,10 @@ static gint create_ttree_index(void *db, gint index_id){
       continue;
     }
     if(MATCH_TEMPLATE(db, hdr, rec)) {
-      ttree_add_row(db, index_id, rec);
+      if(ttree_add_row(db, index_id, rec)) {
+        drop_ttree_index(db, index_id);
+        return -1;
+      }
       rowsprocessed++;
     }
     rec=wg_get_next_record(db,rec);
@@ -1641,12 +1646,14 @@ static gint create_hash_index(void *db, gint index_id){
          * from the rows that point to them.
          */
         if(is_plain_record(rec)) {
-          hash_add_row(db, index_id, rec);
+          if(hash_add_row(db, index_id, rec))
+            return -1;
           rowsprocessed++;
         }
       } else {
         /* Add all rows normally */
-        hash_add_row(db, index_id, rec);
+        if(hash_add_row(db, index_id, rec))
+          return -1;
         rowsprocessed++;
       }
     }
@@ -1726,15 +1733,15 @@ gint wg_search_hash(void *db, gint index_id, gint *values, gint count) {
  */
 static gint insert_into_list(void *db, gint *head, gint value) {
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint old = *head;
+  gint newelem = wg_alloc_fixlen_object(db, &dbh->listcell_area_header);
 
-  *head = wg_alloc_fixlen_object(db, &dbh->listcell_area_header);
-  if(*head) {
-    gcell *listelem = (gcell *) offsettoptr(db, *head);
+  if(newelem) {
+    gcell *listelem = (gcell *) offsettoptr(db, newelem);
     listelem->car = value;
-    listelem->cdr = old;
+    listelem->cdr = *head;
+    *head = newelem;
   }
-  return *head;
+  return newelem;
 }
 
 /** Delete from list
@@ -1752,6 +1759,23 @@ static void delete_from_list(void *db, gint *head) {
     ptrtooffset(db, listelem));
 }
 
+/** Remove a value from list
+ *
+ * helper function to delete the first element with the given value,
+ * if there is one. Takes address of a variable containing an offset
+ * to the first element.
+ */
+static void remove_from_list(void *db, gint *head, gint value) {
+  while(*head) {
+    gcell *listelem = (gcell *) offsettoptr(db, *head);
+    if(listelem->car == value) {
+      delete_from_list(db, head);
+      return;
+    }
+    head = &listelem->cdr;
+  }
+}
+
 #ifdef USE_INDEX_TEMPLATE
 
 /** Add index template
@@ -1834,22 +1858,32 @@ nextelem:
   rec = wg_create_raw_record(db, reclen);
   if(!rec)
     return 0;
+  meta = ((gint *) rec + RECORD_META_POS);
+  *meta |= (RECORD_META_NOTDATA | RECORD_META_MATCH);
   for(i=0; i<reclen; i++) {
-    if(wg_set_new_field(db, rec, i, matchrec[i]) < 0)
+    if(wg_set_new_field(db, rec, i, matchrec[i]) < 0) {
+      wg_delete_record(db, rec);
       return 0;
+    }
   }
-  meta = ((gint *) rec + RECORD_META_POS);
-  *meta |= (RECORD_META_NOTDATA | RECORD_META_MATCH);
 
   /* Add new template header */
   template_offset = wg_alloc_fixlen_object(db, &dbh->indextmpl_area_header);
+  if(!template_offset) {
+    wg_delete_record(db, rec);
+    return 0;
+  }
   tmpl = (wg_index_template *) offsettoptr(db, template_offset);
   tmpl->offset_matchrec = ptrtooffset(db, rec);
   tmpl->fixed_columns = fixed_columns;
+  tmpl->refcount = 0;
 
   /* Insert it into the template list */
-  if(!insert_into_list(db, ilist, template_offset))
+  if(!insert_into_list(db, ilist, template_offset)) {
+    wg_free_fixlen_object(db, &dbh->indextmpl_area_header, template_offset);
+    wg_delete_record(db, rec);
     return 0;
+  }
 
   return template_offset;
 }
@@ -2100,6 +2134,14 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
     return -1;
   }
 
+  /* Type validation. T-tree for JSON schema is an error, until proper
+   * implementation exists. */
+  if(type != WG_INDEX_TYPE_TTREE && type != WG_INDEX_TYPE_HASH &&\
+    type != WG_INDEX_TYPE_HASH_JSON) {
+    show_index_error(db, "Invalid index type");
+    return -1;
+  }
+
   if(sort_columns(sorted_cols, columns, col_count) < col_count) {
     show_index_error(db, "Duplicate columns not allowed");
     return -1;
@@ -2201,17 +2243,8 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
 
   /* Add new index header */
   index_id = wg_alloc_fixlen_object(db, &dbh->indexhdr_area_header);
-
-  for(i=0; i<col_count; i++) {
-    if(!insert_into_list(db, ilist[i], index_id)) {
-      if(i) {
-        /* XXX: need to clean up the earlier inserts :-( */
-        return -1;
-      } else {
-        return -1;
-      }
-    }
-  }
+  if(!index_id)
+    goto abort_template;
 
   /* Set up the header */
   hdr = (wg_index_header *) offsettoptr(db, index_id);
@@ -2223,26 +2256,23 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
   hdr->template_offset = template_offset;
 
   /* create the actual index */
-  switch(hdr->type) {
-    case WG_INDEX_TYPE_TTREE:
-      create_ttree_index(db, index_id);
-      break;
-    case WG_INDEX_TYPE_HASH:
-    case WG_INDEX_TYPE_HASH_JSON:
-      if(create_hash_index(db, index_id))
-        return -1;
-      break;
-    case WG_INDEX_TYPE_TTREE_JSON:
-      /* Return an error, until proper implementation exists */
-    default:
-      show_index_error(db, "Invalid index type");
-      return -1;
+  if(hdr->type == WG_INDEX_TYPE_TTREE) {
+    if(create_ttree_index(db, index_id))
+      goto abort_header;
+  } else {
+    if(create_hash_index(db, index_id))
+      goto abort_header;
+  }
+
+  for(i=0; i<col_count; i++) {
+    if(!insert_into_list(db, ilist[i], index_id))
+      goto abort_lists;
   }
 
   /* Add to master list */
   if(!insert_into_list(db,
      &dbh->index_control_area_header.index_list ,index_id))
-    return -1;
+    goto abort_lists;
 
 #ifdef USE_INDEX_TEMPLATE
   if(hdr->template_offset) {
@@ -2256,7 +2286,7 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
         if(!insert_into_list(db,
           &(dbh->index_control_area_header.index_template_table[i]),
           index_id))
-          return 0;
+          goto abort_lists;
       }
     }
   }
@@ -2270,6 +2300,32 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
 #endif
 
   return 0;
+
+abort_lists:
+  /* Out of memory, take back what was done so far. */
+  for(i=0; i<col_count; i++) {
+    remove_from_list(db,
+      &dbh->index_control_area_header.index_table[sorted_cols[i]], index_id);
+  }
+  remove_from_list(db, &dbh->index_control_area_header.index_list, index_id);
+#ifdef USE_INDEX_TEMPLATE
+  if(template_offset) {
+    for(i=0; i<reclen; i++) {
+      remove_from_list(db,
+        &dbh->index_control_area_header.index_template_table[i], index_id);
+    }
+  }
+#endif
+  if(type == WG_INDEX_TYPE_TTREE)
+    drop_ttree_index(db, index_id);
+abort_header:
+  wg_free_fixlen_object(db, &dbh->indexhdr_area_header, index_id);
+abort_template:
+#ifdef USE_INDEX_TEMPLATE
+  if(tmpl && !tmpl->refcount)
+    remove_index_template(db, template_offset);
+#endif
+  return -1;
 }
 
 
-- 
2.43.0


From ca4e2ed6e9836b00e6c8c200360ecf6ee21ed743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:52 +0000
Subject: [PATCH 008/116] fix: refusing to drop a hash index leaves the index
 as it was

---
 Db/dbindex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index c3ca6de..b5d73ce 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2348,6 +2348,11 @@ gint wg_drop_index(void *db, gint index_id){
     ilistelem = (gcell *) offsettoptr(db, *ilist);
     if(ilistelem->car == index_id) {
       hdr = (wg_index_header *) offsettoptr(db, index_id);
+      if(hdr->type == WG_INDEX_TYPE_HASH ||\
+        hdr->type == WG_INDEX_TYPE_HASH_JSON) {
+        /* Not implemented. Refuse before changing anything. */
+        return drop_hash_index(db, index_id);
+      }
       /* Delete current element */
       delete_from_list(db, ilist);
       break;
-- 
2.43.0


From b32e3f4e9ed9119bce05e6da848ec9bedfcbc28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:39 +0000
Subject: [PATCH 009/116] fix: a record reached along several references is
 re-indexed exactly once

---
 Db/dbdata.c  | 5 +++++
 Db/dbhash.c  | 4 ++--
 Db/dbindex.c | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 572f990..5a37acd 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -546,6 +546,11 @@ static gint restore_backlink_index_entries(void *db, gint *record,
     for(col=0; col<length; col++) {
       if(*(record + RECORD_HEADER_GINTS + col) == value) {
         if(dbh->index_control_area_header.index_table[col]) {
+          /* The record is visited once for every path that leads to it.
+           * Make sure that it is in the index only once.
+           */
+          if(wg_index_del_field(db, record, col) < -1)
+            return -1;
           if(wg_index_add_field(db, record, col) < -1)
             return -1;
         }
diff --git a/Db/dbhash.c b/Db/dbhash.c
index 139d3eb..3dbb44b 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -518,7 +518,7 @@ gint wg_idxhash_remove(void* db, db_hash_area_header *ha,
   /* Find the correct bucket. */
   bucket = find_idxhash_bucket(db, data, length, &bucket_offset);
   if(!bucket) {
-    return show_hash_error(db, "wg_idxhash_remove: Hash value not found.");
+    return -1; /* nothing to remove */
   }
 
   /* Remove the record offset from the list. */
@@ -534,7 +534,7 @@ gint wg_idxhash_remove(void* db, db_hash_area_header *ha,
     }
     next_offset = &(rec_cell->cdr);
   }
-  return show_hash_error(db, "wg_idxhash_remove: Offset not found");
+  return -1; /* nothing to remove */
 
 is_bucket_empty:
   if(!(*reclist_offset)) {
diff --git a/Db/dbindex.c b/Db/dbindex.c
index b5d73ce..91387b5 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -822,7 +822,7 @@ static gint ttree_remove_row(void *db, gint index_id, void * rec) {
   }
 
 found_row:
-  if(found == -1) return -3;
+  if(found == -1) return -2; /* like above, the row is not in the index */
 
   //delete the key and rearrange other elements
   node->number_of_elements--;
-- 
2.43.0


From a12100e835972719048d2f299e72bac8cba6a6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:47 +0000
Subject: [PATCH 010/116] fix: a field update or record creation that fails in
 an index is undone

---
 Db/dbdata.c | 241 ++++++++++++++++++++++++++++------------------------
 1 file changed, 128 insertions(+), 113 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 5a37acd..d10db9d 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -119,8 +119,10 @@ void* wg_create_record(void* db, wg_int length) {
   void *rec = wg_create_raw_record(db, length);
   /* Index all the created NULL fields to ensure index consistency */
   if(rec) {
-    if(wg_index_add_rec(db, rec) < -1)
+    if(wg_index_add_rec(db, rec) < -1) {
+      wg_delete_record(db, rec); /* do not leave it behind unindexed */
       return NULL; /* index error */
+    }
   }
   return rec;
 }
@@ -606,6 +608,89 @@ wg_int* wg_get_record_dataarray(void* db, void* record) {
   return (((gint*)record)+RECORD_HEADER_GINTS);
 }
 
+/** Is the field covered by any index
+ */
+#ifdef USE_INDEX_TEMPLATE
+#define IS_INDEXED_FIELD(dbh, rec, col) (!is_special_record(rec) &&\
+  (col)<=MAX_INDEXED_FIELDNR &&\
+  ((dbh)->index_control_area_header.index_table[col] ||\
+   (dbh)->index_control_area_header.index_template_table[col]))
+#else
+#define IS_INDEXED_FIELD(dbh, rec, col) (!is_special_record(rec) &&\
+  (col)<=MAX_INDEXED_FIELDNR &&\
+  (dbh)->index_control_area_header.index_table[col])
+#endif
+
+/** Remove a field that is about to change from all indexes
+ *  returns 0 if successful
+ *  returns -3 for fatal index error
+ *  returns -4 for error with a referring record
+ */
+static gint remove_field_index_entries(void *db, gint *record,
+  gint fieldnr) {
+
+  if(IS_INDEXED_FIELD(dbmemsegh(db), record, fieldnr)) {
+    if(wg_index_del_field(db, record, fieldnr) < -1)
+      return -3; /* index error */
+  }
+
+  /* If there are backlinks, go up the chain and remove the reference
+   * to this record from all indexes (updating a field in the record
+   * causes the value of the record to change). Note that we only go
+   * as far as the recursive comparison depth - records higher in the
+   * hierarchy are not affected.
+   */
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+  if(*(record + RECORD_BACKLINKS_POS)) {
+    gcell *next = (gcell *) offsettoptr(db, *(record + RECORD_BACKLINKS_POS));
+    gint rec_enc = wg_encode_record(db, record);
+    for(;;) {
+      if(remove_backlink_index_entries(db,
+        (gint *) offsettoptr(db, next->car),
+        rec_enc, WG_COMPARE_REC_DEPTH-1))
+        return -4; /* override the error code, for now. */
+      if(!next->cdr)
+        break;
+      next = (gcell *) offsettoptr(db, next->cdr);
+    }
+  }
+#endif
+  return 0;
+}
+
+/** Add a field that has changed to all indexes. The opposite of
+ *  remove_field_index_entries()
+ *  returns 0 if successful
+ *  returns -3 for fatal index error
+ *  returns -4 for error with a referring record
+ */
+static gint restore_field_index_entries(void *db, gint *record,
+  gint fieldnr) {
+
+  if(IS_INDEXED_FIELD(dbmemsegh(db), record, fieldnr)) {
+    if(wg_index_add_field(db, record, fieldnr) < -1)
+      return -3;
+  }
+
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+  /* Create new entries in indexes in all referring records */
+  if(*(record + RECORD_BACKLINKS_POS)) {
+    gcell *next = (gcell *) offsettoptr(db, *(record + RECORD_BACKLINKS_POS));
+    gint rec_enc = wg_encode_record(db, record);
+    for(;;) {
+      if(restore_backlink_index_entries(db,
+        (gint *) offsettoptr(db, next->car),
+        rec_enc, WG_COMPARE_REC_DEPTH-1))
+        return -4;
+      if(!next->cdr)
+        break;
+      next = (gcell *) offsettoptr(db, next->cdr);
+    }
+  }
+#endif
+  return 0;
+}
+
 /** Update contents of one field
  *  returns 0 if successful
  *  returns -1 if invalid db pointer passed (by recordcheck macro)
@@ -619,9 +704,8 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   gint* fieldadr;
   gint fielddata;
   gint* strptr;
+  gint err;
 #ifdef USE_BACKLINKING
-  gint backlink_list;           /** start of backlinks for this record */
-  gint rec_enc = WG_ILLEGAL;    /** this record as encoded value. */
   gint new_backlink = 0;        /** list cell reserved for the new backlink */
 #endif
   db_memsegment_header *dbh = dbmemsegh(db);
@@ -686,50 +770,30 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 
   /* Update index(es) while the old value is still in the db */
-#ifdef USE_INDEX_TEMPLATE
-  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
-    (dbh->index_control_area_header.index_table[fieldnr] ||\
-     dbh->index_control_area_header.index_template_table[fieldnr])) {
-#else
-  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
-    dbh->index_control_area_header.index_table[fieldnr]) {
-#endif
-    if(wg_index_del_field(db, record, fieldnr) < -1) {
+  err = remove_field_index_entries(db, (gint *) record, fieldnr);
+  if(err) {
 #ifdef USE_BACKLINKING
-      if(new_backlink)
-        wg_free_listcell(db, new_backlink);
+    if(new_backlink)
+      wg_free_listcell(db, new_backlink);
 #endif
-      return -3; /* index error */
-    }
+    return err;
   }
 
-  /* If there are backlinks, go up the chain and remove the reference
-   * to this record from all indexes (updating a field in the record
-   * causes the value of the record to change). Note that we only go
-   * as far as the recursive comparison depth - records higher in the
-   * hierarchy are not affected.
-   */
-#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
-  backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
-  if(backlink_list) {
-    gint err;
-    gcell *next = (gcell *) offsettoptr(db, backlink_list);
-    rec_enc = wg_encode_record(db, record);
-    for(;;) {
-      err = remove_backlink_index_entries(db,
-        (gint *) offsettoptr(db, next->car),
-        rec_enc, WG_COMPARE_REC_DEPTH-1);
-      if(err) {
-        if(new_backlink)
-          wg_free_listcell(db, new_backlink);
-        return -4; /* override the error code, for now. */
-      }
-      if(!next->cdr)
-        break;
-      next = (gcell *) offsettoptr(db, next->cdr);
-    }
-  }
+  (*fieldadr)=data; // store data to field
+
+  /* Update index after new value is written */
+  err = restore_field_index_entries(db, (gint *) record, fieldnr);
+  if(err) {
+    /* Put the old value back, as if nothing had happened */
+    remove_field_index_entries(db, (gint *) record, fieldnr);
+    (*fieldadr)=fielddata;
+    restore_field_index_entries(db, (gint *) record, fieldnr);
+#ifdef USE_BACKLINKING
+    if(new_backlink)
+      wg_free_listcell(db, new_backlink);
 #endif
+    return err;
+  }
 
 #ifdef USE_BACKLINKING
   /* Is the old field value a record pointer? If so, remove the backlink.
@@ -778,7 +842,6 @@ setfld_backlink_removed:
     //printf("wg_set_field freeing old data\n");
     free_field_encoffset(db,fielddata);
   }
-  (*fieldadr)=data; // store data to field
 
 #ifdef USE_BACKLINKING
   /* Is the new field value a record pointer? If so, add a backlink */
@@ -800,38 +863,6 @@ setfld_backlink_removed:
   }
 #endif
 
-  /* Update index after new value is written */
-#ifdef USE_INDEX_TEMPLATE
-  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
-    (dbh->index_control_area_header.index_table[fieldnr] ||\
-     dbh->index_control_area_header.index_template_table[fieldnr])) {
-#else
-  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
-    dbh->index_control_area_header.index_table[fieldnr]) {
-#endif
-    if(wg_index_add_field(db, record, fieldnr) < -1)
-      return -3;
-  }
-
-#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
-  /* Create new entries in indexes in all referring records */
-  if(backlink_list) {
-    gint err;
-    gcell *next = (gcell *) offsettoptr(db, backlink_list);
-    for(;;) {
-      err = restore_backlink_index_entries(db,
-        (gint *) offsettoptr(db, next->car),
-        rec_enc, WG_COMPARE_REC_DEPTH-1);
-      if(err) {
-        return -4;
-      }
-      if(!next->cdr)
-        break;
-      next = (gcell *) offsettoptr(db, next->cdr);
-    }
-  }
-#endif
-
   return 0;
 }
 
@@ -857,8 +888,8 @@ setfld_backlink_removed:
 wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   gint* fieldadr;
   gint* strptr;
+  gint err;
 #ifdef USE_BACKLINKING
-  gint backlink_list;           /** start of backlinks for this record */
   gint new_backlink = 0;        /** list cell reserved for the new backlink */
 #endif
   db_memsegment_header *dbh = dbmemsegh(db);
@@ -921,9 +952,30 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+  /* The value of referring records changes, take them out of indexes.
+   * Normal usage scenario would be that the record is also new, so that
+   * there are no backlinks, however this is not guaranteed.
+   */
+  if(*((gint *) record + RECORD_BACKLINKS_POS))
+    remove_field_index_entries(db, (gint *) record, fieldnr);
+#endif
+
   /* Write new value */
   (*fieldadr)=data;
 
+  /* Update index after new value is written */
+  err = restore_field_index_entries(db, (gint *) record, fieldnr);
+  if(err) {
+    remove_field_index_entries(db, (gint *) record, fieldnr);
+    (*fieldadr)=0;
+#ifdef USE_BACKLINKING
+    if(new_backlink)
+      wg_free_listcell(db, new_backlink);
+#endif
+    return err;
+  }
+
 #ifdef USE_CHILD_DB
   if (islongstr(data) && offset_owner == dbmemseg(db)) {
 #else
@@ -954,43 +1006,6 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
-  /* Update index after new value is written */
-#ifdef USE_INDEX_TEMPLATE
-  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
-    (dbh->index_control_area_header.index_table[fieldnr] ||\
-     dbh->index_control_area_header.index_template_table[fieldnr])) {
-#else
-  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
-    dbh->index_control_area_header.index_table[fieldnr]) {
-#endif
-    if(wg_index_add_field(db, record, fieldnr) < -1)
-      return -3;
-  }
-
-#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
-  /* Create new entries in indexes in all referring records. Normal
-   * usage scenario would be that the record is also new, so that
-   * there are no backlinks, however this is not guaranteed.
-   */
-  backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
-  if(backlink_list) {
-    gint err;
-    gcell *next = (gcell *) offsettoptr(db, backlink_list);
-    gint rec_enc = wg_encode_record(db, record);
-    for(;;) {
-      err = restore_backlink_index_entries(db,
-        (gint *) offsettoptr(db, next->car),
-        rec_enc, WG_COMPARE_REC_DEPTH-1);
-      if(err) {
-        return -4;
-      }
-      if(!next->cdr)
-        break;
-      next = (gcell *) offsettoptr(db, next->cdr);
-    }
-  }
-#endif
-
   return 0;
 }
 
-- 
2.43.0


From e72cc05d50f32cd9898d46a459d6584f84ecfe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:50 +0000
Subject: [PATCH 011/116] fix: a failed local database gives back its handle

---
 Db/dbmem.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Db/dbmem.c b/Db/dbmem.c
index 453efe9..5c9e1a0 100644
--- a/Db/dbmem.c
+++ b/Db/dbmem.c
@@ -386,6 +386,9 @@ void* wg_attach_local_database(gint size) {
   shm = (void *) malloc(size);
   if (shm==NULL) {
     show_memory_error("malloc failed");
+#ifdef USE_DATABASE_HANDLE
+    free_dbhandle(dbhandle);
+#endif
     return NULL;
   } else {
     /* key=0 - no shared memory associated */
-- 
2.43.0


From ab9352be146a90d9caa975a2d48726433a93c8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:31 +0000
Subject: [PATCH 012/116] fix: an unsuccessful JSON parse frees the elements it
 had collected

---
 Db/dbjson.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index b80c020..04f462d 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -417,6 +417,15 @@ static gint run_json_parser(void *db, const char *buf,
   }
 
 done:
+  /* elements of unfinished objects and arrays */
+  while(ctx.stack_ptr >= 0) {
+    stack_entry *e = &ctx.stack[ctx.stack_ptr--];
+    while(e->head) {
+      stack_entry_elem *tmp = e->head;
+      e->head = tmp->next;
+      free(tmp);
+    }
+  }
   if(hand) yajl_free(hand);
   return result;
 }
@@ -444,8 +453,9 @@ static int check_pop_cb(void* cb_ctx)
 static int push(parser_context *ctx, stack_entry_t type)
 {
   stack_entry *e;
-  if(++ctx->stack_ptr >= MAX_DEPTH) /* paranoia, parser guards from this */
+  if(ctx->stack_ptr + 1 >= MAX_DEPTH) /* paranoia, parser guards from this */
     return 0;
+  ctx->stack_ptr++;
   e = &ctx->stack[ctx->stack_ptr];
   e->size = 0;
   e->type = type;
-- 
2.43.0


From 3ed3ada4ea6301d4497f25a84fddfc06f2a1fd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:26 +0000
Subject: [PATCH 013/116] fix: impossible dates and times are refused

---
 Db/dbdata.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index d10db9d..8078b72 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -83,6 +83,8 @@ static gint restore_backlink_index_entries(void *db, gint *record,
   gint value, gint depth);
 #endif
 
+static int is_valid_date(int yr, int mo, int day);
+static int is_valid_time(int hr, int min, int sec, int prt);
 static int isleap(unsigned yr);
 static unsigned months_to_days (unsigned month);
 static long years_to_days (unsigned yr);
@@ -1862,7 +1864,7 @@ int wg_strp_iso_date(void* db, const char* inbuf) {
   int res;
 
   sres=sscanf(inbuf,"%4d-%2d-%2d",&yr,&mo,&day);
-  if (sres<3 || yr<0 || mo<1 || mo>12 || day<1 || day>31) return -1;
+  if (sres<3 || !is_valid_date(yr,mo,day)) return -1;
   res=ymd_to_scalar(yr,mo,day);
   return res;
 }
@@ -1876,20 +1878,19 @@ int wg_strp_iso_time(void* db, const char* inbuf) {
   int prt=0;
 
   sres=sscanf(inbuf,"%2d:%2d:%2d.%2d",&hr,&min,&sec,&prt);
-  if (sres<3 || hr<0 || hr>24 || min<0 || min>60 || sec<0 || sec>60 || prt<0 || prt>99) return -1;
+  if (sres<3 || !is_valid_time(hr,min,sec,prt)) return -1;
   return hr*(60*60*100)+min*(60*100)+sec*100+prt;
 }
 
 
 int wg_ymd_to_date(void* db, int yr, int mo, int day) {
-  if (yr<0 || mo<1 || mo>12 || day<1 || day>31) return -1;
+  if (!is_valid_date(yr,mo,day)) return -1;
   return ymd_to_scalar(yr,mo,day);
 }
 
 
 int wg_hms_to_time(void* db, int hr, int min, int sec, int prt) {
-  if (hr<0 || hr>24 || min<0 || min>60 || sec<0 || sec>60 || prt<0 || prt>99)
-    return -1;
+  if (!is_valid_time(hr,min,sec,prt)) return -1;
   return hr*(60*60*100)+min*(60*100)+sec*100+prt;
 }
 
@@ -2969,6 +2970,23 @@ Scalar date routines used are written and given to public domain by Ray Gardner.
 
 */
 
+/* The first supported date is year 1, the last one that fits in a field
+ * is in the year MAXDATE/366.
+ */
+static int is_valid_date(int yr, int mo, int day) {
+  static const int mdays[12] = {31,28,31,30,31,30,31,31,30,31,30,31};
+
+  if (yr<1 || yr>(MAXDATE)/366 || mo<1 || mo>12 || day<1) return 0;
+  return day <= mdays[mo-1] + (mo==2 && isleap(yr));
+}
+
+/* Midnight may also be written as 24:00:00 */
+static int is_valid_time(int hr, int min, int sec, int prt) {
+  if (hr==24) return min==0 && sec==0 && prt==0;
+  return hr>=0 && hr<24 && min>=0 && min<60 && sec>=0 && sec<60 &&
+    prt>=0 && prt<100;
+}
+
 static int isleap(unsigned yr) {
   return yr % 400 == 0 || (yr % 4 == 0 && yr % 100 != 0);
 }
-- 
2.43.0


From 8d6bf4a3483f3ec856e7ea85ce4bd973278f5237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:05 +0000
Subject: [PATCH 014/116] fix: a field number near the largest integer is
 refused

---
 Db/dbdata.c | 4 ++--
 Db/dbdata.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 8078b72..9ec1deb 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -1229,7 +1229,7 @@ wg_int wg_get_field(void* db, void* record, wg_int fieldnr) {
     show_data_error_nr(db,"wrong database pointer given to wg_get_field",fieldnr);
     return WG_ILLEGAL;
   }
-  if (fieldnr<0 || (getusedobjectwantedgintsnr(*((gint*)record))<=fieldnr+RECORD_HEADER_GINTS)) {
+  if (fieldnr<0 || (getusedobjectwantedgintsnr(*((gint*)record))-RECORD_HEADER_GINTS<=fieldnr)) {
     show_data_error_nr(db,"wrong field number given to wg_get_field",fieldnr);\
     return WG_ILLEGAL;
   }
@@ -1247,7 +1247,7 @@ wg_int wg_get_field_type(void* db, void* record, wg_int fieldnr) {
     show_data_error_nr(db,"wrong database pointer given to wg_get_field_type",fieldnr);\
     return 0;
   }
-  if (fieldnr<0 || (getusedobjectwantedgintsnr(*((gint*)record))<=fieldnr+RECORD_HEADER_GINTS)) {
+  if (fieldnr<0 || (getusedobjectwantedgintsnr(*((gint*)record))-RECORD_HEADER_GINTS<=fieldnr)) {
     show_data_error_nr(db,"wrong field number given to wg_get_field_type",fieldnr);\
     return 0;
   }
diff --git a/Db/dbdata.h b/Db/dbdata.h
index 988db22..d25957f 100644
--- a/Db/dbdata.h
+++ b/Db/dbdata.h
@@ -636,7 +636,7 @@ gint usage from start:
     show_data_error_str(db,"wrong database pointer given to ",opname);\
     return -1;\
   }\
-  if (fieldnr<0 || getusedobjectwantedgintsnr(*((gint*)record))<=fieldnr+RECORD_HEADER_GINTS) {\
+  if (fieldnr<0 || getusedobjectwantedgintsnr(*((gint*)record))-RECORD_HEADER_GINTS<=fieldnr) {\
     show_data_error_str(db,"wrong field number given to ",opname);\
     return -2;\
   }\
-- 
2.43.0


From ec97109b9ae991f57d98a53cc11d9298ab0dd76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:06 +0000
Subject: [PATCH 015/116] fix: wg_add_int_atomic_field computes the sum in the
 full integer width

---
 Db/dbdata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 9ec1deb..d80c8b9 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -1182,8 +1182,8 @@ wg_int wg_set_atomic_field(void* db, void* record, wg_int fieldnr, wg_int data)
 
 wg_int wg_add_int_atomic_field(void* db, void* record, wg_int fieldnr, int data) {
   gint* fieldadr;
-  gint old,nxt,r;
-  int i,sum;
+  gint old,nxt,r,sum;
+  int i;
 #ifdef _WIN32
   int ts=1;
 #else
-- 
2.43.0


From d2ca010837a8fdbdca24fa8d90d7add99ad88c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:41 +0000
Subject: [PATCH 016/116] fix: a parent referring to a record with several
 fields is enumerated once

---
 Db/dbdata.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index d80c8b9..741bf47 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -450,13 +450,22 @@ void *wg_get_next_parent(void* db, void* record, void *parent) {
 #endif
   backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
   if(backlink_list) {
-    gcell *next = (gcell *) offsettoptr(db, backlink_list);
+    gcell *first = (gcell *) offsettoptr(db, backlink_list);
+    gcell *next = first, *prev;
+    while((void *) offsettoptr(db, next->car) != parent) {
+      if(!next->cdr)
+        return NULL; /* not a parent of this record */
+      next = (gcell *) offsettoptr(db, next->cdr);
+    }
+    /* A parent that refers to the record with several fields has several
+     * cells in the chain; it is only returned at its first cell.
+     */
     while(next->cdr) {
-      void *pp = (void *) offsettoptr(db, next->car);
       next = (gcell *) offsettoptr(db, next->cdr);
-      if(pp == parent && next->car) {
+      for(prev=first; prev->car!=next->car;)
+        prev = (gcell *) offsettoptr(db, prev->cdr);
+      if(prev == next)
         return (void *) offsettoptr(db, next->car);
-      }
     }
   }
 #endif /* USE_BACKLINKING */
-- 
2.43.0


From 566fbbe91b0001ca5d96bb149fa06538f9d10926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:10 +0000
Subject: [PATCH 017/116] fix: NaN has a place in the order of doubles

---
 Db/dbcompare.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Db/dbcompare.c b/Db/dbcompare.c
index c8ddbac..4db9976 100644
--- a/Db/dbcompare.c
+++ b/Db/dbcompare.c
@@ -176,6 +176,9 @@ gint wg_compare(void *db, gint a, gint b, int depth) {
         deca = wg_decode_double(db, a);
         decb = wg_decode_double(db, b);
         if(deca==decb) return WG_EQUAL; /* decoded doubles can be equal */
+        if(decb!=decb) /* not a number: greater than any number */
+          return (deca!=deca ? WG_EQUAL : WG_LESSTHAN);
+        if(deca!=deca) return WG_GREATER;
         return (deca>decb ? WG_GREATER : WG_LESSTHAN);
       }
     }
-- 
2.43.0


From 43b410d63e22483f70055dbd9beec65957b6cdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:07 +0000
Subject: [PATCH 018/116] fix: an atomic update does not bypass the indexes of
 referring records

---
 Db/dbdata.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 741bf47..afd735d 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -1083,7 +1083,8 @@ wg_int wg_set_rec_field(void* db, void* record, wg_int fieldnr, void* data) {
  *  returns -10 if new value non-immediate
  *  returns -11 if old value non-immediate
  *  returns -12 if cannot fetch old data
- *  returns -13 if the field has an index
+ *  returns -13 if the field has an index, or there are indexes and
+ *   another record refers to this one
  *  returns -14 if logging is active
  *  returns -15 if the field value has been changed from old_data
  *  may return other field-setting error codes from wg_set_new_field
@@ -1113,6 +1114,13 @@ wg_int wg_update_atomic_field(void* db, void* record, wg_int fieldnr, wg_int dat
 #endif
     return -13;
   }
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+  // records are compared by contents, so a referring record may be in an index
+  if(*((gint *) record + RECORD_BACKLINKS_POS) &&\
+    dbh->index_control_area_header.number_of_indexes) {
+    return -13;
+  }
+#endif
   // check that no logging is used
 #ifdef USE_DBLOG
   if(dbh->logging.active) {
-- 
2.43.0


From 84672a8fdb14ae449bbe28725aab792061d3ebc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:56 +0000
Subject: [PATCH 019/116] fix: a multi-column hash index skips existing rows
 without its last column

---
 Db/dbindex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 91387b5..a31ad7e 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1624,7 +1624,7 @@ static gint create_hash_index(void *db, gint index_id){
   void *rec;
   wg_index_header *hdr = (wg_index_header *) offsettoptr(db, index_id);
   gint type = hdr->type;
-  gint firstcol = hdr->rec_field_index[0];
+  gint lastcol = hdr->rec_field_index[hdr->fields - 1];
   gint i;
 
   /* Initialize the hash table (0 - use default size) */
@@ -1636,7 +1636,7 @@ static gint create_hash_index(void *db, gint index_id){
   rowsprocessed = 0;
 
   while(rec != NULL) {
-    if(firstcol >= wg_get_record_len(db, rec)) {
+    if(lastcol >= wg_get_record_len(db, rec)) {
       rec=wg_get_next_record(db,rec);
       continue;
     }
-- 
2.43.0


From 7834523b4c389e7cc67ef05fb7261c962bf967ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:56 +0000
Subject: [PATCH 020/116] fix: hash index keys hold the whole value and are
 unambiguous

---
 Db/dbhash.c | 52 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 3dbb44b..de69cf1 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -266,17 +266,20 @@ gint wg_remove_from_strhash(void* db, gint longstr) {
 
 /* -------------- hash index support ------------------ */
 
-#define CONCAT_FOR_HASHING(d, b, e, l, bb, en) \
-  if(e) { \
-    gint xl = wg_decode_xmlliteral_xsdtype_len(d, en); \
-    bb = malloc(xl + l + 1); \
+/* The length of the extra string comes first, so that the boundary between
+ * the two parts (and the next value, if any) is always known.
+ */
+#define CONCAT_FOR_HASHING(d, b, e, l, bb, en) { \
+    gint xl = (e ? strlen(e) : 0); \
+    bb = malloc(sizeof(gint) + xl + l); \
     if(!bb) \
       return 0; \
-    memcpy(bb, e, xl); \
-    bb[xl] = '\0'; \
-    memcpy(bb + xl + 1, b, l); \
+    memcpy(bb, &xl, sizeof(gint)); \
+    if(xl) \
+      memcpy(bb + sizeof(gint), e, xl); \
+    memcpy(bb + sizeof(gint) + xl, b, l); \
     b = bb; \
-    l += xl + 1; \
+    l += sizeof(gint) + xl; \
   }
 
 /*
@@ -287,14 +290,14 @@ gint wg_remove_from_strhash(void* db, gint longstr) {
  *
  * NOTE: to differentiate between identical byte strings
  * the value is prefixed with a type identifier.
- * TODO: For values with varying length that can contain
- * '\0' bytes, add length to the prefix.
+ * For values with varying length that can contain
+ * '\0' bytes, the length is added to the prefix.
  */
 gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
   gint len;
   gint type;
   gint ptrdata;
-  int intdata;
+  gint intdata;
   double doubledata;
   char *bytedata;
   char *exdata, *buf = NULL, *outbuf;
@@ -312,13 +315,18 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       bytedata = (char *) &ptrdata;
       break;
     case WG_INTTYPE:
-      len = sizeof(int);
+      len = sizeof(gint);
       intdata = wg_decode_int(db, enc);
       bytedata = (char *) &intdata;
       break;
     case WG_DOUBLETYPE:
       len = sizeof(double);
       doubledata = wg_decode_double(db, enc);
+      /* Values that compare as equal must have the same bytes */
+      if(doubledata == 0.0)
+        doubledata = 0.0; /* could be -0.0 */
+      else if(doubledata != doubledata)
+        memset(&doubledata, 0xff, sizeof(double));
       bytedata = (char *) &doubledata;
       break;
     case WG_FIXPOINTTYPE:
@@ -342,23 +350,35 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       exdata = wg_decode_xmlliteral_xsdtype(db, enc);
       CONCAT_FOR_HASHING(db, bytedata, exdata, len, buf, enc)
       break;
+    case WG_BLOBTYPE:
+      len = wg_decode_blob_len(db, enc);
+      bytedata = wg_decode_blob(db, enc);
+      ptrdata = len;
+      buf = malloc(sizeof(gint) + len);
+      if(!buf)
+        return 0;
+      memcpy(buf, &ptrdata, sizeof(gint));
+      memcpy(buf + sizeof(gint), bytedata, len);
+      bytedata = buf;
+      len += sizeof(gint);
+      break;
     case WG_CHARTYPE:
-      len = sizeof(int);
+      len = sizeof(gint);
       intdata = wg_decode_char(db, enc);
       bytedata = (char *) &intdata;
       break;
     case WG_DATETYPE:
-      len = sizeof(int);
+      len = sizeof(gint);
       intdata = wg_decode_date(db, enc);
       bytedata = (char *) &intdata;
       break;
     case WG_TIMETYPE:
-      len = sizeof(int);
+      len = sizeof(gint);
       intdata = wg_decode_time(db, enc);
       bytedata = (char *) &intdata;
       break;
     case WG_VARTYPE:
-      len = sizeof(int);
+      len = sizeof(gint);
       intdata = wg_decode_var(db, enc);
       bytedata = (char *) &intdata;
       break;
-- 
2.43.0


From ff6d6c031a6d84a200e41fef479ebe494b9206aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:43 +0000
Subject: [PATCH 021/116] fix: filling a raw record keeps one entry in a
 multi-column hash index

---
 Db/dbdata.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index afd735d..2d45275 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -669,6 +669,21 @@ static gint remove_field_index_entries(void *db, gint *record,
   return 0;
 }
 
+/** Check if a column is part of any multi-column index.
+ */
+static gint is_multi_column_field(void *db, gint fieldnr) {
+  gint next = dbmemsegh(db)->index_control_area_header.index_table[fieldnr];
+
+  while(next) {
+    gcell *elem = (gcell *) offsettoptr(db, next);
+    if(elem->car && \
+      ((wg_index_header *) offsettoptr(db, elem->car))->fields > 1)
+      return 1;
+    next = elem->cdr;
+  }
+  return 0;
+}
+
 /** Add a field that has changed to all indexes. The opposite of
  *  remove_field_index_entries()
  *  returns 0 if successful
@@ -972,6 +987,12 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
     remove_field_index_entries(db, (gint *) record, fieldnr);
 #endif
 
+  /* Setting another column may have entered the row in a multi-column index */
+  if(IS_INDEXED_FIELD(dbh, record, fieldnr) &&\
+    is_multi_column_field(db, fieldnr)) {
+    wg_index_del_field(db, record, fieldnr);
+  }
+
   /* Write new value */
   (*fieldadr)=data;
 
-- 
2.43.0


From cfc14692a4cdf992027f870c33dc125c81b17dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:35 +0000
Subject: [PATCH 022/116] fix: listing all indexes names a multi-column index
 once

---
 Db/dbindex.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index a31ad7e..c0b938c 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2668,7 +2668,11 @@ void * wg_get_all_indexes(void *db, gint *count) {
     while(*ilist) {
       gcell *ilistelem = (gcell *) offsettoptr(db, *ilist);
       if(ilistelem->car) {
-        res[(*count)++] = ilistelem->car;
+        /* A multi-column index is in the list of each column */
+        wg_index_header *hdr = \
+          (wg_index_header *) offsettoptr(db, ilistelem->car);
+        if(hdr->rec_field_index[0] == column)
+          res[(*count)++] = ilistelem->car;
       }
       ilist = &ilistelem->cdr;
     }
-- 
2.43.0


From 5beb308946e226af75de778a20ceab064daf09e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:35 +0000
Subject: [PATCH 023/116] fix: looking up an index by a negative column is
 refused

---
 Db/dbindex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index c0b938c..3e87630 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2515,7 +2515,7 @@ gint wg_multi_column_to_index_id(void *db, gint *columns, gint col_count,
   }
 
   for(i=0; i<col_count; i++) {
-    if(sorted_cols[i] > MAX_INDEXED_FIELDNR) {
+    if(sorted_cols[i] < 0 || sorted_cols[i] > MAX_INDEXED_FIELDNR) {
       show_index_error_nr(db, "Max allowed column number",
         MAX_INDEXED_FIELDNR);
       return -1;
-- 
2.43.0


From 83f4500bea6a65e8324a8c4b66cdec7f64187d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:00 +0000
Subject: [PATCH 024/116] fix: keep index offsets in query planning at full
 width

---
 Db/dbquery.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index f533691..ef155a1 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -140,7 +140,7 @@ static gint most_restricting_column(void *db,
   struct column_score {
     gint column;
     int score;
-    int index_id;
+    gint index_id;
   };
   struct column_score *sc;
   int i, j, mrc_score = -1;
-- 
2.43.0


From 2ad24eb2d6b3b0c193dbda570319d8d257b17b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 025/116] fix: a query with contradictory bounds has a complete
 query object

---
 Db/dbquery.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index ef155a1..25acbc5 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -812,18 +812,15 @@ static wg_query *internal_build_query(void *db, void *matchrec, gint reclen,
       }
     }
 
-    /* Simple sanity check. Is start_bound greater than end_bound? */
+    /* Simple sanity check. Is start_bound greater than end_bound?
+     * In that case curr_offset remains 0 and the query returns no rows.
+     */
     if(start_bound!=WG_ILLEGAL && end_bound!=WG_ILLEGAL &&\
       WG_COMPARE(db, start_bound, end_bound) == WG_GREATER) {
-      /* return empty query */
-      query->argc = 0;
-      query->arglist = NULL;
-      free(full_arglist);
-      return query;
+      query->curr_offset = 0;
     }
-
     /* Now find the bounding nodes for the query */
-    if(find_ttree_bounds(db, index_id, col,
+    else if(find_ttree_bounds(db, index_id, col,
         start_bound, end_bound, start_inclusive, end_inclusive,
         &query->curr_offset, &query->curr_slot, &query->end_offset,
         &query->end_slot)) {
-- 
2.43.0


From bd06cdb96e21291b53741a2d538573a93b3316b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 026/116] fix: x > v and x < v selects no rows from an index

---
 Db/dbquery.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 25acbc5..d89e9c4 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -813,10 +813,13 @@ static wg_query *internal_build_query(void *db, void *matchrec, gint reclen,
     }
 
     /* Simple sanity check. Is start_bound greater than end_bound?
-     * In that case curr_offset remains 0 and the query returns no rows.
+     * Or are they equal, with the value excluded from both sides? In that
+     * case curr_offset remains 0 and the query returns no rows.
      */
     if(start_bound!=WG_ILLEGAL && end_bound!=WG_ILLEGAL &&\
-      WG_COMPARE(db, start_bound, end_bound) == WG_GREATER) {
+      (WG_COMPARE(db, start_bound, end_bound) == WG_GREATER ||\
+       (!start_inclusive && !end_inclusive &&\
+        WG_COMPARE(db, start_bound, end_bound) == WG_EQUAL))) {
       query->curr_offset = 0;
     }
     /* Now find the bounding nodes for the query */
-- 
2.43.0


From 200359ee653bc1f3eba655e18e62715a6f47c6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 027/116] fix: a query on a negative column is refused

---
 Db/dbquery.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index d89e9c4..421ffce 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -378,6 +378,12 @@ static gint prepare_params(void *db, void *matchrec, gint reclen,
     show_query_error(db, "Invalid argument list (NULL)");
     return -1;
   }
+  for(i=0; i<argc; i++) {
+    if(arglist[i].column < 0) {
+      show_query_error(db, "Negative column in argument list");
+      return -1;
+    }
+  }
 #endif
 
   /* Determine total number of query parameters (number of arguments
-- 
2.43.0


From 2d78c1c67e6367f239e2d66a1cf8fc8979f43171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:37 +0000
Subject: [PATCH 028/116] fix: find the document of deeply nested records

---
 Db/dbschema.c | 2 +-
 Db/dbschema.h | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/Db/dbschema.c b/Db/dbschema.c
index 58575d8..ba17c12 100644
--- a/Db/dbschema.c
+++ b/Db/dbschema.c
@@ -167,7 +167,7 @@ void *wg_find_document(void *db, void *rec) {
   show_schema_error(db, "Backlinks are required to find complete documents");
   return NULL;
 #else
-  return find_document_recursive(db, (gint *) rec, WG_COMPARE_REC_DEPTH-1);
+  return find_document_recursive(db, (gint *) rec, WG_SCHEMA_DOC_DEPTH-1);
 #endif
 }
 
diff --git a/Db/dbschema.h b/Db/dbschema.h
index 0776d92..bcbbdd9 100644
--- a/Db/dbschema.h
+++ b/Db/dbschema.h
@@ -30,6 +30,11 @@
 
 /* ==== Public macros ==== */
 
+/* Depth of the record hierarchy of a document. A nesting level in a
+ * document may consist of two records (structure and key-value pair).
+ */
+#define WG_SCHEMA_DOC_DEPTH (2 * WG_COMPARE_REC_DEPTH)
+
 #define WG_SCHEMA_TRIPLE_SIZE 3
 #define WG_SCHEMA_TRIPLE_OFFSET 0
 #define WG_SCHEMA_KEY_OFFSET (WG_SCHEMA_TRIPLE_OFFSET + 1)
-- 
2.43.0


From b707d5b70707009ad220bcb9cf5398ef12e56b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:37 +0000
Subject: [PATCH 029/116] fix: delete deeply nested documents completely

---
 Db/dbschema.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbschema.c b/Db/dbschema.c
index ba17c12..bde1d54 100644
--- a/Db/dbschema.c
+++ b/Db/dbschema.c
@@ -222,7 +222,7 @@ gint wg_delete_document(void *db, void *document) {
 #ifndef USE_BACKLINKING
   return delete_record_recursive(db, document, 99);
 #else
-  return delete_record_recursive(db, document, WG_COMPARE_REC_DEPTH);
+  return delete_record_recursive(db, document, WG_SCHEMA_DOC_DEPTH);
 #endif
 }
 
-- 
2.43.0


From 8a1f5d782d8a1220a1436c9eaae53aa34e574883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:37 +0000
Subject: [PATCH 030/116] fix: scan deeply nested documents in document queries

---
 Db/dbquery.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 421ffce..ce93030 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1971,7 +1971,7 @@ wg_query *wg_make_json_query(void *db, wg_json_query_arg *arglist, gint argc) {
           rec, &arglist[i], next_set, 99);
 #else
         gint rc = check_and_merge_recursively(db,
-          rec, &arglist[i], next_set, WG_COMPARE_REC_DEPTH);
+          rec, &arglist[i], next_set, WG_SCHEMA_DOC_DEPTH);
 #endif
         IF_ERR_CLEAN_UP(db, curr_res, next_set, sorted_arglist, rc)
       }
-- 
2.43.0


From fcf99848cb02fe875da3195e1e451fc67ca64c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:06 +0000
Subject: [PATCH 031/116] fix: records outside documents do not disturb
 document queries

---
 Db/dbquery.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index ce93030..598a778 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1604,8 +1604,7 @@ static query_result_set *unique_resultset(void *db, query_result_set *set)
 /* Note the non-conventional return code values:
  * -1 adding the document failed
  * 1 adding the document succeeded
- * (0 is reserved for using this macro in a recursive function
- * to differentiate between matches and non-matches)
+ * 0 the record is not part of any document (not a match)
  */
 #define ADD_DOC_TO_RESULTSET(db, rec, ns, rc) \
   void *doc = wg_find_document(db, rec); \
@@ -1615,7 +1614,7 @@ static query_result_set *unique_resultset(void *db, query_result_set *set)
     else \
       rc = -1; \
   } else { \
-    rc = show_query_error(db, "Failed to retrieve the document"); \
+    rc = 0; \
   }
 
 #define IF_ERR_CLEAN_UP(db, cr, ns, al, rc) \
-- 
2.43.0


From 791cbe0aff8b3ffe19d8112a39b48ff9f2dbec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:06 +0000
Subject: [PATCH 032/116] fix: array elements are not taken for a key-value
 pair

---
 Db/dbquery.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 598a778..6e10e77 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1631,6 +1631,9 @@ static query_result_set *unique_resultset(void *db, query_result_set *set)
   if(al) \
     free(al);
 
+/* A record that may hold a key-value pair */
+#define is_schema_pair(r) (!is_schema_array(r) && !is_schema_object(r))
+
 #define ADD_DOC_ARRAY_UNWRAP(db, rec, ns, rc, k, v) \
   void *arec = wg_decode_record(db, k); \
   if(is_schema_array(arec)) { \
@@ -1660,6 +1663,8 @@ static gint check_and_merge_by_kv(void *db, void *rec,
 {
   gint rc = 0;
   gint reclen = wg_get_record_len(db, rec);
+  if(!is_schema_pair(rec))
+    return 0; /* array elements are not a key and a value */
   if(reclen > WG_SCHEMA_VALUE_OFFSET) { /* XXX: assume key
                                          * before value */
 #ifndef JSON_SCAN_UNWRAP_ARRAY
@@ -1699,6 +1704,8 @@ static gint check_and_merge_by_key(void *db, void *rec,
 {
   gint rc = 0;
   gint reclen = wg_get_record_len(db, rec);
+  if(!is_schema_pair(rec))
+    return 0; /* array elements are not a key and a value */
   if(reclen > WG_SCHEMA_VALUE_OFFSET) {
 #ifndef JSON_SCAN_UNWRAP_ARRAY
     if(WG_COMPARE(db, wg_get_field(db, rec, WG_SCHEMA_VALUE_OFFSET),
@@ -1904,10 +1911,12 @@ wg_query *wg_make_json_query(void *db, wg_json_query_arg *arglist, gint argc) {
         gint *nextoffset = &reclist_offset;
         while(*nextoffset) {
           gcell *rec_cell = (gcell *) offsettoptr(db, *nextoffset);
-          gint rc = -1;
-          ADD_DOC_TO_RESULTSET(db, offsettoptr(db, rec_cell->car),
-            next_set, rc)
-          IF_ERR_CLEAN_UP(db, curr_res, next_set, sorted_arglist, rc)
+          if(is_schema_pair(offsettoptr(db, rec_cell->car))) {
+            gint rc = -1;
+            ADD_DOC_TO_RESULTSET(db, offsettoptr(db, rec_cell->car),
+              next_set, rc)
+            IF_ERR_CLEAN_UP(db, curr_res, next_set, sorted_arglist, rc)
+          }
           nextoffset = &(rec_cell->cdr);
         }
       }
-- 
2.43.0


From a53ba64d1a3df620be026f3673bf68a17b113f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:06 +0000
Subject: [PATCH 033/116] fix: a document that cannot be deleted is left whole

---
 Db/dbschema.c | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/Db/dbschema.c b/Db/dbschema.c
index bde1d54..5bbcc00 100644
--- a/Db/dbschema.c
+++ b/Db/dbschema.c
@@ -54,6 +54,10 @@ extern "C" {
 #ifdef USE_BACKLINKING
 static void *find_document_recursive(void *db, gint *rec, int depth);
 #endif
+#ifdef USE_BACKLINKING
+static gint check_delete_recursive(void *db, void *rec, int depth,
+  int references);
+#endif
 static gint delete_record_recursive(void *db, void *rec, int depth);
 static gint show_schema_error(void *db, char *errmsg);
 
@@ -222,10 +226,49 @@ gint wg_delete_document(void *db, void *document) {
 #ifndef USE_BACKLINKING
   return delete_record_recursive(db, document, 99);
 #else
+  /* Nothing is removed unless everything can be. */
+  if(check_delete_recursive(db, document, WG_SCHEMA_DOC_DEPTH, 0))
+    return -1;
   return delete_record_recursive(db, document, WG_SCHEMA_DOC_DEPTH);
 #endif
 }
 
+#ifdef USE_BACKLINKING
+/*
+ * Check that a record and all the records it points to can be deleted:
+ * nothing except the structure itself may refer to them. The records
+ * should have the given number of references.
+ * returns 0 if deleting is possible
+ * returns -1 if not
+ */
+static gint check_delete_recursive(void *db, void *rec, int depth,
+  int references) {
+  gint i, reclen, list;
+  if(depth <= 0) {
+    return show_schema_error(db, "deleting record: recursion too deep");
+  }
+
+  list = *((gint *) rec + RECORD_BACKLINKS_POS);
+  while(list && references >= 0) {
+    references--;
+    list = ((gcell *) offsettoptr(db, list))->cdr;
+  }
+  if(references != 0) {
+    return show_schema_error(db, "deleting record: it is referenced elsewhere");
+  }
+
+  reclen = wg_get_record_len(db, rec);
+  for(i=0; i<reclen; i++) {
+    gint enc = wg_get_field(db, rec, i);
+    if(wg_get_encoded_type(db, enc) == WG_RECORDTYPE) {
+      if(check_delete_recursive(db, wg_decode_record(db, enc), depth-1, 1))
+        return -1;
+    }
+  }
+  return 0;
+}
+#endif
+
 /*
  * Delete a record and all the records it points to.
  * This is safe to call on JSON documents.
-- 
2.43.0


From bbe047bbed46a88e6bea562fe4075b0b0636b8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:19 +0000
Subject: [PATCH 034/116] fix: an unfinished string or comment after a JSON
 document is an error

---
 json/yajl_all.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/json/yajl_all.c b/json/yajl_all.c
index d7b3a56..88d1c75 100644
--- a/json/yajl_all.c
+++ b/json/yajl_all.c
@@ -1695,6 +1695,14 @@ yajl_do_finish(yajl_handle hand)
             return yajl_status_error;
         case yajl_state_got_value:
         case yajl_state_parse_complete:
+            if (!(hand->flags & yajl_allow_trailing_garbage) &&
+                hand->lexer->bufInUse && yajl_buf_len(hand->lexer->buf))
+            {
+                /* an unfinished token is left over */
+                yajl_bs_set(hand->stateStack, yajl_state_parse_error);
+                hand->parseError = "trailing garbage";
+                return yajl_status_error;
+            }
             return yajl_status_ok;
         default:
             if (!(hand->flags & yajl_allow_partial_values))
-- 
2.43.0


From fa645d096e204becd7ea22d5d0822068e1eb5609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:19 +0000
Subject: [PATCH 035/116] fix: empty JSON files are refused and JSON files of
 whole chunks are stored

---
 Db/dbjson.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index 04f462d..e684490 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -220,8 +220,9 @@ gint wg_parse_json_file(void *db, const char *filename) {
       if(!feof(f)) {
         show_json_error_byte(db, "Read error", count);
         result = -1;
+        goto done;
       }
-      goto done;
+      break;
     }
     if(yajl_parse(hand, (unsigned char *) &buf[count], rd) != yajl_status_ok) {
       unsigned char *errtxt = yajl_get_error(hand, 1,
-- 
2.43.0


From 47112cb0e08ccb2a58248d29c3b625924975abd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:08 +0000
Subject: [PATCH 036/116] fix: JSON null is stored and printed

---
 Db/dbjson.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index e684490..0ef91dd 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -122,6 +122,7 @@ static int array_begin_cb(void* cb_ctx);
 static int array_end_cb(void* cb_ctx);
 static int object_begin_cb(void* cb_ctx);
 static int object_end_cb(void* cb_ctx);
+static int elem_null_cb(void* cb_ctx);
 static int elem_integer_cb(void* cb_ctx, long long intval);
 static int elem_double_cb(void* cb_ctx, double doubleval);
 static int object_key_cb(void* cb_ctx, const unsigned char * strval,
@@ -153,7 +154,7 @@ yajl_callbacks validate_cb = {
 };
 
 yajl_callbacks input_cb = {
-    NULL,
+    elem_null_cb,
     NULL,
     elem_integer_cb,
     elem_double_cb,
@@ -649,6 +650,14 @@ static int object_end_cb(void* cb_ctx)
   return 1;
 }
 
+static int elem_null_cb(void* cb_ctx)
+{
+  parser_context *ctx = (parser_context *) cb_ctx;
+  if(!add_literal(ctx, wg_encode_null(ctx->db, NULL)))
+    return 0;
+  return 1;
+}
+
 static int elem_integer_cb(void* cb_ctx, long long intval)
 {
 /*  int i;*/
@@ -854,6 +863,10 @@ static int pretty_print_jsonval(void *db, yajl_gen *g, gint enc)
         return show_json_error(db, "Formatter failure");
       }
     }
+  } else if(type == WG_NULLTYPE) {
+    if(yajl_gen_null(*g) != yajl_gen_status_ok) {
+      return show_json_error(db, "Formatter failure");
+    }
   } else {
     /* other literal value */
     size_t len;
-- 
2.43.0


From 6f239e0d94a5363d7c6fc19ea984af2c6a772553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:35 +0000
Subject: [PATCH 037/116] fix: the smallest 64-bit integer is accepted in JSON

---
 json/yajl_all.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/json/yajl_all.c b/json/yajl_all.c
index 88d1c75..5c0abdc 100644
--- a/json/yajl_all.c
+++ b/json/yajl_all.c
@@ -1552,6 +1552,10 @@ yajl_parse_integer(const unsigned char *number, unsigned int length)
             return sign == 1 ? LLONG_MAX : LLONG_MIN;
         }
         ret *= 10;
+        if (sign == -1 && pos + 1 == number + length && *pos == '8' &&
+            LLONG_MAX - ret == 7) {
+            return LLONG_MIN; /* has no positive counterpart */
+        }
         if (LLONG_MAX - ret < (*pos - '0')) {
             errno = ERANGE;
             return sign == 1 ? LLONG_MAX : LLONG_MIN;
-- 
2.43.0


From 28f46bf6e24090cbc9ae4324d9b30b71f0a372d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:45 +0000
Subject: [PATCH 038/116] fix: print integers at full width

---
 Db/dbutil.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 5716487..b3a4ec9 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -246,8 +246,7 @@ void wg_snprint_value(void *db, gint enc, char *buf, int buflen) {
         snprint_record(db, (wg_int*)ptrdata, buf+len, buflen-len);
       break;
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
-      snprintf(buf, buflen, "%d", intdata);
+      snprintf(buf, buflen, "%td", wg_decode_int(db, enc));
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
@@ -350,12 +349,11 @@ static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
       buf[0] = '\0'; /* output an empty field */
       break;
     case WG_RECORDTYPE:
-      intdata = ptrtooffset(db, wg_decode_record(db, enc));
-      snprintf(buf, buflen, "\"<record offset %d>\"", intdata);
+      snprintf(buf, buflen, "\"<record offset %td>\"",
+        ptrtooffset(db, wg_decode_record(db, enc)));
       break;
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
-      snprintf(buf, buflen, "%d", intdata);
+      snprintf(buf, buflen, "%td", wg_decode_int(db, enc));
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
-- 
2.43.0


From 03dafee25f61a79a738797a849f468c47a15b2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:45 +0000
Subject: [PATCH 039/116] fix: print doubles in JSON exactly

---
 Db/dbjson.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index 0ef91dd..d40278a 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -867,6 +867,10 @@ static int pretty_print_jsonval(void *db, yajl_gen *g, gint enc)
     if(yajl_gen_null(*g) != yajl_gen_status_ok) {
       return show_json_error(db, "Formatter failure");
     }
+  } else if(type == WG_DOUBLETYPE) {
+    if(yajl_gen_double(*g, wg_decode_double(db, enc)) != yajl_gen_status_ok) {
+      return show_json_error(db, "Formatter failure");
+    }
   } else {
     /* other literal value */
     size_t len;
-- 
2.43.0


From af8504b91a967cf69a26c956b6b33e1a6d3cc65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:45 +0000
Subject: [PATCH 040/116] fix: JSON keys are stored in full

---
 Db/dbjson.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index d40278a..8ac8341 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -92,7 +92,7 @@ typedef struct {
   stack_entry_t type;
   stack_entry_elem *head;
   stack_entry_elem *tail;
-  char last_key[80];
+  char *last_key;
   int size;
 } stack_entry;
 
@@ -427,6 +427,7 @@ done:
       e->head = tmp->next;
       free(tmp);
     }
+    if(e->last_key) free(e->last_key);
   }
   if(hand) yajl_free(hand);
   return result;
@@ -463,6 +464,7 @@ static int push(parser_context *ctx, stack_entry_t type)
   e->type = type;
   e->head = NULL;
   e->tail = NULL;
+  e->last_key = NULL;
   return 1;
 }
 
@@ -522,6 +524,8 @@ static int pop(parser_context *ctx)
   }
   e->tail = NULL;
   e->size = 0;
+  if(e->last_key) free(e->last_key);
+  e->last_key = NULL;
 
   /* is it an element of something? */
   if(!istoplevel && rec && ret) {
@@ -560,7 +564,8 @@ static int add_elem(parser_context *ctx, gint enc)
 }
 
 /**
- * Store a key in the current stack entry.
+ * Store a key in the current stack entry. The stack entry becomes the
+ * owner of the string if the call is successful.
  */
 static int add_key(parser_context *ctx, char *key)
 {
@@ -570,8 +575,8 @@ static int add_key(parser_context *ctx, char *key)
     return 0; /* paranoia */
 
   e = &ctx->stack[ctx->stack_ptr];
-  strncpy(e->last_key, key, 80);
-  e->last_key[79] = '\0';
+  if(e->last_key) free(e->last_key);
+  e->last_key = key;
   return 1;
 }
 
@@ -700,12 +705,12 @@ static int object_key_cb(void* cb_ctx, const unsigned char * strval,
   strncpy(buf, (char *) strval, strl);
   buf[strl] = '\0';
 
+/*  OUT_INDENT(ctx->stack_ptr+1, i, stdout)
+  printf("KEY: %s\n", buf);*/
   if(!add_key(ctx, buf)) {
     res = 0;
+    free(buf);
   }
-/*  OUT_INDENT(ctx->stack_ptr+1, i, stdout)
-  printf("KEY: %s\n", buf);*/
-  free(buf);
   return res;
 }
 
-- 
2.43.0


From 9123308c20d6fc45e48cb9a637694b7b41783560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:41 +0000
Subject: [PATCH 041/116] fix: wg_snprint_value does not write past a tiny
 buffer

---
 Db/dbutil.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index b3a4ec9..3995e6d 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -233,6 +233,11 @@ void wg_snprint_value(void *db, gint enc, char *buf, int buflen) {
   double doubledata;
   char strbuf[80];
 
+  if(buflen < 2) {
+    if(buflen > 0)
+      *buf = '\0'; /* no space for anything else */
+    return;
+  }
   buflen--; /* snprintf adds '\0' */
   switch(wg_get_encoded_type(db, enc)) {
     case WG_NULLTYPE:
-- 
2.43.0


From d24249d68d31330265f60d12b23a4720769f3d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:41 +0000
Subject: [PATCH 042/116] fix: URI without a prefix is exported to CSV as it is

---
 Db/dbutil.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 3995e6d..fb62f63 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -346,7 +346,7 @@ static void csv_escaped_str(void *db, char *iptr, char *buf, int buflen) {
 static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
   int intdata, ilen;
   double doubledata;
-  char strbuf[80], *ibuf;
+  char strbuf[80], *ibuf, *exdata;
 
   buflen--; /* snprintf adds '\0' */
   switch(wg_get_encoded_type(db, enc)) {
@@ -379,14 +379,16 @@ static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
        * enough storage to concatenate the URI before encoding it for CSV.
        */
       ilen = wg_decode_uri_len(db, enc);
-      ilen += wg_decode_uri_prefix_len(db, enc);
+      if(wg_decode_uri_prefix(db, enc))
+        ilen += wg_decode_uri_prefix_len(db, enc);
       ibuf = (char *) malloc(ilen + 1);
       if(!ibuf) {
         show_io_error(db, "Failed to allocate memory");
         return;
       }
+      exdata = wg_decode_uri_prefix(db, enc);
       snprintf(ibuf, ilen+1, "%s%s",
-        wg_decode_uri_prefix(db, enc), wg_decode_uri(db, enc));
+        (exdata ? exdata : ""), wg_decode_uri(db, enc));
       csv_escaped_str(db, ibuf, buf, buflen);
       free(ibuf);
       break;
-- 
2.43.0


From 53fbba14fdd052794c5ee93ddce65606c130e537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:42 +0000
Subject: [PATCH 043/116] fix: quote characters in CSV export

---
 Db/dbutil.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index fb62f63..a8f3a8b 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -393,8 +393,9 @@ static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
       free(ibuf);
       break;
     case WG_CHARTYPE:
-      intdata = wg_decode_char(db, enc);
-      snprintf(buf, buflen, "%c", (char) intdata);
+      strbuf[0] = wg_decode_char(db, enc);
+      strbuf[1] = '\0';
+      csv_escaped_str(db, strbuf, buf, buflen);
       break;
     case WG_DATETYPE:
       intdata = wg_decode_date(db, enc);
-- 
2.43.0


From a36d6f0eb88257444c970a65e9cca23966e6ecc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:42 +0000
Subject: [PATCH 044/116] fix: the last line of a CSV file may end without a
 line end

---
 Db/dbutil.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index a8f3a8b..494112e 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -712,6 +712,7 @@ static gint fread_csv(void *db, FILE *f) {
   gint err = 0;
   gint uq_field, quoted_field, esc_quote, eat_sep; /** State flags */
   gint commit_strbuf, commit_record;
+  gint at_end = 0;
   gint reclen;
   gint encdata_sz = CSV_ENCDATA_BUF;
 
@@ -734,7 +735,7 @@ static gint fread_csv(void *db, FILE *f) {
   commit_strbuf = commit_record = 0;
   ptr = strbuf;
 
-  while(!feof(f)) {
+  while(!at_end) {
     /* Parse cycle consists:
      * 1. read character from stream. This can either:
      *   - change the state of the parser
@@ -745,15 +746,23 @@ static gint fread_csv(void *db, FILE *f) {
      *   - store the record in the database
      */
 
-    char c = (char) fgetc(f);
+    int c = fgetc(f);
 
-    if(quoted_field) {
+    if(c == EOF) {
+      /* The last line need not have a terminator. */
+      at_end = 1;
+      if(!uq_field && !quoted_field && !eat_sep && !reclen)
+        break; /* nothing pending */
+      commit_strbuf = !eat_sep;
+      commit_record = 1;
+    } else if(quoted_field) {
       /* We're parsing a quoted field. Anything we get is added to
        * strbuf unless it's a quote character.
        */
       if(!esc_quote && c == '"') {
-        char nextc = (char) fgetc(f);
-        ungetc((int) nextc, f);
+        int nextc = fgetc(f);
+        if(nextc != EOF)
+          ungetc(nextc, f);
 
         if(nextc!='"') {
           /* Field ends. Note that even EOF is acceptable here */
@@ -893,6 +902,11 @@ static gint fread_csv(void *db, FILE *f) {
     }
   }
 
+  if(!err && ferror(f)) {
+    err = -1;
+    show_io_error(db, "Failed to read the file");
+  }
+
   free(encdata);
   free(strbuf);
   return err;
-- 
2.43.0


From e24537ff0dce7169762f833aee95de5ce9eb54f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:42 +0000
Subject: [PATCH 045/116] fix: text that merely begins like a date or time is a
 string

---
 Db/dbutil.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 494112e..3160f67 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -540,6 +540,31 @@ gint wg_parse_and_encode_param(void *db, const char *buf) {
   return encoded;
 }
 
+/** Check that an entire string looks like an ISO date or time.
+ *
+ *  The string should consist of three numbers, divided by the separator. The
+ *  first one has up to firstlen digits, the others have up to 2. If fracsep is
+ *  not 0, it may be followed by that character and a fraction.
+ */
+static int is_iso_format(const char *buf, int firstlen, char sep,
+                                                    char fracsep) {
+  int i, digits;
+  for(i=0; i<3; i++) {
+    if(i && *buf++ != sep)
+      return 0;
+    for(digits=0; *buf >= '0' && *buf <= '9'; digits++)
+      buf++;
+    if(!digits || digits > (i ? 2 : firstlen))
+      return 0;
+  }
+  if(fracsep && *buf == fracsep) {
+    do {
+      buf++;
+    } while(*buf >= '0' && *buf <= '9');
+  }
+  return *buf == '\0';
+}
+
 /** Detect the type of input data in string format.
  *
  *  Supports following data types:
@@ -583,9 +608,11 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
   else if((c >= '0' && c <= '9') ||\
    (c == '-' && buf[1] >= '0' && buf[1] <= '9')) {
     /* This could be one of int, double, date or time */
-    if(c != '-' && (*datetime = wg_strp_iso_date(db, buf)) >= 0) {
+    if(is_iso_format(buf, 4, '-', 0) &&
+      (*datetime = wg_strp_iso_date(db, buf)) >= 0) {
       type = WG_DATETYPE;
-    } else if(c != '-' && (*datetime = wg_strp_iso_time(db, buf)) >= 0) {
+    } else if(is_iso_format(buf, 2, ':', '.') &&
+      (*datetime = wg_strp_iso_time(db, buf)) >= 0) {
       type = WG_TIMETYPE;
     } else {
       /* Examine the field contents to distinguish between float
-- 
2.43.0


From 015972de3be94cf10ead6c26e89354fc057b1d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:42 +0000
Subject: [PATCH 046/116] fix: one digit of fraction in ISO time means tenths

---
 Db/dbdata.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 2d45275..91b1082 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -1915,7 +1915,11 @@ int wg_strp_iso_time(void* db, const char* inbuf) {
   int sec=0;
   int prt=0;
 
-  sres=sscanf(inbuf,"%2d:%2d:%2d.%2d",&hr,&min,&sec,&prt);
+  int prtpos=0;
+  int prtend=0;
+
+  sres=sscanf(inbuf,"%2d:%2d:%2d.%n%2d%n",&hr,&min,&sec,&prtpos,&prt,&prtend);
+  if (sres==4 && prtend-prtpos==1) prt*=10; // tenths
   if (sres<3 || !is_valid_time(hr,min,sec,prt)) return -1;
   return hr*(60*60*100)+min*(60*100)+sec*100+prt;
 }
-- 
2.43.0


From c2a92f6796a3af10d8273c95b1d809174538347e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:42 +0000
Subject: [PATCH 047/116] fix: long text is not cut to a number

---
 Db/dbutil.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 3160f67..ffc202a 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -636,8 +636,11 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
           break;
         }
         *(wptr++) = *(ptr++);
-        if((int) (wptr - numbuf) >= 79)
+        if((int) (wptr - numbuf) >= 79) {
+          if(*ptr)
+            decsep = 2; /* too long for a number */
           break;
+        }
       }
       *wptr = '\0';
 
-- 
2.43.0


From db0b953e91781ae3088670b1ebf7b4f129607a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:42 +0000
Subject: [PATCH 048/116] fix: an earlier error does not affect the conversion
 of a number

---
 Db/dbutil.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index ffc202a..c47c672 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -647,6 +647,7 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
       if(decsep==1) {
         char tmp = *decptr;
         *decptr = '.'; /* ignore locale, force conversion by plain atof() */
+        errno = 0; /* not reset by a successful conversion */
         *doubledata = atof(numbuf);
         if(errno!=ERANGE && errno!=EINVAL) {
           type = WG_DOUBLETYPE;
@@ -655,6 +656,7 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
         }
         *decptr = tmp; /* conversion might have failed, restore string */
       } else if(!decsep) {
+        errno = 0;
         *intdata = atol(numbuf);
         if(errno!=ERANGE && errno!=EINVAL) {
           type = WG_INTTYPE;
-- 
2.43.0


From f9fe72dc248728a67ab7713edbd47a8a065463c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:28 +0000
Subject: [PATCH 049/116] fix: a wait for a lock that ends early is not a
 granted lock

---
 Db/dblock.c | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/Db/dblock.c b/Db/dblock.c
index 29ced95..b9672a0 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -1028,15 +1028,20 @@ gint db_tfqueue_wlock(void * db) {
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
     INIT_QLOCK_TIMEOUT(timeout, ts)
-    if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
-      lock_queue(db);
-      DEQUEUE_LOCK(db, dbh, lock, lockp)
-      free_lock(db, lock);
-      unlock_queue(db);
-      return 0;
+    /* The wait may end early (signal, wakeup meant for an earlier user
+     * of the cell), the lock is ours only after waiting is cleared. */
+    while(lockp->waiting) {
+      if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
+        lock_queue(db);
+        DEQUEUE_LOCK(db, dbh, lock, lockp)
+        free_lock(db, lock);
+        unlock_queue(db);
+        return 0;
+      }
     }
 #else
-    futex_wait(&lockp->waiting, 1);
+    while(lockp->waiting)
+      futex_wait(&lockp->waiting, 1);
 #endif
 #else
 /* XXX: add support for other platforms */
@@ -1145,15 +1150,20 @@ gint db_tfqueue_rlock(void * db) {
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
     INIT_QLOCK_TIMEOUT(timeout, ts)
-    if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
-      lock_queue(db);
-      DEQUEUE_LOCK(db, dbh, lock, lockp)
-      free_lock(db, lock);
-      unlock_queue(db);
-      return 0;
+    /* The wait may end early (signal, wakeup meant for an earlier user
+     * of the cell), the lock is ours only after waiting is cleared. */
+    while(lockp->waiting) {
+      if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
+        lock_queue(db);
+        DEQUEUE_LOCK(db, dbh, lock, lockp)
+        free_lock(db, lock);
+        unlock_queue(db);
+        return 0;
+      }
     }
 #else
-    futex_wait(&lockp->waiting, 1);
+    while(lockp->waiting)
+      futex_wait(&lockp->waiting, 1);
 #endif
 #else
 /* XXX: add support for other platforms */
-- 
2.43.0


From 302fc61c566e141c37cb2c0d4e4c864b8a730bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:29 +0000
Subject: [PATCH 050/116] fix: a lock granted to a waiter that is timing out is
 not lost

---
 Db/dblock.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Db/dblock.c b/Db/dblock.c
index b9672a0..dc853e7 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -1033,6 +1033,10 @@ gint db_tfqueue_wlock(void * db) {
     while(lockp->waiting) {
       if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
         lock_queue(db);
+        if(!lockp->waiting) { /* granted while we were timing out */
+          unlock_queue(db);
+          break;
+        }
         DEQUEUE_LOCK(db, dbh, lock, lockp)
         free_lock(db, lock);
         unlock_queue(db);
@@ -1155,6 +1159,10 @@ gint db_tfqueue_rlock(void * db) {
     while(lockp->waiting) {
       if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
         lock_queue(db);
+        if(!lockp->waiting) { /* granted while we were timing out */
+          unlock_queue(db);
+          break;
+        }
         DEQUEUE_LOCK(db, dbh, lock, lockp)
         free_lock(db, lock);
         unlock_queue(db);
-- 
2.43.0


From be516fbf8b11465c0ae025fe4e8a77c7270dbb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:29 +0000
Subject: [PATCH 051/116] fix: fractions of a second in lock time-outs

---
 Db/dblock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dblock.c b/Db/dblock.c
index dc853e7..51eb425 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -144,7 +144,7 @@ typedef int (kernel_cmpxchg_t) (int oldval, int newval, int *ptr);
 
 #define INIT_QLOCK_TIMEOUT(t, ts) \
   ts.tv_sec = t / 1000; \
-  ts.tv_nsec = t % 1000;
+  ts.tv_nsec = (t % 1000) * 1000000;
 
 #define ALLOC_LOCK(d, l) \
   l = alloc_lock(d); \
-- 
2.43.0


From b7df128ce6d1244dba4bc62c496d229587136a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:42 +0000
Subject: [PATCH 052/116] fix: an imported dump does not change the name of the
 database

---
 Db/dbdump.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index ecab351..329d36e 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -280,10 +280,11 @@ gint wg_import_dump(void * db,char fileName[]) {
   db_memsegment_header* dumph;
   FILE *f;
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint dbsize = -1, newsize;
+  gint dbsize = -1, newsize, key;
   gint err = -1;
 #ifdef USE_DBLOG
   gint active = dbh->logging.active;
+  gint serial = dbh->logging.serial;
 #endif
 
 
@@ -325,6 +326,7 @@ gint wg_import_dump(void * db,char fileName[]) {
   } else if(dbsize > 0) {
     /* We have a compatible dump file. */
     newsize = dbh->size;
+    key = dbh->key;
     fseek(f, 0, SEEK_SET);
     if(fread(dbmemseg(db), dbsize, 1, f) != 1) {
       show_dump_error(db, "Error reading dump file");
@@ -332,6 +334,7 @@ gint wg_import_dump(void * db,char fileName[]) {
     } else {
       err = 0;
       dbh->size = newsize;
+      dbh->key = key; /* the segment (and its journal) keep their name */
       dbh->checksum = 0;
     }
   }
@@ -347,6 +350,7 @@ abort:
   /* restart logging */
   dbh->logging.dirty = 0;
   dbh->logging.active = 0;
+  dbh->logging.serial = serial; /* journal files we have used so far */
   if(active) { /* state inherited from memory */
     if(wg_start_logging(db)) {
       return -2; /* Failed to re-initialize log */
-- 
2.43.0


From d807d50dd00eb39ce6636896bf4ab6276128fd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:42 +0000
Subject: [PATCH 053/116] fix: a file is verified before it is imported

---
 Db/dbdump.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 329d36e..934d30b 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -281,12 +281,19 @@ gint wg_import_dump(void * db,char fileName[]) {
   FILE *f;
   db_memsegment_header* dbh = dbmemsegh(db);
   gint dbsize = -1, newsize, key;
+  gint minsize, maxsize;
   gint err = -1;
 #ifdef USE_DBLOG
   gint active = dbh->logging.active;
   gint serial = dbh->logging.serial;
 #endif
 
+  /* Make sure that the file is a complete dump of a compatible database
+   * before anything in memory is overwritten.
+   */
+  if(wg_check_dump(db, fileName, &minsize, &maxsize)) {
+    return -1;
+  }
 
   /* Attempt to open the dump file */
 #ifdef _WIN32
@@ -298,9 +305,8 @@ gint wg_import_dump(void * db,char fileName[]) {
     return -1;
   }
 
-  /* Examine the dump header. We only read the size, it is
-   * implied that the integrity and compatibility were verified
-   * earlier.
+  /* Examine the dump header. We only read the size, the
+   * integrity and compatibility were verified earlier.
    */
   dumph = (db_memsegment_header *) malloc(sizeof(db_memsegment_header));
   if(!dumph) {
@@ -313,6 +319,7 @@ gint wg_import_dump(void * db,char fileName[]) {
     dbsize = dumph->free;
     if(dumph->extdbs.count != 0) {
       show_dump_error(db, "Dump contains external references");
+      free(dumph);
       goto abort;
     }
   }
-- 
2.43.0


From 496a8a306c6daa91edb06fcaa6c920d51136111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:56 +0000
Subject: [PATCH 054/116] fix: a dump that cannot be written completely is an
 error

---
 Db/dbdump.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 934d30b..c6c606c 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -85,7 +85,7 @@ gint wg_dump(void * db,char fileName[]) {
 gint wg_dump_internal(void * db, char fileName[], int locking) {
   FILE *f;
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint dbsize = dbh->free; /* first unused offset - 0 = db size */
+  gint dbsize;
 #ifdef USE_DBLOG
   gint active;
 #endif
@@ -115,6 +115,7 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
     lock_id = db_rlock(db, DEFAULT_LOCK_TIMEOUT);
     if(!lock_id) {
       show_dump_error(db, "Failed to lock the database for dump");
+      fclose(f);
       return -1;
     }
   }
@@ -124,6 +125,7 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
     lock_id = db_wlock(db, DEFAULT_LOCK_TIMEOUT);
     if(!lock_id) {
       show_dump_error(db, "Failed to lock the database for dump");
+      fclose(f);
       return -1;
     }
   }
@@ -134,18 +136,26 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
+  dbsize = dbh->free; /* first unused offset - 0 = db size */
+
   /* Compute the CRC32 of the used area */
   crc = update_crc32(dbmemsegbytes(db), dbsize, 0x0);
 
   /* Now, write the memory area to file */
   if(fwrite(dbmemseg(db), dbsize, 1, f) == 1) {
     /* Overwrite checksum field */
-    fseek(f, ptrtooffset(db, &(dbh->checksum)), SEEK_SET);
-    if(fwrite(&crc, sizeof(gint32), 1, f) == 1) {
+    if(!fseek(f, ptrtooffset(db, &(dbh->checksum)), SEEK_SET) &&
+      fwrite(&crc, sizeof(gint32), 1, f) == 1) {
       err = 0;
     }
   }
 
+  /* The data is in the file only when these succeed, too */
+  if(fflush(f))
+    err = -1;
+  if(fclose(f))
+    err = -1;
+
   if(err)
     show_dump_error(db, "Error writing file");
 
@@ -174,9 +184,6 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
-  fflush(f);
-  fclose(f);
-
   return err;
 }
 
-- 
2.43.0


From dddcb6817c26fb678e139cf1db0f211e5d1266b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:56 +0000
Subject: [PATCH 055/116] fix: a failed dump does not start a new journal

---
 Db/dbdump.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index c6c606c..90faabb 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -170,7 +170,8 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
 #else
   /* restart logging */
   if(active) {
-    dbh->logging.dirty = 0;
+    if(!err)
+      dbh->logging.dirty = 0; /* otherwise the old journal still counts */
     if(wg_start_logging(db)) {
       err = -2; /* Failed to re-initialize log */
     }
-- 
2.43.0


From ae4cfd1da4076b4723f89f1a1566f070ffa0081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:18 +0000
Subject: [PATCH 056/116] fix: integers are journaled with all their bits

---
 Db/dblog.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index b9c5a47..86873eb 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -532,12 +532,12 @@ gint recover_encode(void *db, FILE *f, gint type)
 {
   char *strbuf, *extbuf;
   gint length = 0, extlength = 0, enc;
-  int intval;
+  gint intval;
   double doubleval;
 
   switch(type) {
     case WG_INTTYPE:
-      if(fread((char *) &intval, sizeof(int), 1, f) != 1) {
+      if(fread((char *) &intval, sizeof(gint), 1, f) != 1) {
         show_log_error(db, "Failed to read log entry");
         return WG_ILLEGAL;
       }
@@ -1080,13 +1080,13 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       break;
     case WG_INTTYPE:
       /* int argument */
-      if(fits_smallint(*((int *) data))) {
+      if(fits_smallint(*((gint *) data))) {
         return 0; /* self-contained, don't log */
       } else {
-        buflen = 1 + sizeof(int);
+        buflen = 1 + sizeof(gint);
         buf = (unsigned char *) malloc(buflen);
         optr = buf + 1;
-        *((int *) optr) = *((int *) data);
+        memcpy(optr, data, sizeof(gint));
       }
       break;
     case WG_DOUBLETYPE:
-- 
2.43.0


From c521b4478e8691923267286f16325851884e930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:18 +0000
Subject: [PATCH 057/116] fix: the annotation of a string is not journaled
 inside the entry of the string

---
 Db/dbdata.c | 58 ++++++++++++++++++++++++-----------------------------
 1 file changed, 26 insertions(+), 32 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 91b1082..82ad01b 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -92,6 +92,7 @@ static long ymd_to_scalar (unsigned yr, unsigned mo, unsigned day);
 static void scalar_to_ymd (long scalar, unsigned *yr, unsigned *mo, unsigned *day);
 
 static gint free_field_encoffset(void* db,gint encoffset);
+static gint encode_unistr(void* db, const char* str, const char* lang, gint type);
 static gint find_create_longstr(void* db, const char* data, const char* extrastr, gint type, gint length);
 
 #ifdef USE_CHILD_DB
@@ -2599,6 +2600,29 @@ Universal funs for string, xmlliteral, uri, blob
 
 
 gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
+  gint enc;
+#ifdef USE_DBLOG
+  /* Log before allocating. */
+  if(dbmemsegh(db)->logging.active) {
+    gint len = (gint)(strlen(str)), extlen = 0;
+    if(lang) extlen = strlen(lang);
+    if(wg_log_encode(db, type, str, len, lang, extlen))
+      return WG_ILLEGAL;
+  }
+#endif
+  enc = encode_unistr(db, str, lang, type);
+#ifdef USE_DBLOG
+  /* Append the result (or WG_ILLEGAL) to log */
+  if(dbmemsegh(db)->logging.active) {
+    if(wg_log_encval(db, enc))
+      return WG_ILLEGAL; /* journal error */
+  }
+#endif
+  return enc;
+}
+
+/** Encode a string without logging the operation */
+static gint encode_unistr(void* db, const char* str, const char* lang, gint type) {
   gint offset;
   gint len;
 #ifdef USETINYSTR
@@ -2609,15 +2633,6 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
   char* dendptr;
 
   len=(gint)(strlen(str));
-#ifdef USE_DBLOG
-  /* Log before allocating. */
-  if(dbmemsegh(db)->logging.active) {
-    gint extlen = 0;
-    if(lang) extlen = strlen(lang);
-    if(wg_log_encode(db, type, str, len, lang, extlen))
-      return WG_ILLEGAL;
-  }
-#endif
 #ifdef USETINYSTR
 /* XXX: add tinystr support to logging */
 #ifdef USE_DBLOG
@@ -2639,11 +2654,6 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
     offset=alloc_shortstr(db);
     if (!offset) {
       show_data_error_str(db,"cannot store a string in wg_encode_unistr",str);
-#ifdef USE_DBLOG
-      if(dbmemsegh(db)->logging.active) {
-        wg_log_encval(db, WG_ILLEGAL);
-      }
-#endif
       return WG_ILLEGAL;
     }
     // loop over bytes, storing them starting from offset
@@ -2656,31 +2666,14 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
     for(sptr=(char *) str; (*dptr=*sptr)!=0; sptr++, dptr++) {}; // copy string
     for(dptr++; dptr<dendptr; dptr++) { *dptr=0; }; // zero the rest
     // store offset to field
-#ifdef USE_DBLOG
-    if(dbmemsegh(db)->logging.active) {
-      if(wg_log_encval(db, encode_shortstr_offset(offset)))
-        return WG_ILLEGAL; /* journal error */
-    }
-#endif
     return encode_shortstr_offset(offset);
     //dbstore(db,ptrtoffset(record)+RECORD_HEADER_GINTS+fieldnr,encode_shortstr_offset(offset));
   } else {
     offset=find_create_longstr(db,str,lang,type,len+1);
     if (!offset) {
       show_data_error_nr(db,"cannot create a string of size ",len);
-#ifdef USE_DBLOG
-      if(dbmemsegh(db)->logging.active) {
-        wg_log_encval(db, WG_ILLEGAL);
-      }
-#endif
       return WG_ILLEGAL;
     }
-#ifdef USE_DBLOG
-    if(dbmemsegh(db)->logging.active) {
-      if(wg_log_encval(db, encode_longstr_offset(offset)))
-        return WG_ILLEGAL; /* journal error */
-    }
-#endif
     return encode_longstr_offset(offset);
   }
 }
@@ -2753,7 +2746,8 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
     }
     // if extrastr exists, encode extrastr and store ptr to longstr record field
     if (extrastr!=NULL) {
-      tmp=wg_encode_str(db,extrastr,NULL);
+      /* part of the value being encoded, not logged separately */
+      tmp=encode_unistr(db,extrastr,NULL,WG_STRTYPE);
       if (tmp==WG_ILLEGAL) {
         //show_data_error_nr(db,"cannot create an (extra)string of size ",strlen(extrastr));
         return 0;
-- 
2.43.0


From d69bb2fbb4310bfe14854988a7b27c5697ee6348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:38 +0000
Subject: [PATCH 058/116] fix: a long annotation of a string stays in its hash
 chain

---
 Db/dbdata.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 82ad01b..78ad68b 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2750,8 +2750,11 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
       tmp=encode_unistr(db,extrastr,NULL,WG_STRTYPE);
       if (tmp==WG_ILLEGAL) {
         //show_data_error_nr(db,"cannot create an (extra)string of size ",strlen(extrastr));
+        wg_free_object(db, &(dbmemsegh(db)->longstr_area_header), offset);
         return 0;
       }
+      // a long extrastr may have been added to the same hash chain
+      hasharrel=dbfetch(db,((dbh->strhash_area_header).arraystart)+(sizeof(gint)*hash));
       dbstore(db,offset+LONGSTR_EXTRASTR_POS*sizeof(gint),tmp);
       // increase extrastr refcount
       if(islongstr(tmp)) {
-- 
2.43.0


From ddf1f318b534c7a94b48e42a15cc899dbc3f03de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:38 +0000
Subject: [PATCH 059/116] fix: blobs are journaled

---
 Db/dbdata.c | 20 ++++++++++++++++++++
 Db/dblog.c  |  9 ++++++---
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 78ad68b..468b7f5 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2682,13 +2682,33 @@ static gint encode_unistr(void* db, const char* str, const char* lang, gint type
 gint wg_encode_uniblob(void* db, const char* str, const char* lang, gint type, gint len) {
   gint offset;
 
+#ifdef USE_DBLOG
+  /* Log before allocating. */
+  if(dbmemsegh(db)->logging.active) {
+    gint extlen = 0;
+    if(lang) extlen = strlen(lang);
+    if(wg_log_encode(db, type, str, len, lang, extlen))
+      return WG_ILLEGAL;
+  }
+#endif
   if (0) {
   } else {
     offset=find_create_longstr(db,str,lang,type,len);
     if (!offset) {
       show_data_error_nr(db,"cannot create a blob of size ",len);
+#ifdef USE_DBLOG
+      if(dbmemsegh(db)->logging.active) {
+        wg_log_encval(db, WG_ILLEGAL);
+      }
+#endif
       return WG_ILLEGAL;
     }
+#ifdef USE_DBLOG
+    if(dbmemsegh(db)->logging.active) {
+      if(wg_log_encval(db, encode_longstr_offset(offset)))
+        return WG_ILLEGAL; /* journal error */
+    }
+#endif
     return encode_longstr_offset(offset);
   }
 }
diff --git a/Db/dblog.c b/Db/dblog.c
index 86873eb..b4a6d19 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -552,7 +552,7 @@ gint recover_encode(void *db, FILE *f, gint type)
     case WG_URITYPE:
     case WG_XMLLITERALTYPE:
     case WG_ANONCONSTTYPE:
-    case WG_BLOBTYPE: /* XXX: no encode func for this yet */
+    case WG_BLOBTYPE:
       /* strings with extdata */
       GET_LOG_VARINT(db, f, length, WG_ILLEGAL)
       GET_LOG_VARINT(db, f, extlength, WG_ILLEGAL)
@@ -587,7 +587,10 @@ gint recover_encode(void *db, FILE *f, gint type)
         extbuf = NULL;
       }
 
-      enc = wg_encode_unistr(db, strbuf, extbuf, type);
+      if(type == WG_BLOBTYPE) /* may contain any bytes */
+        enc = wg_encode_uniblob(db, strbuf, extbuf, type, length);
+      else
+        enc = wg_encode_unistr(db, strbuf, extbuf, type);
       free(strbuf);
       if(extbuf)
         free(extbuf);
@@ -1100,7 +1103,7 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
     case WG_URITYPE:
     case WG_XMLLITERALTYPE:
     case WG_ANONCONSTTYPE:
-    case WG_BLOBTYPE: /* XXX: no encode func for this yet */
+    case WG_BLOBTYPE:
       /* strings with extdata */
       buflen = 1 + 2*VARINT_SIZE + length + extlength;
       buf = (unsigned char *) malloc(buflen);
-- 
2.43.0


From f327640408976af2c8440e51ec9b4e4f2def8adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:05 +0000
Subject: [PATCH 060/116] fix: journal replay uses the latest translation of an
 address

---
 Db/dbhash.c |  8 ++++++++
 Db/dblog.c  | 20 ++++++++++----------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index de69cf1..7f2f2e2 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -620,6 +620,7 @@ void *wg_ginthash_init(void *db) {
 }
 
 /** Add a key/value pair to the hash table.
+ *  If the key is already present, its value is replaced.
  *  tbl should be created with wg_ginthash_init()
  *  Returns 0 on success
  *  Returns -1 on failure
@@ -640,6 +641,13 @@ gint wg_ginthash_addkey(void *db, void *tbl, gint key, gint val) {
     ((ext_ginthash *)tbl)->directory[hash] = bucket;
   }
   else {
+    int i;
+    for(i=0; i<bucket->fill; i++) {
+      if(bucket->key[i] == key) {
+        bucket->value[i] = val;
+        return 0;
+      }
+    }
     add_to_bucket(bucket, key, val);
     while(bucket->fill > GINTHASH_BUCKETCAP) {
       ginthash_bucket *newb;
diff --git a/Db/dblog.c b/Db/dblog.c
index b4a6d19..195fab5 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -448,6 +448,10 @@ static int fget_varint(void *db, FILE *f, wg_uint *val) {
  */
 static gint add_tran_offset(void *db, void *table, gint old, gint new)
 {
+  gint prev;
+  /* The space may have been in use (and translated) earlier */
+  if(old == new && wg_ginthash_getkey(db, table, old, &prev))
+    return 0; /* no translation needed */
   return wg_ginthash_addkey(db, table, old, new);
 }
 
@@ -625,11 +629,9 @@ static gint recover_journal(void *db, FILE *f, void *table)
             return show_log_error(db, "Failed to create a new record");
           }
           newoffset = ptrtooffset(db, rec);
-          if(newoffset != offset) {
-            if(add_tran_offset(db, table, offset, newoffset)) {
-              return show_log_error(db, "Failed to parse log "\
-                "(out of translation memory)");
-            }
+          if(add_tran_offset(db, table, offset, newoffset)) {
+            return show_log_error(db, "Failed to parse log "\
+              "(out of translation memory)");
           }
         }
         break;
@@ -650,11 +652,9 @@ static gint recover_journal(void *db, FILE *f, void *table)
           if(newenc == WG_ILLEGAL) {
             return -1;
           }
-          if(newenc != enc) {
-            if(add_tran_enc(db, table, enc, newenc)) {
-              return show_log_error(db, "Failed to parse log "\
-                "(out of translation memory)");
-            }
+          if(add_tran_enc(db, table, enc, newenc)) {
+            return show_log_error(db, "Failed to parse log "\
+              "(out of translation memory)");
           }
         }
         break;
-- 
2.43.0


From 69438129b71a43f11535b533b09e0dace99bfa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:32 +0000
Subject: [PATCH 061/116] fix: the kind of parameter and template records is
 journaled

---
 Db/dbindex.c  |  9 +++++++++
 Db/dblog.c    |  7 +++++++
 Db/dbschema.c | 14 +++++++++++---
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 3e87630..74939f4 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -46,6 +46,7 @@ extern "C" {
 #include "dbcompare.h"
 #include "dbhash.h"
 #include "dbutil.h"
+#include "dblog.h"
 
 
 /* ====== Private defs =========== */
@@ -1860,6 +1861,14 @@ nextelem:
     return 0;
   meta = ((gint *) rec + RECORD_META_POS);
   *meta |= (RECORD_META_NOTDATA | RECORD_META_MATCH);
+#ifdef USE_DBLOG
+  if(dbh->logging.active) {
+    if(wg_log_set_meta(db, rec, *meta)) {
+      wg_delete_record(db, rec);
+      return 0;
+    }
+  }
+#endif
   for(i=0; i<reclen; i++) {
     if(wg_set_new_field(db, rec, i, matchrec[i]) < 0) {
       wg_delete_record(db, rec);
diff --git a/Db/dblog.c b/Db/dblog.c
index 195fab5..d03f1ed 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -59,6 +59,7 @@ extern "C" {
 #include "dballoc.h"
 #include "dbdata.h"
 #include "dbhash.h"
+#include "dbindex.h"
 
 /* ====== Private headers and defs ======== */
 
@@ -674,6 +675,12 @@ static gint recover_journal(void *db, FILE *f, void *table)
         GET_LOG_VARINT(db, f, meta, -1)
         newoffset = translate_offset(db, table, offset);
         rec = offsettoptr(db, newoffset);
+        if((meta & RECORD_META_NOTDATA) && !is_special_record(rec)) {
+          /* such records are not indexed */
+          if(wg_index_del_rec(db, rec) < -1) {
+            return show_log_error(db, "Failed to set record metadata");
+          }
+        }
         *((gint *) rec + RECORD_META_POS) = meta;
         break;
       default:
diff --git a/Db/dbschema.c b/Db/dbschema.c
index 5bbcc00..b25d089 100644
--- a/Db/dbschema.c
+++ b/Db/dbschema.c
@@ -72,11 +72,19 @@ static gint show_schema_error(void *db, char *errmsg);
  */
 void *wg_create_triple(void *db, gint subj, gint prop, gint ob, gint isparam) {
   void *rec = wg_create_raw_record(db, WG_SCHEMA_TRIPLE_SIZE);
-  gint *meta;
+  gint *metap, meta;
   if(rec) {
-    meta = ((gint *) rec + RECORD_META_POS);
+    metap = ((gint *) rec + RECORD_META_POS);
     if(isparam) {
-      *meta |= (RECORD_META_NOTDATA|RECORD_META_MATCH);
+      meta = *metap; /* Temp variable used for write-ahead logging */
+      meta |= (RECORD_META_NOTDATA|RECORD_META_MATCH);
+#ifdef USE_DBLOG
+      if(dbmemsegh(db)->logging.active) {
+        if(wg_log_set_meta(db, rec, meta))
+          return NULL;
+      }
+#endif
+      *metap = meta;
     } else if(wg_index_add_rec(db, rec) < -1) {
       return NULL; /* index error */
     }
-- 
2.43.0


From 34a78c59581450f97ebf667fe0c36290cb77d036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:52 +0000
Subject: [PATCH 062/116] fix: operations that fail are not replayed

---
 Db/dbdata.c | 62 +++++++++++++++++++++++------------------------------
 Db/dblog.c  |  5 +++++
 2 files changed, 32 insertions(+), 35 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 468b7f5..1063e6a 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -219,6 +219,15 @@ gint wg_delete_record(void* db, void *rec) {
   }
 #endif
 
+  offset = ptrtooffset(db, rec);
+#if defined(CHECK) && defined(USE_CHILD_DB)
+  /* Check if it's a local record */
+  if(!is_local_offset(db, offset)) {
+    show_data_error(db, "not deleting an external record");
+    return -2;
+  }
+#endif
+
 #ifdef USE_BACKLINKING
   if(*((gint *) rec + RECORD_BACKLINKS_POS))
     return -1;
@@ -238,15 +247,6 @@ gint wg_delete_record(void* db, void *rec) {
       return -3; /* index error */
   }
 
-  offset = ptrtooffset(db, rec);
-#if defined(CHECK) && defined(USE_CHILD_DB)
-  /* Check if it's a local record */
-  if(!is_local_offset(db, offset)) {
-    show_data_error(db, "not deleting an external record");
-    return -2;
-  }
-#endif
-
   /* Loop over fields, freeing them */
   dendptr = (gint *) (((char *) rec) + datarec_size_bytes(*((gint *)rec)));
   for(dptr=(gint *)rec+RECORD_HEADER_GINTS; dptr<dendptr; dptr++) {
@@ -778,19 +778,6 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
-#ifdef USE_DBLOG
-  /* Do not proceed before we've logged the operation */
-  if(dbh->logging.active) {
-    if(wg_log_set_field(db,record,fieldnr,data)) {
-#ifdef USE_BACKLINKING
-      if(new_backlink)
-        wg_free_listcell(db, new_backlink);
-#endif
-      return -6; /* journal error, cannot write */
-    }
-  }
-#endif
-
   /* Skip changes if the value does not change */
   if(fielddata == data) {
     return 0;
@@ -810,6 +797,15 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 
   /* Update index after new value is written */
   err = restore_field_index_entries(db, (gint *) record, fieldnr);
+#ifdef USE_DBLOG
+  /* Nothing can fail any more. Do not proceed before we've logged
+   * the operation.
+   */
+  if(!err && dbh->logging.active) {
+    if(wg_log_set_field(db,record,fieldnr,data))
+      err = -6; /* journal error, cannot write */
+  }
+#endif
   if(err) {
     /* Put the old value back, as if nothing had happened */
     remove_field_index_entries(db, (gint *) record, fieldnr);
@@ -966,19 +962,6 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
-#ifdef USE_DBLOG
-  /* Do not proceed before we've logged the operation */
-  if(dbh->logging.active) {
-    if(wg_log_set_field(db,record,fieldnr,data)) {
-#ifdef USE_BACKLINKING
-      if(new_backlink)
-        wg_free_listcell(db, new_backlink);
-#endif
-      return -6; /* journal error, cannot write */
-    }
-  }
-#endif
-
 #if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
   /* The value of referring records changes, take them out of indexes.
    * Normal usage scenario would be that the record is also new, so that
@@ -999,6 +982,15 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 
   /* Update index after new value is written */
   err = restore_field_index_entries(db, (gint *) record, fieldnr);
+#ifdef USE_DBLOG
+  /* Nothing can fail any more. Do not proceed before we've logged
+   * the operation.
+   */
+  if(!err && dbh->logging.active) {
+    if(wg_log_set_field(db,record,fieldnr,data))
+      err = -6; /* journal error, cannot write */
+  }
+#endif
   if(err) {
     remove_field_index_entries(db, (gint *) record, fieldnr);
     (*fieldadr)=0;
diff --git a/Db/dblog.c b/Db/dblog.c
index d03f1ed..5a01321 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -634,6 +634,11 @@ static gint recover_journal(void *db, FILE *f, void *table)
             return show_log_error(db, "Failed to parse log "\
               "(out of translation memory)");
           }
+        } else if(rec) {
+          /* The record was not created originally */
+          if(wg_delete_record(db, rec)) {
+            return show_log_error(db, "Failed to delete a record");
+          }
         }
         break;
       case WG_JOURNAL_ENTRY_DEL:
-- 
2.43.0


From 9efb76d3cd81d365e53d842736fa5d8165705083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:05 +0000
Subject: [PATCH 063/116] fix: a file that is not a journal leaves logging and
 open files as they were

---
 Db/dblog.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index 5a01321..750bd1f 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -889,7 +889,7 @@ gint wg_replay_log(void *db, char *filename)
   gint active, err = 0;
   void *tran_tbl;
   int fd;
-  FILE *f;
+  FILE *f = NULL;
 
 #ifndef _WIN32
   if((fd = open(filename, O_RDONLY)) == -1) {
@@ -900,20 +900,25 @@ gint wg_replay_log(void *db, char *filename)
     return -1;
   }
 
+  active = dbh->logging.active;
+  dbh->logging.active = 0; /* turn logging off before restoring */
+
   if(check_journal(db, fd)) {
     err = -1;
     goto abort2;
   }
 
-  active = dbh->logging.active;
-  dbh->logging.active = 0; /* turn logging off before restoring */
-
   /* Reading can be done with buffered IO */
 #ifndef _WIN32
   f = fdopen(fd, "r");
 #else
   f = _fdopen(fd, "rb");
 #endif
+  if(!f) {
+    show_log_error(db, "Error opening log file");
+    err = -1;
+    goto abort2;
+  }
   /* XXX: may consider fcntl-locking here */
   /* restore the log contents */
   tran_tbl = wg_ginthash_init(db);
@@ -936,6 +941,17 @@ abort1:
   fclose(f);
 
 abort2:
+  if(!f) {
+#ifndef _WIN32
+    close(fd);
+#else
+    _close(fd);
+#endif
+  }
+  if(err == -1) {
+    /* Nothing was changed, the current journal is still valid */
+    dbh->logging.active = active;
+  }
   if(!err && active) {
     if(wg_start_logging(db)) {
       show_log_error(db, "Log restored but failed to reactivate logging");
-- 
2.43.0


From 33913a79682f324f386d2ec8c44ba47c98a88e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:09 +0000
Subject: [PATCH 064/116] fix: damaged journal entries are refused

---
 Db/dblog.c | 94 ++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 70 insertions(+), 24 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index 750bd1f..7843605 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -119,7 +119,8 @@ static gint add_tran_offset(void *db, void *table, gint old, gint new);
 static gint add_tran_enc(void *db, void *table, gint old, gint new);
 static gint translate_offset(void *db, void *table, gint offset);
 static gint translate_encoded(void *db, void *table, gint enc);
-static gint recover_encode(void *db, FILE *f, gint type);
+static gint recover_encode(void *db, FILE *f, gint type, gint *enc);
+static void *recover_record(void *db, void *table, gint offset);
 static gint recover_journal(void *db, FILE *f, void *table);
 
 static gint write_log_buffer(void *db, void *buf, int buflen);
@@ -530,13 +531,44 @@ static gint translate_encoded(void *db, void *table, gint enc)
   return enc;
 }
 
+/** Find the record a log entry refers to.
+ *
+ *  Returns NULL if there can be no such record in the database.
+ */
+static void *recover_record(void *db, void *table, gint offset)
+{
+  db_area_header *areah = &(dbmemsegh(db)->datarec_area_header);
+  int i;
+
+  offset = translate_offset(db, table, offset);
+  for(i=0; i<=areah->last_subarea_index; i++) {
+    gint start = (areah->subarea_array)[i].alignedoffset;
+    gint end = start + (areah->subarea_array)[i].alignedsize;
+    if(offset > start && offset < end) {
+      gint head;
+      if((offset - start) % sizeof(gint))
+        break;
+      head = dbfetch(db, offset);
+      if(!isnormalusedobject(head) ||\
+        getusedobjectsize(head) < RECORD_HEADER_GINTS*sizeof(gint) ||\
+        getusedobjectsize(head) > end - offset)
+        break;
+      return offsettoptr(db, offset);
+    }
+  }
+  show_log_error(db, "No such record");
+  return NULL;
+}
+
 /** Parse an encode entry from the log.
+ *  Sets enc to the encoded value (or WG_ILLEGAL, if encoding failed)
  *
+ *  Returns -1 if the entry is not valid.
  */
-gint recover_encode(void *db, FILE *f, gint type)
+static gint recover_encode(void *db, FILE *f, gint type, gint *enc)
 {
   char *strbuf, *extbuf;
-  gint length = 0, extlength = 0, enc;
+  gint length = 0, extlength = 0;
   gint intval;
   double doubleval;
 
@@ -544,33 +576,39 @@ gint recover_encode(void *db, FILE *f, gint type)
     case WG_INTTYPE:
       if(fread((char *) &intval, sizeof(gint), 1, f) != 1) {
         show_log_error(db, "Failed to read log entry");
-        return WG_ILLEGAL;
+        return -1;
       }
-      return wg_encode_int(db, intval);
+      *enc = wg_encode_int(db, intval);
+      return 0;
     case WG_DOUBLETYPE:
       if(fread((char *) &doubleval, sizeof(double), 1, f) != 1) {
         show_log_error(db, "Failed to read log entry");
-        return WG_ILLEGAL;
+        return -1;
       }
-      return wg_encode_double(db, doubleval);
+      *enc = wg_encode_double(db, doubleval);
+      return 0;
     case WG_STRTYPE:
     case WG_URITYPE:
     case WG_XMLLITERALTYPE:
     case WG_ANONCONSTTYPE:
     case WG_BLOBTYPE:
       /* strings with extdata */
-      GET_LOG_VARINT(db, f, length, WG_ILLEGAL)
-      GET_LOG_VARINT(db, f, extlength, WG_ILLEGAL)
+      GET_LOG_VARINT(db, f, length, -1)
+      GET_LOG_VARINT(db, f, extlength, -1)
+
+      if(length < 0 || extlength < 0) {
+        return show_log_error(db, "Invalid log entry");
+      }
 
       strbuf = (char *) malloc(length + 1);
       if(!strbuf) {
         show_log_error(db, "Failed to allocate buffers");
-        return WG_ILLEGAL;
+        return -1;
       }
       if(fread(strbuf, 1, length, f) != length) {
         show_log_error(db, "Failed to read log entry");
         free(strbuf);
-        return WG_ILLEGAL;
+        return -1;
       }
       strbuf[length] = '\0';
 
@@ -579,13 +617,13 @@ gint recover_encode(void *db, FILE *f, gint type)
         if(!extbuf) {
           free(strbuf);
           show_log_error(db, "Failed to allocate buffers");
-          return WG_ILLEGAL;
+          return -1;
         }
         if(fread(extbuf, 1, extlength, f) != extlength) {
           show_log_error(db, "Failed to read log entry");
           free(strbuf);
           free(extbuf);
-          return WG_ILLEGAL;
+          return -1;
         }
         extbuf[extlength] = '\0';
       } else {
@@ -593,13 +631,13 @@ gint recover_encode(void *db, FILE *f, gint type)
       }
 
       if(type == WG_BLOBTYPE) /* may contain any bytes */
-        enc = wg_encode_uniblob(db, strbuf, extbuf, type, length);
+        *enc = wg_encode_uniblob(db, strbuf, extbuf, type, length);
       else
-        enc = wg_encode_unistr(db, strbuf, extbuf, type);
+        *enc = wg_encode_unistr(db, strbuf, extbuf, type);
       free(strbuf);
       if(extbuf)
         free(extbuf);
-      return enc;
+      return 0;
     default:
       break;
   }
@@ -643,15 +681,19 @@ static gint recover_journal(void *db, FILE *f, void *table)
         break;
       case WG_JOURNAL_ENTRY_DEL:
         GET_LOG_VARINT(db, f, offset, -1)
-        newoffset = translate_offset(db, table, offset);
-        rec = offsettoptr(db, newoffset);
+        rec = recover_record(db, table, offset);
+        if(!rec) {
+          return -1;
+        }
         if(wg_delete_record(db, rec) < -1) {
           return show_log_error(db, "Failed to delete a record");
         }
         break;
       case WG_JOURNAL_ENTRY_ENC:
-        newenc = recover_encode(db, f,
-          (unsigned char) c & WG_JOURNAL_ENTRY_TYPEMASK);
+        if(recover_encode(db, f,
+          (unsigned char) c & WG_JOURNAL_ENTRY_TYPEMASK, &newenc)) {
+          return -1;
+        }
         GET_LOG_VARINT(db, f, enc, -1)
         if(enc != WG_ILLEGAL) {
           /* Encode was supposed to succeed */
@@ -668,8 +710,10 @@ static gint recover_journal(void *db, FILE *f, void *table)
         GET_LOG_VARINT(db, f, offset, -1)
         GET_LOG_VARINT(db, f, col, -1)
         GET_LOG_VARINT(db, f, enc, -1)
-        newoffset = translate_offset(db, table, offset);
-        rec = offsettoptr(db, newoffset);
+        rec = recover_record(db, table, offset);
+        if(!rec) {
+          return -1;
+        }
         newenc = translate_encoded(db, table, enc);
         if(wg_set_field(db, rec, col, newenc)) {
           return show_log_error(db, "Failed to set field data");
@@ -678,8 +722,10 @@ static gint recover_journal(void *db, FILE *f, void *table)
       case WG_JOURNAL_ENTRY_META:
         GET_LOG_VARINT(db, f, offset, -1)
         GET_LOG_VARINT(db, f, meta, -1)
-        newoffset = translate_offset(db, table, offset);
-        rec = offsettoptr(db, newoffset);
+        rec = recover_record(db, table, offset);
+        if(!rec) {
+          return -1;
+        }
         if((meta & RECORD_META_NOTDATA) && !is_special_record(rec)) {
           /* such records are not indexed */
           if(wg_index_del_rec(db, rec) < -1) {
-- 
2.43.0


From 3cca6fdecef744da299d61f02e8ce72985ecf24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:27 +0000
Subject: [PATCH 065/116] fix: an empty annotation is not lost in the journal

---
 Db/dblog.c | 13 +++++++++----
 Db/dblog.h |  3 ++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index 7843605..ec8db16 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -119,7 +119,8 @@ static gint add_tran_offset(void *db, void *table, gint old, gint new);
 static gint add_tran_enc(void *db, void *table, gint old, gint new);
 static gint translate_offset(void *db, void *table, gint offset);
 static gint translate_encoded(void *db, void *table, gint enc);
-static gint recover_encode(void *db, FILE *f, gint type, gint *enc);
+static gint recover_encode(void *db, FILE *f, gint type, int emptyext,
+  gint *enc);
 static void *recover_record(void *db, void *table, gint offset);
 static gint recover_journal(void *db, FILE *f, void *table);
 
@@ -565,7 +566,8 @@ static void *recover_record(void *db, void *table, gint offset)
  *
  *  Returns -1 if the entry is not valid.
  */
-static gint recover_encode(void *db, FILE *f, gint type, gint *enc)
+static gint recover_encode(void *db, FILE *f, gint type, int emptyext,
+  gint *enc)
 {
   char *strbuf, *extbuf;
   gint length = 0, extlength = 0;
@@ -612,7 +614,7 @@ static gint recover_encode(void *db, FILE *f, gint type, gint *enc)
       }
       strbuf[length] = '\0';
 
-      if(extlength) {
+      if(extlength || emptyext) {
         extbuf = (char *) malloc(extlength + 1);
         if(!extbuf) {
           free(strbuf);
@@ -691,7 +693,8 @@ static gint recover_journal(void *db, FILE *f, void *table)
         break;
       case WG_JOURNAL_ENTRY_ENC:
         if(recover_encode(db, f,
-          (unsigned char) c & WG_JOURNAL_ENTRY_TYPEMASK, &newenc)) {
+          (unsigned char) c & WG_JOURNAL_ENTRY_TYPEMASK,
+          (unsigned char) c & WG_JOURNAL_ENTRY_EMPTYEXT, &newenc)) {
           return -1;
         }
         GET_LOG_VARINT(db, f, enc, -1)
@@ -1204,6 +1207,8 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
 
   /* Add a fixed prefix */
   buf[0] = WG_JOURNAL_ENTRY_ENC | type;
+  if(extdata && !extlength)
+    buf[0] |= WG_JOURNAL_ENTRY_EMPTYEXT;
 
   err = write_log_buffer(db, (void *) buf, buflen);
   free(buf);
diff --git a/Db/dblog.h b/Db/dblog.h
index cf72c83..331534e 100644
--- a/Db/dblog.h
+++ b/Db/dblog.h
@@ -45,7 +45,8 @@
 #define WG_JOURNAL_ENTRY_SET ((unsigned char) 0xc0)
 #define WG_JOURNAL_ENTRY_META ((unsigned char) 0x20)
 #define WG_JOURNAL_ENTRY_CMDMASK (0xe0)
-#define WG_JOURNAL_ENTRY_TYPEMASK (0x1f)
+#define WG_JOURNAL_ENTRY_TYPEMASK (0x0f)
+#define WG_JOURNAL_ENTRY_EMPTYEXT (0x10) /* with ENC: extdata is "" */
 
 
 /* ====== data structures ======== */
-- 
2.43.0


From 43af40bf687b4c1857b1cf8494058ed74db5b28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:56 +0000
Subject: [PATCH 066/116] fix: a journal entry is written completely or not at
 all

---
 Db/dbdata.c | 17 +++++++++++++----
 Db/dblog.c  | 52 +++++++++++++++++++++++++++++++++++++++++++---------
 Db/dblog.h  |  8 ++++++++
 3 files changed, 64 insertions(+), 13 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 1063e6a..22f91e4 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -189,8 +189,10 @@ void* wg_create_raw_record(void* db, wg_int length) {
 #ifdef USE_DBLOG
   /* Append the created offset to log */
   if(dbmemsegh(db)->logging.active) {
-    if(wg_log_encval(db, offset))
+    if(wg_log_encval(db, offset)) {
+      wg_free_object(db, &(dbmemsegh(db)->datarec_area_header), offset);
       return 0; /* journal error */
+    }
   }
 #endif
 
@@ -1602,8 +1604,10 @@ wg_int wg_encode_int(void* db, wg_int data) {
     dbstore(db,offset,data);
 #ifdef USE_DBLOG
     if(dbmemsegh(db)->logging.active) {
-      if(wg_log_encval(db, encode_fullint_offset(offset)))
+      if(wg_log_encval(db, encode_fullint_offset(offset))) {
+        free_field_encoffset(db, encode_fullint_offset(offset));
         return WG_ILLEGAL; /* journal error */
+      }
     }
 #endif
     return encode_fullint_offset(offset);
@@ -1687,8 +1691,10 @@ wg_int wg_encode_double(void* db, double data) {
     *((double*)(offsettoptr(db,offset)))=data;
 #ifdef USE_DBLOG
     if(dbmemsegh(db)->logging.active) {
-      if(wg_log_encval(db, encode_fulldouble_offset(offset)))
+      if(wg_log_encval(db, encode_fulldouble_offset(offset))) {
+        free_field_encoffset(db, encode_fulldouble_offset(offset));
         return WG_ILLEGAL; /* journal error */
+      }
     }
 #endif
     return encode_fulldouble_offset(offset);
@@ -2606,8 +2612,11 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
 #ifdef USE_DBLOG
   /* Append the result (or WG_ILLEGAL) to log */
   if(dbmemsegh(db)->logging.active) {
-    if(wg_log_encval(db, enc))
+    if(wg_log_encval(db, enc)) {
+      if(isshortstr(enc))
+        free_field_encoffset(db, enc);
       return WG_ILLEGAL; /* journal error */
+    }
   }
 #endif
   return enc;
diff --git a/Db/dblog.c b/Db/dblog.c
index ec8db16..aeb1b48 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -124,7 +124,7 @@ static gint recover_encode(void *db, FILE *f, gint type, int emptyext,
 static void *recover_record(void *db, void *table, gint offset);
 static gint recover_journal(void *db, FILE *f, void *table);
 
-static gint write_log_buffer(void *db, void *buf, int buflen);
+static gint write_log_buffer(void *db, void *buf, int buflen, int cont);
 #endif /* USE_DBLOG */
 
 static gint show_log_error(void *db, char *errmsg);
@@ -1016,9 +1016,12 @@ abort2:
 
 #ifdef USE_DBLOG
 /** Write a byte buffer to the log file.
+ *  If cont is non-zero, the buffer continues the entry written last.
  *
+ *  If an entry cannot be written, the parts of it already in the file
+ *  are removed, so that the entries following it remain readable.
  */
-static gint write_log_buffer(void *db, void *buf, int buflen)
+static gint write_log_buffer(void *db, void *buf, int buflen, int cont)
 {
   db_memsegment_header* dbh = dbmemsegh(db);
   db_handle_logdata *ld = \
@@ -1047,6 +1050,8 @@ static gint write_log_buffer(void *db, void *buf, int buflen)
       } else {
         /* fseek(f, 0, SEEK_END); */
         ld->fd = fd;
+        if(ld->serial != dbh->logging.serial)
+          ld->incomplete = 0; /* was in another file */
         ld->serial = dbh->logging.serial;
       }
     }
@@ -1054,6 +1059,23 @@ static gint write_log_buffer(void *db, void *buf, int buflen)
   if(ld->fd < 0)
     return -1;
 
+#ifndef _WIN32
+  if(ld->incomplete) {
+    /* Remains of an earlier entry could not be removed, retry */
+    if(ftruncate(ld->fd, ld->entry)) {
+      show_log_error(db, "Error writing to log file");
+      return -5;
+    }
+    ld->incomplete = 0;
+  }
+  if(!cont)
+    ld->entry = lseek(ld->fd, 0, SEEK_END);
+  if(ld->entry < WG_JOURNAL_MAGIC_BYTES) {
+    show_log_error(db, "Error writing to log file");
+    return -5;
+  }
+#endif
+
   /* Always mark log as dirty when writing something */
   dbh->logging.dirty = 1;
 
@@ -1062,8 +1084,13 @@ static gint write_log_buffer(void *db, void *buf, int buflen)
 #else
   if(_write(ld->fd, (char *) buf, buflen) != buflen) {
 #endif
+    int fd = ld->fd;
     show_log_error(db, "Error writing to log file");
-    JOURNAL_FAIL(ld->fd, -5)
+#ifndef _WIN32
+    ld->incomplete = (ftruncate(fd, ld->entry) != 0);
+#endif
+    ld->fd = -1;
+    JOURNAL_FAIL(fd, -5)
   }
 
   return 0;
@@ -1096,7 +1123,7 @@ gint wg_log_create_record(void *db, gint length)
   buf[0] = WG_JOURNAL_ENTRY_CRE;
   optr = &buf[1];
   optr += enc_varint(optr, (wg_uint) length);
-  return write_log_buffer(db, (void *) buf, optr - buf);
+  return write_log_buffer(db, (void *) buf, optr - buf, 0);
 #else
   return show_log_error(db, "Logging is disabled");
 #endif /* USE_DBLOG */
@@ -1112,7 +1139,7 @@ gint wg_log_delete_record(void *db, gint enc)
   buf[0] = WG_JOURNAL_ENTRY_DEL;
   optr = &buf[1];
   optr += enc_varint(optr, (wg_uint) enc);
-  return write_log_buffer(db, (void *) buf, optr - buf);
+  return write_log_buffer(db, (void *) buf, optr - buf, 0);
 #else
   return show_log_error(db, "Logging is disabled");
 #endif /* USE_DBLOG */
@@ -1128,7 +1155,7 @@ gint wg_log_encval(void *db, gint enc)
 #ifdef USE_DBLOG
   unsigned char buf[VARINT_SIZE];
   size_t buflen = enc_varint(buf, (wg_uint) enc);
-  return write_log_buffer(db, (void *) buf, buflen);
+  return write_log_buffer(db, (void *) buf, buflen, 1);
 #else
   return show_log_error(db, "Logging is disabled");
 #endif /* USE_DBLOG */
@@ -1165,6 +1192,7 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       } else {
         buflen = 1 + sizeof(gint);
         buf = (unsigned char *) malloc(buflen);
+        if(!buf) break;
         optr = buf + 1;
         memcpy(optr, data, sizeof(gint));
       }
@@ -1173,6 +1201,7 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       /* double precision argument */
       buflen = 1 + sizeof(double);
       buf = (unsigned char *) malloc(buflen);
+      if(!buf) break;
       optr = buf + 1;
       *((double *) optr) = *((double *) data);
       break;
@@ -1184,6 +1213,7 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       /* strings with extdata */
       buflen = 1 + 2*VARINT_SIZE + length + extlength;
       buf = (unsigned char *) malloc(buflen);
+      if(!buf) break;
 
       /* data and extdata length */
       optr = buf + 1;
@@ -1205,12 +1235,16 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       return show_log_error(db, "Unsupported data type");
   }
 
+  if(!buf) {
+    return show_log_error(db, "Failed to allocate log buffer");
+  }
+
   /* Add a fixed prefix */
   buf[0] = WG_JOURNAL_ENTRY_ENC | type;
   if(extdata && !extlength)
     buf[0] |= WG_JOURNAL_ENTRY_EMPTYEXT;
 
-  err = write_log_buffer(db, (void *) buf, buflen);
+  err = write_log_buffer(db, (void *) buf, buflen, 0);
   free(buf);
   return err;
 #else
@@ -1231,7 +1265,7 @@ gint wg_log_set_field(void *db, void *rec, gint col, gint data)
   optr += enc_varint(optr, (wg_uint) ptrtooffset(db, rec));
   optr += enc_varint(optr, (wg_uint) col);
   optr += enc_varint(optr, (wg_uint) data);
-  return write_log_buffer(db, (void *) buf, optr - buf);
+  return write_log_buffer(db, (void *) buf, optr - buf, 0);
 #else
   return show_log_error(db, "Logging is disabled");
 #endif /* USE_DBLOG */
@@ -1249,7 +1283,7 @@ gint wg_log_set_meta(void *db, void *rec, gint meta)
   optr = &buf[1];
   optr += enc_varint(optr, (wg_uint) ptrtooffset(db, rec));
   optr += enc_varint(optr, (wg_uint) meta);
-  return write_log_buffer(db, (void *) buf, optr - buf);
+  return write_log_buffer(db, (void *) buf, optr - buf, 0);
 #else
   return show_log_error(db, "Logging is disabled");
 #endif /* USE_DBLOG */
diff --git a/Db/dblog.h b/Db/dblog.h
index 331534e..601904d 100644
--- a/Db/dblog.h
+++ b/Db/dblog.h
@@ -29,6 +29,10 @@
 #ifndef DEFINED_DBLOG_H
 #define DEFINED_DBLOG_H
 
+#ifndef _WIN32
+#include <sys/types.h>
+#endif
+
 #ifndef _WIN32
 #define WG_JOURNAL_FILENAME DBLOG_DIR "/wgdb.journal"
 #else
@@ -56,6 +60,10 @@ typedef struct {
   int fd;
   gint serial;
   int umask;
+#ifndef _WIN32
+  off_t entry;      /* start of the entry being written */
+  int incomplete;   /* a part of that entry is still in the file */
+#endif
 } db_handle_logdata;
 
 /* ==== Protos ==== */
-- 
2.43.0


From b8e05a878627dfd2aa03edef54130474f8245c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:28 +0000
Subject: [PATCH 067/116] fix: a refused attach does not leave the segment
 attached

---
 Db/dbmem.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Db/dbmem.c b/Db/dbmem.c
index 5c9e1a0..27a843d 100644
--- a/Db/dbmem.c
+++ b/Db/dbmem.c
@@ -87,7 +87,8 @@ static gint show_memory_error_nr(char* errmsg, int nr);
 
 /* ----------- dbase creation and deletion api funs ------------------ */
 
-/* Check the header for compatibility.
+/* Check the header for compatibility. An incompatible segment is not
+ * left attached.
  * XXX: this is not required for a fresh database. */
 #define CHECK_SEGMENT(shmx) \
   if(shmx && dbmemsegh(shmx)) { \
@@ -98,6 +99,7 @@ static gint show_memory_error_nr(char* errmsg, int nr);
         wg_print_code_version(); \
         wg_print_header_version(dbmemsegh(shmx), 1); \
       } \
+      wg_detach_database(shmx); \
       return NULL; \
     } \
   }
@@ -225,6 +227,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
      */
     if(!dbcheckh(shm)) {
       show_memory_error("Existing segment header is invalid");
+      detach_shared_memory(shm);
 #ifdef USE_DATABASE_HANDLE
       free_dbhandle(dbhandle);
 #endif
@@ -238,6 +241,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
        */
       if(((db_memsegment_header *) shm)->size < minsize) {
         show_memory_error("Existing segment is too small");
+        detach_shared_memory(shm);
 #ifdef USE_DATABASE_HANDLE
         free_dbhandle(dbhandle);
 #endif
@@ -253,6 +257,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
        */
       if(!((db_memsegment_header *) shm)->logging.active) {
         show_memory_error("Existing memory segment has no journal");
+        detach_shared_memory(shm);
         free_dbhandle(dbhandle);
         return NULL;
       }
@@ -264,6 +269,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
     omode = wg_memmode(dbhandle);
     if(omode == -1) {
       show_memory_error("Failed to get the access mode of the segment");
+      detach_shared_memory(shm);
       free_dbhandle(dbhandle);
       return NULL;
     }
@@ -321,6 +327,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
 #endif
       if(err) {
         show_memory_error("Database initialization failed");
+        detach_shared_memory(shm);
         free_shared_memory(key);
 #ifdef USE_DATABASE_HANDLE
         free_dbhandle(dbhandle);
@@ -793,6 +800,7 @@ static void* create_shared_memory(int key, gint size, int mode) {
   shm=shmat(shmid,NULL,0);
   if (shm==(char *) -1) {
     show_memory_error("attaching shared memory segment failed");
+    shmctl(shmid, IPC_RMID, NULL); /* nobody could use it */
     return NULL;
   }
   return (void*) shm;
-- 
2.43.0


From 9dc5a55cd3efc4a4c64023f1547841e945bdcedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:41 +0000
Subject: [PATCH 068/116] fix: a database name beyond the range of a key is not
 taken for another database

---
 Db/dbmem.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/Db/dbmem.c b/Db/dbmem.c
index 27a843d..060ab36 100644
--- a/Db/dbmem.c
+++ b/Db/dbmem.c
@@ -62,6 +62,7 @@ extern "C" {
 /* ======= Private protos ================ */
 
 static int normalize_perms(int mode);
+static int dbase_key(const char *dbasename);
 static void* link_shared_memory(int key, int *errcode);
 static void* create_shared_memory(int key, gint size, int mode);
 static int free_shared_memory(int key);
@@ -188,6 +189,16 @@ static int normalize_perms(int mode) {
   return mode;
 }
 
+/** Shared memory key for a database name.
+ *  A name that does not stand for a valid key means the default database.
+ */
+static int dbase_key(const char *dbasename) {
+  long key=0;
+  if (dbasename!=NULL) key=strtol(dbasename,NULL,10);
+  if (key<=0 || key>=INT_MAX) key=DEFAULT_MEMDBASE_KEY;
+  return (int) key;
+}
+
 /** Attach to shared memory segment.
  *  Normally called internally by wg_attach_database()
  *  May be called directly if the version compatibility of the
@@ -214,8 +225,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
 #endif
 
   // default args handling
-  if (dbasename!=NULL) key=strtol(dbasename,NULL,10);
-  if (key<=0 || key==INT_MIN || key==INT_MAX) key=DEFAULT_MEMDBASE_KEY;
+  key=dbase_key(dbasename);
   if (minsize<0) minsize=0;
   if (size<minsize) size=minsize;
 
@@ -367,8 +377,7 @@ int wg_delete_database(const char* dbasename) {
   int key=0;
 
   // default args handling
-  if (dbasename!=NULL) key=strtol(dbasename,NULL,10);
-  if (key<=0 || key==INT_MIN || key==INT_MAX) key=DEFAULT_MEMDBASE_KEY;
+  key=dbase_key(dbasename);
   return free_shared_memory(key);
 }
 
-- 
2.43.0


From 65509abfcc1e6282688b5ad565d62ee3145bb635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:31 +0000
Subject: [PATCH 069/116] fix: a segment too small for its header is refused
 before it is written

---
 Db/dballoc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 4c75150..39c194f 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -102,6 +102,10 @@ gint wg_init_db_memsegment(void* db, gint key, gint size) {
   gint free;
   gint i;
 
+  if (size<(gint) sizeof(db_memsegment_header)) {
+    return -1; // no room for the header itself
+  }
+
   // set main global values for db
   dbh->mark=(gint32) MEMSEGMENT_MAGIC_INIT;
   dbh->version=(gint32) MEMSEGMENT_VERSION;
-- 
2.43.0


From 85749d58bfcfa404328de9611dfa86f2a874a088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:51 +0000
Subject: [PATCH 070/116] fix: a full register of external databases is an
 error

---
 Db/dballoc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 39c194f..b35f067 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -1424,7 +1424,7 @@ gint wg_register_external_db(void *db, void *extdb) {
       "Database has indexes, external references not allowed");
   }
   if(dbh->extdbs.count >= MAX_EXTDB) {
-    show_dballoc_error(db, "cannot register external database");
+    return show_dballoc_error(db, "cannot register external database");
   } else {
     dbh->extdbs.offset[dbh->extdbs.count] = ptrtooffset(db, dbmemsegh(extdb));
     dbh->extdbs.size[dbh->extdbs.count++] = \
-- 
2.43.0


From 6bc01f11a1ae5c82de9fdf17fee7593abe554f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:51 +0000
Subject: [PATCH 071/116] fix: the annotation of a string in another database
 is decoded

---
 Db/dbdata.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 22f91e4..943a84c 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2856,6 +2856,16 @@ char* wg_decode_unistr_lang(void* db, gint data, gint type) {
     fldptr=((gint*)objptr)+LONGSTR_EXTRASTR_POS;
     fldval=*fldptr;
     if (fldval==0) return NULL;
+#ifdef USE_CHILD_DB
+    if(!is_local_offset(db, decode_longstr_offset(data))) {
+      /* In an external database, the annotation is encoded relative to the
+       * owner. Otherwise it is a query parameter, encoded relative to db.
+       */
+      void *owner = get_ptr_owner(db, data);
+      if(owner)
+        fldval = wg_translate_hdroffset(db, owner, fldval);
+    }
+#endif
     res=wg_decode_unistr(db,fldval,type);
     return res;
   }
-- 
2.43.0


From edeb6bdee08e4d1aff05ea41e2cdc7eb2df09d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:52 +0000
Subject: [PATCH 072/116] fix: a database with external references is not
 dumped

---
 Db/dbdump.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 90faabb..430f12f 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -96,6 +96,7 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
 #ifdef CHECK
   if(dbh->extdbs.count != 0) {
     show_dump_error(db, "Database contains external references");
+    return -1; /* could not be imported */
   }
 #endif
 
-- 
2.43.0


From bcf5c398afc4da62c921d8c766388c8a68da798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:03 +0000
Subject: [PATCH 073/116] fix: a key that cannot be added to a hash table loses
 nothing

---
 Db/dbhash.c | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 7f2f2e2..3dc2006 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -648,17 +648,16 @@ gint wg_ginthash_addkey(void *db, void *tbl, gint key, gint val) {
         return 0;
       }
     }
-    add_to_bucket(bucket, key, val);
-    while(bucket->fill > GINTHASH_BUCKETCAP) {
-      ginthash_bucket *newb;
-      /* Overflow, bucket split needed. */
-      if(!(newb = ginthash_splitbucket(db, (ext_ginthash *)tbl, bucket)))
+    /* Make room first, so that nothing is lost if it is not possible. */
+    while(bucket->fill >= GINTHASH_BUCKETCAP) {
+      if(!ginthash_splitbucket(db, (ext_ginthash *)tbl, bucket))
         return -1;
-      /* Did everything flow to the new bucket, causing another overflow? */
-      if(newb->fill > GINTHASH_BUCKETCAP) {
-        bucket = newb; /* Keep splitting */
-      }
+      /* Either of the two buckets may be the right one now */
+      dirsize = 1<<((ext_ginthash *)tbl)->level;
+      hash = GINTHASH_SCRAMBLE(key) & (dirsize - 1);
+      bucket = ((ext_ginthash *)tbl)->directory[hash];
     }
+    add_to_bucket(bucket, key, val);
   }
   return 0;
 }
@@ -781,14 +780,14 @@ static ginthash_bucket *ginthash_splitbucket(void *db, ext_ginthash *tbl,
       return NULL;
   }
 
-  /* Hash values for the new level (0+lowbits, msb+lowbits) */
-  msbmask = (1<<(bucket->level++));
-  lowbits = GINTHASH_SCRAMBLE(bucket->key[0]) & (msbmask - 1);
-
   /* Create a bucket to split into */
   newbucket = ginthash_newbucket(db, tbl);
   if(!newbucket)
     return NULL;
+
+  /* Hash values for the new level (0+lowbits, msb+lowbits) */
+  msbmask = (1<<(bucket->level++));
+  lowbits = GINTHASH_SCRAMBLE(bucket->key[0]) & (msbmask - 1);
   newbucket->level = bucket->level;
 
   /* Split the entries based on the most significant
-- 
2.43.0


From 37bfea1a5f1ef52590fa173ef8644c6db2305ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:03 +0000
Subject: [PATCH 074/116] fix: a hash table that cannot be made keeps no memory

---
 Db/dbhash.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 3dc2006..66a834c 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -613,6 +613,7 @@ void *wg_ginthash_init(void *db) {
 
   memset(tbl, 0, sizeof(ext_ginthash));
   if(grow_ginthash(db, tbl)) { /* initial level is set to 1 */
+    free(tbl->directory);
     free(tbl);
     return NULL;
   }
-- 
2.43.0


From 99e1d079c0c6e7e3b879fbbc8d8b369cee750c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:03 +0000
Subject: [PATCH 075/116] fix: all sizes of the set are used

---
 Db/dbhash.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 66a834c..2d0aa79 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -886,7 +886,7 @@ static size_t dhash_size(size_t entries) {
     12582917UL, 25165843UL, 50331653UL, 100663319UL, 201326611UL,
     402653189UL, 805306457UL, 1610612741UL, 3221225473UL, 4294967291UL
   };
-  size_t const p_count = 20;
+  size_t const p_count = sizeof(primes) / sizeof(primes[0]);
   size_t wantsize = entries<<1, i;
   if(entries > 2147483645UL) {
     return 0; /* give up here for now */
@@ -941,6 +941,7 @@ void *wg_dhash_init(void *db, size_t entries) {
     tbl->dhash_size = dhash_size(entries);
     tbl->keys = calloc(tbl->dhash_size, sizeof(gint)); /* set to 0x0 */
     if(!tbl->keys || !tbl->dhash_size) {
+      free(tbl->keys);
       free(tbl);
       tbl = NULL;
     }
-- 
2.43.0


From d875bdba8e7d0a43cb0c4179afa8562b1b0ea10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:22 +0000
Subject: [PATCH 076/116] fix: the second text of an atom is found

---
 Db/dbmpool.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Db/dbmpool.c b/Db/dbmpool.c
index 90c0fca..7bcd162 100644
--- a/Db/dbmpool.c
+++ b/Db/dbmpool.c
@@ -385,8 +385,9 @@ char* wg_atomstr1(void* db, void* ptr) {
 
 char* wg_atomstr2(void* db, void* ptr) {
   if (ptr==NULL) return NULL;
+  ptr=(char*)ptr+1; // skip the type
   ptr=(char*)ptr+strlen((char*)ptr)+1;
-  if (*(((char*)ptr)+1)==(char)0) return NULL;
+  if (*((char*)ptr)==(char)0) return NULL;
   else return ((char*)ptr);
 }
 
-- 
2.43.0


From a16cec4dc76bfc6b84dc9418bbb7b0810931889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:17 +0000
Subject: [PATCH 077/116] fix: a memory pool grows by what is asked for

---
 Db/dbmpool.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/Db/dbmpool.c b/Db/dbmpool.c
index 7bcd162..4056750 100644
--- a/Db/dbmpool.c
+++ b/Db/dbmpool.c
@@ -154,21 +154,23 @@ void* wg_create_mpool(void* db, int origbytes) {
 
 
 static int extend_mpool(void* db, void* mpool, int minbytes) {
-  int cursize;
-  int bytes;
+  size_t need, bytes;
   void* subarea;
   mpool_header* mpoolh;
   int i;
   void* nextptr;
 
   mpoolh=(mpool_header*)mpool;
-  cursize=((mpoolh->subarea_table)[(mpoolh->cur_subarea)]).size;
-  bytes=cursize;
-  for(i=0;i<100;i++) {
+  need=(size_t)minbytes+ALIGNMENT_BYTES;
+  bytes=((mpoolh->subarea_table)[(mpoolh->cur_subarea)]).size;
+  do {
     bytes=bytes*2;
-    if (bytes>=(minbytes+ALIGNMENT_BYTES)) break;
-  }
-  subarea=malloc(bytes);
+  } while (bytes<need);
+  if (bytes>INT_MAX) bytes=INT_MAX; // the size field is an int
+  if (bytes<need || mpoolh->cur_subarea+1>=NROF_SUBAREAS)
+    subarea=NULL;
+  else
+    subarea=malloc(bytes);
   if (subarea==NULL) {
     show_mpool_error_nr(db,
       " cannot extend mpool to size: ",minbytes);
@@ -176,7 +178,7 @@ static int extend_mpool(void* db, void* mpool, int minbytes) {
   }
   (mpoolh->freeptr)=subarea;
   (mpoolh->cur_subarea)++;
-  ((mpoolh->subarea_table)[mpoolh->cur_subarea]).size=bytes;
+  ((mpoolh->subarea_table)[mpoolh->cur_subarea]).size=(int)bytes;
   nextptr=subarea;
   // set correct alignment for nextptr
   i=((size_t)nextptr)%ALIGNMENT_BYTES;
@@ -231,16 +233,16 @@ void* wg_alloc_mpool(void* db, void* mpool, int bytes) {
     return NULL;
   }
   mpoolh=(mpool_header*)mpool;
-  nextptr=(void*)(((char*)(mpoolh->freeptr))+bytes);
   curend=((mpoolh->subarea_table)[(mpoolh->cur_subarea)]).area_end;
-  if (nextptr>curend) {
+  // aligning the free pointer may have moved it beyond the end
+  if ((char*)curend-(char*)(mpoolh->freeptr)<bytes) {
     tmp=extend_mpool(db,mpool,bytes);
     if (tmp!=0) {
       show_mpool_error_nr(db," cannot extend mpool size by: ",bytes);
       return NULL;
     }
-    nextptr=((char*)(mpoolh->freeptr))+bytes;
   }
+  nextptr=((char*)(mpoolh->freeptr))+bytes;
   curptr=mpoolh->freeptr;
   // set correct alignment for nextptr
   i=((size_t)nextptr)%ALIGNMENT_BYTES;
-- 
2.43.0


From b237cf27000a67b9e801e17d7cf65e1fdfc8ff93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:43 +0000
Subject: [PATCH 078/116] fix: lower case hex digits are decoded

---
 Server/dserve_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 7839cae..5feeaf3 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -137,10 +137,10 @@ char* urldecode(char *indst, char *src) {
     if ((*src == '%') && (src+2<endptr) &&
         ((a = src[1]) && (b = src[2])) &&
         (isxdigit(a) && isxdigit(b))) {
-      if (a >= 'a') a -= 'A'-'a';
+      if (a >= 'a') a -= 'a'-'A';
       if (a >= 'A') a -= ('A' - 10);
       else a -= '0';
-      if (b >= 'a') b -= 'A'-'a';
+      if (b >= 'a') b -= 'a'-'A';
       if (b >= 'A') b -= ('A' - 10);
       else b -= '0';
       *dst++ = 16*a+b;
-- 
2.43.0


From f708133849f9545db1fa0c8496896c916008f7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:43 +0000
Subject: [PATCH 079/116] fix: an empty value at the end of a request is
 accepted

---
 Server/dserve_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 5feeaf3..b2db978 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -109,8 +109,8 @@ int parse_query(char* query, int ql, char* params[], char* values[]) {
     for(;i<ql;i++) {
       if (query[i]=='=') { query[i]=0; break; }      
     }
+    if (i>=ql) return -1; // no =
     i++;
-    if (i>=ql) return -1;
     vi=i;    
     for(;i<ql;i++) {
       if (query[i]=='&') { query[i]=0; break; }  
-- 
2.43.0


From 5ebe1c4edb068332487d567c8ed3446b5b84198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:43 +0000
Subject: [PATCH 080/116] fix: numbers in a request keep their value

---
 Server/dserve_util.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index b2db978..dada481 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -71,10 +71,10 @@ wg_int encode_invalue(void* db, char* invalue, wg_int type) {
   if (type==WG_NULLTYPE) return wg_encode_query_param_null(db,NULL);
   else if (type==WG_INTTYPE) {
     if (!isint(invalue)) return WG_ILLEGAL;      
-    return wg_encode_query_param_int(db,atoi(invalue));
+    return wg_encode_query_param_int(db,strtol(invalue,NULL,10));
   } else if (type==WG_RECORDTYPE) {
     if (!isint(invalue)) return WG_ILLEGAL;      
-    return (wg_int)atoi(invalue);
+    return (wg_int)strtol(invalue,NULL,10);
   } else if (type==WG_DOUBLETYPE) {
     if (!isdbl(invalue)) return WG_ILLEGAL;
     return wg_encode_query_param_double(db,strtod(invalue,NULL));
@@ -83,7 +83,7 @@ wg_int encode_invalue(void* db, char* invalue, wg_int type) {
   } else if (type==WG_CHARTYPE) {
     return wg_encode_query_param_char(db,invalue[0]);
   } else if (type==0 && isint(invalue)) {
-    return wg_encode_query_param_int(db,atoi(invalue));
+    return wg_encode_query_param_int(db,strtol(invalue,NULL,10));
   } else if (type==0 && isdbl(invalue)) {
     return wg_encode_query_param_double(db,strtod(invalue,NULL));
   } else if (type==0) {
-- 
2.43.0


From b30f38d7da6af305086ecb0c9462f7b3dcf9bbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:43 +0000
Subject: [PATCH 081/116] fix: integers are answered in full

---
 Server/dserve_util.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index dada481..4259e8f 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -247,7 +247,7 @@ int sprint_record(void *db, wg_int *rec, thread_data_p tdata) {
     if (len<0) return 0;    
     if (tdata->showid) {
       // add record id (offset) as the first extra elem of record      
-      snprintf(*bptr, limit-1, "%d",wg_encode_record(db,rec));
+      snprintf(*bptr, limit-1, "%ld",(long)wg_encode_record(db,rec));
       *bptr=*bptr+strlen(*bptr);      
     }
     for(i=0; i<len; i++) {
@@ -325,7 +325,7 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
     case WG_RECORDTYPE:      
       if (!str_guarantee_space(tdata, MIN_STRLEN)) return NULL;
       if (!tdata->format || tdata->depth>=tdata->maxdepth) {
-        snprintf(*bptr, limit,"%d", (int)enc); // record offset (i.e. id)
+        snprintf(*bptr, limit,"%ld", (long)enc); // record offset (i.e. id)
         return *bptr+strlen(*bptr);
       } else {
         // recursive print
@@ -337,9 +337,8 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
       }      
       break;
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
       if (!str_guarantee_space(tdata, MIN_STRLEN)) return NULL;
-      snprintf(*bptr, limit, "%d", intdata);
+      snprintf(*bptr, limit, "%ld", (long)wg_decode_int(db, enc));
       return *bptr+strlen(*bptr);
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
-- 
2.43.0


From a4205c900f8a092d3992695fb61e6a6062b1a089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:43 +0000
Subject: [PATCH 082/116] fix: the answer buffer has room for what is already
 in it

---
 Server/dserve_util.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 4259e8f..cae1386 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -627,13 +627,14 @@ int str_guarantee_space(thread_data_p tdata, int needed) {
 
   if (needed>(*strlenadr-(int)((*ptr)-(*stradr)))) {  
     used=(int)((*ptr)-(*stradr));
-    newlen=(*strlenadr)*2;
-    if (newlen<needed) newlen=needed;
-    if (newlen>MAX_MALLOC) {
+    if (needed>MAX_MALLOC-used) {
       //if (*stradr!=NULL) free(*stradr);
       //err_clear_detach_halt(MALLOC_ERR);
       return 0; 
     }
+    newlen=(*strlenadr)*2;
+    if (newlen<used+needed) newlen=used+needed;
+    if (newlen>MAX_MALLOC) newlen=MAX_MALLOC;
     //printf("needed %d oldlen %d used %d newlen %d \n",needed,*strlenadr,used,newlen);
     tmp=realloc(*stradr,newlen);
     if (tmp==NULL) {
-- 
2.43.0


From 06c8bbcfea686196e959a0654ef89526f369fa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:43 +0000
Subject: [PATCH 083/116] fix: the answer buffer is released once

---
 Server/dserve_util.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index cae1386..042c415 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -638,7 +638,6 @@ int str_guarantee_space(thread_data_p tdata, int needed) {
     //printf("needed %d oldlen %d used %d newlen %d \n",needed,*strlenadr,used,newlen);
     tmp=realloc(*stradr,newlen);
     if (tmp==NULL) {
-      if (*stradr!=NULL) free(*stradr);
       //err_clear_detach_halt(MALLOC_ERR);
       return 0;
     }     
-- 
2.43.0


From d66737a5f62ceb72d593612bf8186fc8db87629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:43 +0000
Subject: [PATCH 084/116] fix: texts of every kind are escaped in an answer

---
 Server/dserve_util.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 042c415..55fd286 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -29,6 +29,7 @@ see dserve.c for details.
 
 static int authorize_aux(char* str, char** lst, int n, int eqflag);
 static int empty_str(char *s);
+static int sprint_pair(char* bptr, char* str1, char sep, char* str2, int strenc);
 
 /* =============== globals =================== */
 
@@ -358,10 +359,7 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
       if (exdata!=NULL) strl2=strlen(exdata);      
       else strl2=0; 
       if (!str_guarantee_space(tdata, MIN_STRLEN+STRLEN_FACTOR*(strl1+strl2))) return NULL;
-      sprint_string(*bptr,(strl1+strl2),strdata,tdata->strenc);      
-      if (exdata!=NULL) {
-        snprintf(*bptr+strl1+1,limit,"@%s\"", exdata);
-      }     
+      sprint_pair(*bptr,strdata,'@',exdata,tdata->strenc);
       return *bptr+strlen(*bptr);
     case WG_URITYPE:
       strdata = wg_decode_uri(db, enc);
@@ -373,9 +371,9 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
       limit=MIN_STRLEN+STRLEN_FACTOR*(strl1+strl2);
       if(!str_guarantee_space(tdata, limit)) return NULL;
       if (exdata==NULL)
-        snprintf(*bptr, limit, "\"%s\"", strdata);
+        sprint_pair(*bptr,strdata,':',NULL,tdata->strenc);
       else
-        snprintf(*bptr, limit, "\"%s:%s\"", exdata, strdata);
+        sprint_pair(*bptr,exdata,':',strdata,tdata->strenc);
       return *bptr+strlen(*bptr);
     case WG_XMLLITERALTYPE:
       strdata = wg_decode_xmlliteral(db, enc);
@@ -386,12 +384,16 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
       else strl2=0; 
       limit=MIN_STRLEN+STRLEN_FACTOR*(strl1+strl2);      
       if(!str_guarantee_space(tdata, limit)) return NULL;      
-      snprintf(*bptr, limit, "\"%s:%s\"", exdata, strdata);
+      if (exdata==NULL)
+        sprint_pair(*bptr,strdata,':',NULL,tdata->strenc);
+      else
+        sprint_pair(*bptr,exdata,':',strdata,tdata->strenc);
       return *bptr+strlen(*bptr);
     case WG_CHARTYPE:
-      intdata = wg_decode_char(db, enc);
+      strbuf[0] = wg_decode_char(db, enc);
+      strbuf[1] = '\0';
       if(!str_guarantee_space(tdata, MIN_STRLEN)) return NULL;
-      snprintf(*bptr, limit, "\"%c\"", (char) intdata);
+      sprint_string(*bptr,1,strbuf,tdata->strenc);
       return *bptr+strlen(*bptr);
     case WG_DATETYPE:
       intdata = wg_decode_date(db, enc);
@@ -547,6 +549,21 @@ int sprint_string(char* bptr, int limit, char* strdata, int strenc) {
 }
 
 
+/* Print two strings as one, with a separator between them.
+
+  sep and str2 are left out if str2 is NULL; otherwise as sprint_string.
+*/
+
+static int sprint_pair(char* bptr, char* str1, char sep, char* str2, int strenc) {
+  sprint_string(bptr,str1==NULL ? 0 : (int)strlen(str1),str1,strenc);
+  if (str2!=NULL) {
+    bptr+=strlen(bptr)-1;  // the closing quote is replaced
+    sprint_string(bptr,(int)strlen(str2),str2,strenc);
+    *bptr=sep;
+  }
+  return 1;
+}
+
 int sprint_blob(char* bptr, int limit, char* strdata, int strenc) {
   unsigned char c;
   char *sptr;
-- 
2.43.0


From a0c96ea8c2e090b613fec65ab68ba61df3e29bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:43 +0000
Subject: [PATCH 085/116] fix: blobs are answered in full and backslashes are
 escaped

---
 Server/dserve_util.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 55fd286..0cca2ff 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -416,7 +416,7 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
     case WG_BLOBTYPE:
       strdata = wg_decode_blob(db, enc);
       strl=wg_decode_blob_len(db, enc);
-      limit=MIN_STRLEN+STRLEN_FACTOR*strlen(strdata);
+      limit=MIN_STRLEN+STRLEN_FACTOR*strl;
       if(!str_guarantee_space(tdata, limit)) return NULL;
       sprint_blob(*bptr,strl,strdata,tdata->strenc);
       return *bptr+strlen(*bptr);
@@ -497,7 +497,7 @@ int sprint_string(char* bptr, int limit, char* strdata, int strenc) {
         *bptr++='"';
         *bptr='\0';  
         return 1; 
-      } else if (c < ' ' || c=='%' || c=='"' || (int)c>126) {
+      } else if (c < ' ' || c=='%' || c=='"' || c=='\\' || (int)c>126) {
         *bptr++='%';
         *bptr++=hex_chars[c >> 4];
         *bptr++=hex_chars[c & 0xf];
@@ -579,11 +579,7 @@ int sprint_blob(char* bptr, int limit, char* strdata, int strenc) {
   // non-ascii chars and % and " urlencoded
   for(i=0;i<limit;i++) {
     c=*sptr++;
-    if (c=='\0') { 
-      *bptr++='"';
-      *bptr='\0';  
-      return 1; 
-    } else if (c < ' ' || c=='%' || c=='"' || (int)c>126) {
+    if (c < ' ' || c=='%' || c=='"' || c=='\\' || (int)c>126) {
       *bptr++='%';
       *bptr++=hex_chars[c >> 4];
       *bptr++=hex_chars[c & 0xf];
-- 
2.43.0


From 92283b0999c38e87a77f56d466124924823fb4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:43 +0000
Subject: [PATCH 086/116] fix: the depth of nested records in an answer is
 limited

---
 Server/dserve.c      | 2 +-
 Server/dserve_util.c | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index aa5ee37..1582c00 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -424,7 +424,7 @@ char* process_query(char* inquery, thread_data_p tdata) {
   tdata->jsonp=NULL;
   tdata->format=1;
   tdata->showid=0;
-  tdata->depth=MAX_DEPTH_DEFAULT;
+  tdata->depth=0;
   tdata->maxdepth=MAX_DEPTH_DEFAULT;
   tdata->strenc=2;
   tdata->buf=NULL;
diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 0cca2ff..33467f1 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -332,7 +332,10 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
         // recursive print
         ptrdata = wg_decode_record(db, enc);
         if(ptrdata==0) return NULL;
-        sprint_record(db,ptrdata,tdata);
+        tdata->depth++;
+        intdata=sprint_record(db,ptrdata,tdata);
+        tdata->depth--;
+        if (!intdata) return NULL;
         **bptr='\0';                 
         return *bptr;
       }      
-- 
2.43.0


From dd59844c56033bd44eaff11fa6ad55db10123405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:07 +0000
Subject: [PATCH 087/116] fix: the configuration file is read within its buffer

---
 Server/dserve_util.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 33467f1..88f08e3 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -673,7 +673,7 @@ int load_configuration(char* path, dserve_conf_p conf) {
   FILE *fp;
   char *buf, *bp, *bp2, *bp3, *bend, *key;
   int bufsize=CONF_BUF_SIZE;
-  int i,n,row;
+  int n,row;
   
   if (path==NULL) {
 #ifdef CONF_FILE    
@@ -684,26 +684,28 @@ int load_configuration(char* path, dserve_conf_p conf) {
   // read configuration file
   fp=fopen(path,READ);
   if (fp==NULL) {errprint(CONF_OPEN_ERR,path);  exit(ERR_EX_NOINPUT);}    
-  for(i=0;i<10;i++) {
+  for(;;) {
     //printf("i %d bufsize %d\n",i,bufsize);
     buf=malloc(bufsize);
-    if (buf==NULL) {errprint(CONF_MALLOC_ERR,NULL);  return 3;}
+    if (buf==NULL) {errprint(CONF_MALLOC_ERR,NULL); fclose(fp); return 3;}
     n=fread(buf,1,bufsize,fp);
-    if (n<=0) {errprint(CONF_READ_ERR,path); free(buf); return 3;}
+    if (n<=0) {errprint(CONF_READ_ERR,path); free(buf); fclose(fp); return 3;}
     if (n>=bufsize) {
       // did not manage to read all
       free(buf);
       rewind(fp);
       bufsize=bufsize*2;
-      if (bufsize>MAX_CONF_BUF_SIZE) {errprint(CONF_SIZE_ERR,path); free(buf); return 4;}
+      if (bufsize>MAX_CONF_BUF_SIZE) {errprint(CONF_SIZE_ERR,path); fclose(fp); return 4;}
     } else {
       // reading successful
       break;
     }      
   }
+  fclose(fp);
   // parse configuration file
   bp=buf;
   bend=buf+n;
+  *bend='\0';
   key=NULL;
   for(row=0;;row++) {
     // parse row by row
@@ -712,7 +714,8 @@ int load_configuration(char* path, dserve_conf_p conf) {
       // row starts with whitespace
       // skip whitespace
       for(bp2=bp;bp2<bend && *bp2!='\n' && (*bp2==' ' || *bp2=='\t' || *bp2=='\r'); bp2++);
-      if (*bp2=='#') { for(bp=bp2;bp<bend && *bp!='\n'; bp++); }
+      if (bp2>=bend) {bp=bp2;} // end of file
+      else if (*bp2=='#') { for(bp=bp2;bp<bend && *bp!='\n'; bp++); }
       else if (*bp2=='\n') {bp=bp2;} // was an empty line
       else {
         // go to end of line or first whitespace or #
-- 
2.43.0


From a2eb633ab3fc8c58327297e37c89426ce5f37b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:07 +0000
Subject: [PATCH 088/116] fix: all configured lists start empty

---
 Server/dserve.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 1582c00..14af65c 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -389,9 +389,11 @@ static void setup_globals(void) {
   globalptr->conf->admin_tokens.size=0;
   globalptr->conf->write_tokens.size=0;
   globalptr->conf->read_tokens.size=0;
+  globalptr->conf->key_file.size=0;
+  globalptr->conf->cert_file.size=0;
   globalptr->conf->default_dbase.used=0;
   globalptr->conf->default_dbase_size.used=0;
-  globalptr->conf->max_dbase_size.size=0;
+  globalptr->conf->max_dbase_size.used=0;
   globalptr->conf->dbases.used=0;
   globalptr->conf->admin_ips.used=0;
   globalptr->conf->write_ips.used=0;
@@ -399,6 +401,8 @@ static void setup_globals(void) {
   globalptr->conf->admin_tokens.used=0;
   globalptr->conf->write_tokens.used=0;
   globalptr->conf->read_tokens.used=0;  
+  globalptr->conf->key_file.used=0;
+  globalptr->conf->cert_file.used=0;
 }
   
 char* process_query(char* inquery, thread_data_p tdata) {  
-- 
2.43.0


From dd46d468d05708ef5598bfc128d5bae3897ad0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:07 +0000
Subject: [PATCH 089/116] fix: an empty comparison or type means the default

---
 Server/dserve_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 88f08e3..f61f910 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -44,7 +44,7 @@ extern dserve_global_p globalptr;
 
 
 wg_int encode_incomp(void* db, char* incomp) {
-  if (incomp==NULL || incomp=='\0') return WG_COND_EQUAL;
+  if (incomp==NULL || incomp[0]=='\0') return WG_COND_EQUAL;
   else if (!strcmp(incomp,"equal"))  return WG_COND_EQUAL; 
   else if (!strcmp(incomp,"not_equal"))  return WG_COND_NOT_EQUAL; 
   else if (!strcmp(incomp,"lessthan"))  return WG_COND_LESSTHAN; 
@@ -55,7 +55,7 @@ wg_int encode_incomp(void* db, char* incomp) {
 }  
 
 wg_int encode_intype(void* db, char* intype) {
-  if (intype==NULL || intype=='\0') return 0;   
+  if (intype==NULL || intype[0]=='\0') return 0;   
   else if (!strcmp(intype,"null"))  return WG_NULLTYPE; 
   else if (!strcmp(intype,"int"))  return WG_INTTYPE; 
   else if (!strcmp(intype,"record"))  return WG_RECORDTYPE;
-- 
2.43.0


From 818945a30b5ea9f79374fccc605e2fbe55d3b903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:15 +0000
Subject: [PATCH 090/116] fix: a request that changes the database takes the
 write lock

---
 Server/dserve.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 14af65c..0dbc2f5 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -681,9 +681,14 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
   handlecount=0; // actual nr of records handled
   // get lock
   if (tdata->realthread && tdata->common->shutdown) return NULL; // for multithreading only
-  lock_id = wg_start_read(db); // get read lock
+  if (opcode==DELETE_CODE || opcode==UPDATE_CODE) {
+    lock_id = wg_start_write(db); // get write lock
+    tdata->lock_type=WRITE_LOCK_TYPE;
+  } else {
+    lock_id = wg_start_read(db); // get read lock
+    tdata->lock_type=READ_LOCK_TYPE;
+  }
   tdata->lock_id=lock_id;
-  tdata->lock_type=READ_LOCK_TYPE;
   if (!lock_id) return err_clear_detach_halt(LOCK_ERR,tdata);
   // handle one of the cases
   if (searchtype==0) {
@@ -807,7 +812,9 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
     tdata->bufptr+=itmp;
   }
   // release locks and detach
-  if (!wg_end_read(db, lock_id)) {  // release read lock
+  if (tdata->lock_type==WRITE_LOCK_TYPE) itmp=wg_end_write(db, lock_id);
+  else itmp=wg_end_read(db, lock_id);
+  if (!itmp) {
     return err_clear_detach_halt(LOCK_RELEASE_ERR,tdata);
   }
   tdata->lock_id=0;
-- 
2.43.0


From e3122b8bb65c286436a0659faf993091250bb3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:15 +0000
Subject: [PATCH 091/116] fix: rows before from are not deleted

---
 Server/dserve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 0dbc2f5..f7b06c0 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -710,7 +710,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
       }
       oldrec=rec;
       rec=wg_get_next_record(db,rec);
-      if (opcode==DELETE_CODE) {
+      if (opcode==DELETE_CODE && rcount>=from) {
         x=wg_get_record_len(db,oldrec);
         if (x>0) {
           itmp=op_delete_record(tdata,oldrec);
-- 
2.43.0


From 421276f8db1b2442d60c92ae123a4333edf97f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:15 +0000
Subject: [PATCH 092/116] fix: a search by fields stops before the count is
 exceeded

---
 Server/dserve.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index f7b06c0..bc431e7 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -780,7 +780,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
     
     // actually perform the query           
     if (tdata->maxdepth>MAX_DEPTH_HARD) tdata->maxdepth=MAX_DEPTH_HARD;
-    while((rec = wg_fetch(db, wgquery))) {
+    while(gcount<count && (rec = wg_fetch(db, wgquery))) {
       if (rcount>=from) {
         gcount++;                           
         if (opcode==COUNT_CODE) handlecount++;
@@ -797,7 +797,6 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
         }
       }  
       rcount++;
-      if (gcount>=count) break;    
     }   
     // free query datastructure, 
     for(i=0;i<fcount;i++) wg_free_query_param(db, wgargs[i].value);
-- 
2.43.0


From 911c2e775e480e8e0075c98139e4e7630be5e1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:15 +0000
Subject: [PATCH 093/116] fix: a long jsonp name fits the answer

---
 Server/dserve.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index bc431e7..34f39a1 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -1216,14 +1216,15 @@ static char* handle_fld_param(thread_data_p tdata,char* key,char* value,
 // return 1 if successful, 0 if fails
 
 static int op_print_data_start(thread_data_p tdata, int listflag) {
-  int itmp;
+  int itmp,len=MIN_STRLEN;
   
-  if(!str_guarantee_space(tdata,MIN_STRLEN)) return 0;
+  if (tdata->jsonp!=NULL) len=len+strlen(tdata->jsonp);
+  if(!str_guarantee_space(tdata,len)) return 0;
   if (tdata->format!=0) {
     // json
     if (tdata->jsonp!=NULL) {
-      if (listflag) itmp=snprintf(tdata->bufptr,MIN_STRLEN,"%s([\n",tdata->jsonp);
-      else itmp=snprintf(tdata->bufptr,MIN_STRLEN,"%s(",tdata->jsonp);
+      if (listflag) itmp=snprintf(tdata->bufptr,len,"%s([\n",tdata->jsonp);
+      else itmp=snprintf(tdata->bufptr,len,"%s(",tdata->jsonp);
       tdata->bufptr+=itmp;
     } else {
       if (listflag) { 
-- 
2.43.0


From c5afde59ab22b9ca76b28792a987c4d58f011b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:15 +0000
Subject: [PATCH 094/116] fix: an empty csv answer is empty

---
 Server/dserve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Server/dserve.c b/Server/dserve.c
index 34f39a1..2df8bb5 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -1243,6 +1243,7 @@ static int op_print_data_end(thread_data_p tdata, int listflag) {
   int itmp;
 
   if(!str_guarantee_space(tdata,MIN_STRLEN)) return 0; 
+  *(tdata->bufptr)='\0';
   if (tdata->format!=0) {
     // json
     if (tdata->jsonp!=NULL) {
-- 
2.43.0


From a2a2ca25fed996a56c49957aabec420569253710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:15 +0000
Subject: [PATCH 095/116] fix: the number of set fields starts at zero

---
 Server/dserve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 2df8bb5..69680da 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -572,7 +572,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
   char* sfields[MAXPARAMS]; // set / selected fields
   char* svalues[MAXPARAMS]; // set field values
   char* stypes[MAXPARAMS];  // set field types  
-  int sfcount; // array el counters for above              
+  int sfcount=0; // array el counters for above              
   int from=0;             
   unsigned long count,rcount,gcount,handlecount;
   void* db=NULL; // actual database pointer
-- 
2.43.0


From cfb1ce19fde31e1641d39e6b2a1f854b57e787ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:15 +0000
Subject: [PATCH 096/116] fix: the longest query fits its buffer

---
 Server/dserve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 69680da..8cfee8c 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -443,7 +443,7 @@ char* process_query(char* inquery, thread_data_p tdata) {
     else return errhalt(NOQUERY_ERR,tdata);
   }   
   ql=strlen(inquery);  
-  if (ql>MAXQUERYLEN) return errhalt(LONGQUERY_ERR,tdata); 
+  if (ql>=MAXQUERYLEN) return errhalt(LONGQUERY_ERR,tdata); 
   if (tdata->isserver) query=inquery;
   else {
     strcpy((char*)querybuf,inquery);
-- 
2.43.0


From 44c0053004b4f77e65380532c954a92b3b9b9196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:15 +0000
Subject: [PATCH 097/116] fix: a failed request leaves nothing behind

---
 Server/dserve.c | 53 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 8cfee8c..54a0ace 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -105,6 +105,8 @@ static char* create(thread_data_p tdata, char* inparams[], char* invalues[],
 static char* drop(thread_data_p tdata, char* inparams[], char* invalues[], 
   int incount);
 
+static char* err_clear_query_halt(char* errstr, thread_data_p tdata, 
+  wg_query* wgquery, wg_query_arg* wgargs, int n);
 static int op_print_record(thread_data_p tdata,void* rec,int gcount);
 static int op_delete_record(thread_data_p tdata,void* rec);
 
@@ -578,7 +580,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
   void* db=NULL; // actual database pointer
   void *rec, *oldrec; 
   char* res;
-  wg_query *wgquery;  // query datastructure built later
+  wg_query *wgquery=NULL;  // query datastructure built later
   wg_query_arg wgargs[MAXPARAMS]; 
   wg_int lock_id=0;  // non-0 iff lock set
   int searchtype=0; // 0: full scan, 1: record ids, 2: by fields             
@@ -667,7 +669,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
   // database attached OK
   // create output string buffer (may be reallocated later)  
   tdata->buf=str_new(INITIAL_MALLOC);
-  if (tdata->buf==NULL) return errhalt(MALLOC_ERR,tdata);
+  if (tdata->buf==NULL) return err_clear_detach_halt(MALLOC_ERR,tdata);
   tdata->bufsize=INITIAL_MALLOC;
   tdata->bufptr=tdata->buf; 
   // check printing depth
@@ -758,25 +760,25 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
     // create a query list datastructure    
     for(i=0;i<fcount;i++) {   
       // field num    
-      if (!isint(fields[i])) return err_clear_detach_halt(NO_FIELD_ERR,tdata);
+      if (!isint(fields[i])) return err_clear_query_halt(NO_FIELD_ERR,tdata,wgquery,wgargs,i);
       itmp=atoi(fields[i]);
-      if(itmp<0) return err_clear_detach_halt(NO_FIELD_ERR,tdata);
+      if(itmp<0) return err_clear_query_halt(NO_FIELD_ERR,tdata,wgquery,wgargs,i);
       // column to compare
       wgargs[i].column = itmp;    
       // comparison op: default equal
       wgargs[i].cond = encode_incomp(db,compares[i]);
-      if (wgargs[i].cond==BAD_WG_VALUE) return err_clear_detach_halt(COND_ERR,tdata);    
+      if (wgargs[i].cond==BAD_WG_VALUE) return err_clear_query_halt(COND_ERR,tdata,wgquery,wgargs,i);    
       // valuetype: default guess from value later
       type=encode_intype(db,types[i]); 
-      if (type==BAD_WG_VALUE) return err_clear_detach_halt(INTYPE_ERR,tdata);
+      if (type==BAD_WG_VALUE) return err_clear_query_halt(INTYPE_ERR,tdata,wgquery,wgargs,i);
       // encode value to compare with   
       wgargs[i].value =  encode_invalue(db,values[i],type);        
-      if (wgargs[i].value==WG_ILLEGAL) return err_clear_detach_halt(INTYPE_ERR,tdata);
+      if (wgargs[i].value==WG_ILLEGAL) return err_clear_query_halt(INTYPE_ERR,tdata,wgquery,wgargs,i);
     }   
     
     // make the query structure       
     wgquery = wg_make_query(db, NULL, 0, wgargs, i);
-    if (!wgquery) return err_clear_detach_halt(QUERY_ERR,tdata);
+    if (!wgquery) return err_clear_query_halt(QUERY_ERR,tdata,wgquery,wgargs,i);
     
     // actually perform the query           
     if (tdata->maxdepth>MAX_DEPTH_HARD) tdata->maxdepth=MAX_DEPTH_HARD;
@@ -786,14 +788,14 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
         if (opcode==COUNT_CODE) handlecount++;
         else if (opcode==SEARCH_CODE) {
           itmp=op_print_record(tdata,rec,gcount);
-          if (!itmp) return err_clear_detach_halt(MALLOC_ERR,tdata);
+          if (!itmp) return err_clear_query_halt(MALLOC_ERR,tdata,wgquery,wgargs,i);
         } else if (opcode==UPDATE_CODE) {
           itmp=op_update_record(tdata,db,rec,0,0);
           if (!itmp) handlecount++;          
         } else if (opcode==DELETE_CODE) {
           itmp=op_delete_record(tdata,rec);
           if (!itmp) handlecount++;
-          //else return err_clear_detach_halt(DELETE_ERR,tdata);  
+          //else return err_clear_query_halt(DELETE_ERR,tdata,wgquery,wgargs,i);  
         }
       }  
       rcount++;
@@ -893,7 +895,7 @@ static char* insert(thread_data_p tdata, char* inparams[], char* invalues[], int
   // database attached OK
   // create output string buffer (may be reallocated later)
   tdata->buf=str_new(INITIAL_MALLOC);
-  if (tdata->buf==NULL) return errhalt(MALLOC_ERR,tdata);
+  if (tdata->buf==NULL) return err_clear_detach_halt(MALLOC_ERR,tdata);
   tdata->bufsize=INITIAL_MALLOC;
   tdata->bufptr=tdata->buf;
   op_print_data_start(tdata,1);  
@@ -1011,7 +1013,7 @@ static char* create(thread_data_p tdata, char* inparams[], char* invalues[], int
   // all parameters and values were understood
   // create output string buffer (may be reallocated later)
   tdata->buf=str_new(INITIAL_MALLOC);
-  if (tdata->buf==NULL) return errhalt(MALLOC_ERR,tdata);
+  if (tdata->buf==NULL) return err_clear_detach_halt(MALLOC_ERR,tdata);
   tdata->bufsize=INITIAL_MALLOC;
   tdata->bufptr=tdata->buf;
   op_print_data_start(tdata,0);      
@@ -1022,7 +1024,7 @@ static char* create(thread_data_p tdata, char* inparams[], char* invalues[], int
   //db=wg_attach_existing_database(database);
   //if (db!=NULL) return errhalt(DB_EXISTS_ALREADY_ERR,tdata);      
   db=op_create_database(tdata,database,size);
-  if (db==NULL) return errhalt(DB_CREATE_ERR,tdata); 
+  if (db==NULL) return err_clear_detach_halt(DB_CREATE_ERR,tdata); 
   tdata->db=db;
   // created successfully 
   if(!str_guarantee_space(tdata,MIN_STRLEN)) 
@@ -1068,7 +1070,7 @@ static char* drop(thread_data_p tdata, char* inparams[], char* invalues[], int i
   // all parameters and values were understood
   // create output string buffer (may be reallocated later)
   tdata->buf=str_new(INITIAL_MALLOC);
-  if (tdata->buf==NULL) return errhalt(MALLOC_ERR,tdata);
+  if (tdata->buf==NULL) return err_clear_detach_halt(MALLOC_ERR,tdata);
   tdata->bufsize=INITIAL_MALLOC;
   tdata->bufptr=tdata->buf;
   op_print_data_start(tdata,0);
@@ -1080,12 +1082,12 @@ static char* drop(thread_data_p tdata, char* inparams[], char* invalues[], int i
         break;
       }
     }
-    if (!found) return errhalt(DB_AUTHORIZE_ERR,tdata);
+    if (!found) return err_clear_detach_halt(DB_AUTHORIZE_ERR,tdata);
   }
   // first try to attach to an existing database 
   db=op_attach_database(tdata,database,ADMIN_LEVEL);
   if (db==NULL) {
-    return errhalt(DB_NOT_EXISTS_ERR,tdata);
+    return err_clear_detach_halt(DB_NOT_EXISTS_ERR,tdata);
   } else {  
     // database exists, take lock
     if (tdata->realthread && tdata->common->shutdown) return NULL; // for multithreading only
@@ -1096,22 +1098,33 @@ static char* drop(thread_data_p tdata, char* inparams[], char* invalues[], int i
     if (!lock_id) return err_clear_detach_halt(LOCK_ERR,tdata); 
     tmp=wg_detach_database(db); // detaches a database: returns 0 if OK
     if (tmp) return err_clear_detach_halt(DB_DROP_ERR,tdata);
+    tdata->db=NULL;
+    tdata->lock_id=0;
     tmp=wg_delete_database(database);    
-    if (tmp) return errhalt(DB_DROP_ERR,tdata);
+    if (tmp) return err_clear_detach_halt(DB_DROP_ERR,tdata);
   }  
   // deleted successfully 
-  tdata->db=NULL;
-  tdata->lock_id=0;
   if(!str_guarantee_space(tdata,MIN_STRLEN)) 
       return err_clear_detach_halt(MALLOC_ERR,tdata);
   strcpy(tdata->bufptr,"1");
   tdata->bufptr+=strlen("1");
   // end activity
   if(!op_print_data_end(tdata,0))
-    return errhalt(MALLOC_ERR,tdata);    
+    return err_clear_detach_halt(MALLOC_ERR,tdata);    
   return tdata->buf;
 }
 
+// as err_clear_detach_halt, freeing a query and its n encoded args first
+
+static char* err_clear_query_halt(char* errstr, thread_data_p tdata, 
+                wg_query* wgquery, wg_query_arg* wgargs, int n) {
+  int i;
+
+  for(i=0;i<n;i++) wg_free_query_param(tdata->db, wgargs[i].value);
+  if (wgquery!=NULL) wg_free_query(tdata->db, wgquery);
+  return err_clear_detach_halt(errstr,tdata);
+}
+
 /* ***** print, delete, update utilities ****** */
 
 // print a single record to output string buffer of tdata
-- 
2.43.0


From b7309b2b2ef011b192745a73ff620e35c67c75f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:15 +0000
Subject: [PATCH 098/116] fix: only existing records are handled by id

---
 Server/dserve.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 54a0ace..f0f1856 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -609,7 +609,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
       for(j=0;j<MAXIDS;j++) ids[j]=0;
       // split csv int list to ids int array      
       for(j=0;j<strlen(cids);j++) {
-        if (atoi(cids+j) && atoi(cids+j)>0) ids[x++]=atoi(cids+j);        
+        if (strtol(cids+j,NULL,10)>0) ids[x++]=strtol(cids+j,NULL,10);        
         if (x>=MAXIDS) break;
         for(;j<strlen(cids) && cids[j]!=','; j++) {};
       }             
@@ -724,10 +724,11 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
     }   
   } else if (searchtype==1) {
     // ------------ search by record ids: ------------               
-    for(j=0; ids[j]!=0 && j<MAXIDS; j++) {    
-      x=wg_get_encoded_type(db,ids[j]);
-      if (x!=WG_RECORDTYPE) continue;
-      rec=wg_decode_record(db,ids[j]);    
+    for(j=0; j<MAXIDS && ids[j]!=0; j++) {    
+      // the id comes from outside: take only those of existing records
+      for(rec=wg_get_first_record(db); rec!=NULL; rec=wg_get_next_record(db,rec)) {
+        if (wg_encode_record(db,rec)==ids[j]) break;
+      }
       if (rec==NULL) continue;
       x=wg_get_record_len(db,rec);
       if (x<=0) continue;      
-- 
2.43.0


From a43d6a61aae727995a55f4068760d7f765ba671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:01 +0000
Subject: [PATCH 099/116] fix: error answers are escaped and complete

---
 Server/dserve_util.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index f61f910..fc7cdcd 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -1001,7 +1001,7 @@ void errprint(char* fmt, char* param) {
 */
 
 char* errhalt(char* str, thread_data_p tdata) {
-  char buf[HTTP_ERR_BUFSIZE];
+  char *buf;
   
   if (tdata==NULL) {
     errprint("tdata was NULL in errhalt\n",NULL);
@@ -1013,10 +1013,7 @@ char* errhalt(char* str, thread_data_p tdata) {
   } else {
     // freeing tdata->inbuf here is not really necessary
     if (tdata->inbuf!=NULL) { free(tdata->inbuf); tdata->inbuf=NULL; }
-    if (tdata->jsonp==NULL)
-      snprintf(buf,HTTP_ERR_BUFSIZE,NORMAL_ERR_FORMAT,str);
-    else
-      snprintf(buf,HTTP_ERR_BUFSIZE,JSONP_ERR_FORMAT,tdata->jsonp,str); 
+    buf=make_http_errstr(str,tdata);
     print_final(buf,tdata);
 #if _MSC_VER    
 #ifdef SERVEROPTION    
@@ -1074,14 +1071,25 @@ char* err_clear_detach_halt(char* errstr, thread_data_p tdata) {
 // allocate and create an errstring
 
 char* make_http_errstr(char* str, thread_data_p tdata) {
-  char *errstr;
+  char *errstr,*text;
+  int len,size;
   
-  errstr=malloc(HTTP_ERR_BUFSIZE);
-  if (!errstr) return NULL;
-  if(tdata!=NULL && tdata->jsonp!=NULL)
-    snprintf(errstr,HTTP_ERR_BUFSIZE,JSONP_ERR_FORMAT,tdata->jsonp,str);
-  else    
-    snprintf(errstr,HTTP_ERR_BUFSIZE,NORMAL_ERR_FORMAT,str);
+  // the error may contain parts of the query: escape it as a json string
+  len=strlen(str);
+  text=malloc(STRLEN_FACTOR*len+MIN_STRLEN);
+  if (!text) return NULL;
+  sprint_string(text,len,str,2);
+  text[strlen(text)-1]='\0'; // formats below have the quotes
+  size=strlen(text)+MIN_STRLEN;
+  if(tdata!=NULL && tdata->jsonp!=NULL) size+=strlen(tdata->jsonp);
+  errstr=malloc(size);
+  if (errstr) {
+    if(tdata!=NULL && tdata->jsonp!=NULL)
+      snprintf(errstr,size,JSONP_ERR_FORMAT,tdata->jsonp,text+1);
+    else    
+      snprintf(errstr,size,NORMAL_ERR_FORMAT,text+1);
+  }
+  free(text);
   return errstr;
 }
 
-- 
2.43.0


From b0e79ab16aa2ff5e66f223f9027dd35d6207e558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:01 +0000
Subject: [PATCH 100/116] fix: deleting by id does not print the records

---
 Server/dserve.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index f0f1856..1a32ebb 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -747,7 +747,6 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
         if (oldrec!=NULL) {
           //wg_int objecthead=dbfetch((void*)db,(void*)rec);
           //printf("isfreeobject %d\n",isfreeobject((int)objecthead));
-          wg_print_record(db,rec);
           itmp=op_delete_record(tdata,rec);
           //printf("deletion result %d\n",itmp);
           if (!itmp) handlecount++;
-- 
2.43.0


From 24e5a3cb386f6f44b1bc3640c560f6c52070308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:02 +0000
Subject: [PATCH 101/116] fix: only existing records are compared with

---
 Server/dserve.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 1a32ebb..d1af098 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -107,6 +107,7 @@ static char* drop(thread_data_p tdata, char* inparams[], char* invalues[],
 
 static char* err_clear_query_halt(char* errstr, thread_data_p tdata, 
   wg_query* wgquery, wg_query_arg* wgargs, int n);
+static void* find_record(void* db, wg_int id);
 static int op_print_record(thread_data_p tdata,void* rec,int gcount);
 static int op_delete_record(thread_data_p tdata,void* rec);
 
@@ -725,10 +726,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
   } else if (searchtype==1) {
     // ------------ search by record ids: ------------               
     for(j=0; j<MAXIDS && ids[j]!=0; j++) {    
-      // the id comes from outside: take only those of existing records
-      for(rec=wg_get_first_record(db); rec!=NULL; rec=wg_get_next_record(db,rec)) {
-        if (wg_encode_record(db,rec)==ids[j]) break;
-      }
+      rec=find_record(db,ids[j]);
       if (rec==NULL) continue;
       x=wg_get_record_len(db,rec);
       if (x<=0) continue;      
@@ -774,6 +772,8 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
       // encode value to compare with   
       wgargs[i].value =  encode_invalue(db,values[i],type);        
       if (wgargs[i].value==WG_ILLEGAL) return err_clear_query_halt(INTYPE_ERR,tdata,wgquery,wgargs,i);
+      if (type==WG_RECORDTYPE && find_record(db,wgargs[i].value)==NULL)
+        return err_clear_query_halt(INVALUE_TYPE_ERR,tdata,wgquery,wgargs,i);
     }   
     
     // make the query structure       
@@ -1125,6 +1125,18 @@ static char* err_clear_query_halt(char* errstr, thread_data_p tdata,
   return err_clear_detach_halt(errstr,tdata);
 }
 
+// return the record with the given id or NULL if there is none:
+// ids come from outside and may be anything
+
+static void* find_record(void* db, wg_int id) {
+  void* rec;
+
+  for(rec=wg_get_first_record(db); rec!=NULL; rec=wg_get_next_record(db,rec)) {
+    if (wg_encode_record(db,rec)==id) break;
+  }
+  return rec;
+}
+
 /* ***** print, delete, update utilities ****** */
 
 // print a single record to output string buffer of tdata
-- 
2.43.0


From 342109dc55f23db23635a302e7f0907e23ca40f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:26 +0000
Subject: [PATCH 102/116] fix: posted queries are terminated

---
 Server/dserve.c     | 1 +
 Server/dserve_net.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Server/dserve.c b/Server/dserve.c
index d1af098..6c8e857 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -360,6 +360,7 @@ static char* get_cgi_query(thread_data_p tdata, char* inmethod) {
     }
     n=fread(inquery,1,len,stdin);
     if (n<=0) { return NULL; }
+    inquery[n]='\0';
     if (n<len) {
       // read less than content-length
     }
diff --git a/Server/dserve_net.c b/Server/dserve_net.c
index 8424ac2..3eb5f8b 100644
--- a/Server/dserve_net.c
+++ b/Server/dserve_net.c
@@ -677,6 +677,7 @@ static char* get_post_data(int connsd,char* buf,void* ssl,thread_data_p tdata) {
     warnprint(READING_FAILED_WARN,NULL);
     return NULL;
   }
+  buffer[nread]='\0';
   tdata->inbuf=buffer;
   tdata->intype=type;
   //printf("query:\n%s\n",buffer);
-- 
2.43.0


From 6f20641ac2973a1f2bfcf4008c62091c92acca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:26 +0000
Subject: [PATCH 103/116] fix: every http request stands alone

---
 Server/dserve_net.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Server/dserve_net.c b/Server/dserve_net.c
index 3eb5f8b..7faf93b 100644
--- a/Server/dserve_net.c
+++ b/Server/dserve_net.c
@@ -454,8 +454,12 @@ void *handle_http(void *targ) {
 #endif
       // accepted connection: read and process
       // read and parse request line
+      buf[0]='\0'; // stays empty if nothing can be read
       readlineb(connsd,buf,MAXLINE,ssl);
       method=buf;
+      uri=NULL; version=NULL; query=NULL; // nothing is kept from an earlier request
+      tdata->inbuf=NULL;
+      len=0;
       for(i=0,bp=buf; *bp!='\0' && i<2; bp++) {
         if (*bp==' ') {
           *bp='\0';
-- 
2.43.0


From e3f7915498617a7657b1645e6575cf9100ff9376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:47 +0000
Subject: [PATCH 104/116] fix: a connection closed within the headers ends the
 request

---
 Server/dserve_net.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Server/dserve_net.c b/Server/dserve_net.c
index 7faf93b..7db0148 100644
--- a/Server/dserve_net.c
+++ b/Server/dserve_net.c
@@ -637,7 +637,7 @@ static char* get_post_data(int connsd,char* buf,void* ssl,thread_data_p tdata) {
   // start reading line by line until empty line is hit
   for(j=0;j<MAXLINES;j++) {
     k=readlineb(connsd,bufp,MAXLINE,ssl);
-    if (k<0) { warnprint(READING_FAILED_WARN,NULL); return NULL; }
+    if (k<=0) { warnprint(READING_FAILED_WARN,NULL); return NULL; }
     //printf("line %d:%s",j,bufp);
     // content length handling
     chk=strncmp(bufp,"Content-Length:",clenlen);
@@ -737,7 +737,7 @@ ssize_t readlineb(int fd, void *usrbuf, size_t maxlen, void* sslp) {
 	    *bufp++ = c;
 	    if (c == '\n') break;
     } else if (rc == 0) {
-	    if (n == 1) return 0; // EOF, no data read 
+	    if (n == 1) { *bufp = 0; return 0; } // EOF, no data read 
 	    else break;    // EOF, some data was read 
     } else {
       return -1;	  // error 
-- 
2.43.0


From 817bfda441672351ef17dc5a4e9cd74218f5380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:57 +0000
Subject: [PATCH 105/116] fix: the jsonp name is used before its buffer is
 released

---
 Server/dserve_util.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index fc7cdcd..adc0150 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -1008,12 +1008,14 @@ char* errhalt(char* str, thread_data_p tdata) {
     terminate();
   }
   if (tdata->isserver) {
+    // the jsonp name is in inbuf
+    buf=make_http_errstr(str,tdata);
     if (tdata->inbuf!=NULL) { free(tdata->inbuf); tdata->inbuf=NULL; }
-    return make_http_errstr(str,tdata);
+    return buf;
   } else {
+    buf=make_http_errstr(str,tdata);
     // freeing tdata->inbuf here is not really necessary
     if (tdata->inbuf!=NULL) { free(tdata->inbuf); tdata->inbuf=NULL; }
-    buf=make_http_errstr(str,tdata);
     print_final(buf,tdata);
 #if _MSC_VER    
 #ifdef SERVEROPTION    
-- 
2.43.0


From 57088b4ac505c64732d3f88cd6f6f99bd9c8746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:15 +0000
Subject: [PATCH 106/116] fix: a line cut by an error is terminated

---
 Server/dserve_net.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Server/dserve_net.c b/Server/dserve_net.c
index 7db0148..932a72b 100644
--- a/Server/dserve_net.c
+++ b/Server/dserve_net.c
@@ -740,6 +740,7 @@ ssize_t readlineb(int fd, void *usrbuf, size_t maxlen, void* sslp) {
 	    if (n == 1) { *bufp = 0; return 0; } // EOF, no data read 
 	    else break;    // EOF, some data was read 
     } else {
+      *bufp = 0;
       return -1;	  // error 
     }  
   }
-- 
2.43.0


From 6f59ce5439e3eb5e9da6c443f44777031e692308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:15 +0000
Subject: [PATCH 107/116] fix: a connection that finds the queue full is closed

---
 Server/dserve_net.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Server/dserve_net.c b/Server/dserve_net.c
index 932a72b..af0760a 100644
--- a/Server/dserve_net.c
+++ b/Server/dserve_net.c
@@ -186,6 +186,11 @@ int run_server(int port, dserve_global_p globalptr) {
       do {
         if(common->count==common->queue_size) { // full?
           //fprintf(stderr, "queue full\n");
+          // nobody will answer this connection
+#ifdef USE_OPENSSL
+          SSL_free(ssl);
+#endif
+          close(connsd);
           nanosleep(&tim , &tim2);
           break; //continue;
         }
-- 
2.43.0


From 0e8474bb782422f887bd9d1d76364b1b45440d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:22 +0000
Subject: [PATCH 108/116] fix: an empty posted query is released

---
 Server/dserve_net.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Server/dserve_net.c b/Server/dserve_net.c
index af0760a..7dc1e7a 100644
--- a/Server/dserve_net.c
+++ b/Server/dserve_net.c
@@ -496,6 +496,7 @@ void *handle_http(void *targ) {
         }
         // now we have query for both methods
         if (query==NULL || *query=='\0') { 
+          if (tdata->inbuf!=NULL) { free(tdata->inbuf); tdata->inbuf=NULL; }
           res=make_http_errstr(HTTP_NOQUERY_ERR,NULL);
         } else {
           // compute result
-- 
2.43.0


From 075d06ece55f00fa8c7895764eacecd6e962c740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:42 +0000
Subject: [PATCH 109/116] fix: null is not a record in the reasoner

---
 Db/dbdata.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbdata.h b/Db/dbdata.h
index d25957f..736e6c4 100644
--- a/Db/dbdata.h
+++ b/Db/dbdata.h
@@ -416,7 +416,7 @@ Immediate anon constants                0101 1111  = is eq  // not implemented y
 
 #define isptr(i)        ((i) && (((i)&NONPTRBITS)!=NONPTRBITS))
 
-#define isdatarec(i)    (((i)&DATARECMASK)==DATARECBITS)
+#define isdatarec(i)    ((i) && (((i)&DATARECMASK)==DATARECBITS))
 #define isfullint(i)    (((i)&FULLINTMASK)==FULLINTBITS)
 #define isfulldouble(i) (((i)&FULLDOUBLEMASK)==FULLDOUBLEBITS)
 #define isshortstr(i)   (((i)&SHORTSTRMASK)==SHORTSTRBITS)
-- 
2.43.0


From 598d9963d5efaa57704740c1c1877bee6b7647aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:42 +0000
Subject: [PATCH 110/116] fix: a constant does not match a compound term

---
 Reasoner/unify.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Reasoner/unify.c b/Reasoner/unify.c
index 9ff01fc..cd58e74 100644
--- a/Reasoner/unify.c
+++ b/Reasoner/unify.c
@@ -279,6 +279,7 @@ gint wr_match_term_aux(glb* g, gint x, gint y, int uniquestrflag) {
   // now x is not var
   if (!isdatarec(x)) {
     if (WR_EQUAL_TERM(g,x,y,uniquestrflag)) return 1;  
+    return 0;
   } 
   if (!isdatarec(y)) return 0; // x is datarec but y is not    
   // now x and y are different datarecs
-- 
2.43.0


From 42560a4bf3a4e56ac9e56eef94987002c7841d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:22 +0000
Subject: [PATCH 111/116] fix: text lengths are compared with each other

---
 Reasoner/unify.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Reasoner/unify.c b/Reasoner/unify.c
index cd58e74..6871a26 100644
--- a/Reasoner/unify.c
+++ b/Reasoner/unify.c
@@ -477,11 +477,11 @@ int wr_equal_ptr_primitives(glb* g, gint a, gint b, int uniquestrflag) {
         if (t1!=t2) return 0;
         l1=wg_decode_unistr_lang_len(g->db,a,t1);
         l2=wg_decode_unistr_lang_len(g->db,b,t2);
-        if (11!=l2) return 0;
+        if (l1!=l2) return 0;
         ol=l1;
         l1=wg_decode_unistr_len(g->db,a,t1);
         l2=wg_decode_unistr_len(g->db,b,t2);        
-        if (11!=l2) return 0;
+        if (l1!=l2) return 0;
         s1=wg_decode_unistr_lang(g->db,a,t1);
         s2=wg_decode_unistr_lang(g->db,b,t2);
         if (s1!=s2 && (s1==NULL || s2==NULL || memcmp(s1,s2,ol))) return 0;
-- 
2.43.0


From 71c59e75819158b7b7755b084590432afe6c8f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:51 +0000
Subject: [PATCH 112/116] fix: blobs are compared with their last byte

---
 Reasoner/unify.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Reasoner/unify.c b/Reasoner/unify.c
index 6871a26..e3ca254 100644
--- a/Reasoner/unify.c
+++ b/Reasoner/unify.c
@@ -487,6 +487,7 @@ int wr_equal_ptr_primitives(glb* g, gint a, gint b, int uniquestrflag) {
         if (s1!=s2 && (s1==NULL || s2==NULL || memcmp(s1,s2,ol))) return 0;
         s1=wg_decode_unistr(g->db,a,t1);
         s2=wg_decode_unistr(g->db,b,t2);
+        if (t1==WG_BLOBTYPE) l1++; // a blob has no terminating zero
         if (s1!=s2 && (s1==NULL || s2==NULL || memcmp(s1,s2,l1))) return 0;
         return 1;
       }        
-- 
2.43.0


From 5731353a960397aee28e19c84db45d9613f6cd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:14 +0000
Subject: [PATCH 113/116] fix: the elements of a new vector are cleared

---
 Reasoner/mem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Reasoner/mem.c b/Reasoner/mem.c
index e85e47d..08274f2 100644
--- a/Reasoner/mem.c
+++ b/Reasoner/mem.c
@@ -98,7 +98,7 @@ vec wr_vec_new(glb* g,int len) {
   res=(gptr)((char*)res+i);
   
   res[0]=(gint)len;
-  //for (i=VEC_START; i<=len; i++) res[i]=0;
+  for (i=VEC_START; i<=len; i++) res[i]=0;
     
   return res;
 }
-- 
2.43.0


From a498c471005a5b4b1f719e26c1b87adc161e9869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:33 +0000
Subject: [PATCH 114/116] fix: a hash node before the database is not an error

---
 Reasoner/rgenloop.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Reasoner/rgenloop.c b/Reasoner/rgenloop.c
index 41022e3..dd858a9 100644
--- a/Reasoner/rgenloop.c
+++ b/Reasoner/rgenloop.c
@@ -461,11 +461,12 @@ void wr_resolve_binary_all_active(glb* g, gptr cl) {
         dprintf("no matching atoms in hash\n");
         continue;
       }  
-      node=wr_clterm_hashlist_start(g,hashvec,hash);
-      if (node<0)  {
-        wr_sys_exiterr(g,"apparently wrong hash given to wr_clterm_hashlist_start");
+      if (hlen<0)  {
+        wr_sys_exiterr(g,"apparently wrong hash given to wr_clterm_hashlist_len");
         return;
       }  
+      // NB! node may be negative: it is relative to the database, but lies outside
+      node=wr_clterm_hashlist_start(g,hashvec,hash);
       while(node!=0) {       
         yatom=(otp(db,node))[CLTERM_HASHNODE_TERM_POS];
         ycl=otp(db,(otp(db,node))[CLTERM_HASHNODE_CL_POS]);
-- 
2.43.0


From 4d84bc32757d112550c8244181954fbecaf97186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:34 +0000
Subject: [PATCH 115/116] fix: partial derivations keep their own buffer

---
 Reasoner/derive.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Reasoner/derive.c b/Reasoner/derive.c
index 1817f7d..cbc3596 100644
--- a/Reasoner/derive.c
+++ b/Reasoner/derive.c
@@ -63,7 +63,8 @@ void wr_process_resolve_result(glb* g, gint xatom, gptr xcl, gint yatom, gptr yc
   int ruleflag,datalen;
   //int clstackflag;
   int partialresflag;
-  gint given_termbuf_storednext;
+  gptr given_termbuf_storednext=NULL;
+  gptr partialbuf=NULL;
   
 #ifdef DEBUG
   printf("wr_process_resolve_result called\n");
@@ -136,7 +137,8 @@ void wr_process_resolve_result(glb* g, gint xatom, gptr xcl, gint yatom, gptr yc
     given_termbuf_storednext=g->build_buffer;
     //g->build_buffer=malloc(1024);
     //given_termbuf_storednext=CVEC_NEXT(g->given_termbuf); 
-    g->build_buffer=wr_cvec_new(g,1000);  
+    partialbuf=wr_cvec_new(g,1000);
+    g->build_buffer=partialbuf;
   } else {
     partialresflag=0;
     wr_process_resolve_result_setupquecopy(g);
@@ -200,7 +202,8 @@ void wr_process_resolve_result(glb* g, gint xatom, gptr xcl, gint yatom, gptr yc
     //wr_print_vardata(g);
     wr_resolve_binary_all_active(g,res);
     // restore buffer pos to situation before building the current clause
-    wr_vec_free(g,g->build_buffer);
+    // (the derivations above have set build_buffer to their own buffers)
+    wr_vec_free(g,partialbuf);
     g->build_buffer=given_termbuf_storednext;
     //CVEC_NEXT(g->given_termbuf)=given_termbuf_storednext;
   } else {       
-- 
2.43.0


From a66c1fcc24ec44935287606fac20fb958bcd57fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:05 +0000
Subject: [PATCH 116/116] fix: predicate hashes are places of the hash vector

---
 Reasoner/clstore.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Reasoner/clstore.c b/Reasoner/clstore.c
index baca410..77f6f2e 100644
--- a/Reasoner/clstore.c
+++ b/Reasoner/clstore.c
@@ -780,12 +780,12 @@ gint wr_term_basehash(glb* g, gint enc) {
       hash=2;
       break;
   }
-  if (hash<0) hash=0-hash;
+  // NB! must give a position usable in a hash vector, see wr_clterm_add_hashlist
 #ifdef DEBUG
   printf("wr_termhash computed hash %d using NROF_CLTERM_HASHVEC_ELS-2 %d gives final res %d \n",
-         hash,NROF_CLTERM_HASHVEC_ELS-2,0+(hash%(NROF_CLTERM_HASHVEC_ELS-2)));
+         hash,NROF_CLTERM_HASHVEC_ELS-2,1+((unsigned int)hash%(NROF_CLTERM_HASHVEC_ELS-2)));
 #endif    
-  return (gint)(0+(hash%(NROF_CLTERM_HASHVEC_ELS-2)));
+  return (gint)(1+((unsigned int)hash%(NROF_CLTERM_HASHVEC_ELS-2)));
 }
 
 
-- 
2.43.0

