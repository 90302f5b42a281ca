From d9c19643c60fcba0c7ffea2c641977ebf99ae845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:34 +0000
Subject: [PATCH 01/35] fix: a key of (almost) the maximum size fits on an
 empty page

The space estimate for a pair was up to 3 bytes too large, so keys of the
largest accepted sizes never fitted on an empty page: they were put on an
overflow page behind an empty primary page, where lookups did not find them.
---
 filehash/ffdb_page.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/filehash/ffdb_page.h b/filehash/ffdb_page.h
index a36f79e..7bbc2c2 100644
--- a/filehash/ffdb_page.h
+++ b/filehash/ffdb_page.h
@@ -215,10 +215,12 @@ typedef struct _ffdb_datap_
 #define DATAP(P, N) ((ffdb_datap_t *)(((unsigned char *)(P) + DATAP_OFF((P), (N)))))
 
 /* calculate various sizes on a page */
-/* This is over estimate: since we have to align data pointer on 4 byte boundary
- * therefore the worst case is sizeof(ffdb_datap_t) + sizeof(int) - 1
+/* Pairs are stored from a 4 byte aligned end of the page and the data pointer
+ * is aligned down on a 4 byte boundary, therefore a key occupies its size
+ * rounded up to a multiple of 4. A key of the maximum size has to fit on an
+ * empty page.
  */
-#define PAIRSIZE(K,D) (PAIR_OVERHEAD + (K)->size + sizeof(ffdb_datap_t) + sizeof(int) - 1)
+#define PAIRSIZE(K,D) (PAIR_OVERHEAD + (((K)->size + DATAP_ALIGNMENT - 1) & ~((long)DATAP_ALIGNMENT - 1)) + sizeof(ffdb_datap_t))
 
 /*
  * Since these are all unsigned, we need to guarantee that we never go
-- 
2.43.0


From 66d72404f744ceb2d93a5a3c89f7078de618ecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:34 +0000
Subject: [PATCH 02/35] fix: release the page of an existing key refused by
 FFDB_NOOVERWRITE

---
 filehash/ffdb_hash.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 5cb477b..51ea218 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1318,6 +1318,7 @@ _ffdb_hash_put (const FFDB_DB* dbp, FFDB_DBT* key, const FFDB_DBT* data,
      * a replace flag
      */
     if (flag && flag == FFDB_NOOVERWRITE) {
+      ffdb_release_item (hashp, &item);
       FFDB_UNLOCK (hashp->lock);  
       return -1;
     }
-- 
2.43.0


From b778d4f29b3e3b447cd174f40ac00042236b209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:34 +0000
Subject: [PATCH 03/35] fix: release pages on every path of data and user
 information retrieval

Empty values, too small buffers and failed retrievals left pages pinned, so
that they were never written out, evicted or available to other threads.
---
 filehash/ffdb_page.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 8d168b1..2e85556 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -470,6 +470,7 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
     if (val->size < datalen) {
       fprintf (stderr, "Warning: application allocated space %ld < data size %ld\n",
 	       (long)val->size, datalen);
+      ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
       return -1;
     }
     else
@@ -480,6 +481,7 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
     if (!val->data) {
       fprintf (stderr, "Cannot allocate space to get data back for size of %ld bytes. \n",
 	       datalen);
+      ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
       return -1;
     }
     val->size = datalen;
@@ -490,6 +492,8 @@ _ffdb_get_data (ffdb_htab_t* hashp, ffdb_hent_t* item,
   rlen = val->size;
   start = roff + sizeof(ffdb_data_header_t);
   next = NEXT_PGNO(pagep);
+  if (rlen == 0) /* empty data: nothing to copy from the page */
+    ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
   while (rlen > 0) {
     /* where copy starts in val->data */
     idx = val->size - rlen;
@@ -1550,6 +1554,8 @@ int ffdb_get_item (ffdb_htab_t* hashp,
   if (status != 0) {
     fprintf (stderr, "Cannot get data on page %d at offset %d\n",
 	     datap->first, datap->offset);
+    if (freepage)
+      ffdb_put_page (hashp, item->pagep, HASH_RAW_PAGE, 0);
     return status;
   }
 
@@ -2735,6 +2741,7 @@ ffdb_get_uinfo (ffdb_htab_t* hashp, unsigned char data[],
     if (i == 0) {
       if (*len < USER_DATA_LEN(pagep)) {
 	fprintf (stderr, "Error: provided user buffer size %d < stored data length %d.\n", *len, USER_DATA_LEN(pagep));
+	ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
 	return -1;
       }
       *len = USER_DATA_LEN(pagep);
-- 
2.43.0


From 5f15325fd83cf16711b4f8a1853e1a90bb9207f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:34 +0000
Subject: [PATCH 04/35] fix: a page fetched twice by a thread stays pinned
 until its last release

The first release unpinned the page although the thread still used it (a
lookup of the key a cursor stands on), so the page could be evicted under
the cursor and the second release aborted the program.
---
 filehash/ffdb_pagepool.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 6fedcd1..d94224f 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1240,6 +1240,13 @@ ffdb_pagepool_put_page (ffdb_pagepool_t* pgp, void* mem,
    * Derefence the page
    */
   bp->ref--;
+
+  /* this thread may still be using this page: it was fetched more than once */
+  if (bp->ref > 0) {
+    FFDB_UNLOCK(pgp->lock);
+    return 0;
+  }
+
   /*
    * I am giving up the ownership
    */
-- 
2.43.0


From 0bf852575dc3c5d66339c444daf9e007088d1b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:34 +0000
Subject: [PATCH 05/35] fix: signal the waiter of a page before releasing the
 page pool lock

---
 filehash/ffdb_pagepool.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index d94224f..a2becb2 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1260,16 +1260,16 @@ ffdb_pagepool_put_page (ffdb_pagepool_t* pgp, void* mem,
   if (bp->waiters > 0) {
     sleeper = FFDB_CIRCLEQ_LAST(&bp->wqh);
     sleeper->wakeup = 0xdeafbeaf;
-  }
-
-  FFDB_UNLOCK(pgp->lock);
-
-  /* bp->waiters will not be changed until other threads are waken up */
 #if 0
-  fprintf (stderr, "Signaling page %d free \n", bp->pgno);
+    fprintf (stderr, "Signaling page %d free \n", bp->pgno);
 #endif
-  if (sleeper)
+    /* signal with the lock held: once it is released the waiter may wake up
+     * on its own and free the condition variable
+     */
     FFDB_COND_SIGNAL(sleeper->cv);
+  }
+
+  FFDB_UNLOCK(pgp->lock);
   return 0;
 }
 
-- 
2.43.0


From f30013ae90f27b32d80761bfd59d49ec1a2a6b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:17 +0000
Subject: [PATCH 06/35] fix: the first expansion of a single-bucket table
 splits bucket 0

The low mask of a table created with one bucket is all ones, so the first
expansion took the new bucket 1 for the bucket to split and every key of
bucket 0 that belongs to bucket 1 was lost.
---
 filehash/ffdb_hash.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 51ea218..ae9bd84 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1079,15 +1079,17 @@ _ffdb_expand_table (ffdb_htab_t* hashp)
   /* The number of buckets is increased by one, obviously */
   new_bucket = ++hashp->hdr.max_bucket;
   
-  /* which bucket to split */
-  old_bucket = (hashp->hdr.max_bucket & hashp->hdr.low_mask);
-
   /* If new bucket is greater than high mask, we do doubling again */
   if (new_bucket > hashp->hdr.high_mask) {
     hashp->hdr.low_mask = hashp->hdr.high_mask;
     hashp->hdr.high_mask = new_bucket | hashp->hdr.low_mask;
   }
 
+  /* which bucket to split: use the updated low mask, since the initial low
+   * mask of a table with a single bucket is not a valid mask
+   */
+  old_bucket = (hashp->hdr.max_bucket & hashp->hdr.low_mask);
+
   /*
    * If the split point is increasing (hdr.max_bucket's log base 2
    * increases), we need to copy the current contents of the spare
-- 
2.43.0


From 96ba264e892c35ee258e0832e21307ac629f6c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:17 +0000
Subject: [PATCH 07/35] fix: closing right after a table doubling has no pages
 to rearrange

Before the first data or overflow page of a level is allocated the end of
the level is unknown (0) and the computed page range was nonsense.
---
 filehash/ffdb_page.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 2e85556..aae6a24 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2383,6 +2383,10 @@ ffdb_rearrage_pages_on_close (ffdb_htab_t* hashp)
   if (num_unused == 0)
     return 0;
 
+  /* No data or overflow page has been allocated on the last level yet */
+  if (hashp->hdr.spares[hashp->hdr.ovfl_point + 1] == 0)
+    return 0;
+
   /* First and last unused page */
   BUCKET_TO_PAGE(hashp->hdr.max_bucket + 1, funused);
   BUCKET_TO_PAGE(hashp->hdr.high_mask, lunused);
-- 
2.43.0


From 0c13fa640841ec297fff39e87d5f905284c3c9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:17 +0000
Subject: [PATCH 08/35] fix: write out freed overflow pages and the link to a
 new free page

A freed overflow page that was clean in the cache stayed on disk as an
overflow page with entries; rearranging pages at close then moved it and
rewrote (or failed an assertion on) the data it no longer owns.
---
 filehash/ffdb_page.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index aae6a24..8d15859 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1316,7 +1316,7 @@ _ffdb_free_ovflpage (ffdb_htab_t* hashp, void* memp, int isdoubling,
       PREV_PGNO (xpagep) = fpage;
 
       /* release the previous page */
-      ffdb_put_page (hashp, fpagep, TYPE(fpagep), 0); 
+      ffdb_put_page (hashp, fpagep, TYPE(fpagep), 1); 
     }
   }
 }
@@ -1334,7 +1334,8 @@ ffdb_delete_page (ffdb_htab_t* hashp, void* pagep,
     if (deleteit) {
       /* if this page need to be deleted */
       _ffdb_init_page (hashp, pagep, CURR_PGNO(pagep), HASH_DELETED_PAGE);
-      return ffdb_pagepool_delete (hashp->mp, pagep); 
+      /* the page on disk must no longer look like an overflow page */
+      return ffdb_put_page (hashp, pagep, TYPE(pagep), 1);
     }
     else 
       return ffdb_put_page (hashp, pagep, TYPE(pagep), 1);
-- 
2.43.0


From 5f852ed562642eb10285526d7d2dbe92b3a596c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:17 +0000
Subject: [PATCH 09/35] fix: unlink the reused first free map page from its
 successor

The successor kept pointing back to the reused page; moving the successor at
close overwrote the next-page link of whatever the page was reused for.
---
 filehash/ffdb_page.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 8d15859..38843e1 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -969,6 +969,17 @@ _ffdb_reuse_free_ovflpage (ffdb_htab_t* hashp)
       num = fpage;
       /* nextp could be INVALID_PGNO */
       hashp->hdr.free_pages[clevel] = nextp;
+      if (nextp != INVALID_PGNO) {
+	/* the next free map page becomes the first one of the chain */
+	fpagep = ffdb_get_page (hashp, nextp, HASH_FREE_PAGE, 0, &tp);
+	if (!fpagep) {
+	  fprintf (stderr, "Fatal error: free map page at %d could not be found\n",
+		   nextp);
+	  abort ();
+	}
+	PREV_PGNO(fpagep) = INVALID_PGNO;
+	ffdb_put_page (hashp, fpagep, HASH_FREE_PAGE, 1);
+      }
 #ifdef _FFDB_DEBUG
       fprintf (stderr, "Free map page %d contains no free pages, reuse it\n",
 	       fpage);
-- 
2.43.0


From 4c20eb2012ae27d6498faed01f7ee4a77f2419fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:17 +0000
Subject: [PATCH 10/35] fix: ffdb_get_config must not judge its output argument

It refused the request depending on the uninitialized index field of the
record to fill in; and records never set were returned as uninitialized
memory by ffdb_get_all_configs.
---
 filehash/ffdb_hash.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index ae9bd84..902550d 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1481,7 +1481,7 @@ ffdb_get_all_configs (const FFDB_DB* db, ffdb_all_config_info_t* configs)
   hashp = (ffdb_htab_t *)db->internal;
 
   configs->numconfigs = hashp->hdr.num_cfigs;
-  configs->allconfigs = (ffdb_config_info_t *)malloc(configs->numconfigs * sizeof(ffdb_config_info_t));
+  configs->allconfigs = (ffdb_config_info_t *)calloc(configs->numconfigs, sizeof(ffdb_config_info_t));
   if (!configs->allconfigs) {
     fprintf (stderr, "Cannot allocate memory space for all configurations.\n");
     errno = ENOMEM;
@@ -1528,13 +1528,6 @@ ffdb_get_config (const FFDB_DB* db, unsigned int confignum,
 
   hashp = (ffdb_htab_t *)db->internal;
 
-  if (config->index >= hashp->hdr.cfig_npages || config->index < 0) {
-    fprintf (stderr, "ffdb_set_config provides a wrong configuration index number %d ( shoud be less than %d) \n",
-	     config->index, hashp->hdr.cfig_npages);
-    errno = EINVAL;
-    return -1;
-  }
-
   return ffdb_get_config_info (hashp, confignum, config);
 }
 
-- 
2.43.0


From 7ba4a375f50315c2ed751699b095e5ca4e07bef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:17 +0000
Subject: [PATCH 11/35] fix: cursors past the end, on empty databases and after
 failures

A step after the end of a traversal dereferenced a null page; starting from
the last entry of an empty single-bucket database ran through buckets below
0; and the forward search on an empty database fetched a page after the last
bucket.
---
 filehash/ffdb_page.c | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 38843e1..1f3fc05 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2819,11 +2819,15 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
       return -1;
     }
     /* Skip empty buckets */
-    while (NUM_ENT(cursor->item.pagep) == 0 && 
-	   bucket <= hashp->hdr.max_bucket) {
+    while (NUM_ENT(cursor->item.pagep) == 0) {
       ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
       /* Get next bucket */
       cursor->item.pagep = 0;
+      if (bucket == hashp->hdr.max_bucket) {
+	/* empty database */
+	cursor->item.status = ITEM_NO_MORE;
+	return FFDB_NOT_FOUND;
+      }
       bucket++;
 
       cursor->item.pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
@@ -2835,13 +2839,6 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	return -1;
       }
     }
-    if (bucket > hashp->hdr.max_bucket) {
-      /* empty database */
-      ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
-      cursor->item.status = ITEM_NO_MORE;
-      cursor->item.pagep = 0;
-      return FFDB_NOT_FOUND;
-    }
     cursor->item.bucket = bucket;
     cursor->item.pgno = tp;
     cursor->item.pgndx = 0;
@@ -2866,6 +2863,11 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
       ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
       /* Get next bucket */
       cursor->item.pagep = 0;
+      if (bucket == 0) {
+	/* this is the last one and it is empty */
+	cursor->item.status = ITEM_NO_MORE;
+	return FFDB_NOT_FOUND;
+      }
       bucket--;
 
       cursor->item.pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
@@ -2876,13 +2878,6 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	cursor->item.status = ITEM_ERROR;
 	return -1;
       }
-      if (bucket == 0 && NUM_ENT(cursor->item.pagep) == 0) {
-	/* this is the last one and it is empty */
-	ffdb_put_page (hashp, cursor->item.pagep, TYPE(cursor->item.pagep), 0);
-	cursor->item.status = ITEM_NO_MORE;
-	cursor->item.pagep = 0;
-	return FFDB_NOT_FOUND;
-      }
     }
 
     cursor->item.pgno = tp;
@@ -2891,6 +2886,10 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
     cursor->item.status = ITEM_OK;
   }
   else if (flags == FFDB_NEXT) {
+    /* The traversal has ended already or has failed */
+    if (!cursor->item.pagep)
+      return (cursor->item.status == ITEM_NO_MORE) ? FFDB_NOT_FOUND : -1;
+
     /* We have reached the last data on the key page */
     if (cursor->item.pgndx == NUM_ENT(cursor->item.pagep) - 1) {
       /* Get next page (overplow page) */
@@ -2963,6 +2962,10 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
     }
   }
   else if (flags == FFDB_PREV) {
+    /* The traversal has ended already or has failed */
+    if (!cursor->item.pagep)
+      return (cursor->item.status == ITEM_NO_MORE) ? FFDB_NOT_FOUND : -1;
+
     /* We have reached the beginning of the key page */
     if (cursor->item.pgndx == 0) {
       /* Remember next page since we always go to the bucket page */
@@ -2981,7 +2984,12 @@ ffdb_cursor_find_by_key (ffdb_htab_t* hashp, ffdb_crs_t* cursor,
 	/* Get new page */
 	cursor->item.pagep = ffdb_get_page (hashp, cursor->item.bucket,
 					    HASH_BUCKET_PAGE, 0, &tp);
-
+	if (!(cursor->item.pagep)) {
+	  fprintf (stderr, "Cannot get page for bucket %d for cursor.\n",
+		   cursor->item.bucket);
+	  cursor->item.status = ITEM_ERROR;
+	  return -1;
+	}
 
 	/* Skip empty buckets */
 	while (NUM_ENT(cursor->item.pagep) == 0) {
-- 
2.43.0


From 81508d658f1247442dc9760c3211e6026453f662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:17 +0000
Subject: [PATCH 12/35] fix: refuse to set user information and configurations
 on read-only files

The calls reported success and changed the cached pages only.
---
 filehash/ffdb_hash.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 902550d..68d5406 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1460,6 +1460,12 @@ ffdb_set_all_configs (FFDB_DB* db, ffdb_all_config_info_t* configs)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* check file permission, if this is a read only file, cannot do it */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   /* Check whether configs have the same number of configs the database
    * thinks it should have
    */
@@ -1509,6 +1515,12 @@ ffdb_set_config (FFDB_DB* db, ffdb_config_info_t* config)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* check file permission, if this is a read only file, cannot do it */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   if ((unsigned int)config->index >= hashp->hdr.num_cfigs || config->index < 0) {
     fprintf (stderr, "ffdb_set_config provides a wrong configuration index number %d ( shoud be less than %d) \n",
 	     config->index, hashp->hdr.cfig_npages);
@@ -1541,6 +1553,12 @@ ffdb_set_user_info (FFDB_DB* db, unsigned char* data, unsigned int len)
 
   hashp = (ffdb_htab_t *)db->internal;
 
+  /* check file permission, if this is a read only file, cannot do it */
+  if ((hashp->flags & O_ACCMODE) == O_RDONLY) {
+    errno = EPERM;
+    return -1;
+  }
+
   if (len > hashp->hdr.uinfolen) {
     fprintf (stderr, "%d exceeds maximum allowed user data is %d\n", 
 	     len, hashp->hdr.uinfolen);
-- 
2.43.0


From d8be588d4f0bb9a2e007c0e82e53fe1b42319669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:17 +0000
Subject: [PATCH 13/35] fix: do not read past the end of the caller's data in
 multi-page stores

---
 filehash/ffdb_page.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 1f3fc05..b7a5a85 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -728,6 +728,8 @@ _ffdb_add_data (ffdb_htab_t *hashp, pgno_t key_page, pgno_t key_index,
 	FIRST_DATA_POS(currpagep) = 0; 
 	/* we copy most of the rest of page */
 	copylen = hashp->hdr.bsize - BIG_PAGE_OVERHEAD;
+	if (copylen > rlen)
+	  copylen = rlen;
       }
 
       /* where to start copy the data */
@@ -864,6 +866,8 @@ _ffdb_replace_data (ffdb_htab_t* hashp, const FFDB_DBT* val,
 	copylen = rlen;
       else 
 	copylen = hashp->hdr.bsize - BIG_PAGE_OVERHEAD;
+      if (copylen > rlen)
+	copylen = rlen;
 
       /* where to start copy the data */
       idx = val->size - rlen;
-- 
2.43.0


From 6fa7c9244657069fea2979700a717958d9a329fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:17 +0000
Subject: [PATCH 14/35] fix: replacing data larger than 4 GB by smaller data
 resets the high length bits

---
 filehash/ffdb_page.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index b7a5a85..dc43678 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -1741,8 +1741,10 @@ _ffdb_replace_item_on_page (ffdb_htab_t* hashp,
   }
 
   /* Change data pointer value */
-  if (hashp->hdr.version > FFDB_VERSION_5 && IS_HUGE_DATA(val->size)) {
-    /* insert ncessary length information to offset */
+  if (hashp->hdr.version > FFDB_VERSION_5) {
+    /* insert ncessary length information to offset: this clears the high
+     * bits of the length when huge data are replaced by smaller ones
+     */
     INSERT_LEN_TO_PGOFFSET(val->size, datap->offset);
     datap->len = (unsigned int)val->size;
     datap->chksum = item->data_chksum;
-- 
2.43.0


From c306eb92e151963af5bf2da9f72a9d35ee6343aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:17 +0000
Subject: [PATCH 15/35] fix: protect the queue of cursors of a handle by its
 lock

---
 filehash/ffdb_hash.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 68d5406..b57a8cc 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -1432,7 +1432,9 @@ _ffdb_hash_cursor (const FFDB_DB* dbp, ffdb_cursor_t** c, unsigned int type)
   inc->pcursor = nc;
   memset (&inc->item, 0, sizeof(ffdb_hent_t));  
   inc->item.status = ITEM_CLEAN;
+  FFDB_LOCK(inc->hashp->lock);
   FFDB_TAILQ_INSERT_TAIL(&(inc->hashp->curs_queue), inc, queue);
+  FFDB_UNLOCK(inc->hashp->lock);
 
   /* Set internal pointer */
   nc->internal = inc;
@@ -1639,14 +1641,16 @@ _ffdb_cursor_close (ffdb_cursor_t* cursor)
   ffdb_crs_t* inc = (ffdb_crs_t *)cursor->internal;
   ffdb_htab_t* hashp = inc->hashp;
 
-  FFDB_TAILQ_REMOVE(&(hashp->curs_queue), inc, queue);
-
   /* Check whether there is a page need to be released */
   if (inc->item.pagep) {
     ffdb_put_page (hashp, inc->item.pagep, TYPE(inc->item.pagep), 0);
     inc->item.pagep = 0;
   }
 
+  FFDB_LOCK(hashp->lock);
+  FFDB_TAILQ_REMOVE(&(hashp->curs_queue), inc, queue);
+  FFDB_UNLOCK(hashp->lock);
+
   FFDB_LOCK_FINI(inc->lock);
   /* Free all memory */
   free (inc);
-- 
2.43.0


From c8d210c66450e8a2b2075f20d3f0396555734cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:57 +0000
Subject: [PATCH 16/35] fix: sync and close report pages that could not be
 written

The result of flushing the page pool was ignored: sync and close returned
success although data had not reached the file.
---
 filehash/ffdb_hash.c     | 21 ++++++++++++++++-----
 filehash/ffdb_pagepool.c |  6 ++++--
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index b57a8cc..ff9de93 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -228,7 +228,10 @@ _ffdb_hput_header (ffdb_htab_t* hashp)
 
 
   /* write the header */
-  lseek(hashp->fp, 0, SEEK_SET);
+  if (lseek(hashp->fp, 0, SEEK_SET) != 0) {
+    fprintf(stderr, "hash: could not seek to hash header");
+    return -1;
+  }
   num_copied = write(hashp->fp, whdrp, sizeof(ffdb_hashhdr_t));
   if (num_copied != sizeof(ffdb_hashhdr_t)) {
     fprintf(stderr, "hash: could not write hash header");
@@ -300,13 +303,15 @@ _ffdb_hdestroy (ffdb_htab_t* hashp)
   /* flush meta information header to disk */
   if (_ffdb_flush_meta (hashp) != 0)
     if (save_errno == 0)
-      save_errno = errno;
+      save_errno = errno ? errno : EIO;
 
   /* close the pagepool */
 #ifdef _FFDB_STATISTICS
   ffdb_pagepool_stat (hashp->mp);
 #endif
-  ffdb_pagepool_sync (hashp->mp);
+  if (ffdb_pagepool_sync (hashp->mp) != 0)
+    if (save_errno == 0)
+      save_errno = errno ? errno : EIO;
   ffdb_pagepool_close (hashp->mp);
 
   /* Reduce file size if possible */
@@ -418,7 +423,10 @@ _ffdb_hget_header(ffdb_htab_t *hashp, unsigned int page_size)
    * XXX
    * This should not be printing to stderr on a "normal" error case.
    */
-  lseek(hashp->fp, 0, SEEK_SET);
+  if (lseek(hashp->fp, 0, SEEK_SET) != 0) {
+    fprintf(stderr, "Fatal error : hash could not seek to header");
+    return 0;
+  }
   num_copied = read(hashp->fp, hdr_dest, sizeof(ffdb_hashhdr_t));
   if (num_copied != sizeof(ffdb_hashhdr_t)) {
     fprintf(stderr, "Fatal error : hash could not retrieve header");
@@ -1394,7 +1402,10 @@ _ffdb_hash_sync (const FFDB_DB *dbp, unsigned int flags)
     return -1;
   }
 
-  ffdb_pagepool_sync (hashp->mp);
+  if (ffdb_pagepool_sync (hashp->mp) != 0) {
+    FFDB_UNLOCK(hashp->lock);
+    return -1;
+  }
 
   FFDB_UNLOCK(hashp->lock);
   return 0;
diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index a2becb2..075d526 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -1397,6 +1397,7 @@ ffdb_pagepool_change_page (ffdb_pagepool_t* pgp, void* mem,
 static int
 _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
 {
+  int ret = 0;
   unsigned int num;
   ffdb_bkt_t* bp;
   ffdb_sbkt_t* sbp;
@@ -1446,7 +1447,8 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
       if (_ffdb_pagepool_write (pgp, sbp->bp) != 0) {
 	fprintf (stderr, "ffdb_pagepool_sync: writing page %d error.\n",
 		 sbp->bp->pgno);
-	return -1;
+	/* the page stays dirty, carry on with the others */
+	ret = -1;
       }
     }
 #ifdef _FFDB_STATISTICS
@@ -1458,7 +1460,7 @@ _ffdb_pagepool_sync_i (ffdb_pagepool_t* pgp, unsigned int numpages)
     sbp = next;
   }
 
-  return 0;
+  return ret;
 }
 
 
-- 
2.43.0


From b6c0d7ab23325983234e6da6c90199f88e41e426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:28 +0000
Subject: [PATCH 17/35] fix: a failed page read is an error

A read error was taken for a successful read of whatever the buffer held,
and a short read returned errno, which may be 0.
---
 filehash/ffdb_pagepool.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 075d526..db62270 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -763,13 +763,20 @@ _ffdb_pagepool_load_new_page (ffdb_pagepool_t* pgp, pgno_t pageno,
    */
   off = (off_t)pgp->pagesize * (pageno);
   if (lseek (pgp->fd, off, SEEK_SET) != off) {
+    status = errno ? errno : EIO;
     fprintf (stderr, "ffdb_pagepool_load_new_page: cannot seek to a right position.\n");
-    return errno;
+    --pgp->curcache;
+    free (bp);
+    return status;
   }
+  errno = 0;
   nbytes = read (pgp->fd, bp->page, pgp->pagesize);
-  if ((unsigned int)nbytes != pgp->pagesize && nbytes > 0) {
+  if ((unsigned int)nbytes != pgp->pagesize && nbytes != 0) {
+    status = (nbytes < 0 && errno) ? errno : EIO;
     fprintf (stderr, "ffdb_pagepool_load_new_page: cannot read back end file\n");
-    return errno;
+    --pgp->curcache;
+    free (bp);
+    return status;
   }
   else if (nbytes == 0) 
     memset (bp->page, 0, pgp->pagesize);
-- 
2.43.0


From 79a8100f25d0d07ca84c96fb40448d0d9520f0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:28 +0000
Subject: [PATCH 18/35] fix: writing a page of a foreign byte order database
 keeps the cached page

The page was swapped to the byte order of the file in the cache itself and
stayed so; later accesses through the cache read garbage.
---
 filehash/ffdb_pagepool.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index db62270..2f3e5cb 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -265,24 +265,38 @@ _ffdb_pagepool_write(ffdb_pagepool_t* pgp,
   off_t offset;
   int nbytes;
   int ret = 0;
+  void *page;
 
 #ifdef _FFDB_STATISTICS
   ++pgp->pagewrite;
 #endif
 
-  /* Run through the user's filter. */
-  if (pgp->pgout)
-    (pgp->pgout)(pgp->pgcookie, bp->pgno, bp->page);
+  /* Run through the user's filter. The filter may change the byte order of
+   * the page, therefore it works on a copy: this page stays in the cache.
+   */
+  page = bp->page;
+  if (pgp->pgout) {
+    page = malloc (pgp->pagesize);
+    if (!page) {
+      fprintf (stderr, "Cannot allocate a buffer to write page %d\n", bp->pgno);
+      return -1;
+    }
+    memcpy (page, bp->page, pgp->pagesize);
+    (pgp->pgout)(pgp->pgcookie, bp->pgno, page);
+  }
 
   offset =  (off_t)pgp->pagesize * bp->pgno;
 
   if (lseek(pgp->fd, offset, SEEK_SET) != offset) 
     ret = -1;
   else {
-    if ((unsigned int)(nbytes = write(pgp->fd, bp->page, pgp->pagesize)) != pgp->pagesize) 
+    if ((unsigned int)(nbytes = write(pgp->fd, page, pgp->pagesize)) != pgp->pagesize) 
       ret = -1;
   }
 
+  if (page != bp->page)
+    free (page);
+
   if (ret == 0)
     FFDB_FLAG_CLR(bp->flags, FFDB_PAGE_DIRTY);
 
-- 
2.43.0


From 5810dbea3f1ab3508502636f532f4b2848032337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:28 +0000
Subject: [PATCH 19/35] fix: do not byte swap user data on the second and later
 user information pages

---
 filehash/ffdb_page.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index dc43678..2332a02 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -175,7 +175,9 @@ _ffdb_swap_page_metainfo_in (void *p)
       M_32_SWAP(FREE_PAGE(p, i));
     break;
   case HASH_UINFO_PAGE:
-    M_32_SWAP(USER_DATA_LEN(p));
+    /* only the first page has the length */
+    if (NUM_ENT(p) > 0)
+      M_32_SWAP(USER_DATA_LEN(p));
     break;
   case HASH_CONFIG_PAGE:
     for (i = 0; i < NUM_ENT(p); i++) 
@@ -352,7 +354,9 @@ _ffdb_swap_page_metainfo_out (void *p)
       M_32_SWAP(FREE_PAGE(p, i));
     break;
   case HASH_UINFO_PAGE:
-    M_32_SWAP(USER_DATA_LEN(p));
+    /* only the first page has the length */
+    if (num > 0)
+      M_32_SWAP(USER_DATA_LEN(p));
     break;
   case HASH_CONFIG_PAGE:
     for (i = 0; i < num; i++) 
-- 
2.43.0


From 52f27b4be92d036fb6be188503f448570aba8032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:28 +0000
Subject: [PATCH 20/35] fix: a page with a damaged signature is a damaged page,
 not an empty one

The keys on such a page were silently reported as not found. Verify the
checksum before byte swapping, too, so that a damaged foreign byte order page
is not walked with damaged counts and offsets.
---
 filehash/ffdb_page.c | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 2332a02..24db1c2 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -206,6 +206,17 @@ _ffdb_page_checksum (ffdb_htab_t* hashp, void* pagep)
   return chksum;
 }
 
+/**
+ * Check whether a page has never been written: every byte of it is zero
+ */
+static int
+_ffdb_page_is_clean (ffdb_htab_t* hashp, const void* pagep)
+{
+  const unsigned char* p = (const unsigned char *)pagep;
+
+  return p[0] == 0 && memcmp (p, p + 1, hashp->hdr.bsize - 1) == 0;
+}
+
 /**
  * Initialize a new page
  */
@@ -258,21 +269,19 @@ ffdb_pgin_routine (void* arg, pgno_t pgno, void* page)
   ffdb_htab_t* hashp;
   unsigned int chksum = 0;
 
+  unsigned int stored, sign;
+
   hashp = (ffdb_htab_t *)arg;
 
   /* calculate checksum before byte swapped */
   chksum = _ffdb_page_checksum (hashp, page);
 
-#if 0
-  /* First swap the header to disk */
-  if (hashp->mborder == LITTLE_ENDIAN) 
-    _ffdb_swap_page_metainfo_in (page);
-#endif
-
-#if 1
-  if (hashp->hdr.lorder != hashp->mborder)
-    _ffdb_swap_page_metainfo_in (page);  
-#endif
+  stored = CHKSUM(page);
+  sign = PAGE_SIGN(page);
+  if (hashp->hdr.lorder != hashp->mborder) {
+    M_32_SWAP(stored);
+    M_32_SWAP(sign);
+  }
 
 #ifdef _FFDB_DEBUG
   fprintf (stderr, "Read page %d in at memory %p\n", pgno, page);
@@ -281,16 +290,18 @@ ffdb_pgin_routine (void* arg, pgno_t pgno, void* page)
   fprintf (stderr, "Page TYPE 0x%x OFFSET %d\n", TYPE(page), OFFSET(page));
 #endif  
   
-  if (PAGE_SIGN(page) != FFDB_PAGE_MAGIC) {
+  if (sign != FFDB_PAGE_MAGIC && _ffdb_page_is_clean (hashp, page)) {
     /* This is a unintialized page */
     _ffdb_init_page (hashp, page, pgno, HASH_DELETED_PAGE);
   }
   else {
-    if (chksum != CHKSUM(page)) {
-      /* The check sum chould 0 because this page is empty page */
-      fprintf (stderr, "Reading page %d checksum mismatch 0x%x (new) != 0x%x (on disk)\n", pgno, chksum, CHKSUM(page));
+    if (sign != FFDB_PAGE_MAGIC || chksum != stored) {
+      fprintf (stderr, "Reading page %d checksum mismatch 0x%x (new) != 0x%x (on disk)\n", pgno, chksum, stored);
       exit (123);
     }
+    /* the content of the page can be trusted from here on */
+    if (hashp->hdr.lorder != hashp->mborder)
+      _ffdb_swap_page_metainfo_in (page);
   }
 }
 
-- 
2.43.0


From 4a283a6a600c62d41b635cf0a8895eeee6a89356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:28 +0000
Subject: [PATCH 21/35] fix: I/O failures while adding an entry or splitting a
 bucket are not ignored

A failed store returned success (and linked an empty overflow page), pages
stayed pinned, and a failed split silently dropped the entries it had not
distributed yet.
---
 filehash/ffdb_page.c | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 24db1c2..1253539 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -716,6 +716,7 @@ _ffdb_add_data (ffdb_htab_t *hashp, pgno_t key_page, pgno_t key_index,
       currpagep = ffdb_get_page (hashp, currp, HASH_DATA_PAGE,FFDB_CREATE, &tp);
       if (!currpagep) {
 	fprintf (stderr, "Cannot allocate data page at %d\n", currp);
+	ffdb_put_page (hashp, cpagep, HASH_DATA_PAGE, 1);
 	return -1;
       }
       if (reuse)
@@ -873,6 +874,7 @@ _ffdb_replace_data (ffdb_htab_t* hashp, const FFDB_DBT* val,
       if (!currpagep) {
 	fprintf (stderr, "Cannot allocate page %d to overwrite data\n",
 		 currp);
+	ffdb_put_page (hashp, mem, TYPE(mem), 1);
 	return -1;
       }
 
@@ -1843,10 +1845,6 @@ int ffdb_add_ovflpage (ffdb_htab_t* hashp,
   hash_overflows++;
 #endif
   
-  /* Set up page link */
-  NEXT_PGNO(item->pagep) = ovflpage;
-  PREV_PGNO(opagep) = item->pgno;
-
   /* Add this pair to the new page */
   status = _ffdb_add_item_on_page (hashp, opagep, ovflpage,
 				   key, val, item->data_chksum);
@@ -1856,10 +1854,14 @@ int ffdb_add_ovflpage (ffdb_htab_t* hashp,
     ffdb_put_page (hashp, item->pagep, HASH_BUCKET_PAGE, 0);
   }
   else {
+    /* Set up page link */
+    NEXT_PGNO(item->pagep) = ovflpage;
+    PREV_PGNO(opagep) = item->pgno;
+
     ffdb_put_page (hashp, opagep, HASH_OVFL_PAGE, 1);
     ffdb_put_page (hashp, item->pagep, HASH_BUCKET_PAGE, 1);
   }
-  return 0;
+  return status;
 }
 
 /**
@@ -1930,6 +1932,7 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
   pgno_t page, ovflpage, nextpage, tp;
   void *pagep, *opagep, *npagep;
   int needovfl, reuse;
+  int status = 0;
 
   /* First grab a page related to this bucket */
   npagep = pagep = ffdb_get_page (hashp, bucket, HASH_BUCKET_PAGE, 
@@ -1945,7 +1948,7 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
     /* check whether this pair should fit on this page */
     /* the following macro does not care the data part */
     if (PAIRFITS (npagep, key, dumb)) {
-      _ffdb_write_key_datap_to_page (hashp, key, datap, pagep, page);
+      status = _ffdb_write_key_datap_to_page (hashp, key, datap, pagep, page);
       needovfl = 0;
       /* release this page */
       ffdb_put_page (hashp, pagep, HASH_BUCKET_PAGE, 1);
@@ -2010,12 +2013,12 @@ _ffdb_add_key_datap_to_bucket (ffdb_htab_t* hashp, FFDB_DBT* key,
     ffdb_put_page (hashp, pagep, TYPE(pagep), 1); 
 
     /* add key and data pointer to this page */
-    _ffdb_write_key_datap_to_page (hashp, key, datap, opagep, ovflpage);
+    status = _ffdb_write_key_datap_to_page (hashp, key, datap, opagep, ovflpage);
 
     /* release this page */
     ffdb_put_page (hashp, opagep, HASH_OVFL_PAGE, 1);
   }
-  return 0;
+  return status;
 }
 
 /**
@@ -2034,6 +2037,7 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
   unsigned char *kdata = 0;
   ffdb_datap_t* datap = 0;
   int base_page = 1;
+  unsigned int bucket;
 
   /* This page may not be in memory or in use so FFDB_CREATE flag has to be 
    * used
@@ -2064,9 +2068,15 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
       /* Now we need to put this key and data pointer pair */
       if (_ffdb_call_hash (hashp, key.data, key.size) == oldbucket) 
 	/* this stays with old page without changing data pointer value */
-	_ffdb_add_key_datap_to_bucket (hashp, &key, datap, oldbucket);
+	bucket = oldbucket;
       else 
-	_ffdb_add_key_datap_to_bucket (hashp, &key, datap, newbucket);
+	bucket = newbucket;
+
+      if (_ffdb_add_key_datap_to_bucket (hashp, &key, datap, bucket) != 0) {
+	/* the entries not distributed yet would be lost */
+	fprintf (stderr, "Fatal error: cannot split bucket %d\n", oldbucket);
+	abort ();
+      }
     }
     
     /* get next page number */
@@ -2078,8 +2088,14 @@ ffdb_split_bucket (ffdb_htab_t* hashp, unsigned int oldbucket,
     else  /* free overflow page */ 
       ffdb_delete_page (hashp, temp_pagep, HASH_OVFL_PAGE, isdoubling);
     
-    if (nextpage != INVALID_PGNO) 
+    if (nextpage != INVALID_PGNO) {
       temp_pagep = ffdb_get_page (hashp, nextpage, HASH_OVFL_PAGE, 0, &tp);
+      if (!temp_pagep) {
+	/* the entries not distributed yet would be lost */
+	fprintf (stderr, "Fatal error: cannot split bucket %d\n", oldbucket);
+	abort ();
+      }
+    }
     else
       break;
   }
-- 
2.43.0


From fb84d21a4ac90f5262b8e358055bfc0a2547e378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:52 +0000
Subject: [PATCH 22/35] fix: failures of opening and of rearranging pages are
 reported

Open crashed when the user information could not be read; moving pages at
open or close and truncating the file ignored failures and left a corrupt
file behind a successful result. A read-only handle does not truncate.
---
 filehash/ffdb_hash.c | 45 ++++++++++++++++++++++++++------
 filehash/ffdb_hash.h |  2 +-
 filehash/ffdb_page.c | 61 ++++++++++++++++++++++++++------------------
 3 files changed, 74 insertions(+), 34 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index ff9de93..1a2515d 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -268,8 +268,10 @@ _ffdb_hdestroy (ffdb_htab_t* hashp)
 {
   int save_errno = 0;
 
-  if (hashp->rearrange_pages && hashp->save_file)
-    ffdb_rearrage_pages_on_close (hashp);
+  if (hashp->rearrange_pages && hashp->save_file) {
+    if (ffdb_rearrage_pages_on_close (hashp) != 0)
+      save_errno = errno ? errno : EIO;
+  }
 
 #ifdef _FFDB_STATISTICS
   { 
@@ -315,8 +317,11 @@ _ffdb_hdestroy (ffdb_htab_t* hashp)
   ffdb_pagepool_close (hashp->mp);
 
   /* Reduce file size if possible */
-  if (hashp->rearrange_pages)
-    ffdb_reduce_filesize (hashp);
+  if (hashp->rearrange_pages && hashp->save_file) {
+    if (ffdb_reduce_filesize (hashp) != 0)
+      if (save_errno == 0)
+	save_errno = errno ? errno : EIO;
+  }
 
   if (hashp->fp != -1)
     close (hashp->fp);
@@ -484,6 +489,8 @@ _ffdb_read_user_info (ffdb_htab_t *hashp)
   for (i = 0; i < npages; i++) {
     mem = ffdb_get_page (hashp, start + i, HASH_UINFO_PAGE,
 			 flags, &tpage);
+    if (!mem)
+      return -1;
     ffdb_put_page (hashp, mem, HASH_UINFO_PAGE, dirty);
   }
   return 0;
@@ -516,6 +523,8 @@ _ffdb_read_config_info (ffdb_htab_t *hashp)
   for (i = 0; i < npages; i++) {
     mem = ffdb_get_page (hashp, start + i, HASH_CONFIG_PAGE,
 			 flags, &tpage);
+    if (!mem)
+      return -1;
     ffdb_put_page (hashp, mem, HASH_CONFIG_PAGE, dirty);
   }
   return 0;
@@ -886,8 +895,18 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
 
 
   /* always read in user information page and configuration page */
-  _ffdb_read_user_info (hashp);
-  _ffdb_read_config_info (hashp);
+  if (_ffdb_read_user_info (hashp) != 0 || 
+      _ffdb_read_config_info (hashp) != 0) {
+    fprintf (stderr, "Cannot read user information or configurations of %s\n",
+	     fname);
+    ffdb_pagepool_close (hashp->mp);
+    close (hashp->fp);
+    free (hashp->fname);
+    free (hashp->split_buf);
+    free (hashp);
+    errno = EIO;
+    return 0;
+  }
 
   if (!(dbp = (FFDB_DB *)malloc(sizeof(FFDB_DB)))) {
     ffdb_pagepool_close (hashp->mp);
@@ -950,8 +969,18 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
   /* Check whether I need to move data pages back to original places if
    * new insert is expected or some pages was moved previously
    */
-  if (!new_table && hashp->save_file && (hashp->rearrange_pages || hashp->hdr.num_moved_pages > 0)) 
-    ffdb_rearrage_pages_on_open (hashp);
+  if (!new_table && hashp->save_file && (hashp->rearrange_pages || hashp->hdr.num_moved_pages > 0)) {
+    if (ffdb_rearrage_pages_on_open (hashp) != 0) {
+      ffdb_pagepool_close (hashp->mp);
+      close (hashp->fp);
+      free (hashp->fname);
+      free (hashp->split_buf);
+      free (hashp);
+      free (dbp);
+      errno = EIO;
+      return 0;
+    }
+  }
 
 
   /* Find out current data page which is the last data page we are using */
diff --git a/filehash/ffdb_hash.h b/filehash/ffdb_hash.h
index 73d1603..2b32d7d 100644
--- a/filehash/ffdb_hash.h
+++ b/filehash/ffdb_hash.h
@@ -432,7 +432,7 @@ extern int ffdb_rearrage_pages_on_open (ffdb_htab_t* hashp);
  *
  * @param hashp the pointer to hash table
  */
-extern void ffdb_reduce_filesize (ffdb_htab_t* hashp);
+extern int ffdb_reduce_filesize (ffdb_htab_t* hashp);
 
 
 /**
diff --git a/filehash/ffdb_page.c b/filehash/ffdb_page.c
index 1253539..78aeee9 100644
--- a/filehash/ffdb_page.c
+++ b/filehash/ffdb_page.c
@@ -2275,13 +2275,15 @@ static void _ffdb_remove_pages (ffdb_htab_t* hashp,
  * @param newfirst first page of new pages to move into
  * @param newlast last page of new pages to move into
  *
- * @return last page number on the linked list after successful move. 
- * If there is no data pages being moved, INVALID_PGNO is returned
+ * @param lastp last page number on the linked list after successful move. 
+ * If there is no data pages being moved, it is INVALID_PGNO
+ *
+ * @return 0 on success, -1 when some pages could not be moved
  */
-static pgno_t
+static int
 _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 		  pgno_t oldfirst, pgno_t oldlast,
-		  pgno_t newfirst, pgno_t newlast)
+		  pgno_t newfirst, pgno_t newlast, pgno_t* lastp)
 {
   pgno_t dlast, page, rpage, tp;
   pgno_t prevp, nextp;
@@ -2300,7 +2302,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
     if (!pagep) {
       fprintf (stderr, "Cannot grab old page %d to move to new page %d.\n",
 	       page, rpage);
-      return dlast;
+      return -1;
     }
 
     if (TYPE(pagep) != type) {
@@ -2323,7 +2325,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 	if (!nextpagep) {
 	  fprintf (stderr, "Cannot get next page %d not in the moving list for page %d\n", nextp, page);
 	  ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
-	  return dlast;
+	  return -1;
 	}
 
 	PREV_PGNO(nextpagep) = rpage;
@@ -2352,7 +2354,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 	if (!prevpagep) {
 	  fprintf (stderr, "Cannot get previous page %d not in the moving list for page %d\n", prevp, page);
 	  ffdb_put_page (hashp, pagep, TYPE(pagep), 0);
-	  return dlast;
+	  return -1;
 	}
 
 	NEXT_PGNO(prevpagep) = rpage;
@@ -2380,7 +2382,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 					  newfirst, newlast) != 0) {
 	/* Release this page and update page number */
 	ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
-	return dlast;
+	return -1;
       }
 #ifdef _FFDB_DEBUG
       fprintf (stderr, "Update primary page for data page %d %d page = %d page sign = 0x%x\n", page, rpage, CURR_PGNO(pagep), PAGE_SIGN(pagep));
@@ -2396,7 +2398,7 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
 					   newfirst, newlast) != 0) {
 	/* Release this page and update page number */
 	ffdb_put_page (hashp, pagep, HASH_DATA_PAGE, 0);
-	return dlast;
+	return -1;
       }
 #ifdef _FFDB_DEBUG
       fprintf (stderr, "Update data page for primary page %d %d page = %d page sign = 0x%x\n", page, rpage, CURR_PGNO(pagep), PAGE_SIGN(pagep));
@@ -2412,7 +2414,8 @@ _ffdb_move_pages (ffdb_htab_t* hashp, unsigned short type,
     page++;    
   }
     
-  return dlast;
+  *lastp = dlast;
+  return 0;
 }
 
 /**
@@ -2423,7 +2426,7 @@ int
 ffdb_rearrage_pages_on_close (ffdb_htab_t* hashp)
 {
   pgno_t funused, lunused;
-  pgno_t dlast, dfirst;
+  pgno_t dlast, dfirst, tp;
   unsigned int num_unused, num_pages;
   unsigned int num_page_moved;
 
@@ -2471,15 +2474,18 @@ ffdb_rearrage_pages_on_close (ffdb_htab_t* hashp)
 #endif
 
   /* move data pages first */
-  _ffdb_move_pages (hashp, HASH_DATA_PAGE, dfirst, dlast,
-		    funused, lunused);
+  if (_ffdb_move_pages (hashp, HASH_DATA_PAGE, dfirst, dlast,
+			funused, lunused, &tp) != 0)
+    return -1;
 
   /* move overflow page next */
-  _ffdb_move_pages (hashp, HASH_BUCKET_PAGE, dfirst, dlast,
-		    funused, lunused);
+  if (_ffdb_move_pages (hashp, HASH_BUCKET_PAGE, dfirst, dlast,
+			funused, lunused, &tp) != 0)
+    return -1;
 
-  _ffdb_move_pages (hashp, HASH_FREE_PAGE, dfirst, dlast,
-		    funused, lunused);
+  if (_ffdb_move_pages (hashp, HASH_FREE_PAGE, dfirst, dlast,
+			funused, lunused, &tp) != 0)
+    return -1;
 
   hashp->hdr.num_moved_pages = num_page_moved;
 
@@ -2495,7 +2501,7 @@ int
 ffdb_rearrage_pages_on_open (ffdb_htab_t* hashp)
 {
   pgno_t oldfirst, oldlast, newfirst, newlast;
-  pgno_t lastdpage;
+  pgno_t lastdpage, tp;
   unsigned int num_page_moved;
 
   /* Check whether any pages has been moved when the database is closed */
@@ -2527,15 +2533,18 @@ ffdb_rearrage_pages_on_open (ffdb_htab_t* hashp)
 
 
   /* Move data pages first */
-  lastdpage = _ffdb_move_pages (hashp, HASH_DATA_PAGE, oldfirst, oldlast,
-				newfirst, newlast);
+  if (_ffdb_move_pages (hashp, HASH_DATA_PAGE, oldfirst, oldlast,
+			newfirst, newlast, &lastdpage) != 0)
+    return -1;
 
   /* move overflow page next */
-  _ffdb_move_pages (hashp, HASH_BUCKET_PAGE, oldfirst, oldlast,
-		    newfirst, newlast);
+  if (_ffdb_move_pages (hashp, HASH_BUCKET_PAGE, oldfirst, oldlast,
+			newfirst, newlast, &tp) != 0)
+    return -1;
   
-  _ffdb_move_pages (hashp, HASH_FREE_PAGE, oldfirst, oldlast,
-		    newfirst, newlast);
+  if (_ffdb_move_pages (hashp, HASH_FREE_PAGE, oldfirst, oldlast,
+			newfirst, newlast, &tp) != 0)
+    return -1;
 
   /* If there are no data pages moved, unlikely but possible */
   if (lastdpage == INVALID_PGNO) 
@@ -2553,7 +2562,7 @@ ffdb_rearrage_pages_on_open (ffdb_htab_t* hashp)
 }
 
 
-void 
+int 
 ffdb_reduce_filesize (ffdb_htab_t* hashp)
 {
   pgno_t last;
@@ -2572,8 +2581,10 @@ ffdb_reduce_filesize (ffdb_htab_t* hashp)
     if (ftruncate (hashp->fp, length) != 0) {
       fprintf (stderr, "Cannot truncate database %s to length %ld\n",
 	       hashp->fname, length);
+      return -1;
     }
   }
+  return 0;
 }
 
 /**
-- 
2.43.0


From e025bf0806a6109f04b544b3920698dabb5af27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:56 +0000
Subject: [PATCH 23/35] fix: merging makes progress when one element exceeds
 the memory limit

---
 src/ConfDataDBMerger.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ConfDataDBMerger.h b/src/ConfDataDBMerger.h
index 416c877..d935757 100644
--- a/src/ConfDataDBMerger.h
+++ b/src/ConfDataDBMerger.h
@@ -248,14 +248,20 @@ namespace FILEDB
 			    unsigned int max_memory,
 			    unsigned int& cachesize)
     {
-      int chunk;
+      unsigned int chunk;
 
       // calculate size for one key and its data for all configuration
-      unsigned int asize = (key.length() + data.length()) * numconfs;
+      std::size_t asize = (key.length() + data.length()) * numconfs;
+      if (asize == 0)
+	asize = 1;
 
       // number of elements each iteration to use
       chunk = max_memory/asize > numelems ? numelems : max_memory/asize;
 
+      // at least one element is needed even when it exceeds the memory limit
+      if (chunk == 0)
+	chunk = 1;
+
       // calculate cachesize for each single database
       cachesize = chunk * (key.length() + data.length());
       
-- 
2.43.0


From d08e45767d63f06b29c322b8df6352cc6ece130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:56 +0000
Subject: [PATCH 24/35] fix: merging configurations without a database keeps
 the others in place

---
 src/ConfDataDBMerger.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ConfDataDBMerger.h b/src/ConfDataDBMerger.h
index d935757..cf13dbf 100644
--- a/src/ConfDataDBMerger.h
+++ b/src/ConfDataDBMerger.h
@@ -116,9 +116,11 @@ namespace FILEDB
 #if 0
 	std::cerr << "Element " << i << std::endl;
 #endif
+	// configurations without a database have an item of zeros so that
+	// the items of the others stay at their index
 	std::vector< std::string > thr;
 	
-	thr.resize (numconfigs);
+	thr.resize (numconfigs, std::string (data[i].size(), '\0'));
 
 	if (bag.find (keys[i])  != bag.end()) {
 	  std::cerr << "Cannot be right, this key should not be here" 
@@ -330,6 +332,8 @@ namespace FILEDB
 	  info.type (0);
 	  if ((*site) != "N/A")
 	    info.urlname (*site);
+	  else
+	    info.urlname ("");
 	  configs_.push_back (info);
 	  
 	  site++;
-- 
2.43.0


From fc1030b667666ffb007322b2657a39fcd38b92f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:56 +0000
Subject: [PATCH 25/35] fix: store the type and a terminated name of a
 configuration

---
 src/AllConfStoreDB.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index f82db84..b62d1c8 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -170,9 +170,11 @@ namespace FILEDB
       for (std::size_t i = 0; i < names.size(); i++) {
 	if (names[i] == "N/A")
 	  allcfgs_->allconfigs[i].fname[0] = '\0';
-	else
+	else {
 	  strncpy (allcfgs_->allconfigs[i].fname, names[i].c_str(), 
-		   _FFDB_MAX_FNAME);
+		   _FFDB_MAX_FNAME - 1);
+	  allcfgs_->allconfigs[i].fname[_FFDB_MAX_FNAME - 1] = '\0';
+	}
       }
     }
       
@@ -729,8 +731,10 @@ namespace FILEDB
       info.config = config.configNumber();
       info.index = config.index();
       info.inserted = config.inserted ();
+      info.type = config.type ();
       info.mtime = config.modifiedTime();
-      strncpy (info.fname, config.urlname().c_str(), _FFDB_MAX_FNAME);
+      strncpy (info.fname, config.urlname().c_str(), _FFDB_MAX_FNAME - 1);
+      info.fname[_FFDB_MAX_FNAME - 1] = '\0';
 
       return ffdb_set_config (this->db->dbh_, &info);
     }
@@ -785,6 +789,7 @@ namespace FILEDB
 	  configs.push_back (cf);
 	}
       }
+      free (allcfigs.allconfigs);
       return stat;
     }
 
-- 
2.43.0


From 4253459353e038ce368c0e78ccd640189b3e3968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:23 +0000
Subject: [PATCH 26/35] fix: creation options beyond what the format can hold
 are refused

---
 filehash/ffdb_hash.c | 13 +++++++++++--
 filehash/ffdb_hash.h |  1 +
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/filehash/ffdb_hash.c b/filehash/ffdb_hash.c
index 1a2515d..6a5dbd4 100644
--- a/filehash/ffdb_hash.c
+++ b/filehash/ffdb_hash.c
@@ -381,6 +381,10 @@ _ffdb_init_hash(ffdb_htab_t* hashp, const char* file,
   hashp->hdr.bshift = __ffdb_log2(hashp->hdr.bsize);
 	
   if (info) {
+    if (info->bsize > MAX_BSIZE || info->nbuckets > FFDB_MAX_NBUCKETS) {
+      errno = EINVAL;
+      return errno;
+    }
     if (info->bsize) {
       /* Round pagesize up to power of 2 */
       hashp->hdr.bshift = __ffdb_log2(info->bsize);
@@ -584,6 +588,9 @@ _ffdb_init_htab (ffdb_htab_t* hashp, int nb, FFDB_HASHINFO* info)
   else
     hashp->hdr.uinfolen = FFDB_DEFAULT_UINFO_LEN;
   uinfosize = hashp->hdr.uinfolen + sizeof(unsigned int);
+  if (uinfosize < hashp->hdr.uinfolen ||
+      uinfosize/(hashp->hdr.bsize - PAGE_OVERHEAD) >= 0xFFFE)
+    return EINVAL;
 
   /* This is user information */
   hashp->hdr.uinfo_page = pg;
@@ -604,6 +611,8 @@ _ffdb_init_htab (ffdb_htab_t* hashp, int nb, FFDB_HASHINFO* info)
 
   /* total number of configuration size */
   nhdr_pages += (_ffdb_num_config_info_pages (hashp, hashp->hdr.num_cfigs));
+  if (nhdr_pages - pg > 0xFFFF)
+    return EINVAL;
   hashp->hdr.cfig_npages = nhdr_pages - pg;
 
   /* Assign the number of header pages */
@@ -855,12 +864,12 @@ __ffdb_hash_open (const char* fname, int flags, int mode, const void* arg)
    * For a new table, set up the appropriate hashtable information
    */
   if (new_table) {
-    if (_ffdb_init_htab(hashp, info && info->nbuckets ? info->nbuckets : 1, info) != 0) {
+    if ((ret = _ffdb_init_htab(hashp, info && info->nbuckets ? info->nbuckets : 1, info)) != 0) {
       fprintf (stderr, "Cannot initialize hash header information.\n");
       ffdb_pagepool_close (hashp->mp);
       close (hashp->fp);
       free (hashp);
-      errno = ENOMEM;
+      errno = ret;
       return 0;
     }
   }
diff --git a/filehash/ffdb_hash.h b/filehash/ffdb_hash.h
index 2b32d7d..a3ed2f6 100644
--- a/filehash/ffdb_hash.h
+++ b/filehash/ffdb_hash.h
@@ -179,6 +179,7 @@ struct _ffdb_crs_
 #define	MAX_BSIZE		262144		/* 2^18 */
 #endif
 #define	MAX_BSIZE		1048576		/* 2^20 */
+#define	FFDB_MAX_NBUCKETS	0x40000000	/* 2^30 */
 
 #define MIN_BUFFERS		6
 #define MINHDRSIZE		512
-- 
2.43.0


From fd41cb2b05d5e0d6f4609e1c2461e2ff95af4d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:09 +0000
Subject: [PATCH 27/35] fix: VFloatData stores the exact values of its floats

The values were converted to integers, which lost fractions, and their
swapped bytes to floats again, which lost precision and overflowed.
---
 src/VFloatData.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/VFloatData.cpp b/src/VFloatData.cpp
index 0fd00ee..a24fa2b 100644
--- a/src/VFloatData.cpp
+++ b/src/VFloatData.cpp
@@ -32,6 +32,7 @@
  *
  */
 #include <stdlib.h>
+#include <cstring>
 #include <sstream>
 #include "VFloatData.h"
 
@@ -123,18 +124,21 @@ namespace FILEDB
   void 
   VFloatData::writeObject (std::string& output) const noexcept (false)
   {
-    float* vcfbuf;
+    unsigned int* vcfbuf;
     unsigned short id;
-    unsigned short pad;
+    unsigned short pad = 0;
     unsigned int   num;
 
     num = hton_int(data_.size ());
     id = hton_short(serialID());
-    vcfbuf = new float[data_.size()];
+    vcfbuf = new unsigned int[data_.size()];
 
-    // assign complex data values to the array
-    for (std::size_t i = 0; i < data_.size(); i++) 
-      vcfbuf[i] = hton_int((int)data_[i]);
+    // assign the bits of the data values to the array
+    for (std::size_t i = 0; i < data_.size(); i++) {
+      unsigned int bits;
+      ::memcpy (&bits, &data_[i], sizeof(float));
+      vcfbuf[i] = hton_int(bits);
+    }
 
     // output stream
     ostringstream ostrm;
@@ -167,12 +171,15 @@ namespace FILEDB
   void 
   VFloatData::readObject (const std::string& input)  noexcept (false)
   {
-    float* vcfbuf;
+    unsigned int* vcfbuf;
     unsigned short id;
     unsigned int   num;
     unsigned int hlen = 2 * sizeof(unsigned short) + sizeof(unsigned int);
     unsigned int idlen = sizeof(unsigned short);
     
+    if (input.length() < hlen)
+      throw SerializeException ("VFloatData", "Serial Binary Data Size error");
+
     const char* buf = input.data();
     ::memcpy (&id, buf, idlen);
     ::memcpy (&num, &buf[2*idlen], sizeof(unsigned int));
@@ -187,15 +194,17 @@ namespace FILEDB
       throw SerializeException ("VFloatData", "Serial Binary Data Size error");
 
     // copy all float values
-    vcfbuf = new float[num];
+    vcfbuf = new unsigned int[num];
     ::memcpy (vcfbuf, &buf[hlen], input.length() - hlen);
 
     // resize this vector
     data_.resize(num);
 
     // assign vector elements
-    for (unsigned int i = 0; i < num; i++) 
-      data_[i] = ntoh_int((int)vcfbuf[i]);
+    for (unsigned int i = 0; i < num; i++) {
+      unsigned int bits = ntoh_int(vcfbuf[i]);
+      ::memcpy (&data_[i], &bits, sizeof(float));
+    }
 
     delete []vcfbuf;
   }
-- 
2.43.0


From 7a8580766cd1d8f92eca665dc68cc80202c59597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:09 +0000
Subject: [PATCH 28/35] fix: updating a key of a fresh ensemble keeps its other
 configurations

Until updateDone every update inserted a default-filled vector, also for
keys that were already stored.
---
 src/AllConfStoreDB.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index b62d1c8..be85195 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -537,7 +537,7 @@ namespace FILEDB
       (void)config;
       int ret = 0;
 
-      if (empty_) {
+      if (empty_ && !this->exist (key)) {
 	std::vector < D > thr;
 	thr.resize (nbin_);
 	thr[index] = v;
-- 
2.43.0


From a5e6c66a52d0019cab51ec9fd3085c2cd73d716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:09 +0000
Subject: [PATCH 29/35] fix: opening an existing ensemble releases the
 configurations it replaces

---
 src/AllConfStoreDB.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index be85195..2794c00 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -207,6 +207,9 @@ namespace FILEDB
       }
       else {
 	// update configuration information
+	if (allcfgs_->numconfigs > 0)
+	  free (allcfgs_->allconfigs);
+	allcfgs_->numconfigs = 0;
 	ffdb_get_all_configs (this->db->dbh_, &*allcfgs_);
 	nbin_ = allcfgs_->numconfigs;
 	if (nbin_ == 0) {
-- 
2.43.0


From bb6d76245d55a55d431ea7cc4f47cf3e949d1cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:09 +0000
Subject: [PATCH 30/35] fix: asking a closed store for a key answers no

---
 src/ConfDataStoreDB.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ConfDataStoreDB.h b/src/ConfDataStoreDB.h
index a89ef45..941f2c9 100644
--- a/src/ConfDataStoreDB.h
+++ b/src/ConfDataStoreDB.h
@@ -419,6 +419,9 @@ namespace FILEDB
      */
     virtual bool exist(const K& key)
     {
+      if (!db->dbh_)
+        return false;
+
       int ret;
 
       try {
-- 
2.43.0


From b3a50637d8d2bb98709657c6f814aab52b2c408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:41 +0000
Subject: [PATCH 31/35] fix: a listing that meets an undecodable key closes its
 cursor

---
 src/DBFunc.cpp | 14 +++++++---
 src/DBFunc.h   | 70 ++++++++++++++++++++++++++++++--------------------
 2 files changed, 52 insertions(+), 32 deletions(-)

diff --git a/src/DBFunc.cpp b/src/DBFunc.cpp
index 3a717f0..bd60e01 100644
--- a/src/DBFunc.cpp
+++ b/src/DBFunc.cpp
@@ -81,7 +81,7 @@ namespace FILEDB
     noexcept (false)
   {
     FFDB_DBT  dbkey, dbdata;
-    ffdb_cursor_t* crp;
+    ffdb_cursor_t* crp = 0;
     int  ret;
     
     try {
@@ -111,7 +111,10 @@ namespace FILEDB
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc binaryAllKeys", "Cursor Next Error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      // do not leave the cursor behind
+      if (crp)
+	crp->close(crp);
       throw;
     }
     
@@ -126,7 +129,7 @@ namespace FILEDB
     noexcept (false)
   {
     FFDB_DBT  dbkey, dbdata;
-    ffdb_cursor_t* crp;
+    ffdb_cursor_t* crp = 0;
     int  ret;
     
     try {
@@ -163,7 +166,10 @@ namespace FILEDB
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc binaryAllPairs", "Cursor Next Error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      // do not leave the cursor behind
+      if (crp)
+	crp->close(crp);
       throw;
     }
     
diff --git a/src/DBFunc.h b/src/DBFunc.h
index 56f797e..3027071 100644
--- a/src/DBFunc.h
+++ b/src/DBFunc.h
@@ -303,9 +303,9 @@ namespace FILEDB
 	// convert object into a string
 	std::string dataObj;
 	dataObj.assign((char*)dbdata.data, dbdata.size);
-	data.readObject (dataObj);
 	// I have to use free since I use malloc in c code
 	free(dbdata.data);
+	data.readObject (dataObj);
       }
       catch (SerializeException& e) {
 	ret = -1;
@@ -372,7 +372,7 @@ namespace FILEDB
     noexcept (false)
   {
     FFDB_DBT  dbkey;
-    ffdb_cursor_t *crp;
+    ffdb_cursor_t *crp = 0;
     K    arg;
     int  ret;
     
@@ -389,23 +389,27 @@ namespace FILEDB
 	// convert into key object
 	std::string keyObj;
 	keyObj.assign((char*)dbkey.data, dbkey.size);
-	arg.readObject (keyObj);
-
-	// put this new key into the vector
-	keys.push_back (arg);
 
 	// free memory
 	free (dbkey.data);
 
 	dbkey.data = 0;
 	dbkey.size = 0;
+
+	arg.readObject (keyObj);
+
+	// put this new key into the vector
+	keys.push_back (arg);
       }
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc AllKeys", "Cursor next error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      // do not leave the cursor behind
+      if (crp)
+	crp->close(crp);
       throw;
-    } 
+    }
     
     // close cursor
     if (crp)
@@ -423,7 +427,7 @@ namespace FILEDB
 		bool only_one = false) noexcept(false)
   {
     FFDB_DBT  dbkey, dbdata;
-    ffdb_cursor_t* crp;
+    ffdb_cursor_t* crp = 0;
     K    arg;
     D    d;
     int  ret;
@@ -441,11 +445,17 @@ namespace FILEDB
 	// convert into key object
 	std::string keyObj;
 	keyObj.assign((char*)dbkey.data, dbkey.size);
+	std::string dataObj;
+	dataObj.assign((char*)dbdata.data, dbdata.size);
+
+	// free memory
+	free (dbkey.data); free (dbdata.data);
+	dbkey.data = dbdata.data = 0;
+	dbkey.size = dbdata.size = 0;
+
 	arg.readObject (keyObj);
 
 	// convert into data object
-	std::string dataObj;
-	dataObj.assign((char*)dbdata.data, dbdata.size);
 	d.readObject (dataObj);
 
 	// put this new key into the vector
@@ -454,11 +464,6 @@ namespace FILEDB
 	// put this data into the other vector
 	data.push_back (d);
 
-	// free memory
-	free (dbkey.data); free (dbdata.data);
-	dbkey.data = dbdata.data = 0;
-	dbkey.size = dbdata.size = 0;
-
 	if (only_one)
 	{
 	  ret = FFDB_NOT_FOUND;
@@ -468,7 +473,10 @@ namespace FILEDB
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc AllPairs", "Cursor Next Error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      // do not leave the cursor behind
+      if (crp)
+	crp->close(crp);
       throw;
     }
     
@@ -486,7 +494,7 @@ namespace FILEDB
     noexcept (false)
   {
     FFDB_DBT  dbkey, dbdata;
-    ffdb_cursor_t* crp;
+    ffdb_cursor_t* crp = 0;
     D    d;
     int  ret;
     
@@ -501,10 +509,15 @@ namespace FILEDB
       dbkey.size = dbdata.size = 0;
       while ((ret = crp->get (crp, &dbkey, &dbdata, FFDB_NEXT)) == 0) {
 	std::string keyObj((char*)dbkey.data, dbkey.size);
-
-	// convert into data object
 	std::string dataObj;
 	dataObj.assign((char*)dbdata.data, dbdata.size);
+
+	// free memory
+	free (dbkey.data); free (dbdata.data);
+	dbkey.data = dbdata.data = 0;
+	dbkey.size = dbdata.size = 0;
+
+	// convert into data object
 	d.readObject (dataObj);
 
 	// put this new key into the vector
@@ -512,16 +525,14 @@ namespace FILEDB
 	
 	// put this data into the other vector
 	data.push_back (d);
-
-	// free memory
-	free (dbkey.data); free (dbdata.data);
-	dbkey.data = dbdata.data = 0;
-	dbkey.size = dbdata.size = 0;
       }
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc AllPairs", "Cursor Next Error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      // do not leave the cursor behind
+      if (crp)
+	crp->close(crp);
       throw;
     }
     
@@ -539,7 +550,7 @@ namespace FILEDB
     noexcept (false)
   {
     FFDB_DBT dbkey, dbdata;
-    ffdb_cursor_t* crp;
+    ffdb_cursor_t* crp = 0;
     K    arg;
     int  ret;
     
@@ -563,7 +574,10 @@ namespace FILEDB
       if (ret != FFDB_NOT_FOUND) 
 	throw FileHashDBException ("DBFunc isDatabaseEmpty", "cursor first error");
     }
-    catch (SerializeException& e) {
+    catch (...) {
+      // do not leave the cursor behind
+      if (crp)
+	crp->close(crp);
       throw;
     }
     
-- 
2.43.0


From 3542e7d6cfdf5bd638db505e98e435e5e2ec59e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:17 +0000
Subject: [PATCH 32/35] fix: a merge reports a key it cannot store

---
 src/ConfDataDBMerger.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ConfDataDBMerger.h b/src/ConfDataDBMerger.h
index cf13dbf..84660fa 100644
--- a/src/ConfDataDBMerger.h
+++ b/src/ConfDataDBMerger.h
@@ -222,7 +222,11 @@ namespace FILEDB
 	// make compiler happy
 	std::string tkey((*ite).first);
 
-	dbh_->insertBinaryData (tkey, (*ite).second);
+	if (dbh_->insertBinaryData (tkey, (*ite).second) != 0) {
+	  std::cerr << __FILE__ << " cannot store a key of " << tkey.length()
+		    << " bytes in the merged database" << std::endl;
+	  ::exit (143);
+	}
       }
     }
 
-- 
2.43.0


From b30f4688415f98f3cb5841bb5a5539984dfcb3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:07 +0000
Subject: [PATCH 33/35] fix: a new page of the pool gets a number above every
 page in use

ffdb_pagepool_new_page without FFDB_PAGE_REQUEST (and get with
FFDB_PAGE_NEW) hands out maxpgno + 1, but maxpgno was not raised when a
page beyond it was loaded or a page was renumbered, so the number of a
page already in use could be handed out again: two buffers for one page.
---
 filehash/ffdb_pagepool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filehash/ffdb_pagepool.c b/filehash/ffdb_pagepool.c
index 2f3e5cb..b0e4bd3 100644
--- a/filehash/ffdb_pagepool.c
+++ b/filehash/ffdb_pagepool.c
@@ -801,6 +801,8 @@ _ffdb_pagepool_load_new_page (ffdb_pagepool_t* pgp, pgno_t pageno,
 
   /* Set page number */
   bp->pgno = pageno;
+  if (bp->pgno > pgp->maxpgno)
+    pgp->maxpgno = bp->pgno;
   bp->owner = FFDB_THREAD_ID;
   bp->ref = 1;
   bp->waiters = 0;
@@ -1401,6 +1403,8 @@ ffdb_pagepool_change_page (ffdb_pagepool_t* pgp, void* mem,
     fprintf (stderr, "reset number of pages = %d\n", pgp->npages);
 #endif
   }
+  if (newpagenum > pgp->maxpgno)
+    pgp->maxpgno = newpagenum;
 
   /**
    * Clean out old disk content
-- 
2.43.0


From 4f8ba207e607c7ccae99c76090392aaa32883119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:04 +0000
Subject: [PATCH 34/35] fix: updating an ensemble refuses an index outside its
 configurations

---
 src/AllConfStoreDB.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/AllConfStoreDB.h b/src/AllConfStoreDB.h
index 2794c00..c96ec75 100644
--- a/src/AllConfStoreDB.h
+++ b/src/AllConfStoreDB.h
@@ -540,6 +540,11 @@ namespace FILEDB
       (void)config;
       int ret = 0;
 
+      if (index < 0 || index >= nbin_) {
+	std::cerr << "Update index " << index << " is not inside the " << nbin_ << " configurations" << std::endl;
+	return -1;
+      }
+
       if (empty_ && !this->exist (key)) {
 	std::vector < D > thr;
 	thr.resize (nbin_);
-- 
2.43.0


From 6a7b5174aaa5d7d2fdd7655857c4f303a6fb8c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:28 +0000
Subject: [PATCH 35/35] fix: asking a union whether its files are there works
 before it is opened

---
 src/AllConfStoreMultipleDB.h  | 4 ++--
 src/ConfDataStoreMultipleDB.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/AllConfStoreMultipleDB.h b/src/AllConfStoreMultipleDB.h
index af1f74d..e3f4ecd 100644
--- a/src/AllConfStoreMultipleDB.h
+++ b/src/AllConfStoreMultipleDB.h
@@ -101,9 +101,9 @@ namespace FILEDB
     virtual bool fileExists (const std::vector<std::string>& files) const
     {
       int ret = true;
-      for(int i=0; i < dbs_.size(); ++i)
+      for(std::size_t i=0; i < files.size(); ++i)
       {
-	ret = dbs_[i].fileExists(files[i]);
+	ret = FILEDB::fileExists(files[i]);
 	if (! ret)
 	  return ret;
       }
diff --git a/src/ConfDataStoreMultipleDB.h b/src/ConfDataStoreMultipleDB.h
index 9ef3bb5..261f32e 100644
--- a/src/ConfDataStoreMultipleDB.h
+++ b/src/ConfDataStoreMultipleDB.h
@@ -115,9 +115,9 @@ namespace FILEDB
     virtual bool fileExists (const std::vector<std::string>& files) const
     {
       int ret = false;
-      for(int i=0; i < dbs_.size(); ++i)
+      for(std::size_t i=0; i < files.size(); ++i)
       {
-	ret = dbs_[i].fileExists(files[i]);
+	ret = FILEDB::fileExists(files[i]);
 	if (! ret)
 	  return ret;
       }
-- 
2.43.0

