From 6995f02578c49cfd247e0de971ea4b0e6a2e91ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:10 +0000
Subject: [PATCH 01/66] fix: read the length of strings over 64k from the right
 words

A string longer than 64k is stored as a null entry carrying the high word
of the length in its reference count, followed by the real entry.  The
loader took the high word from the reference count of the second entry,
read past the pool when the first entry is the last one, and compared
offset and length with an addition that can wrap around.
---
 libmsi/string.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index 0b20c0b..0427666 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -533,7 +533,13 @@ string_table *msi_load_string_table( GsfInfile *stg, unsigned *bytes_per_strref
          */
         if (GUINT16_FROM_LE(pool[i*2]) == 0)
         {
-            len = (GUINT16_FROM_LE(pool[i*2+3]) << 16) + GUINT16_FROM_LE(pool[i*2+2]);
+            if (i + 1 >= count)
+            {
+                g_critical("string table corrupt?\n");
+                break;
+            }
+            len = (refs << 16) + GUINT16_FROM_LE(pool[i*2+2]);
+            refs = GUINT16_FROM_LE(pool[i*2+3]);
             i += 2;
         }
         else
@@ -542,7 +548,7 @@ string_table *msi_load_string_table( GsfInfile *stg, unsigned *bytes_per_strref
             i += 1;
         }
 
-        if ( (offset + len) > datasize )
+        if ( len > datasize - offset )
         {
             g_critical("string table corrupt?\n");
             break;
-- 
2.43.0


From 42752c11fda11e253b24b73e5a6e68e410ed59b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:43 +0000
Subject: [PATCH 02/66] fix: fail to save a string the database codepage cannot
 represent

Committing such a string copied from the NULL pointer that the failed
conversion returns.
---
 libmsi/string.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index 0427666..015c75b 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -387,8 +387,14 @@ static unsigned _libmsi_string_id( const string_table *st, unsigned id, char *bu
     cpconv = gsf_msole_iconv_open_codepage_for_export(codepage);
     str = g_convert_with_iconv(str_utf8, -1, cpconv, NULL, &len, NULL);
     g_iconv_close(cpconv);
+    if( !str )
+    {
+        g_warning("string %d cannot be represented in codepage %d\n", id, codepage);
+        return LIBMSI_RESULT_INVALID_DATA;
+    }
     if( *sz < len )
     {
+        msi_free(str);
         *sz = len;
         return LIBMSI_RESULT_MORE_DATA;
     }
@@ -457,7 +463,9 @@ static void string_totalsize( const string_table *st, unsigned *datasize, unsign
             cpconv = gsf_msole_iconv_open_codepage_for_export(codepage);
             str = g_convert_with_iconv( st->strings[i].str, -1, cpconv, NULL, &len, NULL);
             g_iconv_close(cpconv);
-	    msi_free(str);
+            if (!str)
+                len = 0;
+            msi_free(str);
             (*datasize) += len;
             if (len>0xffff)
                 (*poolsize) += 4;
@@ -629,6 +637,8 @@ unsigned msi_save_string_table( const string_table *st, LibmsiDatabase *db, unsi
 
         sz = datasize - used;
         r = _libmsi_string_id( st, n, data+used, &sz );
+        if( r == LIBMSI_RESULT_INVALID_DATA )
+            goto err;
         if( r != LIBMSI_RESULT_SUCCESS )
         {
             g_critical("failed to fetch string\n");
-- 
2.43.0


From c858566a08fe022b850340cab3440a3e807931cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:57 +0000
Subject: [PATCH 03/66] fix: DELETE removes every matching row

Rows are renumbered as they are deleted, so deleting in ascending order
skipped rows and deleted others that did not match.
---
 libmsi/delete.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libmsi/delete.c b/libmsi/delete.c
index 3a3623c..7f8251e 100644
--- a/libmsi/delete.c
+++ b/libmsi/delete.c
@@ -85,9 +85,10 @@ static unsigned delete_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     TRACE("deleting %d rows\n", rows);
 
-    /* blank out all the rows that match */
-    for ( i=0; i<rows; i++ )
-        dv->table->ops->delete_row( dv->table, i );
+    /* blank out all the rows that match, last one first as deleting
+     * a row renumbers the rows after it */
+    for ( i=rows; i>0; i-- )
+        dv->table->ops->delete_row( dv->table, i-1 );
 
     return LIBMSI_RESULT_SUCCESS;
 }
-- 
2.43.0


From 0d6121cf4142d7b7a7d736a6e5ea78863166aec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:46 +0000
Subject: [PATCH 04/66] fix: match UPDATE parameters with literal assignments

An assigned column takes a field of the parameter record only when it is
given as ?; counting the others as well made the WHERE clause read the
wrong fields, or none.
---
 libmsi/update.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmsi/update.c b/libmsi/update.c
index 95effb4..60985ba 100644
--- a/libmsi/update.c
+++ b/libmsi/update.c
@@ -64,11 +64,13 @@ static unsigned update_view_execute( LibmsiView *view, LibmsiRecord *record )
     {
         r = libmsi_record_get_field_count(record);
 
+        /* only the assigned columns given as ? take a field */
         for (i = 0; col; col = col->next)
-            i++;
+            if (col->val && col->val->type == EXPR_WILDCARD)
+                i++;
 
         cols_count = i;
-        where_count = r - i;
+        where_count = r > i ? r - i : 0;
 
         if (where_count > 0)
         {
-- 
2.43.0


From 58b1a1b04cf23680043667d312a753ea154e3646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:46 +0000
Subject: [PATCH 05/66] fix: an INSERT that fails leaves no row behind

When a value cannot be stored the new row stayed in the table, with the
values set so far.
---
 libmsi/table.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 5e0a6f8..e0eacf4 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1601,6 +1601,8 @@ static int compare_record( LibmsiTableView *tv, unsigned row, LibmsiRecord *rec
     return 1;
 }
 
+static unsigned table_view_delete_row( LibmsiView *view, unsigned row );
+
 static int find_insert_index( LibmsiTableView *tv, LibmsiRecord *rec )
 {
     int idx, c, low = 0, high = tv->table->row_count - 1;
@@ -1656,7 +1658,11 @@ static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsi
 
     /* Re-set the persistence flag */
     tv->table->data_persistent[row] = !temporary;
-    return table_view_set_row( view, row, rec, (1<<tv->num_cols) - 1 );
+    r = table_view_set_row( view, row, rec, (1<<tv->num_cols) - 1 );
+    if( r != LIBMSI_RESULT_SUCCESS )
+        table_view_delete_row( view, row );
+
+    return r;
 }
 
 static unsigned table_view_delete_row( LibmsiView *view, unsigned row )
-- 
2.43.0


From 4dcef244538e23e605a950933264e61f264c6699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:51 +0000
Subject: [PATCH 06/66] fix: refuse -32768 in a 16-bit column

It is stored as 0, which reads back as a null value.
---
 libmsi/table.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index e0eacf4..9d206f6 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1293,7 +1293,8 @@ static unsigned get_table_value_from_record( LibmsiTableView *tv, LibmsiRecord *
     else if ( bytes_per_column( tv->db, &columninfo, LONG_STR_BYTES ) == 2 )
     {
         *pvalue = 0x8000 + libmsi_record_get_int( rec, iField );
-        if ( *pvalue & 0xffff0000 )
+        /* 0 stands for a null value */
+        if ( !*pvalue || *pvalue & 0xffff0000 )
         {
             g_critical("field %u value %d out of range\n", iField, *pvalue - 0x8000);
             return LIBMSI_RESULT_FUNCTION_FAILED;
-- 
2.43.0


From 784736dc90cba295b21e36f7d42b926f5587b1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:53 +0000
Subject: [PATCH 07/66] fix: report through GError why a database cannot be
 opened

---
 libmsi/libmsi-database.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index e0c68cc..425d4e0 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2577,8 +2577,12 @@ init (LibmsiDatabase *self, GError **error)
     if (self->flags & LIBMSI_DB_FLAGS_CREATE) {
         self->strings = msi_init_string_table (&self->bytes_per_strref);
     } else {
-        if (_libmsi_database_open(self))
+        ret = _libmsi_database_open (self);
+        if (ret) {
+            g_set_error (error, LIBMSI_RESULT_ERROR, ret,
+                         "failed to open %s", self->path);
             return FALSE;
+        }
     }
 
     self->media_transform_offset = MSI_INITIAL_MEDIA_TRANSFORM_OFFSET;
@@ -2588,6 +2592,9 @@ init (LibmsiDatabase *self, GError **error)
         enum_stream_names (self->infile);
 
     ret = _libmsi_database_start_transaction (self);
+    if (ret)
+        g_set_error (error, LIBMSI_RESULT_ERROR, ret,
+                     "failed to open %s for writing", self->outpath);
 
     return !ret;
 }
-- 
2.43.0


From 3291073b56705ae2c9cf1a3cccacec028e86db4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:39 +0000
Subject: [PATCH 08/66] fix: do not free the columns of a table that has none
 loaded

---
 libmsi/table.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 9d206f6..5bfb8b1 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -541,14 +541,14 @@ static unsigned table_get_column_info( LibmsiDatabase *db, const char *name, Lib
     unsigned r, column_count = 0;
     LibmsiColumnInfo *columns;
 
+    *pcount = 0;
+
     /* get the number of columns in this table */
     column_count = 0;
     r = get_tablecolumns( db, name, NULL, &column_count );
     if (r != LIBMSI_RESULT_SUCCESS)
         return r;
 
-    *pcount = column_count;
-
     /* if there's no columns, there's no table */
     if (!column_count)
         return LIBMSI_RESULT_INVALID_PARAMETER;
@@ -566,6 +566,7 @@ static unsigned table_get_column_info( LibmsiDatabase *db, const char *name, Lib
         return LIBMSI_RESULT_FUNCTION_FAILED;
     }
     *pcols = columns;
+    *pcount = column_count;
     return r;
 }
 
-- 
2.43.0


From 5d81db1349393e5e37bf8a09c9e7eadd977a102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:39 +0000
Subject: [PATCH 09/66] fix: libmsi_database_get_primary_keys returns NULL when
 it fails

---
 libmsi/libmsi-database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 425d4e0..76bada2 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2515,7 +2515,7 @@ libmsi_database_get_primary_keys (LibmsiDatabase *db,
                                   const char *table,
                                   GError **error)
 {
-    LibmsiRecord *rec;
+    LibmsiRecord *rec = NULL;
     unsigned r;
 
     TRACE("%p %s\n", db, debugstr_a(table));
-- 
2.43.0


From ec3e22d9d663671fc79b3f053ff35be1775d70b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:26 +0000
Subject: [PATCH 10/66] fix: sort by every column of ORDER BY

---
 libmsi/where.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/libmsi/where.c b/libmsi/where.c
index f0a3082..dca41d2 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -959,9 +959,7 @@ static unsigned where_view_sort(LibmsiView *view, column_info *columns)
 
     orderinfo->col_count = count;
 
-    column = columns;
-
-    for (i = 0; i < count; i++)
+    for (i = 0, column = columns; i < count; i++, column = column->next)
     {
         orderinfo->columns[i].unparsed.column = column->column;
         orderinfo->columns[i].unparsed.table = column->table;
-- 
2.43.0


From 48d101a9408ccddcf561b159120bbf0812bdfb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:18 +0000
Subject: [PATCH 11/66] fix: take the parameter of a string comparison with a
 table not yet joined

---
 libmsi/where.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/libmsi/where.c b/libmsi/where.c
index dca41d2..431db0c 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -512,15 +512,14 @@ static unsigned expr_eval_strcmp( LibmsiWhereView *wv, const unsigned rows[], co
 {
     int sr;
     const char *l_str, *r_str;
-    unsigned r;
+    unsigned rl, rr;
 
     *val = true;
-    r = expr_eval_string(wv, rows, expr->left, record, &l_str);
-    if (r == LIBMSI_RESULT_CONTINUE)
-        return r;
-    r = expr_eval_string(wv, rows, expr->right, record, &r_str);
-    if (r == LIBMSI_RESULT_CONTINUE)
-        return r;
+    /* evaluate both sides, so that each wildcard takes its parameter */
+    rl = expr_eval_string(wv, rows, expr->left, record, &l_str);
+    rr = expr_eval_string(wv, rows, expr->right, record, &r_str);
+    if (rl == LIBMSI_RESULT_CONTINUE || rr == LIBMSI_RESULT_CONTINUE)
+        return LIBMSI_RESULT_CONTINUE;
 
     if( l_str == r_str ||
         ((!l_str || !*l_str) && (!r_str || !*r_str)) )
-- 
2.43.0


From 5f39277e9010a699ed34a3333c4678b81a7a0a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 12/66] fix: keep empty storages inside a storage

---
 libmsi/libmsi-database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 76bada2..2c568c1 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2296,7 +2296,7 @@ static int gsf_infile_copy(GsfInfile *inf, GsfOutfile *outf)
         const char *name = gsf_infile_name_by_index(inf, i);
         GsfInput *child = gsf_infile_child_by_index(inf, i);
         GsfInfile *childf = GSF_IS_INFILE (child) ? GSF_INFILE (child) : NULL;
-        gboolean is_dir = childf && gsf_infile_num_children (childf) > 0;
+        gboolean is_dir = childf && gsf_infile_num_children (childf) >= 0;
         GsfOutput *dest = gsf_outfile_new_child(outf, name, is_dir);
         gboolean ok;
 
-- 
2.43.0


From 8de01eb78e84ef1930aa560268c07438d2392a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 13/66] fix: refuse a row of _Streams or _Storages without name
 or usable content

---
 libmsi/libmsi-database.c |  2 +-
 libmsi/storages.c        | 16 +++++++++++++---
 libmsi/streams.c         |  6 ++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 2c568c1..6459066 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -248,7 +248,7 @@ unsigned msi_create_storage( LibmsiDatabase *db, const char *stname, GsfInput *s
     LibmsiStorage *storage;
     GsfInfile *origstg = NULL;
     bool found = false;
-    unsigned r;
+    unsigned r = LIBMSI_RESULT_FUNCTION_FAILED;
 
     if (db->flags & LIBMSI_DB_FLAGS_READONLY)
         return LIBMSI_RESULT_ACCESS_DENIED;
diff --git a/libmsi/storages.c b/libmsi/storages.c
index 3914305..00e6184 100644
--- a/libmsi/storages.c
+++ b/libmsi/storages.c
@@ -49,8 +49,9 @@ static bool storages_set_table_size(LibmsiStorageView *sv, unsigned size)
 {
     if (size >= sv->max_storages)
     {
+        sv->storages = msi_realloc_zero(sv->storages, sv->max_storages * sizeof(STORAGE *),
+                                        sv->max_storages * 2 * sizeof(STORAGE *));
         sv->max_storages *= 2;
-        sv->storages = msi_realloc(sv->storages, sv->max_storages * sizeof(STORAGE *));
         if (!sv->storages)
             return false;
     }
@@ -135,7 +136,13 @@ static unsigned storages_view_set_row(LibmsiView *view, unsigned row, LibmsiReco
         storage = sv->storages[row];
         name = strdup(msi_string_lookup_id(sv->db->strings, storage->str_index));
     } else {
-        name = strdup(_libmsi_record_get_string_raw(rec, 1));
+        const char *newname = _libmsi_record_get_string_raw(rec, 1);
+        if (!newname)
+        {
+            r = LIBMSI_RESULT_INVALID_PARAMETER;
+            goto done;
+        }
+        name = strdup(newname);
     }
     if (!name)
     {
@@ -143,7 +150,10 @@ static unsigned storages_view_set_row(LibmsiView *view, unsigned row, LibmsiReco
         goto done;
     }
 
-    msi_create_storage(sv->db, name, stm);
+    r = msi_create_storage(sv->db, name, stm);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        goto done;
+
     storage = create_storage(sv, name);
     if (!storage)
         r = LIBMSI_RESULT_FUNCTION_FAILED;
diff --git a/libmsi/streams.c b/libmsi/streams.c
index 025e53c..3862a8e 100644
--- a/libmsi/streams.c
+++ b/libmsi/streams.c
@@ -150,12 +150,14 @@ static unsigned streams_view_set_row(LibmsiView *view, unsigned row, LibmsiRecor
         stream = sv->streams[row];
         name = strdup(msi_string_lookup_id(sv->db->strings, stream->str_index));
     } else {
-        name = strdup(_libmsi_record_get_string_raw(rec, 1));
-        if (!name)
+        const char *newname = _libmsi_record_get_string_raw(rec, 1);
+        if (!newname)
         {
             g_warning("failed to retrieve stream name\n");
+            r = LIBMSI_RESULT_INVALID_PARAMETER;
             goto done;
         }
+        name = strdup(newname);
 
         stream = create_stream(sv, name, false, stm);
     }
-- 
2.43.0


From 10d517c9bf32665f1b6d42c1dd1797b03397057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 14/66] fix: save every persistent row next to temporary ones

save_table stopped at the first temporary row, dropping the persistent
rows after it, and sized its buffer for a single row.
---
 libmsi/table.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 5bfb8b1..4b44ecd 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -872,7 +872,7 @@ err:
 static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned bytes_per_strref )
 {
     uint8_t *rawdata = NULL;
-    unsigned rawsize, i, j, row_size, row_count;
+    unsigned rawsize, i, j, row, row_size, row_count;
     unsigned r = LIBMSI_RESULT_FUNCTION_FAILED;
 
     /* Nothing to do for non-persistent tables */
@@ -889,14 +889,11 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
     TRACE("Saving %s\n", debugstr_a( t->name ) );
 
     row_size = msi_table_get_row_size( db, t->colinfo, t->col_count, bytes_per_strref );
-    row_count = t->row_count;
+    row_count = 0;
     for (i = 0; i < t->row_count; i++)
     {
-        if (!t->data_persistent[i])
-        {
-            row_count = 1; /* yes, this is bizarre */
-            break;
-        }
+        if (t->data_persistent[i])
+            row_count++;
     }
     rawsize = row_count * row_size;
     rawdata = msi_alloc_zero( rawsize );
@@ -906,12 +903,13 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
         goto err;
     }
 
-    rawsize = 0;
+    row = 0;
     for (i = 0; i < t->row_count; i++)
     {
         unsigned ofs = 0, ofs_mem = 0;
 
-        if (!t->data_persistent[i]) break;
+        if (!t->data_persistent[i])
+            continue;
 
         for (j = 0; j < t->col_count; j++)
         {
@@ -935,12 +933,12 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
             }
             for (k = 0; k < n; k++)
             {
-                rawdata[ofs * row_count + i * n + k] = t->data[i][ofs_mem + k];
+                rawdata[ofs * row_count + row * n + k] = t->data[i][ofs_mem + k];
             }
             ofs_mem += m;
             ofs += n;
         }
-        rawsize += row_size;
+        row++;
     }
 
     TRACE("writing %d bytes\n", rawsize);
-- 
2.43.0


From d9c97c68896b3d82cecfef07eebb2cda67bd5437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 15/66] fix: count every use of a string, and do not let the
 count wrap

A row that reuses a string only known from temporary rows lost it on
commit, and the 65536th use of a string dropped it.
---
 libmsi/msipriv.h |  1 +
 libmsi/string.c  | 26 ++++++++++++++++++--------
 libmsi/table.c   |  3 +++
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/libmsi/msipriv.h b/libmsi/msipriv.h
index 086dd55..a9ab42b 100644
--- a/libmsi/msipriv.h
+++ b/libmsi/msipriv.h
@@ -344,6 +344,7 @@ enum StringPersistence
 };
 
 extern int _libmsi_add_string( string_table *st, const char *data, int len, uint16_t refcount, enum StringPersistence persistence );
+extern void msi_string_add_ref( string_table *st, unsigned id, uint16_t refcount, enum StringPersistence persistence );
 extern unsigned _libmsi_id_from_string_utf8( const string_table *st, const char *buffer, unsigned *id );
 extern void msi_destroy_stringtable( string_table *st );
 extern const char *msi_string_lookup_id( const string_table *st, unsigned id );
diff --git a/libmsi/string.c b/libmsi/string.c
index 015c75b..08e27c6 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -221,6 +221,22 @@ static void set_st_entry( string_table *st, unsigned n, char *str, uint16_t refc
         st->freeslot = n + 1;
 }
 
+/* a count that does not fit stays at its maximum, so that the string is kept */
+void msi_string_add_ref( string_table *st, unsigned id, uint16_t refcount, enum StringPersistence persistence )
+{
+    uint16_t *count;
+
+    if( !id || id >= st->maxcount )
+        return;
+
+    if (persistence == StringPersistent)
+        count = &st->strings[id].persistent_refcount;
+    else
+        count = &st->strings[id].nonpersistent_refcount;
+
+    *count = MIN( *count + refcount, 0xffff );
+}
+
 static unsigned _libmsi_id_from_string( const string_table *st, const char *buffer, unsigned *id )
 {
     size_t sz;
@@ -271,10 +287,7 @@ static int msi_addstring( string_table *st, unsigned n, const char *data, int le
     {
         if( LIBMSI_RESULT_SUCCESS == _libmsi_id_from_string( st, data, &n ) )
         {
-            if (persistence == StringPersistent)
-                st->strings[n].persistent_refcount += refcount;
-            else
-                st->strings[n].nonpersistent_refcount += refcount;
+            msi_string_add_ref( st, n, refcount, persistence );
             return n;
         }
         n = st_find_free_entry( st );
@@ -315,10 +328,7 @@ int _libmsi_add_string( string_table *st, const char *data, int len, uint16_t re
 
     if( _libmsi_id_from_string_utf8( st, data, &n ) == LIBMSI_RESULT_SUCCESS )
     {
-        if (persistence == StringPersistent)
-            st->strings[n].persistent_refcount += refcount;
-        else
-            st->strings[n].nonpersistent_refcount += refcount;
+        msi_string_add_ref( st, n, refcount, persistence );
         return n;
     }
 
diff --git a/libmsi/table.c b/libmsi/table.c
index 4b44ecd..e998dfd 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1377,6 +1377,8 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
                     table_view_fetch_int(&tv->view, row, i + 1, &x);
                     if (val == x)
                         continue;
+                    msi_string_add_ref( tv->db->strings, val, 1,
+                      persistent ? StringPersistent : StringNonPersistent );
                 }
             }
             else
@@ -1655,6 +1657,7 @@ static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsi
                 &(tv->table->data[i - 1][0]), tv->row_size);
         tv->table->data_persistent[i] = tv->table->data_persistent[i - 1];
     }
+    memset(tv->table->data[row], 0, tv->row_size);
 
     /* Re-set the persistence flag */
     tv->table->data_persistent[row] = !temporary;
-- 
2.43.0


From cb7e0f6cbcfaff2d42a6f93c54e7fcb6a4703b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 16/66] fix: DROP TABLE removes a temporary table

---
 libmsi/table.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index e998dfd..da68180 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1939,7 +1939,9 @@ static unsigned table_view_drop(LibmsiView *view)
 
     TRACE("dropping table %s\n", debugstr_a(tv->name));
 
-    for (i = tv->table->col_count - 1; i >= 0; i--)
+    /* the columns of a temporary table are not in _Columns */
+    for (i = tv->table->col_count - 1;
+         i >= 0 && tv->table->persistent != LIBMSI_CONDITION_FALSE; i--)
     {
         r = table_view_remove_column(view, tv->table->colinfo[i].tablename,
                                 tv->table->colinfo[i].number);
-- 
2.43.0


From 138b69d4d404c1f0f12f7a7c52faa19217e4eabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 17/66] fix: split SQL text with blank or empty statements

Whitespace before a statement was executed as a statement of its own, and
a text without any statement crashed.
---
 tools/sqldelim.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/tools/sqldelim.c b/tools/sqldelim.c
index ed2e2b1..c538d8a 100644
--- a/tools/sqldelim.c
+++ b/tools/sqldelim.c
@@ -221,6 +221,17 @@ int sql_get_statement(const char *start,
             done = true;
             p++;
         } else {
+            if (!str.len) {
+                /* Whitespace before a statement is not part of it.  */
+                while (isspace((uint8_t) *p)) p++;
+                if (!*p) {
+                    break;
+                }
+                if (*p == ';') {
+                    continue;
+                }
+                start = p;
+            }
             done = sql_skip_token(&p, &cont);
             g_string_append_len(&str, start, p - start);
         }
@@ -228,12 +239,12 @@ int sql_get_statement(const char *start,
         if (done) {
 stmt:
             cont = false;
-            stmt = g_strndup(str.str, str.len);
-            g_string_erase(&str, 0, str.len);
-            if (stmt[0]) {
+            if (str.len) {
+                stmt = g_strndup(str.str, str.len);
+                g_string_erase(&str, 0, str.len);
                 ret = fn(stmt, opaque);
+                free(stmt);
             }
-            free(stmt);
             if (ret) {
                 return ret;
             }
-- 
2.43.0


From 5020cd61cff24e124ea96f0149584d64c91a961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 18/66] fix: msibuild -s takes only its own arguments

It dropped the argument after them.
---
 tools/msibuild.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/msibuild.c b/tools/msibuild.c
index ef7c875..99fb382 100644
--- a/tools/msibuild.c
+++ b/tools/msibuild.c
@@ -298,7 +298,7 @@ int main(int argc, char *argv[])
                                   n > 3 ? argv[3] : NULL,
                                   n > 4 ? argv[4] : NULL, &error))
                 goto end;
-            argc -= n + 1, argv += n + 1;
+            argc -= n, argv += n;
             break;
         case 'i':
             do {
-- 
2.43.0


From 7cd2773dbc3e6d081364074da15fe247f0afdd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 19/66] fix: msibuild ends on an unknown option or an
 incomplete -a

It repeated the message forever.
---
 tools/msibuild.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/msibuild.c b/tools/msibuild.c
index 99fb382..e9ae922 100644
--- a/tools/msibuild.c
+++ b/tools/msibuild.c
@@ -323,7 +323,10 @@ int main(int argc, char *argv[])
             argc--, argv++;
             break;
         case 'a':
-            if (argc < 3) break;
+            if (argc < 3) {
+                show_usage();
+                return 1;
+            }
             if (!add_stream(argv[1], argv[2], &error))
                 goto end;
             argc -= 3, argv += 3;
@@ -331,7 +334,7 @@ int main(int argc, char *argv[])
         default:
             fprintf(stdout, "unknown option\n");
             show_usage();
-            break;
+            return 1;
         }
     }
 
-- 
2.43.0


From 0a3a7cbbe4760615f1c564ac372d489eb725c91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 20/66] fix: text without digits has no integer value

---
 libmsi/libmsi-record.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmsi/libmsi-record.c b/libmsi/libmsi-record.c
index 6339338..c130446 100644
--- a/libmsi/libmsi-record.c
+++ b/libmsi/libmsi-record.c
@@ -159,11 +159,13 @@ libmsi_record_get_field_count (const LibmsiRecord *self)
 
 static bool expr_int_from_string( const char *str, int *out )
 {
-    int x = 0;
+    unsigned x = 0; /* out of range values are truncated */
     const char *p = str;
 
     if( *p == '-' ) /* skip the minus sign */
         p++;
+    if( !*p )
+        return false;
     while ( *p )
     {
         if( (*p < '0') || (*p > '9') )
-- 
2.43.0


From 3879dddaae7c8608535aa1dda2325965e28415d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 21/66] fix: libmsi_record_set_stream reports a short stream

---
 libmsi/libmsi-record.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libmsi/libmsi-record.c b/libmsi/libmsi-record.c
index c130446..64ac4dd 100644
--- a/libmsi/libmsi-record.c
+++ b/libmsi/libmsi-record.c
@@ -616,8 +616,13 @@ libmsi_record_set_stream (LibmsiRecord *rec, guint field,
     guint8 *data = g_malloc (count);
 
     if (!g_input_stream_read_all (input, data, count, &bytes_read,
-                                  cancellable, error) ||
-        bytes_read != count) {
+                                  cancellable, error)) {
+        g_free (data);
+        return FALSE;
+    }
+    if (bytes_read != count) {
+        g_set_error (error, LIBMSI_RESULT_ERROR, LIBMSI_RESULT_INVALID_DATA,
+                     "The input stream is too short");
         g_free (data);
         return FALSE;
     }
-- 
2.43.0


From 927958d62808f17c0a92d4b0ff68f339c8c846d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 22/66] fix: streams can be skipped, and report a refused seek

---
 libmsi/libmsi-istream.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/libmsi/libmsi-istream.c b/libmsi/libmsi-istream.c
index e74e8fb..305d18a 100644
--- a/libmsi/libmsi-istream.c
+++ b/libmsi/libmsi-istream.c
@@ -51,7 +51,13 @@ libmsi_seek (GSeekable *seekable, goffset offset,
 {
     g_return_val_if_fail (LIBMSI_IS_ISTREAM(seekable), FALSE);
 
-    return !gsf_input_seek (LIBMSI_ISTREAM(seekable)->input, offset, type);
+    if (gsf_input_seek (LIBMSI_ISTREAM(seekable)->input, offset, type)) {
+        g_set_error_literal (error, G_IO_ERROR, G_IO_ERROR_INVALID_ARGUMENT,
+                             "Invalid seek request");
+        return FALSE;
+    }
+
+    return TRUE;
 }
 
 static gboolean
@@ -99,8 +105,11 @@ input_stream_read (GInputStream  *stream,
         return 0;
 
     count = MIN(count, remaining);
-    if (!gsf_input_read (self->input, count, buffer))
+    if (!gsf_input_read (self->input, count, buffer)) {
+        g_set_error_literal (error, G_IO_ERROR, G_IO_ERROR_FAILED,
+                             "Failed to read stream");
         return -1;
+    }
 
     return count;
 }
@@ -114,8 +123,11 @@ input_stream_skip (GInputStream *stream,
     LibmsiIStream *self = LIBMSI_ISTREAM (stream);
 
     count = MIN (count, gsf_input_remaining (self->input));
-    if (!gsf_input_seek (self->input, count, G_SEEK_CUR))
+    if (gsf_input_seek (self->input, count, G_SEEK_CUR)) {
+        g_set_error_literal (error, G_IO_ERROR, G_IO_ERROR_FAILED,
+                             "Failed to skip in stream");
         return -1;
+    }
 
     return count;
 }
-- 
2.43.0


From c512be52f759e16ffc0ce05d2745d04143b2682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 23/66] fix: a stream of a record begins at its first byte
 after a commit

---
 libmsi/libmsi-istream.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmsi/libmsi-istream.c b/libmsi/libmsi-istream.c
index 305d18a..260f492 100644
--- a/libmsi/libmsi-istream.c
+++ b/libmsi/libmsi-istream.c
@@ -160,6 +160,9 @@ libmsi_istream_new (GsfInput *input)
     GsfInput *dup = gsf_input_dup (input, NULL);
     g_return_val_if_fail (dup, NULL);
 
+    /* the source may have been read, by a commit for instance */
+    gsf_input_seek (dup, 0, G_SEEK_SET);
+
     LibmsiIStream *self = g_object_new (LIBMSI_TYPE_ISTREAM, NULL);
     self->input = dup;
 
-- 
2.43.0


From 295b8a9d18355fc8baf2ddce24a50f62d9101478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 24/66] fix: read no summary information beyond its stream

---
 libmsi/libmsi-summary-info.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index 2e7f513..8372ae4 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -322,7 +322,7 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
     for( i = 0; i < cProperties; i++ )
     {
         valid = TRUE;
-        int propid = read_dword(data, &idofs);
+        unsigned propid = read_dword(data, &idofs);
         unsigned dwOffset = read_dword(data, &idofs);
         int proptype;
 
@@ -341,19 +341,13 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
 
         property = &prop[ propid ];
 
-        if( dwOffset + 4 > sz )
+        if( dwOffset > sz || sz - dwOffset < 8 )
         {
             g_critical("not enough data for type %d %d \n", dwOffset, sz);
             break;
         }
 
         proptype = read_dword(data, &dwOffset);
-        if( dwOffset + 4 > sz )
-        {
-            g_critical("not enough data for type %d %d \n", dwOffset, sz);
-            break;
-        }
-
         switch(proptype)
         {
         case OLEVT_I2:
@@ -361,7 +355,7 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
             property->intval = read_dword(data, &dwOffset);
             break;
         case OLEVT_FILETIME:
-            if( dwOffset + 8 > sz )
+            if( sz - dwOffset < 8 )
             {
                 g_critical("not enough data for type %d %d \n", dwOffset, sz);
                 valid = FALSE;
@@ -372,7 +366,7 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
             break;
         case OLEVT_LPSTR:
             len = read_dword(data, &dwOffset);
-            if(len == 0 || dwOffset + len > sz )
+            if(len == 0 || len > sz - dwOffset )
             {
                 g_critical("not enough data for type %d %d %d \n", dwOffset, len, sz);
                 valid = FALSE;
@@ -440,6 +434,12 @@ static unsigned load_summary_info( LibmsiSummaryInfo *si, GsfInput *stm )
     if (!gsf_input_read(stm, sz, data))
         goto done;
 
+    if( sz < 48 )
+    {
+        g_critical("not enough data for the property set header\n");
+        goto done;
+    }
+
     /* process the set header */
     ofs = 0;
     if( read_word( data, &ofs) != 0xfffe )
@@ -458,9 +458,16 @@ static unsigned load_summary_info( LibmsiSummaryInfo *si, GsfInput *stm )
     /* seek to the location of the section */
     ofs += 16;
     ofs = dwOffset = read_dword(data, &ofs);
+    if( dwOffset > sz || sz - dwOffset < 8 )
+    {
+        g_critical("section beyond the end of the property set\n");
+        goto done;
+    }
 
     /* read the section itself */
     cbSection = read_dword( data, &ofs );
+    if( cbSection > sz - dwOffset )
+        cbSection = sz - dwOffset;
     cProperties = read_dword( data, &ofs );
 
     if( cProperties > MSI_MAX_PROPS )
@@ -469,6 +476,12 @@ static unsigned load_summary_info( LibmsiSummaryInfo *si, GsfInput *stm )
         goto done;
     }
 
+    if( cbSection < 8 + cProperties * 8 )
+    {
+        g_critical("not enough data for %d properties\n", cProperties);
+        goto done;
+    }
+
     /* read all the data in one go */
     read_properties_from_data( si->property,
                                &data[dwOffset],
-- 
2.43.0


From 4c22178ff76eece5ec9abbc39a3f6ad0fc904367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 25/66] fix: a repeated summary property replaces the earlier
 value

---
 libmsi/libmsi-summary-info.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index 8372ae4..12dff79 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -311,9 +311,9 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
 {
     unsigned type;
     unsigned i;
-    LibmsiOLEVariant *property;
+    LibmsiOLEVariant property;
     uint32_t idofs, len;
-    char *str = NULL;
+    char *str;
     gboolean valid;
 
     idofs = 8;
@@ -322,6 +322,7 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
     for( i = 0; i < cProperties; i++ )
     {
         valid = TRUE;
+        str = NULL;
         unsigned propid = read_dword(data, &idofs);
         unsigned dwOffset = read_dword(data, &idofs);
         int proptype;
@@ -339,8 +340,6 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
             break;
         }
 
-        property = &prop[ propid ];
-
         if( dwOffset > sz || sz - dwOffset < 8 )
         {
             g_critical("not enough data for type %d %d \n", dwOffset, sz);
@@ -352,7 +351,7 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
         {
         case OLEVT_I2:
         case OLEVT_I4:
-            property->intval = read_dword(data, &dwOffset);
+            property.intval = read_dword(data, &dwOffset);
             break;
         case OLEVT_FILETIME:
             if( sz - dwOffset < 8 )
@@ -361,8 +360,8 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
                 valid = FALSE;
                 break;
             }
-            property->filetime = read_dword(data, &dwOffset);
-            property->filetime |= (guint64)read_dword(data, &dwOffset) << 32;
+            property.filetime = read_dword(data, &dwOffset);
+            property.filetime |= (guint64)read_dword(data, &dwOffset) << 32;
             break;
         case OLEVT_LPSTR:
             len = read_dword(data, &dwOffset);
@@ -386,15 +385,16 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
 
         /* check the type is the same as we expect */
         if( type == OLEVT_LPSTR && proptype == OLEVT_LPSTR)
-           property->strval = str;
+           property.strval = str;
         else if (type == proptype)
            ;
         else if( proptype == OLEVT_LPSTR) {
             g_return_if_fail(str != NULL);
             if( type == OLEVT_I2 || type == OLEVT_I4) {
-                property->intval = atoi( str );
+                property.intval = atoi( str );
             } else if( type == OLEVT_FILETIME) {
-                parse_filetime( str, &property->filetime );
+                property.filetime = 0;
+                parse_filetime( str, &property.filetime );
             } else {
                 g_critical("invalid type, it can't be converted\n");
                 msi_free(str);
@@ -410,7 +410,9 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
         }
 
         /* Now we now the type is valid, store it */
-        property->vt = proptype;
+        property.vt = proptype;
+        free_prop( &prop[ propid ] );
+        prop[ propid ] = property;
     }
 }
 
-- 
2.43.0


From 41e66978e483291140aa0fd7333fad973012cf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 26/66] fix: return no unset value for a summary property of
 another type

---
 libmsi/libmsi-summary-info.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index 12dff79..af8b1b1 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -739,6 +739,10 @@ static void _summary_info_get_property (LibmsiSummaryInfo *si, unsigned uiProper
         g_return_if_reached ();
     }
 
+    if (type != LIBMSI_PROPERTY_TYPE_EMPTY && puiDataType && *puiDataType != type)
+        g_set_error (error, LIBMSI_RESULT_ERROR, LIBMSI_RESULT_DATATYPE_MISMATCH,
+                     "The property has another type");
+
     if (puiDataType)
         *puiDataType = type;
 
@@ -758,7 +762,7 @@ libmsi_summary_info_get_int (LibmsiSummaryInfo *self, LibmsiProperty prop,
                              GError **error)
 {
     LibmsiPropertyType type;
-    gint val;
+    gint val = -1;
 
     g_return_val_if_fail (LIBMSI_SUMMARY_INFO (self), -1);
     g_return_val_if_fail (!error || *error == NULL, -1);
@@ -783,7 +787,7 @@ libmsi_summary_info_get_filetime (LibmsiSummaryInfo *self, LibmsiProperty prop,
                                   GError **error)
 {
     LibmsiPropertyType type;
-    guint64 val;
+    guint64 val = 0;
 
     g_return_val_if_fail (LIBMSI_SUMMARY_INFO (self), 0);
     g_return_val_if_fail (!error || *error == NULL, 0);
@@ -808,7 +812,7 @@ libmsi_summary_info_get_string (LibmsiSummaryInfo *self, LibmsiProperty prop,
                                 GError **error)
 {
     LibmsiPropertyType type;
-    const gchar *str;
+    const gchar *str = NULL;
 
     g_return_val_if_fail (LIBMSI_SUMMARY_INFO (self), FALSE);
     g_return_val_if_fail (!error || *error == NULL, FALSE);
-- 
2.43.0


From a6578c97932d7cd0e51dfa9e25c896f80080a289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 27/66] fix: import summary information with an odd column or a
 malformed date

---
 libmsi/libmsi-summary-info.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index af8b1b1..c089d06 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -1043,11 +1043,11 @@ unsigned msi_add_suminfo( LibmsiDatabase *db, char ***records, int num_records,
 
     for (i = 0; i < num_records; i++)
     {
-        for (j = 0; j < num_columns; j += 2)
+        for (j = 0; j + 1 < num_columns; j += 2)
         {
             unsigned pid;
             int int_value = 0;
-            guint64 ft_value;
+            guint64 ft_value = 0;
             char *str_value = NULL;
 
             r = parse_prop( records[i][j], records[i][j + 1], &pid, &int_value, &ft_value, &str_value );
@@ -1056,10 +1056,9 @@ unsigned msi_add_suminfo( LibmsiDatabase *db, char ***records, int num_records,
 
             assert( get_type(pid) != OLEVT_EMPTY );
             r = _libmsi_summary_info_set_property( si, pid, get_type(pid), int_value, &ft_value, str_value );
+            msi_free(str_value);
             if (r != LIBMSI_RESULT_SUCCESS)
                 goto end;
-
-            msi_free(str_value);
         }
     }
 
-- 
2.43.0


From 3ac10d601eff6cbc2ad62f3b65452bcba7f97e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:00 +0000
Subject: [PATCH 28/66] fix: replace the database file at once, and report and
 repeat a failed commit

The old file was unlinked before the new one took its name, a database
opened with CREATE or for direct writing was destroyed when closed without
commit, and failures to write were ignored.
---
 libmsi/libmsi-database.c | 114 ++++++++++++++++++++++++++++-----------
 libmsi/table.c           |   5 +-
 2 files changed, 86 insertions(+), 33 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 6459066..33947c2 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -23,6 +23,7 @@
 #include <unistd.h>
 #include <fcntl.h>
 #include <sys/stat.h>
+#include <glib/gstdio.h>
 
 #include "libmsi-enums.h"
 #include "libmsi-database.h"
@@ -573,6 +574,20 @@ void append_storage_to_db( LibmsiDatabase *db, GsfInfile *stg )
 #endif
 }
 
+static bool close_outfile( LibmsiDatabase *db, bool keep )
+{
+    bool written;
+
+    written = gsf_output_close(GSF_OUTPUT(db->outfile));
+    g_object_unref(G_OBJECT(db->outfile));
+    db->outfile = NULL;
+
+    if (written && !keep)
+        unlink( db->outpath );
+
+    return written;
+}
+
 LibmsiResult _libmsi_database_close(LibmsiDatabase *db, bool committed)
 {
     TRACE("%p %d\n", db, committed);
@@ -591,20 +606,18 @@ LibmsiResult _libmsi_database_close(LibmsiDatabase *db, bool committed)
 
     if ( db->outfile )
     {
-        gsf_output_close(GSF_OUTPUT(db->outfile));
-        g_object_unref(G_OBJECT(db->outfile));
-        db->outfile = NULL;
+        close_outfile( db, false );
     }
     free_streams( db );
     free_storages( db );
 
     if (db->outpath) {
         if (!committed) {
-            unlink( db->outpath );
             msi_free( db->outpath );
         } else if (db->rename_outpath) {
-            unlink(db->path);
-            rename(db->outpath, db->path);
+            /* this replaces the old file at once, there is always one of the two */
+            if (g_rename(db->outpath, db->path))
+                return LIBMSI_RESULT_FUNCTION_FAILED;
             msi_free( db->outpath );
         } else {
             msi_free( db->path );
@@ -620,22 +633,14 @@ LibmsiResult _libmsi_database_start_transaction(LibmsiDatabase *db)
     unsigned ret = LIBMSI_RESULT_SUCCESS;
     GsfOutput *out;
     GsfOutfile *stg = NULL;
-    char *tmpfile = NULL;
-    char path[PATH_MAX];
-
     if (db->flags & LIBMSI_DB_FLAGS_READONLY)
         return LIBMSI_RESULT_SUCCESS;
 
     db->rename_outpath = false;
     if( !db->outpath )
     {
-        strcpy( path, db->path );
-        if (db->flags & LIBMSI_DB_FLAGS_TRANSACT)
-	{
-            strcat( path, ".tmp" );
-            db->rename_outpath = true;
-	}
-        db->outpath = strdup(path);
+        db->outpath = g_strconcat( db->path, ".tmp", NULL );
+        db->rename_outpath = true;
     }
 
     TRACE("%p %s\n", db, db->outpath);
@@ -674,7 +679,6 @@ end:
     }
     if (stg)
         g_object_unref(G_OBJECT(stg));
-    msi_free(tmpfile);
     return ret;
 }
 
@@ -2297,16 +2301,22 @@ static int gsf_infile_copy(GsfInfile *inf, GsfOutfile *outf)
         GsfInput *child = gsf_infile_child_by_index(inf, i);
         GsfInfile *childf = GSF_IS_INFILE (child) ? GSF_INFILE (child) : NULL;
         gboolean is_dir = childf && gsf_infile_num_children (childf) >= 0;
-        GsfOutput *dest = gsf_outfile_new_child(outf, name, is_dir);
-        gboolean ok;
+        GsfOutput *dest = child ? gsf_outfile_new_child(outf, name, is_dir) : NULL;
+        gboolean ok = FALSE;
 
-        if (is_dir)
-            ok = gsf_infile_copy(childf, GSF_OUTFILE(dest));
-        else
-            ok = gsf_input_copy(child, dest);
+        if (dest) {
+            if (is_dir)
+                ok = gsf_infile_copy(childf, GSF_OUTFILE(dest));
+            else
+                ok = gsf_input_copy(child, dest);
+
+            if (!gsf_output_close(dest))
+                ok = FALSE;
+            g_object_unref(G_OBJECT(dest));
+        }
 
-        g_object_unref(G_OBJECT(child));
-        g_object_unref(G_OBJECT(dest));
+        if (child)
+            g_object_unref(G_OBJECT(child));
         if (!ok)
             return false;
     }
@@ -2331,7 +2341,8 @@ static unsigned commit_storage( const char *name, GsfInfile *stg, void *opaque)
     ret = LIBMSI_RESULT_SUCCESS;
 
 end:
-    gsf_output_close(GSF_OUTPUT(outstg));
+    if ( !gsf_output_close(GSF_OUTPUT(outstg)) )
+        ret = LIBMSI_RESULT_FUNCTION_FAILED;
     g_object_unref(G_OBJECT(outstg));
     return ret;
 }
@@ -2358,11 +2369,25 @@ static unsigned commit_stream( const char *name, GsfInput *stm, void *opaque)
     ret = LIBMSI_RESULT_SUCCESS;
 
 end:
-    gsf_output_close(GSF_OUTPUT(outstm));
+    if ( !gsf_output_close(GSF_OUTPUT(outstm)) )
+        ret = LIBMSI_RESULT_FUNCTION_FAILED;
     g_object_unref(G_OBJECT(outstm));
     return ret;
 }
 
+/* drop what has been written so far, so that a failed commit can be repeated */
+static void restart_transaction( LibmsiDatabase *db )
+{
+    if (db->outfile)
+        close_outfile( db, false );
+
+    if (db->rename_outpath) {
+        msi_free( db->outpath );
+        db->outpath = NULL;
+    }
+    _libmsi_database_start_transaction( db );
+}
+
 /**
  * libmsi_database_commit:
  * @db: a #LibmsiDatabase
@@ -2419,13 +2444,42 @@ libmsi_database_commit (LibmsiDatabase *db, GError **error)
 
     /* FIXME: unlock the database */
 
-    _libmsi_database_close(db, true);
+    if (!close_outfile (db, true)) {
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
+        g_set_error (error, LIBMSI_RESULT_ERROR, r,
+                     "failed to write %s", db->outpath);
+        goto end;
+    }
+    free_cached_tables (db);
+
+    r = _libmsi_database_close(db, true);
+    if (r != LIBMSI_RESULT_SUCCESS) {
+        /* continue with what has been written, and try again at the next commit */
+        char *path = db->path;
+
+        g_set_error (error, LIBMSI_RESULT_ERROR, r,
+                     "failed to replace %s", path);
+        db->path = db->outpath;
+        _libmsi_database_open(db);
+        db->path = path;
+        goto end;
+    }
     db->flags &= ~LIBMSI_DB_FLAGS_CREATE;
     db->flags |= LIBMSI_DB_FLAGS_TRANSACT;
-    _libmsi_database_open(db);
-    _libmsi_database_start_transaction(db);
+    r = _libmsi_database_open(db);
+    if (r != LIBMSI_RESULT_SUCCESS) {
+        g_set_error (error, LIBMSI_RESULT_ERROR, r,
+                     "failed to open %s again", db->path);
+        goto end;
+    }
+    r = _libmsi_database_start_transaction(db);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        g_set_error (error, LIBMSI_RESULT_ERROR, r,
+                     "failed to open %s for writing", db->outpath);
 
 end:
+    if (r != LIBMSI_RESULT_SUCCESS)
+        restart_transaction (db);
     g_object_unref(db);
 
     return r == LIBMSI_RESULT_SUCCESS;
diff --git a/libmsi/table.c b/libmsi/table.c
index da68180..5761f63 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -344,7 +344,8 @@ unsigned write_stream_data( LibmsiDatabase *db, const char *stname,
     ret = LIBMSI_RESULT_SUCCESS;
 
 end:
-    gsf_output_close(GSF_OUTPUT(stm));
+    if (! gsf_output_close(GSF_OUTPUT(stm)) )
+        ret = LIBMSI_RESULT_FUNCTION_FAILED;
     g_object_unref(G_OBJECT(stm));
     return ret;
 }
@@ -2070,8 +2071,6 @@ unsigned _libmsi_database_commit_tables( LibmsiDatabase *db, unsigned bytes_per_
                   debugstr_a(table->name), r);
             return r;
         }
-        list_remove(&table->entry);
-        free_table(table);
     }
 
     return r;
-- 
2.43.0


From ded78e97ea630e9fb7497620b8d78a8ab5934c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:00 +0000
Subject: [PATCH 29/66] fix: a table that cannot be read is not an empty table

---
 libmsi/table.c | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 5761f63..495b67b 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -273,7 +273,7 @@ unsigned read_stream_data( GsfInfile *stg, const char *stname,
     if( !stm )
     {
         TRACE("open stream failed - empty table?\n");
-        return ret;
+        return LIBMSI_RESULT_NOT_FOUND;
     }
 
     if( gsf_input_size(stm) >> 32 )
@@ -356,15 +356,25 @@ static void msi_free_colinfo( LibmsiColumnInfo *colinfo, unsigned count )
     for (i = 0; i < count; i++) msi_free( colinfo[i].hash_table );
 }
 
-static void free_table( LibmsiTable *table )
+static void unload_table( LibmsiTable *table )
 {
     unsigned i;
-    for( i=0; i<table->row_count; i++ )
+    for( i=0; table->data && i<table->row_count; i++ )
         msi_free( table->data[i] );
     msi_free( table->data );
+    table->data = NULL;
     msi_free( table->data_persistent );
+    table->data_persistent = NULL;
+    table->row_count = 0;
     msi_free_colinfo( table->colinfo, table->col_count );
     msi_free( table->colinfo );
+    table->colinfo = NULL;
+    table->col_count = 0;
+}
+
+static void free_table( LibmsiTable *table )
+{
+    unload_table( table );
     msi_free( table );
 }
 
@@ -389,15 +399,17 @@ static unsigned msi_table_get_row_size( LibmsiDatabase *db, const LibmsiColumnIn
 static unsigned read_table_from_storage( LibmsiDatabase *db, LibmsiTable *t, GsfInfile *stg )
 {
     uint8_t *rawdata = NULL;
-    unsigned rawsize = 0, i, j, row_size, row_size_mem;
+    unsigned rawsize = 0, i, j, row_size, row_size_mem, r;
 
     TRACE("%s\n",debugstr_a(t->name));
 
     row_size = msi_table_get_row_size( db, t->colinfo, t->col_count, db->bytes_per_strref );
     row_size_mem = msi_table_get_row_size( db, t->colinfo, t->col_count, LONG_STR_BYTES );
 
-    /* if we can't read the table, just assume that it's empty */
-    read_stream_data( stg, t->name, &rawdata, &rawsize );
+    /* if there is no such stream, just assume that the table is empty */
+    r = read_stream_data( stg, t->name, &rawdata, &rawsize );
+    if( r != LIBMSI_RESULT_SUCCESS && r != LIBMSI_RESULT_NOT_FOUND && stg )
+        return r;
     if( !rawdata )
         return LIBMSI_RESULT_SUCCESS;
 
@@ -600,10 +612,12 @@ unsigned _libmsi_open_table( LibmsiDatabase *db, const char *name, bool encoded
 static unsigned get_table( LibmsiDatabase *db, const char *name, LibmsiTable **table_ret )
 {
     LibmsiTable *table;
+    bool listed;
     unsigned r;
 
     /* first, see if the table is cached */
     table = find_cached_table( db, name );
+    listed = table != NULL;
     if (!table)
     {
         /* nonexistent tables should be interpreted as empty tables */
@@ -623,15 +637,18 @@ static unsigned get_table( LibmsiDatabase *db, const char *name, LibmsiTable **t
     r = table_get_column_info( db, name, &table->colinfo, &table->col_count );
     if (r != LIBMSI_RESULT_SUCCESS)
     {
-        list_remove(&table->entry);
-        free_table( table );
+        /* keep what the database lists, or the next commit would drop it */
+        if (!listed)
+        {
+            list_remove(&table->entry);
+            free_table( table );
+        }
         return r;
     }
     r = read_table_from_storage( db, table, db->infile );
     if (r != LIBMSI_RESULT_SUCCESS)
     {
-        list_remove(&table->entry);
-        free_table( table );
+        unload_table( table );
         return r;
     }
     *table_ret = table;
@@ -2053,7 +2070,9 @@ unsigned _libmsi_database_commit_tables( LibmsiDatabase *db, unsigned bytes_per_
     TRACE("%p\n",db);
 
     /* Ensure the Tables stream is written.  */
-    get_table( db, szTables, &t );
+    r = get_table( db, szTables, &t );
+    if( r != LIBMSI_RESULT_SUCCESS )
+        return r;
 
     LIST_FOR_EACH_ENTRY_SAFE( table, table2, &db->tables, LibmsiTable, entry )
     {
-- 
2.43.0


From 139fd50334c25f0ce0c71fc93b791fef98d7ee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:10 +0000
Subject: [PATCH 30/66] fix: a query over a dropped, altered or committed table
 uses no freed memory

A table is kept for its open views, which see its new columns; executing the
query again looks the table up by name. ALTER and DROP refuse what the table
cannot do.
---
 libmsi/alter.c | 10 ++++++
 libmsi/drop.c  |  2 +-
 libmsi/table.c | 94 ++++++++++++++++++++++++++++++++++++++++----------
 3 files changed, 86 insertions(+), 20 deletions(-)

diff --git a/libmsi/alter.c b/libmsi/alter.c
index 0c7a21c..898afdd 100644
--- a/libmsi/alter.c
+++ b/libmsi/alter.c
@@ -141,13 +141,23 @@ static unsigned alter_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     TRACE("%p %p\n", av, record);
 
+    if (!av->table || !av->table->ops->add_ref || !av->table->ops->release)
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
+    ref = av->table->ops->execute(av->table, NULL);
+    if (ref != LIBMSI_RESULT_SUCCESS)
+        return ref;
+
     if (av->hold == 1)
         av->table->ops->add_ref(av->table);
     else if (av->hold == -1)
     {
         ref = av->table->ops->release(av->table);
         if (ref == 0)
+        {
+            av->table->ops->delete(av->table);
             av->table = NULL;
+        }
     }
 
     if (av->colinfo)
diff --git a/libmsi/drop.c b/libmsi/drop.c
index 2fd2501..9cb759a 100644
--- a/libmsi/drop.c
+++ b/libmsi/drop.c
@@ -43,7 +43,7 @@ static unsigned drop_view_execute(LibmsiView *view, LibmsiRecord *record)
 
     TRACE("%p %p\n", dv, record);
 
-    if( !dv->table )
+    if( !dv->table || !dv->table->ops->drop )
          return LIBMSI_RESULT_FUNCTION_FAILED;
 
     r = dv->table->ops->execute(dv->table, record);
diff --git a/libmsi/table.c b/libmsi/table.c
index 495b67b..7d7cb60 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -61,9 +61,23 @@ struct _LibmsiTable
     unsigned col_count;
     LibmsiCondition persistent;
     int ref_count;
+    struct list views;      /* the open views of this table */
+    bool removed;           /* no longer in the database, kept for its views only */
     char name[1];
 };
 
+typedef struct _LibmsiTableView
+{
+    LibmsiView        view;
+    LibmsiDatabase   *db;
+    LibmsiTable      *table;
+    struct list       entry;
+    LibmsiColumnInfo *columns;
+    unsigned           num_cols;
+    unsigned           row_size;
+    char          name[1];
+} LibmsiTableView;
+
 /* information for default tables */
 static const char szTables[]  = "_Tables";
 static const char szTable[]   = "Table";
@@ -356,6 +370,24 @@ static void msi_free_colinfo( LibmsiColumnInfo *colinfo, unsigned count )
     for (i = 0; i < count; i++) msi_free( colinfo[i].hash_table );
 }
 
+static unsigned msi_table_get_row_size( LibmsiDatabase *db, const LibmsiColumnInfo *cols, unsigned count, unsigned bytes_per_strref );
+
+static void table_view_update( LibmsiTableView *tv )
+{
+    tv->columns = tv->table->colinfo;
+    tv->num_cols = tv->table->col_count;
+    tv->row_size = msi_table_get_row_size( tv->db, tv->table->colinfo, tv->table->col_count, LONG_STR_BYTES );
+}
+
+/* tell the open views of a table that its columns have changed */
+static void update_views( LibmsiTable *table )
+{
+    LibmsiTableView *tv;
+
+    LIST_FOR_EACH_ENTRY( tv, &table->views, LibmsiTableView, entry )
+        table_view_update( tv );
+}
+
 static void unload_table( LibmsiTable *table )
 {
     unsigned i;
@@ -370,12 +402,16 @@ static void unload_table( LibmsiTable *table )
     msi_free( table->colinfo );
     table->colinfo = NULL;
     table->col_count = 0;
+    update_views( table );
 }
 
 static void free_table( LibmsiTable *table )
 {
     unload_table( table );
-    msi_free( table );
+    table->removed = true;
+    /* else the last view frees it */
+    if (list_empty( &table->views ))
+        msi_free( table );
 }
 
 static unsigned msi_table_get_row_size( LibmsiDatabase *db, const LibmsiColumnInfo *cols, unsigned count, unsigned bytes_per_strref )
@@ -600,6 +636,7 @@ unsigned _libmsi_open_table( LibmsiDatabase *db, const char *name, bool encoded
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
     table->persistent = LIBMSI_CONDITION_TRUE;
+    list_init( &table->views );
     strcpy( table->name, name );
 
     if (!strcmp( name, szTables ) || !strcmp( name, szColumns ))
@@ -765,6 +802,8 @@ unsigned msi_create_table( LibmsiDatabase *db, const char *name, column_info *co
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
     table->ref_count = 1;
+    list_init( &table->views );
+    table->removed = false;
     table->row_count = 0;
     table->data = NULL;
     table->data_persistent = NULL;
@@ -974,12 +1013,15 @@ static void msi_update_table_columns( LibmsiDatabase *db, const char *name )
     unsigned n;
 
     table = find_cached_table( db, name );
+    if (!table || !table->colinfo) return;      /* the columns are read along with the rows */
+
     old_count = table->col_count;
     msi_free_colinfo( table->colinfo, table->col_count );
     msi_free( table->colinfo );
     table->colinfo = NULL;
 
     table_get_column_info( db, name, &table->colinfo, &table->col_count );
+    update_views( table );
     if (!table->col_count) return;
 
     size = msi_table_get_row_size( db, table->colinfo, table->col_count, LONG_STR_BYTES );
@@ -1028,17 +1070,6 @@ bool table_view_exists( LibmsiDatabase *db, const char *name )
 
 /* below is the query interface to a table */
 
-typedef struct _LibmsiTableView
-{
-    LibmsiView        view;
-    LibmsiDatabase   *db;
-    LibmsiTable      *table;
-    LibmsiColumnInfo *columns;
-    unsigned           num_cols;
-    unsigned           row_size;
-    char          name[1];
-} LibmsiTableView;
-
 static unsigned table_view_fetch_int( LibmsiView *view, unsigned row, unsigned col, unsigned *val )
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
@@ -1472,12 +1503,39 @@ static unsigned table_create_new_row( LibmsiView *view, unsigned *num, bool temp
     return LIBMSI_RESULT_SUCCESS;
 }
 
+static void table_view_attach( LibmsiTableView *tv, LibmsiTable *table )
+{
+    tv->table = table;
+    list_add_head( &table->views, &tv->entry );
+    table_view_update( tv );
+}
+
+static void table_view_detach( LibmsiTableView *tv )
+{
+    list_remove( &tv->entry );
+    if (tv->table->removed && list_empty( &tv->table->views ))
+        msi_free( tv->table );
+    tv->table = NULL;
+}
+
 static unsigned table_view_execute( LibmsiView *view, LibmsiRecord *record )
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
 
     TRACE("%p %p\n", tv, record);
 
+    /* a commit discards the tables, and a table can be dropped and created again */
+    if (tv->table->removed)
+    {
+        LibmsiTable *table;
+        unsigned r = get_table( tv->db, tv->name, &table );
+
+        if (r != LIBMSI_RESULT_SUCCESS)
+            return r;
+        table_view_detach( tv );
+        table_view_attach( tv, table );
+    }
+
     TRACE("There are %d columns\n", tv->num_cols );
 
     return LIBMSI_RESULT_SUCCESS;
@@ -1730,7 +1788,7 @@ static unsigned table_view_delete( LibmsiView *view )
 
     TRACE("%p\n", view );
 
-    tv->table = NULL;
+    table_view_detach( tv );
     tv->columns = NULL;
 
     msi_free( tv );
@@ -1899,7 +1957,6 @@ static unsigned table_view_release(LibmsiView *view)
         {
             list_remove(&tv->table->entry);
             free_table(tv->table);
-            table_view_delete(view);
         }
     }
 
@@ -2022,6 +2079,7 @@ static const LibmsiViewOps table_ops =
 unsigned table_view_create( LibmsiDatabase *db, const char *name, LibmsiView **view )
 {
     LibmsiTableView *tv ;
+    LibmsiTable *table;
     unsigned r, sz;
 
     TRACE("%p %s %p\n", db, debugstr_a(name), view );
@@ -2036,7 +2094,7 @@ unsigned table_view_create( LibmsiDatabase *db, const char *name, LibmsiView **v
     if( !tv )
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
-    r = get_table( db, name, &tv->table );
+    r = get_table( db, name, &table );
     if( r != LIBMSI_RESULT_SUCCESS )
     {
         msi_free( tv );
@@ -2044,14 +2102,12 @@ unsigned table_view_create( LibmsiDatabase *db, const char *name, LibmsiView **v
         return r;
     }
 
-    TRACE("table %p found with %d columns\n", tv->table, tv->table->col_count);
+    TRACE("table %p found with %d columns\n", table, table->col_count);
 
     /* fill the structure */
     tv->view.ops = &table_ops;
     tv->db = db;
-    tv->columns = tv->table->colinfo;
-    tv->num_cols = tv->table->col_count;
-    tv->row_size = msi_table_get_row_size( db, tv->table->colinfo, tv->table->col_count, LONG_STR_BYTES );
+    table_view_attach( tv, table );
 
     TRACE("%s one row is %d bytes\n", debugstr_a(name), tv->row_size );
 
-- 
2.43.0


From 5b93b186bc47847e1a1330baca88e426e54969be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:10 +0000
Subject: [PATCH 31/66] fix: execute SELECT DISTINCT repeatedly and over OBJECT
 columns

---
 libmsi/distinct.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/libmsi/distinct.c b/libmsi/distinct.c
index 2d9aab9..3050e82 100644
--- a/libmsi/distinct.c
+++ b/libmsi/distinct.c
@@ -99,6 +99,18 @@ static unsigned distinct_view_fetch_int( LibmsiView *view, unsigned row, unsigne
     return dv->table->ops->fetch_int( dv->table, row, col, val );
 }
 
+static unsigned distinct_view_fetch_stream( LibmsiView *view, unsigned row, unsigned col, GsfInput **stm )
+{
+    LibmsiDistinctView *dv = (LibmsiDistinctView*)view;
+
+    TRACE("%p %d %d %p\n", dv, row, col, stm );
+
+    if( row >= dv->row_count )
+        return LIBMSI_RESULT_INVALID_PARAMETER;
+
+    return dv->table->ops->fetch_stream( dv->table, dv->translation[ row ], col, stm );
+}
+
 static unsigned distinct_view_execute( LibmsiView *view, LibmsiRecord *record )
 {
     LibmsiDistinctView *dv = (LibmsiDistinctView*)view;
@@ -118,6 +130,10 @@ static unsigned distinct_view_execute( LibmsiView *view, LibmsiRecord *record )
     if( r != LIBMSI_RESULT_SUCCESS )
         return r;
 
+    /* the result of an earlier execution */
+    msi_free( dv->translation );
+    dv->row_count = 0;
+
     dv->translation = msi_alloc( r_count*sizeof(unsigned) );
     if( !dv->translation )
         return LIBMSI_RESULT_FUNCTION_FAILED;
@@ -250,7 +266,7 @@ static unsigned distinct_view_find_matching_rows( LibmsiView *view, unsigned col
 static const LibmsiViewOps distinct_ops =
 {
     distinct_view_fetch_int,
-    NULL,
+    distinct_view_fetch_stream,
     NULL,
     NULL,
     NULL,
-- 
2.43.0


From 22b0ff18c9aa2cc647a2b2dd7a79b1c6dcc565db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:10 +0000
Subject: [PATCH 32/66] fix: report a row that cannot be fetched, return no
 unset column info

---
 libmsi/libmsi-query.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/libmsi/libmsi-query.c b/libmsi/libmsi-query.c
index 759613c..723fa5d 100644
--- a/libmsi/libmsi-query.c
+++ b/libmsi/libmsi-query.c
@@ -288,6 +288,9 @@ unsigned msi_view_get_row(LibmsiDatabase *db, LibmsiView *view, unsigned row, Li
 
     TRACE("%p %p %d %p\n", db, view, row, rec);
 
+    if (!view->ops->get_dimensions || !view->ops->get_column_info)
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
     ret = view->ops->get_dimensions(view, &row_count, &col_count);
     if (ret)
         return ret;
@@ -308,13 +311,16 @@ unsigned msi_view_get_row(LibmsiDatabase *db, LibmsiView *view, unsigned row, Li
         if (ret)
         {
             g_critical("Error getting column type for %d\n", i);
-            continue;
+            goto failed;
         }
 
         if (MSITYPE_IS_BINARY(type))
         {
             GsfInput *stm = NULL;
 
+            if (!view->ops->fetch_stream)
+                goto failed;
+
             ret = view->ops->fetch_stream(view, row, i, &stm);
             if ((ret == LIBMSI_RESULT_SUCCESS) && stm)
             {
@@ -331,7 +337,7 @@ unsigned msi_view_get_row(LibmsiDatabase *db, LibmsiView *view, unsigned row, Li
         if (ret)
         {
             g_critical("Error fetching data for %d\n", i);
-            continue;
+            goto failed;
         }
 
         if (! (type & MSITYPE_VALID))
@@ -358,6 +364,11 @@ unsigned msi_view_get_row(LibmsiDatabase *db, LibmsiView *view, unsigned row, Li
     }
 
     return LIBMSI_RESULT_SUCCESS;
+
+failed:
+    g_object_unref(*rec);
+    *rec = NULL;
+    return LIBMSI_RESULT_FUNCTION_FAILED;
 }
 
 LibmsiResult _libmsi_query_fetch(LibmsiQuery *query, LibmsiRecord **prec)
@@ -597,7 +608,7 @@ LibmsiResult _libmsi_query_get_column_info( LibmsiQuery *query, LibmsiColInfo in
 LibmsiRecord *
 libmsi_query_get_column_info (LibmsiQuery *query, LibmsiColInfo info, GError **error)
 {
-    LibmsiRecord *rec;
+    LibmsiRecord *rec = NULL;
     unsigned r;
 
     TRACE("%p %d\n", query, info);
-- 
2.43.0


From 3db0a61ef2a84a742ffe0eee93e210e1aa7166a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:10 +0000
Subject: [PATCH 33/66] fix: a join fails when one of its tables cannot be
 executed

---
 libmsi/where.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmsi/where.c b/libmsi/where.c
index 431db0c..70f00d3 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -774,7 +774,9 @@ static unsigned where_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     do
     {
-        table->view->ops->execute(table->view, NULL);
+        r = table->view->ops->execute(table->view, NULL);
+        if (r != LIBMSI_RESULT_SUCCESS)
+            return r;
 
         r = table->view->ops->get_dimensions(table->view, &table->row_count, NULL);
         if (r != LIBMSI_RESULT_SUCCESS)
@@ -802,7 +804,7 @@ static unsigned where_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     qsort(wv->reorder, wv->row_count, sizeof(LibmsiRowEntry *), compare_entry);
 
-    if (wv->order_info)
+    if (wv->order_info && r == LIBMSI_RESULT_SUCCESS)
         r = wv->order_info->error;
 
     msi_free( rows );
-- 
2.43.0


From 98b09d01d86080d294e54ff499b9232989c5d43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:10 +0000
Subject: [PATCH 34/66] fix: column information of a DELETE query

---
 libmsi/delete.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmsi/delete.c b/libmsi/delete.c
index 7f8251e..769060c 100644
--- a/libmsi/delete.c
+++ b/libmsi/delete.c
@@ -114,7 +114,8 @@ static unsigned delete_view_get_dimensions( LibmsiView *view, unsigned *rows, un
     if( !dv->table )
          return LIBMSI_RESULT_FUNCTION_FAILED;
 
-    *rows = 0;
+    if( rows )
+        *rows = 0;
 
     return dv->table->ops->get_dimensions( dv->table, NULL, cols );
 }
-- 
2.43.0


From ef348a121ae935951ed374d4b97e2142eb440f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:42 +0000
Subject: [PATCH 35/66] fix: release the table of an import properly

---
 libmsi/libmsi-database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 33947c2..c1ca881 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1047,7 +1047,7 @@ static unsigned msi_add_records_to_table(LibmsiDatabase *db, char **columns, cha
     }
 
 done:
-    msi_free(view);
+    view->ops->delete(view);
     return r;
 }
 
-- 
2.43.0


From 46e4747097a1ec356a982b99cad15b7ef790e1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:58 +0000
Subject: [PATCH 36/66] fix: refuse a primary key that names a column twice

---
 libmsi/sql-parser.y | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmsi/sql-parser.y b/libmsi/sql-parser.y
index 7b8d912..3d4cd76 100644
--- a/libmsi/sql-parser.y
+++ b/libmsi/sql-parser.y
@@ -987,6 +987,9 @@ static bool sql_mark_primary_keys( column_info **cols,
         {
             if( strcmp( k->column, c->column ) )
                 continue;
+            /* a column is part of the key only once */
+            if( c->type & MSITYPE_KEY )
+                return false;
             c->type |= MSITYPE_KEY;
             found = true;
             if (idx != count)
-- 
2.43.0


From bdba6e80303a210c3a3c6f4aa312647d45b3ce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:58 +0000
Subject: [PATCH 37/66] fix: insert and update rows of tables with 32 or more
 columns

---
 libmsi/msipriv.h | 16 ++++++++++++++++
 libmsi/select.c  |  9 +++++++--
 libmsi/table.c   | 12 ++++++------
 libmsi/update.c  |  2 +-
 libmsi/where.c   |  8 ++++----
 5 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/libmsi/msipriv.h b/libmsi/msipriv.h
index a9ab42b..da7decf 100644
--- a/libmsi/msipriv.h
+++ b/libmsi/msipriv.h
@@ -443,6 +443,22 @@ static const char szData[] = "Data";
 
 /* memory allocation macro functions */
 
+/* column masks have 32 bits; a full mask stands for all columns of a wider table */
+static inline unsigned column_bit( unsigned i )
+{
+    return i < 32 ? 1u << i : 0;
+}
+
+static inline unsigned column_mask( unsigned count )
+{
+    return count < 32 ? (1u << count) - 1 : ~0u;
+}
+
+static inline unsigned column_mask_shift( unsigned mask, unsigned n )
+{
+    return n < 32 ? mask >> n : 0;
+}
+
 static void *msi_alloc( size_t len ) G_GNUC_ALLOC_SIZE(1);
 static inline void *msi_alloc( size_t len )
 {
diff --git a/libmsi/select.c b/libmsi/select.c
index c4ab6fd..fbf2d2a 100644
--- a/libmsi/select.c
+++ b/libmsi/select.c
@@ -106,7 +106,7 @@ static unsigned select_view_set_row( LibmsiView *view, unsigned row, LibmsiRecor
          return LIBMSI_RESULT_FUNCTION_FAILED;
 
     /* test if any of the mask bits are invalid */
-    if ( mask >= (1<<sv->num_cols) )
+    if ( mask & ~column_mask( sv->num_cols ) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     /* find the number of columns in the table below */
@@ -125,7 +125,12 @@ static unsigned select_view_set_row( LibmsiView *view, unsigned row, LibmsiRecor
         r = _libmsi_record_copy_field( rec, i+1, expanded, sv->cols[ i ] );
         if (r != LIBMSI_RESULT_SUCCESS)
             break;
-        expanded_mask |= (1<<(sv->cols[i]-1));
+        if (!column_bit( sv->cols[i] - 1 ))
+        {
+            r = LIBMSI_RESULT_FUNCTION_FAILED;
+            break;
+        }
+        expanded_mask |= column_bit( sv->cols[i] - 1 );
     }
 
     /* set the row in the underlying table */
diff --git a/libmsi/table.c b/libmsi/table.c
index 7d7cb60..d7af00d 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1366,7 +1366,7 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     /* test if any of the mask bits are invalid */
-    if ( mask >= (1<<tv->num_cols) )
+    if ( mask & ~column_mask( tv->num_cols ) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     for ( i = 0; i < tv->num_cols; i++ )
@@ -1374,7 +1374,7 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
         bool persistent;
 
         /* only update the fields specified in the mask */
-        if ( !(mask&(1<<i)) )
+        if ( mask != ~0u && !(mask & column_bit( i )) )
             continue;
 
         persistent = (tv->table->persistent != LIBMSI_CONDITION_FALSE) &&
@@ -1737,7 +1737,7 @@ static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsi
 
     /* Re-set the persistence flag */
     tv->table->data_persistent[row] = !temporary;
-    r = table_view_set_row( view, row, rec, (1<<tv->num_cols) - 1 );
+    r = table_view_set_row( view, row, rec, column_mask( tv->num_cols ) );
     if( r != LIBMSI_RESULT_SUCCESS )
         table_view_delete_row( view, row );
 
@@ -2260,7 +2260,7 @@ static LibmsiRecord *msi_get_transform_record( const LibmsiTableView *tv, const
         if ( (mask&1) && (i>=(mask>>8)) )
             break;
         /* all keys must be present */
-        if ( (~mask&1) && (~columns[i].type & MSITYPE_KEY) && ((1<<i) & ~mask) )
+        if ( (~mask&1) && (~columns[i].type & MSITYPE_KEY) && (~mask & column_bit( i )) )
             continue;
 
         if( MSITYPE_IS_BINARY(tv->columns[i].type) )
@@ -2529,7 +2529,7 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
             num_cols = tv->num_cols;
             for (i = 0; i < num_cols; i++)
             {
-                if ((tv->columns[i].type & MSITYPE_KEY) || ((1 << i) & mask))
+                if ((tv->columns[i].type & MSITYPE_KEY) || (column_bit( i ) & mask))
                 {
                     if ((tv->columns[i].type & MSITYPE_STRING) &&
                         !MSITYPE_IS_BINARY(tv->columns[i].type))
@@ -2594,7 +2594,7 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
                 else if (mask & 1)
                 {
                     TRACE("modifying full row [%d]:\n", row);
-                    r = table_view_set_row( &tv->view, row, rec, (1 << tv->num_cols) - 1 );
+                    r = table_view_set_row( &tv->view, row, rec, column_mask( tv->num_cols ) );
                     if (r != LIBMSI_RESULT_SUCCESS)
                         g_warning("failed to modify row %u\n", r);
                 }
diff --git a/libmsi/update.c b/libmsi/update.c
index 60985ba..e708ec5 100644
--- a/libmsi/update.c
+++ b/libmsi/update.c
@@ -107,7 +107,7 @@ static unsigned update_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     for ( i=0; i<row_count; i++ )
     {
-        r = wv->ops->set_row( wv, i, values, (1 << col_count) - 1 );
+        r = wv->ops->set_row( wv, i, values, column_mask( col_count ) );
         if (r != LIBMSI_RESULT_SUCCESS)
             break;
     }
diff --git a/libmsi/where.c b/libmsi/where.c
index 70f00d3..babebb5 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -280,7 +280,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
     if (r != LIBMSI_RESULT_SUCCESS)
         return r;
 
-    if (mask >= 1 << wv->col_count)
+    if (mask & ~column_mask( wv->col_count ))
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     do
@@ -288,7 +288,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
         for (i = 0; i < table->col_count; i++) {
             unsigned type;
 
-            if (!(mask_copy & (1 << i)))
+            if (!(mask_copy & column_bit( i )))
                 continue;
             r = table->view->ops->get_column_info(table->view, i + 1, NULL,
                                             &type, NULL, NULL );
@@ -297,7 +297,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
             if (type & MSITYPE_KEY)
                 return LIBMSI_RESULT_FUNCTION_FAILED;
         }
-        mask_copy >>= table->col_count;
+        mask_copy = column_mask_shift( mask_copy, table->col_count );
     }
     while (mask_copy && (table = table->next));
 
@@ -307,7 +307,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
     {
         const unsigned col_count = table->col_count;
         LibmsiRecord *reduced;
-        unsigned reduced_mask = (mask >> offset) & ((1 << col_count) - 1);
+        unsigned reduced_mask = column_mask_shift( mask, offset ) & column_mask( col_count );
 
         if (!reduced_mask)
         {
-- 
2.43.0


From 76a69dacd62f816532bbf8b1fa31bb6edacb7468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:16 +0000
Subject: [PATCH 38/66] fix: CREATE TABLE with an unnamed column leaves no
 half-made table

---
 libmsi/create.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmsi/create.c b/libmsi/create.c
index 19a4344..449748c 100644
--- a/libmsi/create.c
+++ b/libmsi/create.c
@@ -130,6 +130,11 @@ static unsigned check_columns( const column_info *col_info )
 {
     const column_info *c1, *c2;
 
+    /* _Columns takes no column without a name */
+    for( c1 = col_info; c1; c1 = c1->next )
+        if (!c1->column || !c1->column[0])
+            return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
+
     /* check for two columns with the same name */
     for( c1 = col_info; c1; c1 = c1->next )
         for( c2 = c1->next; c2; c2 = c2->next )
-- 
2.43.0


From 94e26841065f9d991311b6a0aaf9bff9f764b967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:16 +0000
Subject: [PATCH 39/66] fix: ALTER TABLE ADD does not destroy a temporary table

---
 libmsi/alter.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmsi/alter.c b/libmsi/alter.c
index 898afdd..3e4416f 100644
--- a/libmsi/alter.c
+++ b/libmsi/alter.c
@@ -105,6 +105,10 @@ static unsigned alter_add_column(LibmsiAlterView *av)
     static const char query[] =
         "SELECT * FROM `_Columns` WHERE `Table`='%s' ORDER BY `Number`";
 
+    /* the columns of a temporary table are not in _Columns */
+    if (_libmsi_database_is_table_persistent(av->db, av->colinfo->table) == LIBMSI_CONDITION_FALSE)
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
     r = table_view_create(av->db, szColumns, &columns);
     if (r != LIBMSI_RESULT_SUCCESS)
         return r;
-- 
2.43.0


From 229c032e6c861f2e16a5ad194404893a40c8ef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 40/66] fix: SQL text that ends in '-' or a lone quote, and
 integers out of range

A '-' at the end of the text made the tokenizer step backwards, for ever
after a blank; a lone quote was copied with a length of -1. Literals that
do not fit an integer wrapped around.
---
 libmsi/sql-parser.y | 28 +++++++++++++++-------------
 libmsi/tokenize.c   | 16 ++++++++++------
 2 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/libmsi/sql-parser.y b/libmsi/sql-parser.y
index 3d4cd76..84365f0 100644
--- a/libmsi/sql-parser.y
+++ b/libmsi/sql-parser.y
@@ -23,6 +23,7 @@
 
 #include "config.h"
 
+#include <limits.h>
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -51,7 +52,7 @@ typedef struct _LibmsiSQLInput
 } SQL_input;
 
 static unsigned sql_unescape_string( void *info, const struct sql_str *strdata, char **str );
-static int sql_atoi( void *info );
+static bool sql_atoi( const struct sql_str *strdata, int *val );
 static int sql_lex( void *SQL_lval, SQL_input *info );
 
 static char *parser_add_table( void *info, const char *list, const char *table );
@@ -745,7 +746,8 @@ string:
 number:
     TK_INTEGER
         {
-            $$ = sql_atoi( info );
+            if( !sql_atoi( &$1, &$$ ) )
+                YYABORT;
         }
     ;
 
@@ -846,23 +848,23 @@ unsigned sql_unescape_string( void *info, const struct sql_str *strdata, char **
     return LIBMSI_RESULT_SUCCESS;
 }
 
-int sql_atoi( void *info )
+static bool sql_atoi( const struct sql_str *strdata, int *val )
 {
-    SQL_input* sql = (SQL_input*) info;
-    const char *p = &sql->command[sql->n];
     int i, r = 0;
 
-    for( i=0; i<sql->len; i++ )
+    for( i=0; i<strdata->len; i++ )
     {
-        if( '0' > p[i] || '9' < p[i] )
-        {
-            g_critical("should only be numbers here!\n");
-            break;
-        }
-        r = (p[i]-'0') + r*10;
+        int digit = strdata->data[i] - '0';
+
+        if( digit < 0 || digit > 9 )
+            return false;
+        if( r > (INT_MAX - digit) / 10 )
+            return false;
+        r = digit + r*10;
     }
 
-    return r;
+    *val = r;
+    return true;
 }
 
 static int sql_error(void *info, const char *str )
diff --git a/libmsi/tokenize.c b/libmsi/tokenize.c
index 20a3327..72ede5e 100644
--- a/libmsi/tokenize.c
+++ b/libmsi/tokenize.c
@@ -157,9 +157,9 @@ static const char isIdChar[] = {
 
 
 /*
-** Return the length of the token that begins at z[0].  Return
-** -1 if the token is (or might be) incomplete.  Store the token
-** type in *tokenType before returning.
+** Return the length of the token that begins at z[0], which is not
+** the end of the text.  Store the token type in *tokenType before
+** returning.
 */
 int sql_get_token(const char *zz, int *tokenType, int *skip){
   guint8 *z = (guint8*)zz;
@@ -172,7 +172,6 @@ int sql_get_token(const char *zz, int *tokenType, int *skip){
       *tokenType = TK_SPACE;
       return i;
     case '-':
-      if( z[1]==0 ) return -1;
       *tokenType = TK_MINUS;
       return 1;
     case '(':
@@ -209,7 +208,7 @@ int sql_get_token(const char *zz, int *tokenType, int *skip){
     case '!':
       if( z[1]!='=' ){
         *tokenType = TK_ILLEGAL;
-        return 2;
+        return 1;
       }else{
         *tokenType = TK_NE;
         return 2;
@@ -226,7 +225,12 @@ int sql_get_token(const char *zz, int *tokenType, int *skip){
         if( z[i]==delim )
           break;
       }
-      if( z[i] ) i++;
+      if( !z[i] ){
+        /* not terminated */
+        *tokenType = TK_ILLEGAL;
+        return i;
+      }
+      i++;
       if( delim == '`' )
         *tokenType = TK_ID;
       else
-- 
2.43.0


From 659099fe37985bdbc5c9954d492dd47d15437cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 41/66] fix: a query FROM an empty table name with a WHERE
 clause crashed

---
 libmsi/where.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/where.c b/libmsi/where.c
index babebb5..a478bd7 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -1107,7 +1107,7 @@ unsigned where_view_create( LibmsiDatabase *db, LibmsiView **view, char *tables,
     wv->db = g_object_ref(db);
     wv->cond = cond;
 
-    while (*tables)
+    for (;;)
     {
         JOINTABLE *table;
 
-- 
2.43.0


From e6c0f77bb5c6d47eeb7e92ffda4d2b0895691f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 42/66] fix: importing a table file that is malformed or does
 not fit

Long type fields and column names overran fixed buffers, a file without
keys wrote before its buffer, rows with fewer fields than columns were
read beyond their end, and an empty file was read before its start.
Columns of a new table whose keys do not come first received each
other's values. Integers that are none were imported as 0.

A row that cannot be imported now leaves the table as it was instead of
half filled (or created).
---
 libmsi/libmsi-database.c | 267 +++++++++++++++++++++++----------------
 libmsi/msipriv.h         |   1 +
 libmsi/table.c           |  45 +++++++
 3 files changed, 203 insertions(+), 110 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index c1ca881..f67f730 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -690,7 +690,7 @@ static char *msi_read_text_archive(const char *path, unsigned *len)
     if (!g_file_get_contents(path, &data, &nread, NULL))
         return NULL;
 
-    while (!data[nread - 1]) nread--;
+    while (nread && !data[nread - 1]) nread--;
     *len = nread;
     return data;
 }
@@ -783,99 +783,62 @@ static char *msi_build_createsql_prelude(char *table)
 
 static char *msi_build_createsql_columns(char **columns_data, char **types, unsigned num_columns)
 {
-    char *columns;
-    char *p;
-    const char *type;
-    unsigned sql_size = 1, i, len;
-    char expanded[128], *ptr;
-    char size[10], comma[2], extra[30];
-
-    static const char column_fmt[] = "`%s` %s%s%s%s ";
-    static const char size_fmt[] = "(%s)";
-    static const char type_char[] = "CHAR";
-    static const char type_int[] = "INT";
-    static const char type_long[] = "LONG";
-    static const char type_object[] = "OBJECT";
-    static const char type_notnull[] = " NOT NULL";
-    static const char localizable[] = " LOCALIZABLE";
-
-    columns = msi_alloc_zero(sql_size * sizeof(char));
-    if (!columns)
-        return NULL;
+    GString *columns = g_string_new(NULL);
+    unsigned i;
 
     for (i = 0; i < num_columns; i++)
     {
-        type = NULL;
-        comma[1] = size[0] = extra[0] = '\0';
-
-        if (i == num_columns - 1)
-            comma[0] = '\0';
-        else
-            comma[0] = ',';
+        const char *width = types[i][0] ? &types[i][1] : "";
+        bool string = false, localizable = false;
+        const char *type;
 
-        ptr = &types[i][1];
-        len = atol(ptr);
-        extra[0] = '\0';
+        if (strchr(columns_data[i], '`') ||
+            width[strspn(width, "0123456789")])
+            goto error;
 
         switch (types[i][0])
         {
-            case 'l':
-                strcpy(extra, type_notnull);
-                /* fall through */
-            case 'L':
-                strcat(extra, localizable);
-                type = type_char;
-                sprintf(size, size_fmt, ptr);
-                break;
-            case 's':
-                strcpy(extra, type_notnull);
+            case 'l': case 'L':
+                localizable = true;
                 /* fall through */
-            case 'S':
-                type = type_char;
-                sprintf(size, size_fmt, ptr);
+            case 's': case 'S':
+                string = true;
+                type = "CHAR";
                 break;
-            case 'i':
-                strcpy(extra, type_notnull);
-                /* fall through */
-            case 'I':
-                if (len <= 2)
-                    type = type_int;
-                else if (len == 4)
-                    type = type_long;
+            case 'i': case 'I':
+                if (strtol(width, NULL, 10) <= 2)
+                    type = "INT";
+                else if (strtol(width, NULL, 10) == 4)
+                    type = "LONG";
                 else
                 {
-                    g_warning("invalid int width %u\n", len);
-                    msi_free(columns);
-                    return NULL;
+                    g_warning("invalid int width %s\n", width);
+                    goto error;
                 }
                 break;
-            case 'v':
-                strcpy(extra, type_notnull);
-                /* fall through */
-            case 'V':
-                type = type_object;
+            case 'v': case 'V':
+                type = "OBJECT";
                 break;
             default:
-                g_critical("Unknown type: %c\n", types[i][0]);
-                msi_free(columns);
-                return NULL;
-        }
-
-        sprintf(expanded, column_fmt, columns_data[i], type, size, extra, comma);
-        sql_size += strlen(expanded);
-
-        p = msi_realloc(columns, sql_size * sizeof(char));
-        if (!p)
-        {
-            msi_free(columns);
-            return NULL;
+                g_warning("Unknown type: %s\n", types[i]);
+                goto error;
         }
-        columns = p;
 
-        strcat(columns, expanded);
+        g_string_append_printf(columns, "`%s` %s", columns_data[i], type);
+        if (string)
+            g_string_append_printf(columns, "(%s)", width);
+        if (g_ascii_islower(types[i][0]))
+            g_string_append(columns, " NOT NULL");
+        if (localizable)
+            g_string_append(columns, " LOCALIZABLE");
+        g_string_append(columns, i + 1 < num_columns ? ", " : " ");
     }
 
-    return columns;
+    return g_string_free(columns, FALSE);
+
+error:
+    g_string_free(columns, TRUE);
+    return NULL;
 }
 
 static char *msi_build_createsql_postlude(char **primary_keys, unsigned num_keys)
@@ -888,6 +851,9 @@ static char *msi_build_createsql_postlude(char **primary_keys, unsigned num_keys
     static const char key_fmt[] = "`%s`, ";
     static const char postlude_fmt[] = "PRIMARY KEY %s)";
 
+    if (!num_keys)
+        return NULL;
+
     for (i = 0, size = 1; i < num_keys; i++)
         size += strlen(key_fmt) + strlen(primary_keys[i]) - 2;
 
@@ -966,7 +932,8 @@ done:
 }
 
 static unsigned construct_record(unsigned num_columns, char **types,
-                             char **data, const char *name, LibmsiRecord **rec)
+                             char **data, const unsigned *order,
+                             const char *name, LibmsiRecord **rec)
 {
     unsigned i;
 
@@ -976,79 +943,147 @@ static unsigned construct_record(unsigned num_columns, char **types,
 
     for (i = 0; i < num_columns; i++)
     {
-        switch (types[i][0])
+        char *field = data[order[i]];
+
+        switch (types[order[i]][0])
         {
             case 'L': case 'l': case 'S': case 's':
-                libmsi_record_set_string(*rec, i + 1, data[i]);
+                libmsi_record_set_string(*rec, i + 1, field);
                 break;
             case 'I': case 'i':
-                if (*data[i])
-                    libmsi_record_set_int(*rec, i + 1, atoi(data[i]));
+                if (*field)
+                {
+                    char *end;
+                    gint64 val = g_ascii_strtoll(field, &end, 10);
+
+                    if (*end || val < G_MININT || val > G_MAXINT)
+                        goto error;
+                    libmsi_record_set_int(*rec, i + 1, val);
+                }
                 break;
             case 'V': case 'v':
-                if (*data[i])
+                if (*field)
                 {
                     unsigned r;
-                    char *file = g_build_filename (name, data[i], NULL);
+                    char *file = g_build_filename (name, field, NULL);
                     r = _libmsi_record_load_stream_from_file(*rec, i + 1, file);
                     g_free (file);
                     if (r != LIBMSI_RESULT_SUCCESS)
-                        return LIBMSI_RESULT_FUNCTION_FAILED;
+                        goto error;
                 }
                 break;
             default:
-                g_critical("Unhandled column type: %c\n", types[i][0]);
-                g_object_unref(*rec);
-                return LIBMSI_RESULT_FUNCTION_FAILED;
+                g_warning("Unhandled column type: %c\n", types[order[i]][0]);
+                goto error;
         }
     }
 
     return LIBMSI_RESULT_SUCCESS;
+
+error:
+    g_object_unref(*rec);
+    *rec = NULL;
+    return LIBMSI_RESULT_FUNCTION_FAILED;
+}
+
+/* find each column of the table in the file */
+static unsigned match_columns(LibmsiView *view, char **columns, unsigned num_columns,
+                              unsigned *order)
+{
+    unsigned r, i, j, num_cols;
+
+    r = view->ops->get_dimensions( view, NULL, &num_cols );
+    if (r != LIBMSI_RESULT_SUCCESS)
+        return r;
+
+    if (num_cols != num_columns)
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
+    for (i = 0; i < num_cols; i++)
+    {
+        const char *name;
+
+        r = view->ops->get_column_info( view, i + 1, &name, NULL, NULL, NULL );
+        if (r != LIBMSI_RESULT_SUCCESS)
+            return r;
+
+        for (j = 0; j < num_columns; j++)
+            if (!strcmp(name, columns[j]))
+                break;
+        if (j == num_columns)
+            return LIBMSI_RESULT_FUNCTION_FAILED;
+        order[i] = j;
+    }
+
+    return LIBMSI_RESULT_SUCCESS;
+}
+
+static unsigned replace_rows(LibmsiView *view, LibmsiRecord **recs, int num_records)
+{
+    unsigned r, num_rows;
+    int i;
+
+    r = view->ops->get_dimensions( view, &num_rows, NULL );
+
+    while (r == LIBMSI_RESULT_SUCCESS && num_rows > 0)
+        r = view->ops->delete_row(view, --num_rows);
+
+    for (i = 0; i < num_records && r == LIBMSI_RESULT_SUCCESS; i++)
+        r = view->ops->insert_row(view, recs[i], -1, false);
+
+    return r;
 }
 
 static unsigned msi_add_records_to_table(LibmsiDatabase *db, char **columns, char **types,
                                      char **labels, char ***records,
                                      int num_columns, int num_records)
 {
-    unsigned r, num_rows, num_cols;
+    unsigned r;
     int i;
     LibmsiView *view;
-    LibmsiRecord *rec;
+    LibmsiRecord **recs;
+    unsigned *order;
 
     r = table_view_create(db, labels[0], &view);
     if (r != LIBMSI_RESULT_SUCCESS)
         return r;
 
-    r = view->ops->get_dimensions( view, &num_rows, &num_cols );
-    if (r != LIBMSI_RESULT_SUCCESS)
-        return r;
+    recs = g_new0(LibmsiRecord *, num_records + 1);
+
+    order = g_new(unsigned, num_columns);
+
+    r = match_columns(view, columns, num_columns, order);
 
-    while (num_rows > 0)
+    for (i = 0; i < num_records && r == LIBMSI_RESULT_SUCCESS; i++)
+        r = construct_record(num_columns, types, records[i], order, labels[0], &recs[i]);
+
+    if (r == LIBMSI_RESULT_SUCCESS)
     {
-        r = view->ops->delete_row(view, --num_rows);
-        if (r != LIBMSI_RESULT_SUCCESS)
-            goto done;
+        if (!strcmp(labels[0], szStreams) || !strcmp(labels[0], szStorages))
+            r = replace_rows(view, recs, num_records);
+        else
+            r = table_view_replace_rows(view, recs, num_records);
     }
 
     for (i = 0; i < num_records; i++)
-    {
-        r = construct_record(num_columns, types, records[i], labels[0], &rec);
-        if (r != LIBMSI_RESULT_SUCCESS)
-            goto done;
+        if (recs[i])
+            g_object_unref(recs[i]);
+    g_free(recs);
+    g_free(order);
 
-        r = view->ops->insert_row(view, rec, -1, false);
-        if (r != LIBMSI_RESULT_SUCCESS)
-        {
-            g_object_unref(rec);
-            goto done;
-        }
+    view->ops->delete(view);
+    return r;
+}
 
-        g_object_unref(rec);
-    }
+static void drop_table(LibmsiDatabase *db, const char *name)
+{
+    LibmsiView *view;
 
-done:
+    if (table_view_create(db, name, &view) != LIBMSI_RESULT_SUCCESS)
+        return;
+
+    view->ops->drop(view);
     view->ops->delete(view);
-    return r;
 }
 
 static unsigned _libmsi_database_import(LibmsiDatabase *db, const char *path)
@@ -1104,9 +1139,16 @@ static unsigned _libmsi_database_import(LibmsiDatabase *db, const char *path)
     /* read in the table records */
     while (len)
     {
-        msi_parse_line( &ptr, &records[num_records], NULL, &len );
+        unsigned num_fields;
+
+        msi_parse_line( &ptr, &records[num_records], &num_fields, &len );
 
         num_records++;
+        if (num_fields < num_columns)
+        {
+            r = LIBMSI_RESULT_FUNCTION_FAILED;
+            goto done;
+        }
         temp_records = msi_realloc(records, (num_records + 1) * sizeof(char **));
         if (!temp_records)
         {
@@ -1127,6 +1169,8 @@ static unsigned _libmsi_database_import(LibmsiDatabase *db, const char *path)
     }
     else
     {
+        bool created = false;
+
         if (!table_view_exists(db, labels[0]))
         {
             r = msi_add_table_to_db( db, columns, types, labels, num_labels, num_columns );
@@ -1135,9 +1179,12 @@ static unsigned _libmsi_database_import(LibmsiDatabase *db, const char *path)
                 r = LIBMSI_RESULT_FUNCTION_FAILED;
                 goto done;
             }
+            created = true;
         }
 
         r = msi_add_records_to_table( db, columns, types, labels, records, num_columns, num_records);
+        if (r != LIBMSI_RESULT_SUCCESS && created)
+            drop_table( db, labels[0] );
     }
 
 done:
diff --git a/libmsi/msipriv.h b/libmsi/msipriv.h
index da7decf..6d156eb 100644
--- a/libmsi/msipriv.h
+++ b/libmsi/msipriv.h
@@ -356,6 +356,7 @@ extern unsigned msi_set_string_table_codepage( string_table *st, unsigned codepa
 
 unsigned _libmsi_open_table( LibmsiDatabase *db, const char *name, bool encoded );
 extern bool table_view_exists( LibmsiDatabase *db, const char *name );
+extern unsigned table_view_replace_rows( LibmsiView *view, LibmsiRecord **recs, unsigned count );
 extern LibmsiCondition _libmsi_database_is_table_persistent( LibmsiDatabase *db, const char *table );
 
 extern unsigned read_stream_data( GsfInfile *stg, const char *stname,
diff --git a/libmsi/table.c b/libmsi/table.c
index d7af00d..0416af4 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1782,6 +1782,51 @@ static unsigned table_view_delete_row( LibmsiView *view, unsigned row )
     return LIBMSI_RESULT_SUCCESS;
 }
 
+/* Exchanges all rows of the table for the given ones, or none. */
+unsigned table_view_replace_rows( LibmsiView *view, LibmsiRecord **recs, unsigned count )
+{
+    LibmsiTableView *tv = (LibmsiTableView*)view;
+    LibmsiTable *table = tv->table;
+    uint8_t **data;
+    bool *data_persistent;
+    unsigned i, row_count, r = LIBMSI_RESULT_SUCCESS;
+
+    if ( !table )
+        return LIBMSI_RESULT_INVALID_PARAMETER;
+
+    data = table->data;
+    data_persistent = table->data_persistent;
+    row_count = table->row_count;
+    table->data = NULL;
+    table->data_persistent = NULL;
+    table->row_count = 0;
+
+    for ( i = 0; i < count && r == LIBMSI_RESULT_SUCCESS; i++ )
+        r = table_view_insert_row( view, recs[i], -1, false );
+
+    if ( r != LIBMSI_RESULT_SUCCESS )
+    {
+        uint8_t **new_data = table->data;
+        unsigned new_count = table->row_count;
+
+        msi_free( table->data_persistent );
+        table->data = data;
+        table->data_persistent = data_persistent;
+        table->row_count = row_count;
+
+        data = new_data;
+        data_persistent = NULL;
+        row_count = new_count;
+    }
+
+    for ( i = 0; i < row_count; i++ )
+        msi_free( data[i] );
+    msi_free( data );
+    msi_free( data_persistent );
+
+    return r;
+}
+
 static unsigned table_view_delete( LibmsiView *view )
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
-- 
2.43.0


From 84fdaabe1f93da7d2d36f72d6bb817b9a267194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:00 +0000
Subject: [PATCH 43/66] fix: exported tables lose data: control characters,
 write errors, streams

---
 libmsi/libmsi-database.c     | 132 +++++++++++++++++++++++++----------
 libmsi/libmsi-summary-info.c |   2 +
 2 files changed, 97 insertions(+), 37 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index f67f730..433c7fa 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -18,6 +18,7 @@
  * Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA 02110-1301, USA
  */
 
+#include <errno.h>
 #include <stdarg.h>
 #include <stdio.h>
 #include <unistd.h>
@@ -695,6 +696,59 @@ static char *msi_read_text_archive(const char *path, unsigned *len)
     return data;
 }
 
+/* Characters that would disturb the layout of a table file, and what
+ * stands for them there. */
+static const char text_chars[] = "\t\n\r\f\b";
+static const char text_escapes[] = "\x10\x19\x11\x18\x1b";
+
+static char unescape_char(char c)
+{
+    const char *p = c ? strchr(text_escapes, c) : NULL;
+
+    return p ? text_chars[p - text_escapes] : c;
+}
+
+static bool write_full(int fd, const char *str, size_t len)
+{
+    while (len)
+    {
+        ssize_t n = write(fd, str, len);
+
+        if (n < 0 && errno == EINTR)
+            continue;
+        if (n <= 0)
+            return false;
+        str += n;
+        len -= n;
+    }
+
+    return true;
+}
+
+static bool write_string(int fd, const char *str)
+{
+    return write_full(fd, str, strlen(str));
+}
+
+static bool write_escaped(int fd, const char *str)
+{
+    char *text = g_strdup(str);
+    bool ret;
+    char *p;
+
+    for (p = text; *p; p++)
+    {
+        const char *c = strchr(text_chars, *p);
+
+        if (c)
+            *p = text_escapes[c - text_chars];
+    }
+
+    ret = write_string(fd, text);
+    g_free(text);
+    return ret;
+}
+
 static void msi_parse_line(char **line, char ***entries, unsigned *num_entries, unsigned *len)
 {
     char *ptr = *line;
@@ -732,11 +786,7 @@ static void msi_parse_line(char **line, char ***entries, unsigned *num_entries,
         while (chars_left && *ptr != '\t' && *ptr != '\n' && *ptr != '\r')
         {
             if (!*ptr) *ptr = '\n'; /* convert embedded nulls to \n */
-            if (ptr > *line && *ptr == '\x19' && *(ptr - 1) == '\x11')
-            {
-                *ptr = '\n';
-                *(ptr - 1) = '\r';
-            }
+            *ptr = unescape_char(*ptr);
             ptr++;
             chars_left--;
         }
@@ -1244,6 +1294,7 @@ msi_export_stream (GsfInput *gsfin, GFile *table_dir, gchar **str,
     GOutputStream *out = NULL;
     gssize spliced = -1;
 
+    *str = NULL;
     if (!table_dir)
         goto end;
 
@@ -1254,12 +1305,22 @@ msi_export_stream (GsfInput *gsfin, GFile *table_dir, gchar **str,
     }
 
     *str = g_strdup (g_object_get_data (G_OBJECT (gsfin), "stname"));
+    if (!*str)
+        goto end;
     file = g_file_get_child (table_dir, *str);
     out = G_OUTPUT_STREAM (g_file_replace (file, NULL, FALSE, 0, NULL, error));
+    if (!out)
+        goto end;
     in = G_INPUT_STREAM (libmsi_istream_new (gsfin));
-    spliced = g_output_stream_splice (out, in, 0, NULL, NULL);
+    if (!in)
+        goto end;
+    spliced = g_output_stream_splice (out, in, G_OUTPUT_STREAM_SPLICE_CLOSE_TARGET, NULL, error);
 
 end:
+    if (spliced == -1) {
+        g_free (*str);
+        *str = NULL;
+    }
     g_clear_error (&err);
     if (file)
         g_object_unref (file);
@@ -1295,16 +1356,14 @@ static unsigned msi_export_record(int fd, LibmsiRecord *row,
                 goto end;
         }
 
-        /* TODO full_write */
-        if (write (fd, str, strlen (str)) != strlen (str)) {
+        if (!write_escaped (fd, str)) {
             g_free (str);
             goto end;
         }
 
         g_free (str);
 
-        const char *sep = (i < count) ? "\t" : "\r\n";
-        if (write (fd, sep, strlen (sep)) != strlen (sep))
+        if (!write_string (fd, (i < count) ? "\t" : "\r\n"))
             goto end;
     }
 
@@ -1335,12 +1394,10 @@ static LibmsiResult msi_export_forcecodepage( int fd, unsigned codepage )
 {
     static const char fmt[] = "\r\n\r\n%u\t_ForceCodepage\r\n";
     char data[sizeof(fmt) + 10];
-    unsigned sz;
 
     sprintf( data, fmt, codepage );
 
-    sz = strlen(data) + 1;
-    if (write( fd, data, sz ) != sz)
+    if (!write_full( fd, data, strlen(data) + 1 ))
         return LIBMSI_RESULT_FUNCTION_FAILED;
 
     return LIBMSI_RESULT_SUCCESS;
@@ -1352,34 +1409,31 @@ static LibmsiResult msi_export_summaryinfo (LibmsiDatabase *db, int fd, GError *
         "PropertyId\tValue\r\ni2\tl255\r\n_SummaryInformation\tPropertyId\r\n";
     LibmsiResult result = LIBMSI_RESULT_FUNCTION_FAILED;
     LibmsiSummaryInfo *si = libmsi_summary_info_new (db, 0, error);
-    gchar *str = NULL;
-    gssize sz;
     int i;
 
     if (!si)
         goto end;
 
-    sz = strlen (header);
-    if (write (fd, header, sz) != sz)
+    if (!write_string (fd, header))
         goto end;
 
     for (i = 0; i < MSI_MAX_PROPS; i++)
         if (si->property[i].vt != OLEVT_EMPTY) {
             gchar *val = summary_info_as_string (si, i);
-            if (!val)
+            char id[16];
+            bool ok;
+
+            sprintf (id, "%d\t", i);
+            ok = val && write_string (fd, id) && write_escaped (fd, val) &&
+                write_string (fd, "\r\n");
+            g_free (val);
+            if (!ok)
                 goto end;
-            str = g_strdup_printf ("%d\t%s\r\n", i, val);
-            sz = strlen (str);
-            if (write (fd, str, sz) != sz)
-                goto end;
-            g_free (str);
-            str = NULL;
         }
 
     result = LIBMSI_RESULT_SUCCESS;
 
 end:
-    g_free (str);
     if (si)
         g_object_unref (si);
     return result;
@@ -1388,7 +1442,7 @@ end:
 static LibmsiResult _libmsi_database_export(LibmsiDatabase *db, const char *table,
                                         int fd, GError **error)
 {
-    static const char query[] = "select * from %s";
+    static const char query[] = "select * from `%s`";
     LibmsiRecord *rec = NULL;
     LibmsiQuery *view = NULL;
     LibmsiResult r;
@@ -1405,38 +1459,42 @@ static LibmsiResult _libmsi_database_export(LibmsiDatabase *db, const char *tabl
     r = _libmsi_query_open( db, &view, query, table );
     if (r == LIBMSI_RESULT_SUCCESS)
     {
+        ExportRow export = {
+            .fd = fd,
+            .table_dir = g_file_new_for_path (table),
+            .error = error
+        };
+
         /* write out row 1, the column names */
         r = _libmsi_query_get_column_info(view, LIBMSI_COL_INFO_NAMES, &rec);
         if (r == LIBMSI_RESULT_SUCCESS)
         {
-            msi_export_record( fd, rec, 1, NULL, error);
+            r = msi_export_record( fd, rec, 1, NULL, error);
             g_object_unref(rec);
         }
 
         /* write out row 2, the column types */
-        r = _libmsi_query_get_column_info(view, LIBMSI_COL_INFO_TYPES, &rec);
+        if (r == LIBMSI_RESULT_SUCCESS)
+            r = _libmsi_query_get_column_info(view, LIBMSI_COL_INFO_TYPES, &rec);
         if (r == LIBMSI_RESULT_SUCCESS)
         {
-            msi_export_record( fd, rec, 1, NULL, error);
+            r = msi_export_record( fd, rec, 1, NULL, error);
             g_object_unref(rec);
         }
 
         /* write out row 3, the table name + keys */
-        r = _libmsi_database_get_primary_keys( db, table, &rec );
+        if (r == LIBMSI_RESULT_SUCCESS)
+            r = _libmsi_database_get_primary_keys( db, table, &rec );
         if (r == LIBMSI_RESULT_SUCCESS)
         {
             libmsi_record_set_string( rec, 0, table );
-            msi_export_record( fd, rec, 0, NULL, error);
+            r = msi_export_record( fd, rec, 0, NULL, error);
             g_object_unref(rec);
         }
 
         /* write out row 4 onwards, the data */
-        ExportRow export = {
-            .fd = fd,
-            .table_dir = g_file_new_for_path (table),
-            .error = error
-        };
-        r = _libmsi_query_iterate_records( view, 0, msi_export_row, &export);
+        if (r == LIBMSI_RESULT_SUCCESS)
+            r = _libmsi_query_iterate_records( view, 0, msi_export_row, &export);
 
         g_object_unref (export.table_dir);
         g_object_unref (view);
diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index c089d06..3bbe39b 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -257,6 +257,8 @@ static gchar* filetime_to_string (guint64 ft)
     ft -= 134774ULL * 86400ULL;
 
     dt = g_date_time_new_from_unix_local(ft);
+    if (!dt)
+        return NULL;
 
     return g_date_time_format(dt, "%Y/%m/%d %H:%M:%S");
 }
-- 
2.43.0


From 51ddbf243f3dd6c66298b851a239b4fe0d7cdc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:40 +0000
Subject: [PATCH 44/66] fix: msiinfo export -s: backslashes and line ends, NULL
 first columns, tables without rows

---
 tools/msiinfo.c | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/tools/msiinfo.c b/tools/msiinfo.c
index f029ef8..1b03c84 100644
--- a/tools/msiinfo.c
+++ b/tools/msiinfo.c
@@ -494,10 +494,8 @@ static void print_quoted_string(const char *s)
 {
     putchar('\'');
     for (; *s; s++) {
+        /* MSI SQL has no escapes, everything but a quote stands for itself */
         switch (*s) {
-        case '\n': putchar('\\'); putchar('n'); break;
-        case '\r': putchar('\\'); putchar('r'); break;
-        case '\\': putchar('\\'); putchar('\\'); break;
         case '\'': putchar('\\'); putchar('\''); break;
         default: putchar(*s);
         }
@@ -512,6 +510,7 @@ static gboolean export_insert(const char *table,
 {
     guint num_columns = libmsi_record_get_field_count(names);
     gchar *name, *type;
+    const char *sep = "";
     guint i;
     char *s;
 
@@ -525,23 +524,20 @@ static gboolean export_insert(const char *table,
         name = libmsi_record_get_string(names, i);
         g_return_val_if_fail(name != NULL, FALSE);
 
-        if (i > 1) {
-            printf(", ");
-        }
-
-        printf("`%s`", name);
+        printf("%s`%s`", sep, name);
+        sep = ", ";
         g_free(name);
     }
     printf(") VALUES (");
+    sep = "";
     for (i = 1; i <= num_columns; i++)
     {
         if (libmsi_record_is_null(vals, i)) {
             continue;
         }
 
-        if (i > 1) {
-            printf(", ");
-        }
+        printf("%s", sep);
+        sep = ", ";
 
         type = libmsi_record_get_string(types, i);
         g_return_val_if_fail(type != NULL, FALSE);
@@ -610,6 +606,7 @@ static gboolean export_sql( LibmsiDatabase *db, const char *table, GError **erro
         goto done;
 
     /* write out row 4 onwards, the data */
+    success = TRUE;
     while ((rec = libmsi_query_fetch(query, &err))) {
         success = export_insert(table, name, type, rec);
         g_object_unref(rec);
@@ -626,10 +623,11 @@ static gboolean export_sql( LibmsiDatabase *db, const char *table, GError **erro
     g_clear_error(&err);
 
 done:
-    g_object_unref(name);
-    g_object_unref(type);
-    g_object_unref(keys);
-    g_object_unref(query);
+    g_clear_object(&name);
+    g_clear_object(&type);
+    g_clear_object(&keys);
+    g_clear_object(&query);
+    g_free(sql);
     return success;
 }
 
-- 
2.43.0


From bd4ea5853eb0ed20d8f30e04a474265fca67aec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 45/66] fix: msibuild: failing actions must stop it with a
 nonzero status

---
 tools/msibuild.c | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/tools/msibuild.c b/tools/msibuild.c
index e9ae922..2ee1a80 100644
--- a/tools/msibuild.c
+++ b/tools/msibuild.c
@@ -183,7 +183,7 @@ static gboolean add_stream(const char *stream, const char *file, GError **error)
     rec = libmsi_record_new(2);
     libmsi_record_set_string(rec, 1, stream);
     if (!libmsi_record_load_stream(rec, 2, file)) {
-        fprintf(stderr, "failed to load stream (%u)\n", r);
+        fprintf(stderr, "failed to load stream from %s\n", file);
         goto end;
     }
 
@@ -203,7 +203,7 @@ end:
     if (rec)
         g_object_unref(rec);
     if (query) {
-        libmsi_query_close(query, error);
+        libmsi_query_close(query, *error ? NULL : error);
         g_object_unref(query);
     }
 
@@ -231,7 +231,7 @@ static int do_query(const char *sql, void *opaque)
 
 end:
     if (query) {
-        libmsi_query_close(query, error);
+        libmsi_query_close(query, *error ? NULL : error);
         g_object_unref(query);
     }
 
@@ -277,13 +277,14 @@ int main(int argc, char *argv[])
     }
     if (!success) return 1;
 
+    success = FALSE;
     argc -= 2, argv += 2;
     while (argc > 0) {
         int ret;
-        if (argc < 2 || argv[0][0] != '-' || argv[0][2])
+        if (argc < 2 || argv[0][0] != '-' || strlen(argv[0]) != 2)
         {
             show_usage();
-            return 1;
+            goto end;
         }
 
         switch (argv[0][1])
@@ -303,7 +304,7 @@ int main(int argc, char *argv[])
         case 'i':
             do {
                 if (!import_table(argv[1], &error))
-                    break;
+                    goto end;
 
                 argc--, argv++;
             } while (argv[1] && argv[1][0] != '-');
@@ -316,7 +317,7 @@ int main(int argc, char *argv[])
                     ret = sql_get_statement("", do_query, &error);
                 }
                 if (ret) {
-                    break;
+                    goto end;
                 }
                 argc--, argv++;
             } while (argv[1] && argv[1][0] != '-');
@@ -325,7 +326,7 @@ int main(int argc, char *argv[])
         case 'a':
             if (argc < 3) {
                 show_usage();
-                return 1;
+                goto end;
             }
             if (!add_stream(argv[1], argv[2], &error))
                 goto end;
@@ -334,12 +335,11 @@ int main(int argc, char *argv[])
         default:
             fprintf(stdout, "unknown option\n");
             show_usage();
-            return 1;
+            goto end;
         }
     }
 
-    if (!libmsi_database_commit(db, &error))
-        goto end;
+    success = libmsi_database_commit(db, &error);
 
 end:
     g_object_unref(db);
@@ -347,8 +347,7 @@ end:
     if (error != NULL) {
         g_printerr("error: %s\n", error->message);
         g_clear_error(&error);
-        exit(1);
     }
 
-    return 0;
+    return success ? 0 : 1;
 }
-- 
2.43.0


From ca3bc744ae3e2f3ada9aa45d6420a2eea2c34ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 46/66] fix: msiinfo extract of a missing stream; status of
 failed queries

---
 tools/msiinfo.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/tools/msiinfo.c b/tools/msiinfo.c
index 1b03c84..1a28110 100644
--- a/tools/msiinfo.c
+++ b/tools/msiinfo.c
@@ -192,7 +192,7 @@ static int cmd_streams(struct Command *cmd, int argc, char **argv, GError **erro
         goto end;
 
     print_strings_from_query(query, error);
-    r = 0;
+    r = *error ? 1 : 0;
 
 end:
     if (query)
@@ -221,7 +221,7 @@ static int cmd_tables(struct Command *cmd, int argc, char **argv, GError **error
     if (!query)
         goto end;
 
-    r = libmsi_query_execute(query, NULL, error);
+    libmsi_query_execute(query, NULL, error);
     if (*error)
         goto end;
 
@@ -229,7 +229,7 @@ static int cmd_tables(struct Command *cmd, int argc, char **argv, GError **error
     puts("_ForceCodepage");
     print_strings_from_query(query, error);
 
-    r = 0;
+    r = *error ? 1 : 0;
 
 end:
     if (query)
@@ -372,7 +372,7 @@ static int cmd_extract(struct Command *cmd, int argc, char **argv, GError **erro
 
     rec = libmsi_record_new(1);
     libmsi_record_set_string(rec, 1, argv[2]);
-    r = libmsi_query_execute(query, rec, error);
+    libmsi_query_execute(query, rec, error);
     if (*error)
         goto end;
     g_object_unref(rec);
@@ -380,12 +380,19 @@ static int cmd_extract(struct Command *cmd, int argc, char **argv, GError **erro
     rec = libmsi_query_fetch(query, error);
     if (*error)
         goto end;
+    if (!rec) {
+        fprintf(stderr, "%s: stream '%s' not found\n", g_get_prgname (), argv[2]);
+        goto end;
+    }
 
 #if O_BINARY
     _setmode(STDOUT_FILENO, O_BINARY);
 #endif
 
     in = G_INPUT_STREAM (libmsi_record_get_stream(rec, 1));
+    if (!in)
+        goto end;
+
     for (;;) {
         n_read = g_input_stream_read (in, buffer, sizeof (buffer), NULL, error);
         if (n_read == -1)
-- 
2.43.0


From a94d275928f889c52745048b0a891913c2de7745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:44 +0000
Subject: [PATCH 47/66] fix: the code page of a database without strings was
 lost

---
 libmsi/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index 08e27c6..38b566e 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -513,13 +513,13 @@ string_table *msi_load_string_table( GsfInfile *stg, unsigned *bytes_per_strref
     if( r != LIBMSI_RESULT_SUCCESS)
         goto end;
 
-    if ( (poolsize > 4) && (GUINT16_FROM_LE(pool[1]) & 0x8000) )
+    if ( (poolsize >= 4) && (GUINT16_FROM_LE(pool[1]) & 0x8000) )
         *bytes_per_strref = LONG_STR_BYTES;
     else
         *bytes_per_strref = sizeof(uint16_t);
 
     count = poolsize/4;
-    if( poolsize > 4 )
+    if( poolsize >= 4 )
         codepage = GUINT16_FROM_LE(pool[0]) | ( (GUINT16_FROM_LE(pool[1]) & ~0x8000) << 16 );
     else
         codepage = CP_ACP;
-- 
2.43.0


From 459cdddce1915e841d188ca8ca0db2e9017baced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:31 +0000
Subject: [PATCH 48/66] fix: merge finds rows by any key and reports every
 outcome

merge_diff_row built a textual condition from the key values, which
failed for keys with quotes, for NULL and for negative numbers, and for
tables named like keywords; a row which could not be compared was
treated as equal.  Reports of an earlier merge made the next report
fail silently, and the records and table data of a merge were leaked.
---
 libmsi/libmsi-database.c | 142 +++++++++++++++++++++++++--------------
 1 file changed, 90 insertions(+), 52 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index 433c7fa..e157f09 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -1601,7 +1601,10 @@ static unsigned merge_verify_colnames(LibmsiQuery *dbview, LibmsiQuery *mergevie
 
     r = _libmsi_query_get_column_info(mergeview, LIBMSI_COL_INFO_NAMES, &mergerec);
     if (r != LIBMSI_RESULT_SUCCESS)
+    {
+        g_object_unref(dbrec);
         return r;
+    }
 
     count = libmsi_record_get_field_count(dbrec);
     for (i = 1; i <= count; i++)
@@ -1626,7 +1629,10 @@ static unsigned merge_verify_colnames(LibmsiQuery *dbview, LibmsiQuery *mergevie
 
     r = _libmsi_query_get_column_info(mergeview, LIBMSI_COL_INFO_TYPES, &mergerec);
     if (r != LIBMSI_RESULT_SUCCESS)
+    {
+        g_object_unref(dbrec);
         return r;
+    }
 
     count = libmsi_record_get_field_count(dbrec);
     for (i = 1; i <= count; i++)
@@ -1681,69 +1687,79 @@ static unsigned merge_verify_primary_keys(LibmsiDatabase *db, LibmsiDatabase *me
 
 done:
     g_object_unref(dbrec);
-    g_object_unref(mergerec);
+    g_clear_object(&mergerec);
 
     return r;
 }
 
-static char *get_key_value(LibmsiQuery *view, const char *key, LibmsiRecord *rec)
+static unsigned find_column(LibmsiQuery *view, const char *name)
 {
     LibmsiRecord *colnames;
-    char *str;
-    unsigned r, i = 0;
-    int cmp;
+    unsigned r, i, count, ret = 0;
 
     r = _libmsi_query_get_column_info(view, LIBMSI_COL_INFO_NAMES, &colnames);
     if (r != LIBMSI_RESULT_SUCCESS)
-        return NULL;
+        return 0;
 
-    do
+    count = libmsi_record_get_field_count(colnames);
+    for (i = 1; i <= count && !ret; i++)
     {
-        str = msi_dup_record_field(colnames, ++i);
-        cmp = strcmp( key, str );
-        msi_free(str);
-    } while (cmp);
-
-    g_object_unref(colnames);
+        const char *str = _libmsi_record_get_string_raw(colnames, i);
 
-    if (_libmsi_record_get_string_raw(rec, i))  /* check record field is a string */
-        /* quote string record fields */
-        str = g_strdup_printf ("'%s'", _libmsi_record_get_string_raw (rec, i));
-    else
-        str = libmsi_record_get_string (rec, i);
+        if (str && !strcmp(name, str))
+            ret = i;
+    }
 
-    return str;
+    g_object_unref(colnames);
+    return ret;
 }
 
+/* a query for the row with the same key, its parameters go to *params */
 static char *create_diff_row_query(LibmsiDatabase *merge, LibmsiQuery *view,
-                                    char *table, LibmsiRecord *rec)
+                                    char *table, LibmsiRecord *rec,
+                                    LibmsiRecord **params)
 {
     GString *query;
-    char *val;
     const char *key;
     LibmsiRecord *keys;
-    unsigned r, i, count;
+    unsigned r, i, col, count, num_params = 0;
 
     r = _libmsi_database_get_primary_keys(merge, table, &keys);
     if (r != LIBMSI_RESULT_SUCCESS)
         return NULL;
 
     query = g_string_sized_new(256);
-    g_string_printf (query, "SELECT * FROM %s WHERE ", table);
+    g_string_printf (query, "SELECT * FROM `%s` WHERE ", table);
     count = libmsi_record_get_field_count(keys);
+    *params = libmsi_record_new(count);
     for (i = 1; i <= count; i++)
     {
         key = _libmsi_record_get_string_raw(keys, i);
-        val = get_key_value(view, key, rec);
+        col = find_column(view, key);
+        if (!col)
+            goto error;
 
-        if (i == count)
-            g_string_append_printf (query, "`%s` = %s", key, val);
+        if (i > 1)
+            g_string_append (query, " AND ");
+
+        if (libmsi_record_is_null(rec, col))
+            g_string_append_printf (query, "`%s` IS NULL", key);
         else
-            g_string_append_printf (query, "`%s` = %s AND ", key, val);
+        {
+            g_string_append_printf (query, "`%s` = ?", key);
+            if (_libmsi_record_copy_field(rec, col, *params, ++num_params) != LIBMSI_RESULT_SUCCESS)
+                goto error;
+        }
     }
 
     g_object_unref(keys);
     return  g_string_free (query, FALSE);
+
+error:
+    g_object_unref(keys);
+    g_clear_object(params);
+    g_string_free (query, TRUE);
+    return NULL;
 }
 
 static unsigned merge_diff_row(LibmsiRecord *rec, void *param)
@@ -1753,21 +1769,25 @@ static unsigned merge_diff_row(LibmsiRecord *rec, void *param)
     MERGEROW *mergerow;
     LibmsiQuery *dbview = NULL;
     LibmsiRecord *row = NULL;
+    LibmsiRecord *params = NULL;
     char *query = NULL;
     unsigned r = LIBMSI_RESULT_SUCCESS;
     GError *err = NULL;
 
     if (table_view_exists(data->db, table->name))
     {
-        query = create_diff_row_query(data->merge, data->curview, table->name, rec);
+        query = create_diff_row_query(data->merge, data->curview, table->name, rec, &params);
         if (!query)
             return LIBMSI_RESULT_OUTOFMEMORY;
 
         dbview = libmsi_query_new(data->db, query, &err);
         if (err)
+        {
+            r = LIBMSI_RESULT_FUNCTION_FAILED;
             goto done;
+        }
 
-        r = _libmsi_query_execute(dbview, NULL);
+        r = _libmsi_query_execute(dbview, params);
         if (r != LIBMSI_RESULT_SUCCESS)
             goto done;
 
@@ -1804,9 +1824,10 @@ done:
     if (err)
         g_critical("%s", err->message);
     g_clear_error(&err);
-    msi_free(query);
-    g_object_unref(row);
-    g_object_unref(dbview);
+    g_free(query);
+    g_clear_object(&row);
+    g_clear_object(&params);
+    g_clear_object(&dbview);
     return r;
 }
 
@@ -1905,7 +1926,7 @@ static void merge_free_rows(MERGETABLE *table)
         MERGEROW *row = LIST_ENTRY(item, MERGEROW, entry);
 
         list_remove(&row->entry);
-        g_object_unref(row);
+        g_object_unref(row->data);
         msi_free(row);
     }
 }
@@ -1950,7 +1971,7 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
     MERGETABLE *table;
     LibmsiQuery *mergeview = NULL;
 
-    static const char query[] = "SELECT * FROM %s";
+    static const char query[] = "SELECT * FROM `%s`";
 
     table = msi_alloc_zero(sizeof(MERGETABLE));
     if (!table)
@@ -1958,6 +1979,7 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
        *ptable = NULL;
        return LIBMSI_RESULT_OUTOFMEMORY;
     }
+    list_init(&table->rows);
 
     r = msi_get_table_labels(db, name, &table->labels, &table->numlabels);
     if (r != LIBMSI_RESULT_SUCCESS)
@@ -1975,8 +1997,6 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
     if (r != LIBMSI_RESULT_SUCCESS)
         goto err;
 
-    list_init(&table->rows);
-
     table->name = strdup(name);
     table->numconflicts = 0;
 
@@ -1985,7 +2005,7 @@ static unsigned msi_get_merge_table (LibmsiDatabase *db, const char *name, MERGE
     return LIBMSI_RESULT_SUCCESS;
 
 err:
-    g_object_unref(mergeview);
+    g_clear_object(&mergeview);
     free_merge_table(table);
     *ptable = NULL;
     return r;
@@ -2000,7 +2020,7 @@ static unsigned merge_diff_tables(LibmsiRecord *rec, void *param)
     const char *name;
     unsigned r;
 
-    static const char query[] = "SELECT * FROM %s";
+    static const char query[] = "SELECT * FROM `%s`";
 
     name = _libmsi_record_get_string_raw(rec, 1);
 
@@ -2039,8 +2059,8 @@ static unsigned merge_diff_tables(LibmsiRecord *rec, void *param)
     list_add_tail(data->tabledata, &table->entry);
 
 done:
-    g_object_unref(dbview);
-    g_object_unref(mergeview);
+    g_clear_object(&dbview);
+    g_clear_object(&mergeview);
     return r;
 }
 
@@ -2103,8 +2123,10 @@ static unsigned update_merge_errors(LibmsiDatabase *db, const char *error,
     static const char create[] =
         "CREATE TABLE `%s` (`Table` CHAR(255) NOT NULL, "
 	"`NumRowMergeConflicts` SHORT NOT NULL PRIMARY KEY `Table`)";
+    static const char delete[] = "DELETE FROM `%s` WHERE `Table` = ?";
     static const char insert[] =
-        "INSERT INTO `%s` (`Table`, `NumRowMergeConflicts`) VALUES ('%s', %d)";
+        "INSERT INTO `%s` (`Table`, `NumRowMergeConflicts`) VALUES (?, ?)";
+    LibmsiRecord *rec;
 
     if (!table_view_exists(db, error))
     {
@@ -2118,12 +2140,27 @@ static unsigned update_merge_errors(LibmsiDatabase *db, const char *error,
             return r;
     }
 
-    r = _libmsi_query_open(db, &view, insert, error, table, numconflicts);
-    if (r != LIBMSI_RESULT_SUCCESS)
-        return r;
+    rec = libmsi_record_new(2);
+    libmsi_record_set_string(rec, 1, table);
+    libmsi_record_set_int(rec, 2, numconflicts);
 
-    r = _libmsi_query_execute(view, NULL);
-    g_object_unref(view);
+    /* replace what an earlier merge reported */
+    r = _libmsi_query_open(db, &view, delete, error);
+    if (r == LIBMSI_RESULT_SUCCESS)
+    {
+        r = _libmsi_query_execute(view, rec);
+        g_object_unref(view);
+    }
+
+    if (r == LIBMSI_RESULT_SUCCESS)
+        r = _libmsi_query_open(db, &view, insert, error);
+    if (r == LIBMSI_RESULT_SUCCESS)
+    {
+        r = _libmsi_query_execute(view, rec);
+        g_object_unref(view);
+    }
+
+    g_object_unref(rec);
     return r;
 }
 
@@ -2145,7 +2182,7 @@ libmsi_database_merge (LibmsiDatabase *db,
     struct list tabledata = LIST_INIT(tabledata);
     struct list *item, *cursor;
     MERGETABLE *table;
-    bool conflicts;
+    bool conflicts = false;
     unsigned r;
 
     TRACE("(%p, %p, %s)\n", db, merge,
@@ -2162,12 +2199,13 @@ libmsi_database_merge (LibmsiDatabase *db,
     if (r != LIBMSI_RESULT_SUCCESS)
         goto done;
 
-    conflicts = false;
     LIST_FOR_EACH_ENTRY(table, &tabledata, MERGETABLE, entry)
     {
         if (table->numconflicts)
         {
             conflicts = true;
+            if (!tablename)
+                continue;
 
             r = update_merge_errors(db, tablename, table->name,
                                     table->numconflicts);
@@ -2182,6 +2220,10 @@ libmsi_database_merge (LibmsiDatabase *db,
         }
     }
 
+    if (conflicts)
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
+
+done:
     LIST_FOR_EACH_SAFE(item, cursor, &tabledata)
     {
         table = LIST_ENTRY(item, MERGETABLE, entry);
@@ -2189,10 +2231,6 @@ libmsi_database_merge (LibmsiDatabase *db,
         free_merge_table(table);
     }
 
-    if (conflicts)
-        r = LIBMSI_RESULT_FUNCTION_FAILED;
-
-done:
     if (r != LIBMSI_RESULT_SUCCESS)
         g_set_error (error, LIBMSI_RESULT_ERROR, r, G_STRFUNC);
     g_object_unref(db);
-- 
2.43.0


From 8966b5f1e9808c8180ccc08dfd1407fdde322f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:06 +0000
Subject: [PATCH 49/66] fix: an OBJECT cell set to NULL has no stream

Reading the cell went by the stream's name alone, so it still returned
the stream of the value it had before.
---
 libmsi/libmsi-query.c |  2 +-
 libmsi/table.c        | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/libmsi/libmsi-query.c b/libmsi/libmsi-query.c
index 723fa5d..48ce2ee 100644
--- a/libmsi/libmsi-query.c
+++ b/libmsi/libmsi-query.c
@@ -327,7 +327,7 @@ unsigned msi_view_get_row(LibmsiDatabase *db, LibmsiView *view, unsigned row, Li
                 _libmsi_record_set_gsf_input(*rec, i, stm);
                 g_object_unref(G_OBJECT(stm));
             }
-            else
+            else if (ret != LIBMSI_RESULT_SUCCESS)
                 g_warning("failed to get stream\n");
 
             continue;
diff --git a/libmsi/table.c b/libmsi/table.c
index 0416af4..f79b5a8 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1202,13 +1202,22 @@ err:
 static unsigned table_view_fetch_stream( LibmsiView *view, unsigned row, unsigned col, GsfInput **stm )
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
-    unsigned r;
+    unsigned r, val;
     char *encname;
     char *full_name = NULL;
 
     if( !view->ops->fetch_int )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
+    r = view->ops->fetch_int( view, row, col, &val );
+    if ( r != LIBMSI_RESULT_SUCCESS )
+        return r;
+
+    /* a null value has no stream, even if there was one */
+    *stm = NULL;
+    if ( !val )
+        return LIBMSI_RESULT_SUCCESS;
+
     r = msi_stream_name( tv, row, &full_name );
     if ( r != LIBMSI_RESULT_SUCCESS )
     {
-- 
2.43.0


From 0d5bc0103fb5bc46b07e6e8abdb7af620c92b445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:06 +0000
Subject: [PATCH 50/66] fix: apply the row changes of a transform

The names of the transform's streams were cut after one byte of their
three byte prefix, so no table was ever found and every transform was
refused.  Behind that, updating or deleting a row which does not exist
inserted it, data which was cut short or had too many columns was read
out of bounds, long table names overflowed a buffer, a NULL object was
looked up as a stream, columns were added to tables whose rows were not
read yet, dropped tables made the next commit fail and failures were
only warned about.
---
 libmsi/libmsi-database.c |  2 +
 libmsi/table.c           | 96 +++++++++++++++++++++++++++++-----------
 2 files changed, 71 insertions(+), 27 deletions(-)

diff --git a/libmsi/libmsi-database.c b/libmsi/libmsi-database.c
index e157f09..1b3fb71 100644
--- a/libmsi/libmsi-database.c
+++ b/libmsi/libmsi-database.c
@@ -2382,6 +2382,8 @@ unsigned _libmsi_database_apply_transform( LibmsiDatabase *db,
     }
     stg = gsf_infile_msole_new( in, NULL );
     g_object_unref(G_OBJECT(in));
+    if (!stg)
+        return LIBMSI_RESULT_OPEN_FAILED;
 
     if( !gsf_infile_msole_get_class_id (GSF_INFILE_MSOLE(stg), uuid))
     {
diff --git a/libmsi/table.c b/libmsi/table.c
index f79b5a8..500fda1 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -2321,18 +2321,25 @@ static LibmsiRecord *msi_get_transform_record( const LibmsiTableView *tv, const
         {
             char *encname;
             GsfInput *stm = NULL;
-            unsigned r;
+            unsigned r, n = bytes_per_column( tv->db, &columns[i], bytes_per_strref );
 
-            ofs += bytes_per_column( tv->db, &columns[i], bytes_per_strref );
+            val = read_raw_int(rawdata, ofs, n);
+            ofs += n;
+            if (!val)
+                continue;
 
             r = msi_record_encoded_stream_name( tv, rec, &encname );
             if ( r != LIBMSI_RESULT_SUCCESS )
+            {
+                g_object_unref( rec );
                 return NULL;
+            }
 
             stm = gsf_infile_child_by_name( stg, encname );
-            if ( r != LIBMSI_RESULT_SUCCESS )
+            if ( !stm )
             {
                 msi_free( encname );
+                g_object_unref( rec );
                 return NULL;
             }
 
@@ -2517,7 +2524,7 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
     LibmsiTableView *tv = NULL;
     unsigned r, n, sz, i, mask, num_cols, colcol = 0, rawsize = 0;
     LibmsiRecord *rec = NULL;
-    char coltable[32];
+    g_autofree char *coltable = NULL;
     const char *name;
 
     if (!transform)
@@ -2525,15 +2532,16 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
 
     name = transform->name;
 
-    coltable[0] = 0;
     TRACE("%p %p %p %s\n", db, stg, st, debugstr_a(name) );
 
     /* read the transform data */
-    read_stream_data( stg, name, &rawdata, &rawsize );
+    r = read_stream_data( stg, name, &rawdata, &rawsize );
+    if ( r != LIBMSI_RESULT_SUCCESS )
+        return r;
     if ( !rawdata )
     {
         TRACE("table %s empty\n", debugstr_a(name) );
-        return LIBMSI_RESULT_INVALID_TABLE;
+        return LIBMSI_RESULT_SUCCESS;
     }
 
     /* create a table view */
@@ -2551,6 +2559,12 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
     /* interpret the data */
     for (n = 0; n < rawsize;)
     {
+        if (rawsize - n < 2)
+        {
+            r = LIBMSI_RESULT_FUNCTION_FAILED;
+            break;
+        }
+
         mask = rawdata[n] | (rawdata[n + 1] << 8);
         if (mask & 1)
         {
@@ -2560,6 +2574,12 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
              */
             sz = 2;
             num_cols = mask >> 8;
+            if (num_cols > tv->num_cols)
+            {
+                r = LIBMSI_RESULT_FUNCTION_FAILED;
+                break;
+            }
+
             for (i = 0; i < num_cols; i++)
             {
                 if( (tv->columns[i].type & MSITYPE_STRING) &&
@@ -2597,22 +2617,26 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
         /* check we didn't run of the end of the table */
         if (n + sz > rawsize)
         {
-            g_critical("borked.\n");
-            dump_table( st, (uint16_t *)rawdata, rawsize );
+            if (TRACE_ON) dump_table( st, (uint16_t *)rawdata, rawsize );
+            r = LIBMSI_RESULT_FUNCTION_FAILED;
             break;
         }
 
         rec = msi_get_transform_record( tv, st, stg, &rawdata[n], bytes_per_strref );
-        if (rec)
+        if (!rec)
+        {
+            r = LIBMSI_RESULT_FUNCTION_FAILED;
+            break;
+        }
+        else
         {
-            char table[32];
+            const char *table = NULL;
             unsigned number = LIBMSI_NULL_INT;
             unsigned row = 0;
 
             if (!strcmp( name, szColumns ))
             {
-                unsigned tablesz = 32;
-                _libmsi_record_get_string( rec, 1, table, &tablesz );
+                table = _libmsi_record_get_string_raw( rec, 1 );
                 number = libmsi_record_get_int( rec, 2 );
 
                 /*
@@ -2622,15 +2646,24 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
                 if ( number == LIBMSI_NULL_INT )
                 {
                     /* reset the column number on a new table */
-                    if (strcmp( coltable, table ))
+                    if (g_strcmp0( coltable, table ))
                     {
                         colcol = 0;
-                        strcpy( coltable, table );
+                        g_free( coltable );
+                        coltable = g_strdup( table );
                     }
 
                     /* fix nul column numbers */
                     libmsi_record_set_int( rec, 2, ++colcol );
                 }
+                else if (table)
+                {
+                    LibmsiTable *t;
+
+                    /* read its rows by the columns they were written with */
+                    if (table_view_exists( db, table ))
+                        get_table( db, table, &t );
+                }
             }
 
             if (TRACE_ON) dump_record( rec );
@@ -2660,7 +2693,7 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
                         g_warning("failed to modify row %u\n", r);
                 }
             }
-            else
+            else if (mask & 1)
             {
                 TRACE("inserting row\n");
                 r = table_view_insert_row( &tv->view, rec, -1, false );
@@ -2668,10 +2701,25 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
                     g_warning("failed to insert row %u\n", r);
             }
 
-            if (number != LIBMSI_NULL_INT && !strcmp( name, szColumns ))
+            if (number != LIBMSI_NULL_INT && table)
+            {
+                LibmsiTable *t;
+
                 msi_update_table_columns( db, table );
 
+                /* without columns there is no table */
+                t = mask ? NULL : find_cached_table( db, table );
+                if (t && !t->col_count)
+                {
+                    list_remove( &t->entry );
+                    free_table( t );
+                }
+            }
+
             g_object_unref(rec);
+
+            if (r != LIBMSI_RESULT_SUCCESS)
+                break;
         }
 
         n += sz;
@@ -2683,7 +2731,7 @@ err:
     if( tv )
         tv->view.ops->delete( &tv->view );
 
-    return LIBMSI_RESULT_SUCCESS;
+    return r;
 }
 
 /*
@@ -2732,7 +2780,7 @@ unsigned msi_table_apply_transform( LibmsiDatabase *db, GsfInfile *stg )
 
         list_add_tail( &transforms, &transform->entry );
 
-        transform->name = strdup( name + 1 );
+        transform->name = strdup( name + 3 );
 
         if ( !strcmp( transform->name, szTables ) )
             tables = transform;
@@ -2761,14 +2809,8 @@ unsigned msi_table_apply_transform( LibmsiDatabase *db, GsfInfile *stg )
      * the table metadata is correct, and empty tables exist.
      */
     ret = msi_table_load_transform( db, stg, strings, tables, bytes_per_strref );
-    if (ret != LIBMSI_RESULT_SUCCESS && ret != LIBMSI_RESULT_INVALID_TABLE)
-        goto end;
-
-    ret = msi_table_load_transform( db, stg, strings, columns, bytes_per_strref );
-    if (ret != LIBMSI_RESULT_SUCCESS && ret != LIBMSI_RESULT_INVALID_TABLE)
-        goto end;
-
-    ret = LIBMSI_RESULT_SUCCESS;
+    if (ret == LIBMSI_RESULT_SUCCESS)
+        ret = msi_table_load_transform( db, stg, strings, columns, bytes_per_strref );
 
     while ( !list_empty( &transforms ) )
     {
-- 
2.43.0


From eca2cc77840a976610be215142a475462d5d92b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:30 +0000
Subject: [PATCH 51/66] fix: refuse a value that is not of the type of its
 column

An integer given for a string column, or text that is not a number given
for a LONG column, was stored as NULL without an error.
---
 libmsi/table.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 500fda1..77d7145 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1339,13 +1339,12 @@ static unsigned get_table_value_from_record( LibmsiTableView *tv, LibmsiRecord *
     else if ( columninfo.type & MSITYPE_STRING )
     {
         const char *sval = _libmsi_record_get_string_raw( rec, iField );
-        if (sval)
-        {
-            r = _libmsi_id_from_string_utf8(tv->db->strings, sval, pvalue);
-            if (r != LIBMSI_RESULT_SUCCESS)
-                return LIBMSI_RESULT_NOT_FOUND;
-        }
-        else *pvalue = 0;
+        if (!sval)
+            return LIBMSI_RESULT_FUNCTION_FAILED;
+
+        r = _libmsi_id_from_string_utf8(tv->db->strings, sval, pvalue);
+        if (r != LIBMSI_RESULT_SUCCESS)
+            return LIBMSI_RESULT_NOT_FOUND;
     }
     else if ( bytes_per_column( tv->db, &columninfo, LONG_STR_BYTES ) == 2 )
     {
@@ -1360,6 +1359,8 @@ static unsigned get_table_value_from_record( LibmsiTableView *tv, LibmsiRecord *
     else
     {
         int ival = libmsi_record_get_int( rec, iField );
+        if ( ival == LIBMSI_NULL_INT )
+            return LIBMSI_RESULT_FUNCTION_FAILED;
         *pvalue = ival ^ 0x80000000;
     }
 
@@ -1424,6 +1425,9 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
             {
                 unsigned x;
 
+                if ( r != LIBMSI_RESULT_SUCCESS && r != LIBMSI_RESULT_NOT_FOUND )
+                    return LIBMSI_RESULT_FUNCTION_FAILED;
+
                 if ( r != LIBMSI_RESULT_SUCCESS )
                 {
                     const char *sval = _libmsi_record_get_string_raw( rec, i + 1 );
-- 
2.43.0


From 9138f0cf6af39dae6fdd4ab816612d3b504bbf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:07 +0000
Subject: [PATCH 52/66] fix: a refused stream update does not free the listed
 stream

An UPDATE of _Streams that could not store the data freed the entry the
view still lists.  Deleting a stream or storage left its entry behind the
end of the list, where a row added by the same view took it for its own.
---
 libmsi/storages.c |  3 ++-
 libmsi/streams.c  | 20 ++++++++++++--------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/libmsi/storages.c b/libmsi/storages.c
index 00e6184..896afd0 100644
--- a/libmsi/storages.c
+++ b/libmsi/storages.c
@@ -199,13 +199,14 @@ static unsigned storages_view_delete_row(LibmsiView *view, unsigned row)
     }
 
     msi_destroy_storage(sv->db, name);
+    msi_free(sv->storages[row]);
 
     /* shift the remaining rows */
     for (i = row + 1; i < sv->num_rows; i++)
     {
         sv->storages[i - 1] = sv->storages[i];
     }
-    sv->num_rows--;
+    sv->storages[--sv->num_rows] = NULL;
 
     return LIBMSI_RESULT_SUCCESS;
 }
diff --git a/libmsi/streams.c b/libmsi/streams.c
index 3862a8e..089e0dc 100644
--- a/libmsi/streams.c
+++ b/libmsi/streams.c
@@ -83,6 +83,13 @@ static STREAM *create_stream(LibmsiStreamsView *sv, const char *name, bool encod
     return stream;
 }
 
+static void free_stream(STREAM *stream)
+{
+    if (stream->stream)
+        g_object_unref(G_OBJECT(stream->stream));
+    msi_free(stream);
+}
+
 static unsigned streams_view_fetch_int(LibmsiView *view, unsigned row, unsigned col, unsigned *val)
 {
     LibmsiStreamsView *sv = (LibmsiStreamsView *)view;
@@ -169,8 +176,8 @@ static unsigned streams_view_set_row(LibmsiView *view, unsigned row, LibmsiRecor
     if (r != LIBMSI_RESULT_SUCCESS)
     {
         g_warning("failed to create stream: %08x\n", r);
-        g_object_unref(G_OBJECT(stream->stream));
-        msi_free(stream);
+        if (stream != sv->streams[row])
+            free_stream(stream);
         goto done;
     }
 
@@ -225,13 +232,14 @@ static unsigned streams_view_delete_row(LibmsiView *view, unsigned row)
 
     encname = encode_streamname(false, name);
     msi_destroy_stream(sv->db, encname);
+    free_stream(sv->streams[row]);
 
     /* shift the remaining rows */
     for (i = row + 1; i < sv->num_rows; i++)
     {
         sv->streams[i - 1] = sv->streams[i];
     }
-    sv->num_rows--;
+    sv->streams[--sv->num_rows] = NULL;
 
     return LIBMSI_RESULT_SUCCESS;
 }
@@ -299,11 +307,7 @@ static unsigned streams_view_delete(LibmsiView *view)
     for (i = 0; i < sv->num_rows; i++)
     {
         if (sv->streams[i])
-        {
-            if (sv->streams[i]->stream)
-                g_object_unref(G_OBJECT(sv->streams[i]->stream));
-            msi_free(sv->streams[i]);
-        }
+            free_stream(sv->streams[i]);
     }
 
     msi_free(sv->streams);
-- 
2.43.0


From 719019dfe4a7dd06e6372907d37c89be0dbb2bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:20 +0000
Subject: [PATCH 53/66] fix: msiextract does not climb a directory loop forever

A root row of the Directory table may name itself as its parent, and a
longer loop in the table must not hang the tool.
---
 tools/msiextract.vala | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/msiextract.vala b/tools/msiextract.vala
index f19e07c..482fd69 100644
--- a/tools/msiextract.vala
+++ b/tools/msiextract.vala
@@ -108,8 +108,14 @@ public void extract (string filename) throws GLib.Error {
         var dir_rec = directories.lookup (dir_id);
         var dir = get_directory_name (dir_rec);
 
+        uint depth = 0;
         do {
             var parent = dir_rec.get_string (2);
+            // a root directory may name itself as its parent
+            if (parent == dir_rec.get_string (1))
+                break;
+            if (++depth > directories.size ())
+                throw new IOError.FAILED ("Directory `%s' is its own ancestor", dir_id);
             dir_rec = directories.lookup (parent);
             if (dir_rec == null)
                 break;
-- 
2.43.0


From 8d098f9789c12eebd898f0fe5ff3538da35b33cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:20 +0000
Subject: [PATCH 54/66] fix: msiextract -l lists every package it is given

---
 tools/msiextract.vala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/msiextract.vala b/tools/msiextract.vala
index 482fd69..087739f 100644
--- a/tools/msiextract.vala
+++ b/tools/msiextract.vala
@@ -143,7 +143,7 @@ public void extract (string filename) throws GLib.Error {
     }
 
     if (list_only)
-        exit (0);
+        return;
 
     query = new Libmsi.Query (db, "SELECT * FROM `Media`");
     query.execute ();
-- 
2.43.0


From 3078140005aeb27b86fdecd917692278eca868a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:20 +0000
Subject: [PATCH 55/66] fix: msiextract reports references to rows that do not
 exist

A missing Directory or Component row ended in a null dereference or in a
file put at the wrong place, a missing embedded cabinet in success.
---
 tools/msiextract.vala | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/msiextract.vala b/tools/msiextract.vala
index 087739f..2565365 100644
--- a/tools/msiextract.vala
+++ b/tools/msiextract.vala
@@ -51,6 +51,8 @@ public void extract_cab (Libmsi.Database db, string cab,
         var query = new Libmsi.Query (db, "SELECT `Data` FROM `_Streams` WHERE `Name` = '%s'".printf (name));
         query.execute ();
         var rec = query.fetch ();
+        if (rec == null)
+            throw new IOError.NOT_FOUND ("Cabinet `%s' not found", name);
         cabinet.load (rec.get_stream (1));
     }
     else {
@@ -106,6 +108,8 @@ public void extract (string filename) throws GLib.Error {
     while ((rec = query.fetch ()) != null) {
         var dir_id = rec.get_string (3);
         var dir_rec = directories.lookup (dir_id);
+        if (dir_rec == null)
+            throw new IOError.NOT_FOUND ("Directory `%s' not found", dir_id);
         var dir = get_directory_name (dir_rec);
 
         uint depth = 0;
@@ -136,6 +140,8 @@ public void extract (string filename) throws GLib.Error {
     query.execute ();
     while ((rec = query.fetch ()) != null) {
         var dir = components_dir.lookup (rec.get_string (2));
+        if (dir == null)
+            throw new IOError.NOT_FOUND ("Component `%s' not found", rec.get_string (2));
         var file = Path.build_filename (dir, get_long_name (rec.get_string (3)));
         if (list_only)
             GLib.stdout.printf ("%s\n", file);
-- 
2.43.0


From 48afc072647e935930287af0a9b8d153c9f4bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:13 +0000
Subject: [PATCH 56/66] fix: wixl: keep a lone $ of the text

---
 tools/wixl/preprocessor.vala | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/preprocessor.vala b/tools/wixl/preprocessor.vala
index 1769d3c..f63bba1 100644
--- a/tools/wixl/preprocessor.vala
+++ b/tools/wixl/preprocessor.vala
@@ -82,7 +82,8 @@ namespace Wixl {
                         throw new Wixl.Error.FAILED ("Undefined variable %s", substring);
                     result += val;
                     end += closing + 1;
-                }
+                } else if (pos == 0 || str[pos - 1] != '$')
+                    result += "$";
             }
 
             return result + str[end:str.length];
-- 
2.43.0


From 8e9222fe68e1235e89fc0587e51f149005f68748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:38 +0000
Subject: [PATCH 57/66] fix: wixl: give scheduled actions a positive sequence
 number

---
 tools/wixl/msi.vala | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/msi.vala b/tools/wixl/msi.vala
index 4ff0560..625ab07 100644
--- a/tools/wixl/msi.vala
+++ b/tools/wixl/msi.vala
@@ -428,8 +428,9 @@ namespace Wixl {
 
             int sequence = 0;
             foreach (var action in sorted) {
+                // 0 and the dialog numbers below are not run in the sequence
                 if (action.sequence == -999)
-                    action.sequence = ++sequence;
+                    action.sequence = int.max (sequence, 0) + 1;
 
                 sequence = action.sequence;
                 add (action.name, action.condition, action.sequence);
-- 
2.43.0


From 3acbd5f306c59ff816fa1ffa69872682a48f0eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:38 +0000
Subject: [PATCH 58/66] fix: wixl: a standard action keeps its condition when
 another refers to it

---
 tools/wixl/builder.vala | 1 +
 tools/wixl/msi.vala     | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index a241111..0eb3452 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1040,6 +1040,7 @@ namespace Wixl {
             }
 
             node.action = action;
+            node.condition = null;
 
             if (action.OnExit != null) {
                 if (action.OnExit == "success") node.sequence = -1;
diff --git a/tools/wixl/msi.vala b/tools/wixl/msi.vala
index 625ab07..8b19394 100644
--- a/tools/wixl/msi.vala
+++ b/tools/wixl/msi.vala
@@ -447,8 +447,10 @@ namespace Wixl {
             action.name = name;
 
             var default = MSIDefault.get_action_by_name (name);
-            if (default != null)
+            if (default != null) {
                 action.sequence = default.sequence;
+                action.condition = default.condition;
+            }
 
             return action;
         }
-- 
2.43.0


From 665039b6b594d50f4c7d66d784bca5e72018cefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:37 +0000
Subject: [PATCH 59/66] fix: wixl: HKMU is root -1 of the Registry table

The Windows Installer documents -1 for the per-user or per-machine root;
4 is not a root at all.
---
 tools/wixl/builder.vala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 0eb3452..1ade6f5 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -809,7 +809,7 @@ namespace Wixl {
             HKCU,
             HKLM,
             HKU,
-            HKMU;
+            HKMU = -1;
 
             public static RegistryRoot from_string(string s) throws GLib.Error {
                 return enum_from_string<RegistryRoot> (s);
-- 
2.43.0


From de8aa31b2179ce7ba5d2c3de3437997509af8860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:37 +0000
Subject: [PATCH 60/66] fix: wixl: a registry value without a Key is under its
 RegistryKey's

It got that key with a trailing backslash.
---
 tools/wixl/builder.vala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 1ade6f5..669d5c5 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -824,7 +824,7 @@ namespace Wixl {
             if (reg.parent is WixRegistryKey) {
                 var regkey = reg.parent as WixRegistryKey;
                 comp = regkey.parent as WixComponent;
-                reg_key = regkey.Key + "\\" + reg.Key;
+                reg_key = reg.Key != null ? regkey.Key + "\\" + reg.Key : regkey.Key;
                 reg_root = regkey.Root;
             } else if (reg.parent is WixComponent) {
                 comp = reg.parent as WixComponent;
-- 
2.43.0


From fb67f43f09c542bf8b96185af439e4969d303203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:37 +0000
Subject: [PATCH 61/66] fix: wixl: keep a feature's Display of 1 or 2

The numbers were taken for the values of "expand" and "collapse" and
replaced by the next free number.
---
 tools/wixl/builder.vala | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 669d5c5..8a04724 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -620,24 +620,20 @@ namespace Wixl {
             if (state != VisitState.ENTER)
                 return;
 
-            int display = FeatureDisplay.COLLAPSE;
-            if (feature.Display != null) {
-                try {
-                    display = FeatureDisplay.from_string (feature.Display);
-                } catch (GLib.Error error) {
-                    display = int.parse (feature.Display);
-                    if (display != 0)
-                        feature_display = display;
+            int display = 0;
+            try {
+                switch (FeatureDisplay.from_string (feature.Display ?? "collapse")) {
+                case FeatureDisplay.COLLAPSE:
+                    display = feature_display = (feature_display | 1) + 1;
+                    break;
+                case FeatureDisplay.EXPAND:
+                    display = feature_display = (feature_display + 1) | 1;
+                    break;
                 }
-            }
-
-            switch (display) {
-            case FeatureDisplay.COLLAPSE:
-                display = feature_display = (feature_display | 1) + 1;
-                break;
-            case FeatureDisplay.EXPAND:
-                display = feature_display = (feature_display + 1) | 1;
-                break;
+            } catch (GLib.Error error) {
+                display = int.parse (feature.Display);
+                if (display != 0)
+                    feature_display = display;
             }
 
             string? parent = (feature.parent is WixFeature) ? feature.parent.Id : null;
-- 
2.43.0


From b2a1a04f91e4a933da99c71d0967bd797cea4122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:37 +0000
Subject: [PATCH 62/66] fix: wixl: accept InstallDefault="followParent"

Only "followparent", which is not how WiX spells it, was accepted.
---
 tools/wixl/builder.vala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 8a04724..b2248f1 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -641,7 +641,7 @@ namespace Wixl {
 
             int attributes = 0;
             if (feature.InstallDefault != null) {
-                switch(InstallDefaultValue.from_string(feature.InstallDefault)) {
+                switch(InstallDefaultValue.from_string(feature.InstallDefault.down ())) {
                 case InstallDefaultValue.FollowParent:
                     attributes |= FeatureAttributes.FOLLOWPARENT;
                     break;
-- 
2.43.0


From 45d8bed6efbd1ea617edfbdd9631059267e8f347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:37 +0000
Subject: [PATCH 63/66] fix: wixl: honour Execute="secondSequence"

The value WiX documents was ignored and the action ran in both sequences.
---
 tools/wixl/builder.vala | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index b2248f1..2cd465e 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1377,7 +1377,7 @@ namespace Wixl {
                 type |= CustomActionType.FIRST_SEQUENCE;
             else if (action.Execute == "oncePerProcess")
                 type |= CustomActionType.ONCE_PER_PROCESS;
-            else if (action.Execute == "clientRepeat")
+            else if (action.Execute == "clientRepeat" || action.Execute == "secondSequence")
                 type |= CustomActionType.CLIENT_REPEAT;
             else if (action.Execute == "deferred")
                 type |= CustomActionType.IN_SCRIPT;
-- 
2.43.0


From bc30e9dd7d99df28de999755f420387c35116505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:58 +0000
Subject: [PATCH 64/66] fix: wixl: fill the table of AdvertiseExecuteSequence

The table is called AdvtExecuteSequence, so no table was found for the
actions of the element.
---
 tools/wixl/builder.vala | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index 2cd465e..fc5d134 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1022,7 +1022,8 @@ namespace Wixl {
 
         public override void visit_action (WixAction action) throws GLib.Error {
             var parent = action.parent as WixSequence;
-            var table = db.tables.lookup (parent.name) as MsiTableSequence;
+            var table_name = (parent is WixAdvertiseExecuteSequence) ? "AdvtExecuteSequence" : parent.name;
+            var table = db.tables.lookup (table_name) as MsiTableSequence;
 
             if (action.name == "Custom")
                 action.name = action.Action;
-- 
2.43.0


From eb7f9e97477adca0d9558dc5850ea527b9b90510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:58 +0000
Subject: [PATCH 65/66] fix: wixl: the template of an Itanium package is
 Intel64

---
 tools/wixl/msi.vala | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/wixl/msi.vala b/tools/wixl/msi.vala
index 8b19394..e7d81ed 100644
--- a/tools/wixl/msi.vala
+++ b/tools/wixl/msi.vala
@@ -1151,6 +1151,8 @@ namespace Wixl {
         string get_arch_template () {
             if (arch == Arch.X86)
                 return "Intel";
+            else if (arch == Arch.IA64)
+                return "Intel64";
             else
                 return "x64";
         }
-- 
2.43.0


From 2ba34629a4c835d9b72c50af8bc791325e085790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 66/66] fix: wixl: honour the condition inside a Publish
 element

The inner text, where WiX has the condition, was dropped and the event
always happened.
---
 tools/wixl/builder.vala | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/wixl/builder.vala b/tools/wixl/builder.vala
index fc5d134..a460e25 100644
--- a/tools/wixl/builder.vala
+++ b/tools/wixl/builder.vala
@@ -1814,6 +1814,10 @@ namespace Wixl {
 
             if (publish.Condition != null) {
                 condition = publish.Condition;
+            } else if (publish.children.length () > 0) {
+                return_if_fail (publish.children.length () == 1);
+                var text = publish.children.first ().data as WixText;
+                condition = text.Text.strip ();
             }
 
             if (publish.Order != null) {
-- 
2.43.0

