From 5b312f76cc4e1d51103d9a73b810fb068699a11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:25 +0000
Subject: [PATCH 01/73] fix: B-tree lookup must not match stale slots past the
 last key of a node

---
 src/datastructure/btree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datastructure/btree.c b/src/datastructure/btree.c
index 7e064ae..0896e8f 100644
--- a/src/datastructure/btree.c
+++ b/src/datastructure/btree.c
@@ -73,7 +73,7 @@ static struct btree_node_tuple* btree_search(struct btree_head *head, struct btr
 	while (i < node->key_count && head->cmp_fn(key, node->keys[i].key) > 0)
 		i++;
 
-	if (node->keys[i].key && head->cmp_fn(node->keys[i].key, key) == 0)
+	if (i < node->key_count && head->cmp_fn(node->keys[i].key, key) == 0)
 		return &node->keys[i];
 
 	if (node->is_leaf)
-- 
2.43.0


From 42a65ee458952021bb90d2aee548599cb2aefc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:18 +0000
Subject: [PATCH 02/73] fix: updating a row must not copy the content of a NULL
 VARCHAR column

---
 src/primitive/row.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/primitive/row.c b/src/primitive/row.c
index 03f8674..1708f9a 100644
--- a/src/primitive/row.c
+++ b/src/primitive/row.c
@@ -157,7 +157,12 @@ bool table_update_row(struct table *table, struct datablock *blk, size_t offset,
 		struct column *column = &table->columns[i];
 		if (table_check_var_column(column)) {
 			void **ptr = (void**)&upd_row->data[pos];
-			memcpy(*ptr, *((char**)((char*)row->data + pos)), column->precision);
+
+			/* Copy data only if column is not NULL */
+			if (!bit_test(row->null_bitmap, i, sizeof(row->null_bitmap)))
+				memcpy(*ptr, *((char**)((char*)row->data + pos)), column->precision);
+			else
+				memzero(*ptr, column->precision);
 		} else {
 			memcpy(upd_row->data + pos, ((char*)row->data) + pos, column->precision);
 		}
-- 
2.43.0


From 912ab6de741e56b5b60a5b980dbcefc2358a3591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:18 +0000
Subject: [PATCH 03/73] fix: vacuum of a table that has no datablocks must be a
 no-op

---
 src/primitive/vacuum.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/primitive/vacuum.c b/src/primitive/vacuum.c
index b634752..e184d38 100644
--- a/src/primitive/vacuum.c
+++ b/src/primitive/vacuum.c
@@ -23,6 +23,10 @@ bool table_vacuum(struct table *table)
 	if (!table)
 		return false;
 
+	/* is there anything to be vacuumed at all? */
+	if (list_is_empty(table->datablock_head))
+		return true;
+
 	dst_blk_idx = 0;
 	src_blk_idx = 0;
 	dst_blk_offset = 0;
-- 
2.43.0


From a98d5b944cbad6dc753deaa3eaa04c735c47da86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:18 +0000
Subject: [PATCH 04/73] fix: removing a column must shift the NULL marks of the
 columns after it

---
 src/primitive/column.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/primitive/column.c b/src/primitive/column.c
index b405e3b..62bb927 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -187,6 +187,14 @@ static void datablock_rem_column(struct table *table, size_t col_idx)
 				memzero(var_ptr, sizeof(*var_ptr));
 			}
 
+			/* keep the NULL marks of the columns that come after it in sync with their new positions */
+			for (int j = col_idx; j < table->column_count; j++) {
+				if (j + 1 < table->column_count && bit_test(row->null_bitmap, j + 1, sizeof(row->null_bitmap)))
+					bit_set(row->null_bitmap, j, sizeof(row->null_bitmap));
+				else
+					bit_clear(row->null_bitmap, j, sizeof(row->null_bitmap));
+			}
+
 			/* remove column data */
 			memmove(&row->data[data_offset],
 				&row->data[data_offset + col_prec],
-- 
2.43.0


From 96095ed20f97b8b8e6a7782c4b9d51d57109d9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:18 +0000
Subject: [PATCH 05/73] fix: a column that could not be added must not stay in
 the table

---
 src/primitive/column.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/primitive/column.c b/src/primitive/column.c
index 62bb927..2d1eaf3 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -136,8 +136,10 @@ bool table_add_column(struct table *table, struct column *column)
 
 	/* if table isn't empty than we can to rearrange rows in datablocks */
 	if (!list_is_empty(table->datablock_head)) {
-		if (!datablock_add_column(table, row_cur_size, table_calc_row_size(table)))
+		if (!datablock_add_column(table, row_cur_size, table_calc_row_size(table))) {
+			table->column_count--;
 			return false;
+		}
 	}
 
 	return true;
-- 
2.43.0


From 61b106b2077ed64cf0772766c5799e093147e8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:54 +0000
Subject: [PATCH 06/73] fix: adding a VARCHAR column must allocate its content
 for the rows that already exist

---
 src/primitive/column.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/primitive/column.c b/src/primitive/column.c
index 2d1eaf3..8173a13 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -32,7 +32,7 @@ bool table_validate_column_name(char *name)
 	return __valid_name(name, TABLE_MAX_COLUMN_NAME);
 }
 
-static bool datablock_add_column(struct table *table, size_t row_cur_size, size_t row_nxt_size)
+static bool datablock_add_column(struct table *table, struct column *column, size_t row_cur_size, size_t row_nxt_size)
 {
 	struct list_head *old_head, *new_head;
 	struct list_head *old_pos, *new_pos, *tmp_pos;
@@ -78,6 +78,19 @@ static bool datablock_add_column(struct table *table, size_t row_cur_size, size_
 
 			/* copy row into new datablock */
 			memcpy(&new_entry->data[blk_offset], row, row_cur_size);
+
+			/* rows that already exist need room for the content of a var precision column too */
+			if (table_check_var_column(column)) {
+				void *ptr = zalloc(column->precision);
+
+				if (!ptr) {
+					((struct row*)&new_entry->data[blk_offset])->flags.empty = true;
+					goto err_free;
+				}
+
+				*(void**)&new_entry->data[blk_offset + row_cur_size] = ptr;
+			}
+
 			blk_offset += row_nxt_size;
 		}
 	}
@@ -98,7 +111,16 @@ static bool datablock_add_column(struct table *table, size_t row_cur_size, size_
 err_free:
 	list_for_each_safe(new_pos, tmp_pos, new_head)
 	{
-		datablock_free(list_entry(new_pos, typeof(*new_entry), head));
+		new_entry = list_entry(new_pos, typeof(*new_entry), head);
+
+		for (size_t i = 0; table_check_var_column(column) && i < (DATABLOCK_PAGE_SIZE / row_nxt_size); i++) {
+			struct row *row = (struct row*)&new_entry->data[i * row_nxt_size];
+
+			if (!row->flags.empty)
+				free(*(void**)((char*)row + row_cur_size));
+		}
+
+		datablock_free(new_entry);
 	}
 	free(new_head);
 
@@ -136,7 +158,7 @@ bool table_add_column(struct table *table, struct column *column)
 
 	/* if table isn't empty than we can to rearrange rows in datablocks */
 	if (!list_is_empty(table->datablock_head)) {
-		if (!datablock_add_column(table, row_cur_size, table_calc_row_size(table))) {
+		if (!datablock_add_column(table, column, row_cur_size, table_calc_row_size(table))) {
 			table->column_count--;
 			return false;
 		}
-- 
2.43.0


From 4319cdd39bfccf12bc286fdb4e3a35572980c115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:29 +0000
Subject: [PATCH 07/73] fix: integer comparisons in WHERE must use all 64 bits
 of the operands

---
 src/engine/executor_delete.c | 2 +-
 src/engine/executor_select.c | 2 +-
 src/engine/executor_update.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index 505e79b..bb631e8 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -54,7 +54,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 72df5e2..8460e3b 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -459,7 +459,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index 1844ec6..e0ed596 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -54,7 +54,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
-- 
2.43.0


From ff92fa2ccd684bea6d128a63e61b7fdeac47c388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:30 +0000
Subject: [PATCH 08/73] fix: comparing a column with itself must not terminate
 the process

---
 src/engine/executor_delete.c | 4 +++-
 src/engine/executor_select.c | 4 +++-
 src/engine/executor_update.c | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index bb631e8..55b4978 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -137,7 +137,9 @@ static bool cmp_field_to_field(struct table *table, struct row *row, struct ast_
 			type = col->type;
 			offset_1 = tmp_offset;
 			col_idx_1 = i;
-		} else if (strcmp(col->name, val_2->name_val) == 0) {
+		}
+
+		if (strcmp(col->name, val_2->name_val) == 0) {
 			offset_2 = tmp_offset;
 			col_idx_2 = i;
 		}
diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 8460e3b..e409d2a 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -543,7 +543,9 @@ static bool cmp_field_to_field(struct table *table, struct row *row, struct ast_
 			type = col->type;
 			offset_1 = tmp_offset;
 			col_idx_1 = i;
-		} else if (strcmp(col->name, val_2->name_val) == 0) {
+		}
+
+		if (strcmp(col->name, val_2->name_val) == 0) {
 			offset_2 = tmp_offset;
 			col_idx_2 = i;
 		}
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index e0ed596..b9a8045 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -137,7 +137,9 @@ static bool cmp_field_to_field(struct table *table, struct row *row, struct ast_
 			type = col->type;
 			offset_1 = tmp_offset;
 			col_idx_1 = i;
-		} else if (strcmp(col->name, val_2->name_val) == 0) {
+		}
+
+		if (strcmp(col->name, val_2->name_val) == 0) {
 			offset_2 = tmp_offset;
 			col_idx_2 = i;
 		}
-- 
2.43.0


From 6db0407a88a4f9967962e54b6b36fee8fbb945f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:30 +0000
Subject: [PATCH 09/73] fix: 'value <op> field' comparisons must not be
 evaluated as 'field <op> value'

---
 include/parser/ast.h         | 17 +++++++++++++++++
 src/engine/executor_delete.c |  5 ++++-
 src/engine/executor_select.c |  5 ++++-
 src/engine/executor_update.c |  5 ++++-
 4 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/include/parser/ast.h b/include/parser/ast.h
index 8ab7cbc..ed5399d 100644
--- a/include/parser/ast.h
+++ b/include/parser/ast.h
@@ -83,6 +83,23 @@ enum ast_comparison_type {
 	AST_CMP_DIFF_OP = 3,
 };
 
+/* operator to be used once the operands of a comparison are swapped. Ex.: '5 < field' is the same as 'field > 5' */
+static inline enum ast_comparison_type ast_cmp_swap_operands(enum ast_comparison_type cmp_type)
+{
+	switch (cmp_type) {
+	case AST_CMP_LT_OP:
+		return AST_CMP_GT_OP;
+	case AST_CMP_GT_OP:
+		return AST_CMP_LT_OP;
+	case AST_CMP_LTE_OP:
+		return AST_CMP_GTE_OP;
+	case AST_CMP_GTE_OP:
+		return AST_CMP_LTE_OP;
+	default:
+		return cmp_type;
+	}
+}
+
 /* Logical Operation type */
 enum ast_logop_type {
 	AST_LOGOP_TYPE_AND,
diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index 55b4978..ec310e0 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -290,7 +290,10 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_del_cmp_no
 		return cmp_field_to_value(table, row, node, val_1, val_2);
 	} else if (!val_1->value_type.is_name && val_2->value_type.is_name) {
 		/* value-to-field or value-to-field comparison */
-		return cmp_field_to_value(table, row, node, val_2, val_1);
+		struct ast_del_cmp_node swapped = *node;
+
+		swapped.cmp_type = ast_cmp_swap_operands(node->cmp_type);
+		return cmp_field_to_value(table, row, &swapped, val_2, val_1);
 	} else {
 		/* value-to-value comparison */
 		return cmp_value_to_value(node, val_1, val_2);
diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index e409d2a..2e384d6 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -894,7 +894,10 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_sel_cmp_no
 			return cmp_field_to_value(table, row, node, val_1, val_2);
 		} else if (!val_1->value_type.is_name && val_2->value_type.is_name) {
 			/* value-to-field or value-to-field comparison */
-			return cmp_field_to_value(table, row, node, val_2, val_1);
+			struct ast_sel_cmp_node swapped = *node;
+
+			swapped.cmp_type = ast_cmp_swap_operands(node->cmp_type);
+			return cmp_field_to_value(table, row, &swapped, val_2, val_1);
 		} else {
 			/* value-to-value comparison */
 			return cmp_value_to_value(node, val_1, val_2);
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index b9a8045..c601816 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -269,7 +269,10 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_upd_cmp_no
 		return cmp_field_to_value(table, row, node, val_1, val_2);
 	} else if (!val_1->value_type.is_name && val_2->value_type.is_name) {
 		/* value-to-field or value-to-field comparison */
-		return cmp_field_to_value(table, row, node, val_2, val_1);
+		struct ast_upd_cmp_node swapped = *node;
+
+		swapped.cmp_type = ast_cmp_swap_operands(node->cmp_type);
+		return cmp_field_to_value(table, row, &swapped, val_2, val_1);
 	} else {
 		/* value-to-value comparison */
 		return cmp_value_to_value(node, val_1, val_2);
-- 
2.43.0


From 94676e0005cb78adf2c53eb815d0196e3f9f7077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:05 +0000
Subject: [PATCH 10/73] fix: IN must match any of the values and NOT IN must
 differ from all of them

---
 src/engine/executor_delete.c |  7 ++++---
 src/engine/executor_select.c | 24 +++++++++++++-----------
 src/engine/executor_update.c |  7 ++++---
 3 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index ec310e0..a11fc89 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -356,11 +356,12 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_del_isxi
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
 		if (!tmp_entry->value_type.is_name) {
-			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry))
-				return true;
+			/* IN: any value has to match, NOT IN: all values have to differ */
+			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry) != node->is_negation)
+				return !node->is_negation;
 		}
 	}
-	return false;
+	return node->is_negation;
 }
 
 static bool eval_delete_row(struct table *table, struct row *row, struct ast_node *node)
diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 2e384d6..131d4f8 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -977,7 +977,8 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_sel_isxi
 	struct ast_sel_fieldname_node *field = NULL;
 	struct ast_sel_exprval_node *value = NULL;
 	struct ast_sel_cmp_node cmp_node = {0};
-	bool is_field;
+	bool is_field = false;
+	bool match;
 
 	if (node->is_negation) {
 		cmp_node.cmp_type = AST_CMP_DIFF_OP;
@@ -1015,18 +1016,19 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_sel_isxi
 
 		if (!((struct ast_sel_exprval_node*)tmp_entry)->value_type.is_name) {
 
-			if (is_field) {
-				if (!cmp_fieldname_to_value(table, row, &cmp_node, field,
-								(struct ast_sel_exprval_node*)tmp_entry))
-					return false; // fail-fast
-			} else {
-				if (!cmp_field_to_value(table, row, &cmp_node, value,
-							(struct ast_sel_exprval_node*)tmp_entry))
-					return false; // fail-fast
-			}
+			if (is_field)
+				match = cmp_fieldname_to_value(table, row, &cmp_node, field,
+								(struct ast_sel_exprval_node*)tmp_entry);
+			else
+				match = cmp_field_to_value(table, row, &cmp_node, value,
+								(struct ast_sel_exprval_node*)tmp_entry);
+
+			/* IN: any value has to match, NOT IN: all values have to differ */
+			if (match != node->is_negation)
+				return !node->is_negation;
 		}
 	}
-	return true;
+	return node->is_negation;
 }
 
 static bool eval_row_cond(struct ast_node *node, struct table *table, struct row *row)
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index c601816..f1f89d5 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -335,11 +335,12 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_upd_isxi
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
 		if (!tmp_entry->value_type.is_name) {
-			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry))
-				return true;
+			/* IN: any value has to match, NOT IN: all values have to differ */
+			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry) != node->is_negation)
+				return !node->is_negation;
 		}
 	}
-	return false;
+	return node->is_negation;
 }
 
 static bool should_update_row(struct table *table, struct row *row, struct ast_node *node)
-- 
2.43.0


From 38796a21cd31186573c001e5c0b5318acd069b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:58 +0000
Subject: [PATCH 11/73] fix: NULL in an IN list of a SELECT must not terminate
 the process

---
 src/parser/semantic_select.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index cf97186..bf073ae 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2341,7 +2341,7 @@ static struct sem_check_val_types check_value_types_isxin(struct ast_sel_isxin_n
 							val_node->bool_val);
 					goto err;
 				}
-			} else {
+			} else if (!val_node->value_type.is_null) {
 				/* maybe new column type? */
 				BUG_GENERIC();
 			}
-- 
2.43.0


From 2152df317a9f433e86cbca44cd2f5201a68adfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:21 +0000
Subject: [PATCH 12/73] fix: IS [NOT] NULL and LIKE must be allowed as operands
 of AND, OR and XOR in a SELECT

---
 src/parser/semantic_select.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index bf073ae..1f90269 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2403,6 +2403,9 @@ static struct sem_check_val_types __check_value_types(struct ast_node *node, str
 		return ret;
 	} else if (node->node_type == AST_TYPE_SEL_EXPRISXIN) {
 		return check_value_types_isxin((struct ast_sel_isxin_node*)node, ht, out_err, out_err_len);
+	} else if (node->node_type == AST_TYPE_SEL_EXPRISXNULL || node->node_type == AST_TYPE_SEL_LIKE) {
+		ret.type = CT_TINYINT; // both resolve into a Boolean value
+		return ret;
 	}
 
 	// recursion
-- 
2.43.0


From c950c199f2b38ce76604cb1db4e7b3462d9f68cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:54 +0000
Subject: [PATCH 13/73] fix: SELECT must accept date literals when comparing
 DATE and DATETIME columns

---
 src/parser/semantic_select.c | 38 ++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 1f90269..5256365 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2132,6 +2132,34 @@ struct sem_check_val_types {
 	enum COLUMN_TYPE type;
 };
 
+static bool is_date_type(enum COLUMN_TYPE type)
+{
+	return type == CT_DATE || type == CT_DATETIME;
+}
+
+static bool is_str_value(struct ast_node *node)
+{
+	return node->node_type == AST_TYPE_SEL_EXPRVAL && ((struct ast_sel_exprval_node*)node)->value_type.is_str;
+}
+
+static struct sem_check_val_types check_value_types_date(enum COLUMN_TYPE type, struct ast_node *node, char *out_err, size_t out_err_len)
+{
+	struct sem_check_val_types ret = {0};
+	struct ast_sel_exprval_node *val_node = (typeof(val_node))node;
+
+	if (try_parse_date_type(val_node->str_val, type)) {
+		ret.type = CT_TINYINT; // CMP resolves into a Boolean value
+	} else {
+		snprintf(out_err, out_err_len,
+				/* max str size would exceed buffer's size, so trim it */
+				"val: '%.256s' can't be parsed for DATE | DATETIME column\n",
+				val_node->str_val);
+		ret.invalid = true;
+	}
+
+	return ret;
+}
+
 static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node *cmp_node, struct hashtable *ht, char *out_err, size_t out_err_len)
 {
 	struct sem_check_val_types ret = {0};
@@ -2140,6 +2168,7 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 	int i = 0;
 
 	struct ast_node *tmp_entry = NULL;
+	struct ast_node *left_node = NULL, *right_node = NULL;
 	struct list_head *pos;
 
 	/* sanity check */
@@ -2150,8 +2179,10 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
 		if (i == 0) {
+			left_node = tmp_entry;
 			left = __check_value_types(tmp_entry, ht, out_err, out_err_len);
 		} else {
+			right_node = tmp_entry;
 			right = __check_value_types(tmp_entry, ht, out_err, out_err_len);
 		}
 		i++;
@@ -2168,6 +2199,13 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 		return ret;
 	}
 
+	// strings can be interpreted/parsed for other types such as DATE and DATETIME
+	if (is_date_type(left.type) && is_str_value(right_node)) {
+		return check_value_types_date(left.type, right_node, out_err, out_err_len);
+	} else if (is_date_type(right.type) && is_str_value(left_node)) {
+		return check_value_types_date(right.type, left_node, out_err, out_err_len);
+	}
+
 	// VARCHAR has a special set of rules
 	if (left.type == CT_VARCHAR || right.type == CT_VARCHAR) {
 		if (cmp_node->cmp_type != AST_CMP_EQUALS_OP && cmp_node->cmp_type != AST_CMP_DIFF_OP) {
-- 
2.43.0


From 0a781c81965b3e25eb9bd3d461276efcd624ab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:58 +0000
Subject: [PATCH 14/73] fix: rejecting operands of different types in a SELECT
 must say why

---
 src/parser/semantic_select.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 5256365..a600564 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2215,6 +2215,9 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 	}
 
 	if (memcmp(&left, &right, sizeof(left))) {
+		/* keep the message of the innermost error if there is one already */
+		if (!left.invalid && !right.invalid)
+			snprintf(out_err, out_err_len, "operands of the expression don't have the same type\n");
 		ret.invalid = true;
 	} else {
 		ret.type = CT_TINYINT; // CMP resolves into a Boolean value
@@ -2249,6 +2252,9 @@ static struct sem_check_val_types check_value_types_exprop(struct ast_sel_exprop
 	}
 
 	if (memcmp(&left, &right, sizeof(left))) {
+		/* keep the message of the innermost error if there is one already */
+		if (!left.invalid && !right.invalid)
+			snprintf(out_err, out_err_len, "operands of the expression don't have the same type\n");
 		ret.invalid = true;
 	} else {
 		ret = left;
@@ -2282,6 +2288,9 @@ static struct sem_check_val_types check_value_types_logop(struct ast_sel_logop_n
 	}
 
 	if (memcmp(&left, &right, sizeof(left))) {
+		/* keep the message of the innermost error if there is one already */
+		if (!left.invalid && !right.invalid)
+			snprintf(out_err, out_err_len, "operands of the expression don't have the same type\n");
 		ret.invalid = true;
 	} else {
 		ret.type = CT_TINYINT; // LOGOP resolves into a Boolean value
-- 
2.43.0


From 31d7fd4775a743c2429650b7f78d92e9687f365a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:22 +0000
Subject: [PATCH 15/73] fix: two invalid operands must not make a valid
 expression

---
 src/parser/semantic_select.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index a600564..7d405b4 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2214,10 +2214,11 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 		}
 	}
 
-	if (memcmp(&left, &right, sizeof(left))) {
-		/* keep the message of the innermost error if there is one already */
-		if (!left.invalid && !right.invalid)
-			snprintf(out_err, out_err_len, "operands of the expression don't have the same type\n");
+	if (left.invalid || right.invalid) {
+		/* out_err has been set already */
+		ret.invalid = true;
+	} else if (memcmp(&left, &right, sizeof(left))) {
+		snprintf(out_err, out_err_len, "operands of the expression don't have the same type\n");
 		ret.invalid = true;
 	} else {
 		ret.type = CT_TINYINT; // CMP resolves into a Boolean value
@@ -2251,10 +2252,11 @@ static struct sem_check_val_types check_value_types_exprop(struct ast_sel_exprop
 		i++;
 	}
 
-	if (memcmp(&left, &right, sizeof(left))) {
-		/* keep the message of the innermost error if there is one already */
-		if (!left.invalid && !right.invalid)
-			snprintf(out_err, out_err_len, "operands of the expression don't have the same type\n");
+	if (left.invalid || right.invalid) {
+		/* out_err has been set already */
+		ret.invalid = true;
+	} else if (memcmp(&left, &right, sizeof(left))) {
+		snprintf(out_err, out_err_len, "operands of the expression don't have the same type\n");
 		ret.invalid = true;
 	} else {
 		ret = left;
@@ -2287,10 +2289,11 @@ static struct sem_check_val_types check_value_types_logop(struct ast_sel_logop_n
 		i++;
 	}
 
-	if (memcmp(&left, &right, sizeof(left))) {
-		/* keep the message of the innermost error if there is one already */
-		if (!left.invalid && !right.invalid)
-			snprintf(out_err, out_err_len, "operands of the expression don't have the same type\n");
+	if (left.invalid || right.invalid) {
+		/* out_err has been set already */
+		ret.invalid = true;
+	} else if (memcmp(&left, &right, sizeof(left))) {
+		snprintf(out_err, out_err_len, "operands of the expression don't have the same type\n");
 		ret.invalid = true;
 	} else {
 		ret.type = CT_TINYINT; // LOGOP resolves into a Boolean value
-- 
2.43.0


From d49b8bc54b3cf6585042e6416bf78c68512ea79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:07 +0000
Subject: [PATCH 16/73] fix: the result cursor must reach the rows of every
 datablock and stop after the last one

---
 src/engine/query.c | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/engine/query.c b/src/engine/query.c
index 23fc1eb..d9f94ca 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -108,6 +108,7 @@ err:
 int query_cur_step(struct result_set *res)
 {
 	struct row *row;
+	struct list_head *next;
 	size_t row_size;
 
 	/* sanity checks */
@@ -118,31 +119,39 @@ int query_cur_step(struct result_set *res)
 	/* is this the first time ? */
 	if (!res->cursor_blk) {
 
+		if (list_is_empty(res->table->datablock_head)) {
+			/* end of the line */
+			return MIDORIDB_OK;
+		}
+
 		res->cursor_blk = container_of(res->table->datablock_head->next, typeof(struct datablock), head);
 		res->cursor_offset = 0;
 	} else {
-		if (res->cursor_offset + row_size > DATABLOCK_PAGE_SIZE) {
-			res->cursor_blk = container_of(res->cursor_blk->head.next, typeof(struct datablock), head);
-			res->cursor_offset = 0;
-
-			if (&res->cursor_blk->head == res->table->datablock_head) {
-				/* end of the line */
-				return MIDORIDB_OK;
-			}
-		} else {
+		res->cursor_offset += row_size;
+	}
+
+	while (true) {
+
+		/* slots that were never used (or whose row has been deleted) don't hold a row */
+		while (res->cursor_offset + row_size <= DATABLOCK_PAGE_SIZE) {
+			row = (typeof(row))&res->cursor_blk->data[res->cursor_offset];
+
+			if (!row->flags.empty && !row->flags.deleted)
+				return MIDORIDB_ROW;
+
 			res->cursor_offset += row_size;
 		}
-	}
 
-	/* at this point we shouldn't have any of this, so clearly something went really wrong here */
-	row = (typeof(row))&res->cursor_blk->data[res->cursor_offset];
-	BUG_ON(row->flags.deleted);
+		next = res->cursor_blk->head.next;
 
-	if (row->flags.empty)
-		/* end of the line */
-		return MIDORIDB_OK;
+		if (next == res->table->datablock_head) {
+			/* end of the line */
+			return MIDORIDB_OK;
+		}
 
-	return MIDORIDB_ROW;
+		res->cursor_blk = container_of(next, typeof(struct datablock), head);
+		res->cursor_offset = 0;
+	}
 }
 
 int64_t query_column_int64(struct result_set *res, int col_idx)
-- 
2.43.0


From 3a768ecc43ae53a2d1b3c9ce36567a99eaf05161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:09 +0000
Subject: [PATCH 17/73] fix: INSERT arithmetic on integers must use 64 bits

---
 src/engine/optimiser_insert.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/engine/optimiser_insert.c b/src/engine/optimiser_insert.c
index 3148d1d..f2906d8 100644
--- a/src/engine/optimiser_insert.c
+++ b/src/engine/optimiser_insert.c
@@ -10,7 +10,7 @@
 static void negate(struct ast_ins_exprval_node *in, struct ast_ins_exprval_node *out)
 {
 	if (in->value_type.is_intnum) {
-		out->int_val = in->int_val * -1;
+		out->int_val = (int64_t)(0 - (uint64_t)in->int_val);
 	} else if (in->value_type.is_approxnum) {
 		out->double_val = in->double_val * -1;
 	} else {
@@ -60,7 +60,10 @@ static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *val_1,
 		struct ast_ins_exprval_node *val_2, struct ast_ins_exprval_node *out)
 {
-	int result = 0;
+	/* unsigned so an overflow wraps around (signed overflow isn't defined in C) */
+	uint64_t result = 0;
+	uint64_t lhs = (uint64_t)val_2->int_val;
+	uint64_t rhs = (uint64_t)val_1->int_val;
 
 	if (val_1->value_type.is_null || val_2->value_type.is_null) {
 		/* if any term _became_ NULL, then we bubble that up */
@@ -68,11 +71,11 @@ static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 		out->value_type.is_null = true;
 		result = 0;
 	} else if (op->op_type == AST_INS_EXPR_OP_ADD) {
-		result = val_2->int_val + val_1->int_val;
+		result = lhs + rhs;
 	} else if (op->op_type == AST_INS_EXPR_OP_SUB) {
-		result = val_2->int_val - val_1->int_val;
+		result = lhs - rhs;
 	} else if (op->op_type == AST_INS_EXPR_OP_MUL) {
-		result = val_2->int_val * val_1->int_val;
+		result = lhs * rhs;
 	} else if (op->op_type == AST_INS_EXPR_OP_DIV) {
 		if (val_1->int_val == 0) {
 			/*
@@ -91,7 +94,7 @@ static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 		BUG_GENERIC();
 	}
 
-	out->int_val = result;
+	out->int_val = (int64_t)result;
 }
 
 static int resolve_math_expr(struct ast_node **node, struct query_output *output)
-- 
2.43.0


From 73edb5194d61b7e153b08862204d869a62935d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:12 +0000
Subject: [PATCH 18/73] fix: modulo by zero and by -1 in an INSERT must not
 terminate the process

---
 src/engine/optimiser_insert.c | 38 +++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/engine/optimiser_insert.c b/src/engine/optimiser_insert.c
index f2906d8..7f2911d 100644
--- a/src/engine/optimiser_insert.c
+++ b/src/engine/optimiser_insert.c
@@ -19,6 +19,23 @@ static void negate(struct ast_ins_exprval_node *in, struct ast_ins_exprval_node
 	memcpy(&out->value_type, &in->value_type, sizeof(out->value_type));
 }
 
+static int64_t calc_mod(int64_t lhs, int64_t rhs)
+{
+	/* the remainder of a division by -1 is always 0. The division itself may not fit in 64 bits though */
+	return rhs == -1 ? 0 : lhs % rhs;
+}
+
+static int64_t double_to_int(double val)
+{
+	/* values that don't fit in 64 bits are replaced by the closest one that does */
+	if (!(val > -9223372036854775808.0))
+		return INT64_MIN;
+	else if (val >= 9223372036854775808.0)
+		return INT64_MAX;
+	else
+		return (int64_t)val;
+}
+
 static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *val_1,
 		struct ast_ins_exprval_node *val_2, struct ast_ins_exprval_node *out)
 {
@@ -49,7 +66,14 @@ static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 		}
 	} else if (op->op_type == AST_INS_EXPR_OP_MOD) {
 		/* C doesn't support modulo operation on double data type. Replicating SQLite behaviour */
-		result = (double)(((int)val_2->double_val) % ((int)val_1->double_val));
+		if (double_to_int(val_1->double_val) == 0) {
+			/* same as division by 0 */
+			out->value_type.is_approxnum = false;
+			out->value_type.is_null = true;
+			result = 0;
+		} else {
+			result = (double)calc_mod(double_to_int(val_2->double_val), double_to_int(val_1->double_val));
+		}
 	} else {
 		BUG_GENERIC();
 	}
@@ -85,11 +109,21 @@ static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 			out->value_type.is_intnum = false;
 			out->value_type.is_null = true;
 			result = 0;
+		} else if (val_1->int_val == -1) {
+			/* dividing the smallest integer by -1 doesn't fit in 64 bits, so let it wrap around */
+			result = 0 - lhs;
 		} else {
 			result = val_2->int_val / val_1->int_val;
 		}
 	} else if (op->op_type == AST_INS_EXPR_OP_MOD) {
-		result = val_2->int_val % val_1->int_val;
+		if (val_1->int_val == 0) {
+			/* same as division by 0 */
+			out->value_type.is_intnum = false;
+			out->value_type.is_null = true;
+			result = 0;
+		} else {
+			result = calc_mod(val_2->int_val, val_1->int_val);
+		}
 	} else {
 		BUG_GENERIC();
 	}
-- 
2.43.0


From b70fbdc68424ad8a8e4fa43c62592e6b7c32eed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:14 +0000
Subject: [PATCH 19/73] fix: an INSERT expression with a term that became NULL
 must not terminate the process

---
 src/engine/optimiser_insert.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/engine/optimiser_insert.c b/src/engine/optimiser_insert.c
index 7f2911d..7d30dbb 100644
--- a/src/engine/optimiser_insert.c
+++ b/src/engine/optimiser_insert.c
@@ -13,6 +13,9 @@ static void negate(struct ast_ins_exprval_node *in, struct ast_ins_exprval_node
 		out->int_val = (int64_t)(0 - (uint64_t)in->int_val);
 	} else if (in->value_type.is_approxnum) {
 		out->double_val = in->double_val * -1;
+	} else if (in->value_type.is_null) {
+		/* the term _became_ NULL, so we bubble that up */
+		out->int_val = 0;
 	} else {
 		BUG_GENERIC();
 	}
@@ -181,6 +184,8 @@ static int resolve_math_expr(struct ast_node **node, struct query_output *output
 		calci(op, val_1, val_2, val_1);
 	} else if (val_1->value_type.is_approxnum) {
 		calcd(op, val_1, val_2, val_1);
+	} else if (val_1->value_type.is_null) {
+		/* the right-hand side term _became_ NULL, so we bubble that up - nothing to calculate */
 	} else {
 		BUG_GENERIC();
 	}
-- 
2.43.0


From 0c2650f5b53677335091aabb490860625f7cabec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:16 +0000
Subject: [PATCH 20/73] fix: an INSERT expression that evaluates to NULL must
 not be stored in a NOT NULL column

---
 src/engine/executor_insert.c | 39 ++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/engine/executor_insert.c b/src/engine/executor_insert.c
index 938cd85..63fe8a6 100644
--- a/src/engine/executor_insert.c
+++ b/src/engine/executor_insert.c
@@ -191,6 +191,41 @@ static void build_column_order(struct table *table, struct ast_ins_insvals_node
 	}
 }
 
+/* the result of a math expression can be NULL (division by 0), which is only known after it has been resolved */
+static int check_not_null_columns(struct table *table, struct ast_ins_insvals_node *ins_node, int *column_order,
+		struct query_output *output)
+{
+	struct list_head *pos1, *pos2;
+	struct ast_node *entry;
+	struct ast_ins_exprval_node *exprval_entry;
+	struct column *column;
+	int val_pos;
+
+	list_for_each(pos1, ins_node->node_children_head)
+	{
+		entry = list_entry(pos1, typeof(*entry), head);
+
+		if (entry->node_type != AST_TYPE_INS_VALUES)
+			continue;
+
+		val_pos = 0;
+		list_for_each(pos2, entry->node_children_head)
+		{
+			exprval_entry = list_entry(pos2, typeof(*exprval_entry), head);
+			column = &table->columns[column_order[val_pos]];
+
+			if (exprval_entry->value_type.is_null && !column->nullable) {
+				snprintf(output->error.message, sizeof(output->error.message) - 1,
+						"NOT NULL constraint failed: %s.%s\n", table->name, column->name);
+				return -MIDORIDB_ERROR;
+			}
+			val_pos++;
+		}
+	}
+
+	return MIDORIDB_OK;
+}
+
 int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_node *ins_node,
 		struct query_output *output)
 {
@@ -213,6 +248,10 @@ int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_nod
 	/* columns can be specified in an order that's different from the order defined in the CREATE stmt */
 	build_column_order(table, ins_node, column_order, ARR_SIZE(column_order));
 
+	/* nothing is inserted unless every row is valid */
+	if ((rc = check_not_null_columns(table, ins_node, column_order, output)))
+		goto err;
+
 	list_for_each(pos, ins_node->node_children_head)
 	{
 		entry = list_entry(pos, typeof(*entry), head);
-- 
2.43.0


From 02fdfc83e62f3d363bc4572e084eb33f8f21dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:53 +0000
Subject: [PATCH 21/73] fix: integer literals must keep all 64 bits

---
 src/parser/ast_delete.c |  2 +-
 src/parser/ast_insert.c |  2 +-
 src/parser/ast_select.c |  2 +-
 src/parser/ast_update.c |  2 +-
 src/parser/midorisql.l  |  6 +++++-
 src/parser/midorisql.y  | 12 +++++++-----
 6 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index 0815743..95b5c30 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -169,7 +169,7 @@ static struct ast_del_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_DEL_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = strtoll(ext_val, NULL, 10);
 		} else if (type == AST_DEL_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_DEL_EXPR_VAL_NAME) {
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index a030ca7..4b22301 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -162,7 +162,7 @@ static struct ast_ins_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_INS_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = strtoll(ext_val, NULL, 10);
 		} else if (type == AST_INS_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_INS_EXPR_VAL_APPROXNUM) {
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index f82c01c..4f6db8d 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -72,7 +72,7 @@ static struct ast_sel_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_SEL_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = strtoll(ext_val, NULL, 10);
 		} else if (type == AST_SEL_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_SEL_EXPR_VAL_NAME) {
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index 88f441b..064d980 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -220,7 +220,7 @@ static struct ast_upd_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_UPD_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = strtoll(ext_val, NULL, 10);
 		} else if (type == AST_UPD_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_UPD_EXPR_VAL_NAME) {
diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index dbb8e1d..d394341 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -1,6 +1,7 @@
 %option noyywrap nodefault yylineno case-insensitive reentrant bison-bridge
 
 %{
+#include <errno.h>
 #include "midorisql.tab.h"
 void yyerror(void*, void*, char *s, ...);
 int oldstate;
@@ -82,7 +83,10 @@ XOR	{ return XOR; }
 
    /* numbers */
 
--?[0-9]+	        { yylval->intval = atoi(yytext); return INTNUM; } 
+-?[0-9]+	        { errno = 0;
+                          yylval->bigintval = strtoll(yytext, NULL, 10);
+                          /* a number that does not fit in 64 bits is not a valid token */
+                          return errno == ERANGE ? YYUNDEF : INTNUM; }
 
 -?[0-9]+"."[0-9]* |
 -?"."[0-9]+	|
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 2b2dbd8..9729bb1 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -13,6 +13,7 @@ int yylex(void*, void*);
 %}
 
 %code requires { 
+#include <stdint.h>
 #include <compiler/common.h>
 #include <datastructure/queue.h>
 }
@@ -31,6 +32,7 @@ int yylex(void*, void*);
 
 %union {
 	int intval;
+	int64_t bigintval;
 	double floatval;
 	char *strval;
 	int subtok;
@@ -40,7 +42,7 @@ int yylex(void*, void*);
 
 %token <strval> NAME
 %token <strval> STRING
-%token <intval> INTNUM
+%token <bigintval> INTNUM
 %token <intval> BOOL
 %token <floatval> APPROXNUM
 
@@ -250,7 +252,7 @@ join_condition:
 expr: NAME          { emit(result, "NAME %s", $1); free($1); }
    | NAME '.' NAME { emit(result, "FIELDNAME %s.%s", $1, $3); free($1); free($3); }
    | STRING        { emit(result, "STRING %s", $1); free($1); }
-   | INTNUM        { emit(result, "NUMBER %d", $1); }
+   | INTNUM        { emit(result, "NUMBER %ld", $1); }
    | APPROXNUM     { emit(result, "FLOAT %g", $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
@@ -317,7 +319,7 @@ del_opt_where: /* nil */
 
 delete_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
-	   | INTNUM        { emit(result, "NUMBER %d", $1); }
+	   | INTNUM        { emit(result, "NUMBER %ld", $1); }
 	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
@@ -374,7 +376,7 @@ insert_stmt: INSERT opt_into NAME opt_col_names
 
 insert_expr:
      STRING        { emit(result, "STRING %s", $1); free($1); }
-   | INTNUM        { emit(result, "NUMBER %d", $1); }
+   | INTNUM        { emit(result, "NUMBER %ld", $1); }
    | APPROXNUM     { emit(result, "FLOAT %g", $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
@@ -413,7 +415,7 @@ update_opt_where: /* nil */ 	{ $$ = 0; }
 
 update_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
-	   | INTNUM        { emit(result, "NUMBER %d", $1); }
+	   | INTNUM        { emit(result, "NUMBER %ld", $1); }
 	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
-- 
2.43.0


From c951f65f6b16762937916c52cea4223fc760fa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:57 +0000
Subject: [PATCH 22/73] fix: floating-point literals must keep their exact
 value

---
 src/parser/ast_delete.c |  2 +-
 src/parser/ast_insert.c |  2 +-
 src/parser/ast_select.c |  2 +-
 src/parser/ast_update.c |  2 +-
 src/parser/midorisql.y  | 23 +++++++++++++++++++----
 5 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index 95b5c30..9692cfe 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -141,7 +141,7 @@ static struct ast_del_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING '(.+)'";
 	} else if (type == AST_DEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (-{0,1}[0-9\\.]+[-+e0-9]*)";
 	} else if (type == AST_DEL_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index 4b22301..024789d 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -137,7 +137,7 @@ static struct ast_ins_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING '(.+)'";
 	} else if (type == AST_INS_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (-{0,1}[0-9\\.]+[-+e0-9]*)";
 	} else if (type == AST_INS_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index 4f6db8d..981442d 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -44,7 +44,7 @@ static struct ast_sel_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING '(.+)'";
 	} else if (type == AST_SEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (-{0,1}[0-9\\.]+[-+e0-9]*)";
 	} else if (type == AST_SEL_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index 064d980..52a4d63 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -192,7 +192,7 @@ static struct ast_upd_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING '(.+)'";
 	} else if (type == AST_UPD_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (-{0,1}[0-9\\.]+[-+e0-9]*)";
 	} else if (type == AST_UPD_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 9729bb1..eb610f9 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -9,6 +9,7 @@
 
 void yyerror(struct queue*, void*, const char *, ...);
 bool emit(struct queue *q, char *s, ...);
+bool emit_float(struct queue *q, double val);
 int yylex(void*, void*);
 %}
 
@@ -253,7 +254,7 @@ expr: NAME          { emit(result, "NAME %s", $1); free($1); }
    | NAME '.' NAME { emit(result, "FIELDNAME %s.%s", $1, $3); free($1); free($3); }
    | STRING        { emit(result, "STRING %s", $1); free($1); }
    | INTNUM        { emit(result, "NUMBER %ld", $1); }
-   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+   | APPROXNUM     { emit_float(result, $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
    ;
@@ -320,7 +321,7 @@ del_opt_where: /* nil */
 delete_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
 	   | INTNUM        { emit(result, "NUMBER %ld", $1); }
-	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+	   | APPROXNUM     { emit_float(result, $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
    	   ;
@@ -377,7 +378,7 @@ insert_stmt: INSERT opt_into NAME opt_col_names
 insert_expr:
      STRING        { emit(result, "STRING %s", $1); free($1); }
    | INTNUM        { emit(result, "NUMBER %ld", $1); }
-   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+   | APPROXNUM     { emit_float(result, $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
    ;
@@ -416,7 +417,7 @@ update_opt_where: /* nil */ 	{ $$ = 0; }
 update_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
 	   | INTNUM        { emit(result, "NUMBER %ld", $1); }
-	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+	   | APPROXNUM     { emit_float(result, $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
    	   ;
@@ -528,3 +529,17 @@ bool emit(struct queue *q, char *s, ...)
 
 	return queue_offer(q, buf, strlen(buf) + 1);
 }
+
+bool emit_float(struct queue *q, double val)
+{
+	char buf[64];
+
+	/* shortest representation that can be converted back to exactly the same value */
+	for (int prec = 6; prec <= 17; prec++) {
+		snprintf(buf, sizeof(buf), "%.*g", prec, val);
+		if (strtod(buf, NULL) == val)
+			break;
+	}
+
+	return emit(q, "FLOAT %s", buf);
+}
-- 
2.43.0


From 8d4039b84e3dead406b8e85499ad990006915c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:29 +0000
Subject: [PATCH 23/73] fix: the empty string is a valid literal

---
 src/parser/ast_delete.c | 2 +-
 src/parser/ast_insert.c | 2 +-
 src/parser/ast_select.c | 2 +-
 src/parser/ast_update.c | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index 9692cfe..f34749d 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -138,7 +138,7 @@ static struct ast_del_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_DEL_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING '(.*)'";
 	} else if (type == AST_DEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
 		reg_exp = "FLOAT (-{0,1}[0-9\\.]+[-+e0-9]*)";
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index 024789d..37c1ee5 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -134,7 +134,7 @@ static struct ast_ins_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_INS_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING '(.*)'";
 	} else if (type == AST_INS_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
 		reg_exp = "FLOAT (-{0,1}[0-9\\.]+[-+e0-9]*)";
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index 981442d..eee955b 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -41,7 +41,7 @@ static struct ast_sel_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_SEL_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING '(.*)'";
 	} else if (type == AST_SEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
 		reg_exp = "FLOAT (-{0,1}[0-9\\.]+[-+e0-9]*)";
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index 52a4d63..b895503 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -189,7 +189,7 @@ static struct ast_upd_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_UPD_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING '(.*)'";
 	} else if (type == AST_UPD_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
 		reg_exp = "FLOAT (-{0,1}[0-9\\.]+[-+e0-9]*)";
-- 
2.43.0


From 0437acf2086a614e7db05d2ddd3663896f1b152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:31 +0000
Subject: [PATCH 24/73] fix: string literals longer than 247 characters must
 not be truncated

---
 src/parser/midorisql.y | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index eb610f9..c223672 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -519,15 +519,27 @@ void yyerror(struct queue *q, void* scanner, const char *s, ...)
 
 bool emit(struct queue *q, char *s, ...)
 {
-	char buf[256];
+	char *buf;
+	int len;
+	bool ret;
 	va_list ap;
-	
-	memzero(buf, sizeof(buf));
+
+	/* literals can be long, so find out how much space is needed */
 	va_start(ap, s);
-	vsnprintf(buf,sizeof(buf), s, ap);
+	len = vsnprintf(NULL, 0, s, ap);
 	va_end(ap);
 
-	return queue_offer(q, buf, strlen(buf) + 1);
+	if (len < 0 || !(buf = malloc(len + 1)))
+		return false;
+
+	va_start(ap, s);
+	vsnprintf(buf, len + 1, s, ap);
+	va_end(ap);
+
+	ret = queue_offer(q, buf, len + 1);
+	free(buf);
+
+	return ret;
 }
 
 bool emit_float(struct queue *q, double val)
-- 
2.43.0


From 7f733a8c43e51b74e3c22eddc78886ec49edf451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:59 +0000
Subject: [PATCH 25/73] fix: double-quoted string literals must be accepted and
 doubled quotes must stand for one

---
 src/parser/midorisql.l | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index d394341..bedb8f4 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -4,6 +4,7 @@
 #include <errno.h>
 #include "midorisql.tab.h"
 void yyerror(void*, void*, char *s, ...);
+static char* quoted_literal(const char *text, int len);
 int oldstate;
 
 #define YY_FATAL_ERROR(msg) yyerror(NULL, yyscanner, msg)
@@ -102,7 +103,7 @@ FALSE	{ yylval->intval = 0; return BOOL; }
    /* strings */
 
 '(\\.|''|[^'\n])*'	|
-\"(\\.|\"\"|[^"\n])*\"  { yylval->strval = strdup(yytext); return STRING; }
+\"(\\.|\"\"|[^"\n])*\"  { yylval->strval = quoted_literal(yytext, yyleng); return STRING; }
 
 '(\\.|[^'\n])*$	        { yyerror(NULL, yyscanner, "Unterminated string %s", yytext); }
 \"(\\.|[^"\n])*$	{ yyerror(NULL, yyscanner, "Unterminated string %s", yytext); }
@@ -168,3 +169,29 @@ COUNT    { int c = input(yyscanner); unput(c);
 .               { yyerror(NULL, yyscanner, "mystery character '%c'", *yytext); }
 
 %%
+
+/* literals leave the lexer between single quotes whichever quotes they were written with, and
+   a quote that was doubled in order to be part of the value stands for itself */
+static char* quoted_literal(const char *text, int len)
+{
+	char quote = text[0];
+	char *ret = malloc(len + 1);
+	int pos = 0;
+
+	if (!ret)
+		return NULL;
+
+	ret[pos++] = '\'';
+	for (int i = 1; i < len - 1; i++) {
+		if (text[i] == '\\' && i + 1 < len - 1) {
+			ret[pos++] = text[i++];
+		} else if (text[i] == quote && text[i + 1] == quote) {
+			i++;
+		}
+		ret[pos++] = text[i];
+	}
+	ret[pos++] = '\'';
+	ret[pos] = '\0';
+
+	return ret;
+}
-- 
2.43.0


From 64b14fd4fde5cdfa6c895e7ae3e3579902258715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:01 +0000
Subject: [PATCH 26/73] fix: parser error messages must be formatted with their
 arguments and stay within their buffer

---
 src/parser/midorisql.y | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index c223672..d155217 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -494,27 +494,19 @@ void yyerror(struct queue *q, void* scanner, const char *s, ...)
 	char buf[256];
 	va_list ap;
 	
-	memzero(buf, sizeof(buf));
 	va_start(ap, s);
-	
-	/* if the error happened at the lexical phase then 
-	we print it to stderr as there is no queue ref yet */
-	if(!q){
-		vfprintf(stderr, s, ap);  
-		fprintf(stderr, "\n");
-	}else {
-		sprintf(buf, s, ap);
-	
-		/* although unlikely, if we fail to push content to the queue
-		   so other program can read the error message, then we fail 
-		   over to the stderr */
-		if(!queue_offer(q, buf, strlen(buf) + 1)){
-			vfprintf(stderr, s, ap);  
-			fprintf(stderr, "\n");
-		}
-	}
-	
+	vsnprintf(buf, sizeof(buf), s, ap);
 	va_end(ap);
+
+	/* 
+	   if the error happened at the lexical phase then we print it to stderr as 
+	   there is no queue ref yet
+
+	   although unlikely, if we fail to push content to the queue so other program 
+	   can read the error message, then we fail over to the stderr too
+	*/
+	if(!q || !queue_offer(q, buf, strlen(buf) + 1))
+		fprintf(stderr, "%s\n", buf);
 }
 
 bool emit(struct queue *q, char *s, ...)
-- 
2.43.0


From 49d1ceaa00006388c72105965f5e03e1ea043584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:34 +0000
Subject: [PATCH 27/73] fix: text that is not a token must be a syntax error
 instead of being skipped

---
 src/parser/midorisql.l | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index bedb8f4..ec616a3 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -105,8 +105,8 @@ FALSE	{ yylval->intval = 0; return BOOL; }
 '(\\.|''|[^'\n])*'	|
 \"(\\.|\"\"|[^"\n])*\"  { yylval->strval = quoted_literal(yytext, yyleng); return STRING; }
 
-'(\\.|[^'\n])*$	        { yyerror(NULL, yyscanner, "Unterminated string %s", yytext); }
-\"(\\.|[^"\n])*$	{ yyerror(NULL, yyscanner, "Unterminated string %s", yytext); }
+'(\\.|[^'\n])*$	        { yyerror(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
+\"(\\.|[^"\n])*$	{ yyerror(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
 
    /* hex strings */
 X'[0-9A-F]+' |  
@@ -152,7 +152,7 @@ COUNT    { int c = input(yyscanner); unput(c);
                           yylval->strval[yyleng-2] = 0;
                           return NAME; }
 
-`[^`\n]*$               { yyerror(NULL, yyscanner, "unterminated quoted name %s", yytext); }
+`[^`\n]*$               { yyerror(NULL, yyscanner, "unterminated quoted name %s", yytext); return YYUNDEF; }
 
 
 	/* comments */   
@@ -166,7 +166,7 @@ COUNT    { int c = input(yyscanner); unput(c);
 
 	/* everything else */
 [ \t\n]         /* white space */
-.               { yyerror(NULL, yyscanner, "mystery character '%c'", *yytext); }
+.               { yyerror(NULL, yyscanner, "mystery character '%c'", *yytext); return YYUNDEF; }
 
 %%
 
-- 
2.43.0


From 32adf3c560454553c0fd0d582c6ec2c16da4cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:37 +0000
Subject: [PATCH 28/73] fix: a syntax error must be reported with the parser's
 message

---
 src/engine/query.c  | 6 +++++-
 src/parser/syntax.c | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/engine/query.c b/src/engine/query.c
index d9f94ca..3038e66 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -53,8 +53,12 @@ struct query_output* query_execute(struct database *db, char *query)
 	/* syntax analysis */
 	if (syntax_parse(query, &queue)) {
 		/* copy error from the tail of the queue */
-		char *err_msg = (char*)queue_peek(&queue);
+		char *err_msg = "syntax error";
 		size_t err_msg_len = sizeof(output->error.message) - 1;
+
+		if (!queue_empty(&queue))
+			err_msg = (char*)queue_peek_pos(&queue, queue_length(&queue) - 1);
+
 		strncpy(output->error.message, err_msg, err_msg_len);
 
 		goto err_syntax_parser;
diff --git a/src/parser/syntax.c b/src/parser/syntax.c
index 0674de5..d9cedb6 100644
--- a/src/parser/syntax.c
+++ b/src/parser/syntax.c
@@ -21,7 +21,7 @@ int syntax_parse(char *in, struct queue *out)
 
 	if (yylex_init(&sc)) {
 		res = errno;
-		if (!queue_offer(out, strerror(res), strlen(strerror(res))))
+		if (!queue_offer(out, strerror(res), strlen(strerror(res)) + 1))
 			fprintf(stderr, "error while gathering parser error \n");
 		return res;
 	}
-- 
2.43.0


From 041da65647437fc808b0fc614b320224eb6c68d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:07 +0000
Subject: [PATCH 29/73] fix: a carriage return is white space

---
 src/parser/midorisql.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index ec616a3..ed6f0d4 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -165,7 +165,7 @@ COUNT    { int c = input(yyscanner); unput(c);
 <COMMENT><<EOF>> { yyerror(NULL, yyscanner, "unclosed comment"); }
 
 	/* everything else */
-[ \t\n]         /* white space */
+[ \t\r\n]       /* white space */
 .               { yyerror(NULL, yyscanner, "mystery character '%c'", *yytext); return YYUNDEF; }
 
 %%
-- 
2.43.0


From 58af1d5557c408a53d1c44b4df64ef90279bc117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:10 +0000
Subject: [PATCH 30/73] fix: errors found by the parser's actions must reject
 the statement

---
 src/parser/midorisql.y | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index d155217..86a8b4e 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -203,7 +203,7 @@ column_list: NAME { emit(result, "COLUMN %s", $1); free($1); $$ = 1; }
   ;
 
 select_opts:                          { $$ = 0; }
-   | select_opts DISTINCT            { if($$ & 02) yyerror(result, scanner, "duplicate DISTINCT option"); $$ = $1 | 02; }
+   | select_opts DISTINCT            { if($$ & 02) { yyerror(result, scanner, "duplicate DISTINCT option"); YYERROR; } $$ = $1 | 02; }
    ;
 
 select_expr_list: select_expr { $$ = 1; }
@@ -404,10 +404,10 @@ update_stmt: UPDATE NAME
 
 update_asgn_list:
      NAME COMPARISON update_expr 
-       { if ($2 != 4) yyerror(result, scanner, "bad insert assignment to %s", $1);
+       { if ($2 != 4) { yyerror(result, scanner, "bad insert assignment to %s", $1); free($1); YYERROR; }
 	 emit(result, "ASSIGN %s", $1); free($1); $$ = 1; }   
    | update_asgn_list ',' NAME COMPARISON update_expr
-       { if ($4 != 4) yyerror(result, scanner, "bad insert assignment to %s", $3);
+       { if ($4 != 4) { yyerror(result, scanner, "bad insert assignment to %s", $3); free($3); YYERROR; }
 	 emit(result, "ASSIGN %s", $3); free($3); $$ = $1 + 1; }   
    ;
 
@@ -444,7 +444,7 @@ update_val_list: update_expr				{ $$ = 1; }
    /** create table **/
 
 opt_if_not_exists:  /* nil */ { $$ = 0; }
-   | IF EXISTS           { if(!$2) yyerror(result, scanner, "IF EXISTS doesn't exist");
+   | IF EXISTS           { if(!$2) { yyerror(result, scanner, "IF EXISTS doesn't exist"); YYERROR; }
                         $$ = $2; /* NOT EXISTS hack */ }
    ;
 
-- 
2.43.0


From f79c3ba9e79f6695f7f1c25b0f28e9f5cc9a45ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:13 +0000
Subject: [PATCH 31/73] fix: VARCHAR lengths must neither terminate the process
 nor change the type of the column

---
 src/parser/ast_create.c | 8 +++++++-
 src/parser/midorisql.y  | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser/ast_create.c b/src/parser/ast_create.c
index 8683f9f..dc82823 100644
--- a/src/parser/ast_create.c
+++ b/src/parser/ast_create.c
@@ -14,7 +14,13 @@ static void parse_bison_data_type(char *str, struct ast_crt_column_def_node *nod
 {
 	int val = atoi(str);
 	int type = val / 10000;
-	int precision = val % 10000;
+	int precision = 0;
+
+	/* the length of a VARCHAR can take more than the last 4 digits */
+	if (type >= 13) {
+		type = 13;
+		precision = val - 130000;
+	}
 
 	switch (type) {
 	case 4:
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 86a8b4e..42b186f 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -482,7 +482,8 @@ data_type:
    | DOUBLE { $$ = 80000; }
    | DATE { $$ = 100000; }
    | DATETIME { $$ = 110000; }
-   | VARCHAR '(' INTNUM ')' { $$ = 130000 + $3; }
+   | VARCHAR '(' INTNUM ')' { if ($3 < 1 || $3 > 65535) { yyerror(result, scanner, "VARCHAR length must be between 1 and 65535"); YYERROR; }
+			      $$ = 130000 + $3; }
    ;
 
 
-- 
2.43.0


From 302df0f4af42abb4176590c8d18a2485c0b64bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:28 +0000
Subject: [PATCH 32/73] fix: joining a third table must produce every
 combination of rows exactly once

---
 src/engine/executor_select.c | 78 ++++++++++++++++++++++++------------
 1 file changed, 53 insertions(+), 25 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 131d4f8..9d835e9 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -377,6 +377,7 @@ static bool cpy_cols(struct table *src, struct row *src_row, struct table *dst,
 			}
 
 			uintptr_t *col_idx_ptr = (uintptr_t*)&dst_row->data[dst_offset];
+			free((void*)*col_idx_ptr);
 			*col_idx_ptr = (uintptr_t)ptr;
 
 		} else {
@@ -413,10 +414,14 @@ static int _merge_rows(struct table *tbl_1, struct table *tbl_2, struct row *row
 		bit_set((*out)->null_bitmap, i, sizeof((*out)->null_bitmap));
 	}
 
-	if (!cpy_cols(tbl_1, row_1, mattbl, *out, false))
+	/*
+	 * row_2 goes first: when it comes from the early-mat table itself, it also carries (as NULL) the columns that
+	 * are about to be filled with the ones from row_1.
+	 */
+	if (!cpy_cols(tbl_2, row_2, mattbl, *out, is_tbl2_earlymat))
 		goto err_ptr;
 
-	if (!cpy_cols(tbl_2, row_2, mattbl, *out, is_tbl2_earlymat))
+	if (!cpy_cols(tbl_1, row_1, mattbl, *out, false))
 		goto err_ptr;
 
 	init_count_cols(mattbl, *out);
@@ -424,6 +429,7 @@ static int _merge_rows(struct table *tbl_1, struct table *tbl_2, struct row *row
 	return MIDORIDB_OK;
 
 err_ptr:
+	table_free_row_content(mattbl, *out);
 	free(*out);
 err:
 	return -MIDORIDB_INTERNAL;
@@ -1162,7 +1168,8 @@ static int _join_nested_loop_tbl2mat(struct database *db, struct ast_sel_join_no
 	struct table *table_1, *table_2;
 	struct list_head *tbl1_pos, *tbl2_pos;
 	struct datablock *tbl1_blk, *tbl2_blk;
-	size_t tbl1_row_size, tbl2_row_size, new_row_size;
+	size_t tbl1_row_size, tbl2_row_size;
+	size_t tbl2_row_count = 0;
 	struct row *tbl1_row, *tbl2_row, *new_row;
 
 	table_1 = database_table_get(db, table_node_1->table_name);
@@ -1170,34 +1177,54 @@ static int _join_nested_loop_tbl2mat(struct database *db, struct ast_sel_join_no
 
 	tbl1_row_size = table_calc_row_size(table_1);
 	tbl2_row_size = table_calc_row_size(table_2);
-	new_row_size = table_calc_row_size(mattbl);
 
 	// TODO add nested-loop for other join types.. for now I will focus on the INNER JOIN
 	BUG_ON(join_node->join_type != AST_SEL_JOIN_INNER);
 
-	list_for_each(tbl1_pos, table_1->datablock_head)
+	/* joined rows are appended to the early-mat table so we need to know where the ones to be joined end */
+	list_for_each(tbl2_pos, table_2->datablock_head)
 	{
-		tbl1_blk = list_entry(tbl1_pos, typeof(*tbl1_blk), head);
-		for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / tbl1_row_size); i++) {
-			tbl1_row = (struct row*)&tbl1_blk->data[tbl1_row_size * i];
+		tbl2_blk = list_entry(tbl2_pos, typeof(*tbl2_blk), head);
+
+		for (size_t j = 0; j < (DATABLOCK_PAGE_SIZE / tbl2_row_size); j++) {
+			tbl2_row = (struct row*)&tbl2_blk->data[tbl2_row_size * j];
 
-			if (tbl1_row->flags.empty)
+			if (tbl2_row->flags.empty)
 				break; /* end of the line */
 
-			if (tbl1_row->flags.deleted)
+			tbl2_row_count++;
+		}
+	}
+
+	list_for_each(tbl2_pos, table_2->datablock_head)
+	{
+		tbl2_blk = list_entry(tbl2_pos, typeof(*tbl2_blk), head);
+
+		for (size_t j = 0; j < (DATABLOCK_PAGE_SIZE / tbl2_row_size); j++) {
+			tbl2_row = (struct row*)&tbl2_blk->data[tbl2_row_size * j];
+
+			if (tbl2_row->flags.empty)
+				break; /* end of the line */
+
+			if (tbl2_row_count == 0)
+				return MIDORIDB_OK; /* only joined rows from now on */
+
+			tbl2_row_count--;
+
+			if (tbl2_row->flags.deleted)
 				continue; /* nothing to do here */
 
-			list_for_each(tbl2_pos, table_2->datablock_head)
+			list_for_each(tbl1_pos, table_1->datablock_head)
 			{
-				tbl2_blk = list_entry(tbl2_pos, typeof(*tbl2_blk), head);
+				tbl1_blk = list_entry(tbl1_pos, typeof(*tbl1_blk), head);
 
-				for (size_t j = 0; j < (DATABLOCK_PAGE_SIZE / tbl2_row_size); j++) {
-					tbl2_row = (struct row*)&tbl2_blk->data[tbl2_row_size * j];
+				for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / tbl1_row_size); i++) {
+					tbl1_row = (struct row*)&tbl1_blk->data[tbl1_row_size * i];
 
-					if (tbl2_row->flags.empty)
+					if (tbl1_row->flags.empty)
 						break; /* end of the line */
 
-					if (tbl2_row->flags.deleted)
+					if (tbl1_row->flags.deleted)
 						continue; /* nothing to do here */
 
 					//TODO figure out how I will populate aliases into the new row
@@ -1209,18 +1236,11 @@ static int _join_nested_loop_tbl2mat(struct database *db, struct ast_sel_join_no
 
 					if (eval_row_cond((struct ast_node*)onexpr_node, mattbl, new_row)) {
 
-						if (!table_update_row(mattbl, tbl2_blk, tbl2_row_size * j, new_row,
-									new_row_size))
-							goto err;
+						if (!table_insert_row(mattbl, new_row, tbl2_row_size))
+							goto err_row;
 
 //						print_row(mattbl, new_row);
 
-					} else {
-						/* when using materialisation tables,
-						 * if it doesn't match ON-clause then it needs to be discarded
-						 * TODO: this should change once we implement other JOIN types
-						 */
-						table_delete_row(mattbl, tbl2_blk, tbl2_row_size * j);
 					}
 
 					/* free up used resources */
@@ -1228,11 +1248,19 @@ static int _join_nested_loop_tbl2mat(struct database *db, struct ast_sel_join_no
 					free(new_row);
 				}
 			}
+
+			/* replaced by the rows it was joined with (if any)
+			 * TODO: this should change once we implement other JOIN types
+			 */
+			table_delete_row(mattbl, tbl2_blk, tbl2_row_size * j);
 		}
 	}
 
 	return MIDORIDB_OK;
 
+err_row:
+	table_free_row_content(mattbl, new_row);
+	free(new_row);
 err:
 	return -MIDORIDB_INTERNAL;
 
-- 
2.43.0


From f460599140e1fb44ad87885e828f58995e556468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:06 +0000
Subject: [PATCH 33/73] fix: GROUP BY and COUNT(*) must group by all the fields
 and across datablocks

---
 src/engine/executor_select.c | 176 ++++++++++++++++-------------------
 1 file changed, 78 insertions(+), 98 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 9d835e9..5ff69c6 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1558,133 +1558,113 @@ static int inc_count_cols(struct table *table, struct datablock *blk, size_t blk
 	return MIDORIDB_OK;
 }
 
-static int proc_groupby_clause(struct ast_node *node, struct table *table)
+static bool is_same_group(struct table *table, struct row *row_1, struct row *row_2, struct ast_node *groupby_node)
 {
-	struct list_head *grppos, *pos1, *pos2;
+	struct list_head *pos;
 	struct ast_node *tmp_entry;
-	struct datablock *blk_1, *blk_2;
-	struct row *row_1, *row_2;
+
+	list_for_each(pos, groupby_node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (cmp_rows_col_mattbl(table, row_1, row_2, tmp_entry) != 0)
+			return false;
+	}
+
+	return true;
+}
+
+/* merge into a row every row that comes after it and that belongs to the same group (no group-by clause: all of them) */
+static int merge_following_rows(struct ast_node *groupby_node, struct table *table, struct datablock *blk, size_t row_idx)
+{
+	struct list_head *pos;
+	struct datablock *cur_blk;
+	struct row *row, *cur_row;
 	size_t row_size;
-	int ret = MIDORIDB_OK;
+	bool blk_found = false;
+	int ret;
 
 	row_size = table_calc_row_size(table);
+	row = (struct row*)&blk->data[row_size * row_idx];
 
-	list_for_each(grppos, node->node_children_head)
+	list_for_each(pos, table->datablock_head)
 	{
-		/* process each field on the group-by clause list one at a time */
-		tmp_entry = list_entry(grppos, typeof(*tmp_entry), head);
-
-		list_for_each(pos1, table->datablock_head)
-		{
-			blk_1 = list_entry(pos1, typeof(*blk_1), head);
-			for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
-				row_1 = (struct row*)&blk_1->data[row_size * i];
+		cur_blk = list_entry(pos, typeof(*cur_blk), head);
 
-				if (row_1->flags.empty)
-					break; /* end of the line */
+		if (cur_blk == blk)
+			blk_found = true;
 
-				if (row_1->flags.deleted)
-					continue; /* nothing to do here */
+		if (!blk_found)
+			continue; /* rows that come before the one we are interested in */
 
-				list_for_each(pos2, table->datablock_head)
-				{
-					blk_2 = list_entry(pos2, typeof(*blk_2), head);
-					for (size_t j = i + 1; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
-						row_2 = (struct row*)&blk_2->data[row_size * j];
+		for (size_t i = (cur_blk == blk ? row_idx + 1 : 0); i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
+			cur_row = (struct row*)&cur_blk->data[row_size * i];
 
-						if (row_2->flags.empty)
-							break; /* end of the line */
+			if (cur_row->flags.empty)
+				break; /* end of the line */
 
-						if (row_2->flags.deleted)
-							continue; /* nothing to do here */
+			if (cur_row->flags.deleted)
+				continue; /* nothing to do here */
 
-						if (cmp_rows_col_mattbl(table, row_1, row_2, tmp_entry) == 0) {
+			if (groupby_node && !is_same_group(table, row, cur_row, groupby_node))
+				continue;
 
-							if (!table_delete_row(table, blk_2, row_size * j)) {
-								ret = -MIDORIDB_INTERNAL;
-								goto out;
-							}
+			if (!table_delete_row(table, cur_blk, row_size * i))
+				return -MIDORIDB_INTERNAL;
 
-							/* increment counts if any */
-							if ((ret = inc_count_cols(table, blk_1, row_size * i,
-											row_1,
-											row_size)))
-								goto out;
-						}
-					}
-				}
-			}
+			/* increment counts if any */
+			if ((ret = inc_count_cols(table, blk, row_size * row_idx, row, row_size)))
+				return ret;
 		}
 	}
 
-out:
-	return ret;
-
+	return MIDORIDB_OK;
 }
 
-static int handle_countonly_case(struct table *table)
+static int merge_rows_by_group(struct ast_node *groupby_node, struct table *table)
 {
-	struct list_head *pos1, *pos2;
-	struct datablock *blk_1, *blk_2;
-	struct row *row_1, *row_2;
+	struct list_head *pos;
+	struct datablock *blk;
+	struct row *row;
 	size_t row_size;
-	int ret = MIDORIDB_OK;
+	int ret;
 
-	/* check if we need to do that in the first plae */
-	bool non_count_field = false;
-	for (int i = 0; i < table->column_count; i++) {
-		if (!table->columns[i].is_count) {
-			non_count_field = true;
-			break;
-		}
-	}
+	row_size = table_calc_row_size(table);
 
-	if (!non_count_field) {
-		row_size = table_calc_row_size(table);
+	list_for_each(pos, table->datablock_head)
+	{
+		blk = list_entry(pos, typeof(*blk), head);
+		for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
+			row = (struct row*)&blk->data[row_size * i];
 
-		list_for_each(pos1, table->datablock_head)
-		{
-			blk_1 = list_entry(pos1, typeof(*blk_1), head);
-			for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
-				row_1 = (struct row*)&blk_1->data[row_size * i];
-
-				if (row_1->flags.empty)
-					break; /* end of the line */
-
-				if (row_1->flags.deleted)
-					continue; /* nothing to do here */
-
-				list_for_each(pos2, table->datablock_head)
-				{
-					blk_2 = list_entry(pos2, typeof(*blk_2), head);
-					for (size_t j = i + 1; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
-						row_2 = (struct row*)&blk_2->data[row_size * j];
-
-						if (row_2->flags.empty)
-							break; /* end of the line */
-
-						if (row_2->flags.deleted)
-							continue; /* nothing to do here */
-
-						if (!table_delete_row(table, blk_2, row_size * j)) {
-							ret = -MIDORIDB_INTERNAL;
-							goto out;
-						}
-
-						/* increment counts if any */
-						if ((ret = inc_count_cols(table, blk_1, row_size * i,
-										row_1,
-										row_size)))
-							goto out;
-					}
-				}
-			}
+			if (row->flags.empty)
+				break; /* end of the line */
+
+			if (row->flags.deleted)
+				continue; /* nothing to do here */
+
+			if ((ret = merge_following_rows(groupby_node, table, blk, i)))
+				return ret;
 		}
 	}
 
-out:
-	return ret;
+	return MIDORIDB_OK;
+}
+
+static int proc_groupby_clause(struct ast_node *node, struct table *table)
+{
+	return merge_rows_by_group(node, table);
+}
+
+static int handle_countonly_case(struct table *table)
+{
+	/* check if we need to do that in the first plae */
+	for (int i = 0; i < table->column_count; i++) {
+		if (!table->columns[i].is_count)
+			return MIDORIDB_OK;
+	}
 
+	return merge_rows_by_group(NULL, table);
 }
 
 int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *select_node, struct query_output *output)
-- 
2.43.0


From 03ecf30a231bb7ecf66062ccce8e6553fbc416fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 34/73] fix: GROUP BY must not merge values that differ by more
 or less than an int can hold

---
 src/engine/executor_select.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 5ff69c6..7884c05 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1516,13 +1516,22 @@ static int cmp_rows_col_mattbl(struct table *table, struct row *row_1, struct ro
 	else if (!is_null_1 && is_null_2)
 		ret = 1;
 	else if (col_spcs.type == CT_DOUBLE) {
-		ret = (*(double*)&row_1->data[col_spcs.offset]) - (*(double*)&row_2->data[col_spcs.offset]);
+		double val_1 = *(double*)&row_1->data[col_spcs.offset];
+		double val_2 = *(double*)&row_2->data[col_spcs.offset];
+
+		ret = (val_1 > val_2) - (val_1 < val_2);
 	} else if (col_spcs.type == CT_TINYINT) {
 		ret = (*(bool*)&row_1->data[col_spcs.offset]) - (*(bool*)&row_2->data[col_spcs.offset]);
 	} else if (col_spcs.type == CT_INTEGER) {
-		ret = (*(int64_t*)&row_1->data[col_spcs.offset]) - (*(int64_t*)&row_2->data[col_spcs.offset]);
+		int64_t val_1 = *(int64_t*)&row_1->data[col_spcs.offset];
+		int64_t val_2 = *(int64_t*)&row_2->data[col_spcs.offset];
+
+		ret = (val_1 > val_2) - (val_1 < val_2);
 	} else if (col_spcs.type == CT_DATE || col_spcs.type == CT_DATETIME) {
-		ret = (*(time_t*)&row_1->data[col_spcs.offset]) - (*(time_t*)&row_2->data[col_spcs.offset]);
+		time_t val_1 = *(time_t*)&row_1->data[col_spcs.offset];
+		time_t val_2 = *(time_t*)&row_2->data[col_spcs.offset];
+
+		ret = (val_1 > val_2) - (val_1 < val_2);
 	} else if (col_spcs.type == CT_VARCHAR) {
 		ret = strcmp(*(char**)&row_1->data[col_spcs.offset], *(char**)&row_2->data[col_spcs.offset]);
 	} else {
-- 
2.43.0


From bff7264ee94ba9a6706a8872240fd029cab1685e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:16 +0000
Subject: [PATCH 35/73] fix: GROUP BY with only COUNT(*) selected must return
 one count per group

---
 src/engine/executor_select.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 7884c05..42387b4 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1737,8 +1737,8 @@ int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *se
 		goto err_bld_fc;
 	}
 
-	/* handle COUNT(*)-only field edge-case */
-	if ((ret = handle_countonly_case(table))) {
+	/* handle COUNT(*)-only field edge-case - with a group-by clause there is one count per group though */
+	if (!groupby_node && (ret = handle_countonly_case(table))) {
 		snprintf(output->error.message, sizeof(output->error.message),
 				"execution phase: error while processing COUNT-only-case\n");
 		goto err_bld_fc;
-- 
2.43.0


From e5b90e992a3d9feff7f1486e351ffa289281693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:38 +0000
Subject: [PATCH 36/73] fix: COUNT(*) over no rows must return a row with zero

---
 src/engine/executor_select.c | 60 +++++++++++++++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 42387b4..9ba5e1d 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1665,15 +1665,73 @@ static int proc_groupby_clause(struct ast_node *node, struct table *table)
 	return merge_rows_by_group(node, table);
 }
 
+static bool has_rows(struct table *table)
+{
+	struct list_head *pos;
+	struct datablock *blk;
+	struct row *row;
+	size_t row_size;
+
+	row_size = table_calc_row_size(table);
+
+	list_for_each(pos, table->datablock_head)
+	{
+		blk = list_entry(pos, typeof(*blk), head);
+		for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
+			row = (struct row*)&blk->data[row_size * i];
+
+			if (row->flags.empty)
+				break; /* end of the line */
+
+			if (!row->flags.deleted)
+				return true;
+		}
+	}
+
+	return false;
+}
+
+static int add_zero_count_row(struct table *table)
+{
+	struct row *row;
+	size_t row_size;
+	int ret = MIDORIDB_OK;
+
+	row_size = table_calc_row_size(table);
+
+	row = zalloc(row_size);
+	if (!row)
+		return -MIDORIDB_NOMEM;
+
+	row->flags.deleted = false;
+	row->flags.empty = false;
+
+	if (!table_insert_row(table, row, row_size))
+		ret = -MIDORIDB_INTERNAL;
+
+	free(row);
+
+	return ret;
+}
+
 static int handle_countonly_case(struct table *table)
 {
+	int ret;
+
 	/* check if we need to do that in the first plae */
 	for (int i = 0; i < table->column_count; i++) {
 		if (!table->columns[i].is_count)
 			return MIDORIDB_OK;
 	}
 
-	return merge_rows_by_group(NULL, table);
+	if ((ret = merge_rows_by_group(NULL, table)))
+		return ret;
+
+	/* counting no rows at all still results in one row */
+	if (!has_rows(table))
+		ret = add_zero_count_row(table);
+
+	return ret;
 }
 
 int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *select_node, struct query_output *output)
-- 
2.43.0


From b702562385d9af55f7fbfbea3dd698511e495900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:31 +0000
Subject: [PATCH 37/73] fix: long table and column names must not be mixed up
 in query results

---
 include/primitive/column.h | 4 ++--
 src/primitive/column.c     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/primitive/column.h b/include/primitive/column.h
index a8959e3..6871ef5 100644
--- a/include/primitive/column.h
+++ b/include/primitive/column.h
@@ -28,8 +28,8 @@ enum COLUMN_TYPE {
 #define COLUMN_CTDATETIME_FMT		"%Y-%m-%d %H:%M:%S"
 
 struct column {
-	/* NUL-terminated string */
-	char name[TABLE_MAX_COLUMN_NAME + 1 /*NUL char */];
+	/* NUL-terminated string - also big enough for the 'table.column' names found in query results */
+	char name[TABLE_MAX_COLUMN_NAME + 1 /* dot */ + TABLE_MAX_COLUMN_NAME + 1 /*NUL char */];
 	/* type of value meant to be stored */
 	enum COLUMN_TYPE type;
 	/* how much space it takes up in memory */
diff --git a/src/primitive/column.c b/src/primitive/column.c
index 8173a13..1e47d67 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -252,7 +252,7 @@ bool table_rem_column(struct table *table, struct column *column)
 		return false;
 
 	for (pos = 0; pos < table->column_count; pos++) {
-		if (strncmp(table->columns[pos].name, column->name, TABLE_MAX_COLUMN_NAME) == 0) {
+		if (strncmp(table->columns[pos].name, column->name, sizeof(column->name)) == 0) {
 			found = true;
 			break;
 		}
-- 
2.43.0


From f4676887c46e1fdbbe3a431c0edc9dc05ef7a848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:51 +0000
Subject: [PATCH 38/73] fix: selecting from tables that together have too many
 columns must not terminate the process

---
 src/engine/executor_select.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 9ba5e1d..f3f3bdd 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -290,33 +290,48 @@ static int build_cols_hashtable(struct database *db, struct ast_node *node, stru
 
 }
 
+struct table_scafold {
+	struct table *table;
+	bool failed;
+};
+
 static void do_build_table_scafold(struct hashtable *hashtable, const void *key, size_t klen, const void *value,
 		size_t vlen, void *arg)
 {
 	UNUSED(hashtable);
 	UNUSED(vlen);
 
-	struct table *table;
+	struct table_scafold *scafold;
 	struct column column = {0};
 
-	table = (typeof(table))arg;
+	scafold = (typeof(scafold))arg;
 
 	strncpy(column.name, key, MIN(sizeof(column.name), klen) - 1);
 	column.type = ((struct column*)value)->type;
 	column.precision = ((struct column*)value)->precision;
 	column.is_count = ((struct column*)value)->is_count;
 
-	BUG_ON(!table_add_column(table, &column));
+	/* joined tables can have more columns than a table can hold */
+	if (!table_add_column(scafold->table, &column))
+		scafold->failed = true;
 }
 
 static int build_table_scafold(struct hashtable *column_types, struct table **out_table)
 {
+	struct table_scafold scafold = {0};
+
 	*out_table = table_init("early_mat_tbl");
 
 	if (!(*out_table))
 		return -MIDORIDB_INTERNAL;
 
-	hashtable_foreach(column_types, &do_build_table_scafold, *out_table);
+	scafold.table = *out_table;
+	hashtable_foreach(column_types, &do_build_table_scafold, &scafold);
+
+	if (scafold.failed) {
+		table_destroy(out_table);
+		return -MIDORIDB_INTERNAL;
+	}
 
 	return MIDORIDB_OK;
 }
-- 
2.43.0


From 18235df114cd2cfa54f6287f0761d004fea522e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:54 +0000
Subject: [PATCH 39/73] fix: a SELECT that runs out of memory must release the
 rows it was building

---
 src/engine/executor_select.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index f3f3bdd..96cc274 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1156,7 +1156,7 @@ static int _join_nested_loop_tbl2tbl(struct database *db, struct ast_sel_join_no
 					if (eval_row_cond((struct ast_node*)onexpr_node, mattbl, new_row)) {
 
 						if (!table_insert_row(mattbl, new_row, new_row_size))
-							goto err;
+							goto err_row;
 
 //						print_row(mattbl, new_row);
 
@@ -1171,6 +1171,9 @@ static int _join_nested_loop_tbl2tbl(struct database *db, struct ast_sel_join_no
 
 	return MIDORIDB_OK;
 
+err_row:
+	table_free_row_content(mattbl, new_row);
+	free(new_row);
 err:
 	return -MIDORIDB_INTERNAL;
 
@@ -1368,12 +1371,12 @@ static int proc_from_clause_table(struct database *db, struct ast_sel_table_node
 			}
 
 			if (!cpy_cols(exs_table, exs_row, mattbl, new_row, false))
-				goto err_ptr;
+				goto err_row;
 
 			init_count_cols(mattbl, new_row);
 
 			if (!table_insert_row(mattbl, new_row, new_row_size)) {
-				goto err_ins;
+				goto err_row;
 			}
 
 //			print_row(mattbl, new_row);
@@ -1384,9 +1387,8 @@ static int proc_from_clause_table(struct database *db, struct ast_sel_table_node
 
 	return MIDORIDB_OK;
 
-err_ins:
+err_row:
 	table_free_row_content(mattbl, new_row);
-err_ptr:
 	free(new_row);
 err:
 	return -MIDORIDB_INTERNAL;
-- 
2.43.0


From c38ea4cb9ba4d21459ebb025282a8e7a9381f658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:28 +0000
Subject: [PATCH 40/73] fix: tables that have a column name in common can be
 joined using qualified names

---
 src/parser/semantic_select.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 7d405b4..337129e 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2521,10 +2521,14 @@ static bool build_column_value_types_ht(struct database *db, struct ast_node *no
 
 			}
 
-			/* add exprval (name) in its purest form */
+			/* add exprval (name) in its purest form - should more than one table have it, then it can only be
+			 * used as a fqfield (guaranteed by previous checks) so there is no need to add it again */
 			memzero(key, sizeof(key));
 			strcpy(key, col_name);
 
+			if (hashtable_get(ht, key, strlen(key) + 1))
+				continue;
+
 			if (!hashtable_put(ht, key, strlen(key) + 1, &col_type, sizeof(col_type))) {
 				snprintf(out_err, out_err_len, "duplicate column name: '%s'\n", key);
 				return false;
-- 
2.43.0


From fdcca9d51a5929ad66e1a01dbea816d94194169b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:54 +0000
Subject: [PATCH 41/73] fix: COUNT(*) must not be marked as NULL

---
 src/engine/executor_select.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 96cc274..b87175b 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -346,6 +346,7 @@ static void init_count_cols(struct table *table, struct row *row)
 
 		if (column->is_count) {
 			(*(int64_t*)&row->data[offset]) = 1;
+			bit_clear(row->null_bitmap, i, sizeof(row->null_bitmap));
 		}
 
 		offset += table_calc_column_space(column);
-- 
2.43.0


From 76ad1b1ef96bfd0ef2d828dc986c20cae12035ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:06 +0000
Subject: [PATCH 42/73] fix: a token that cannot be understood must not have
 its memory released twice

---
 src/lib/regex.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/regex.c b/src/lib/regex.c
index 9228981..647eac4 100644
--- a/src/lib/regex.c
+++ b/src/lib/regex.c
@@ -20,7 +20,7 @@ bool regex_ext_match_grp(const char *text, const char *exp, struct stack *out)
 
 	matches = calloc(num_matches, sizeof(*matches));
 	if (!matches)
-		goto err;
+		goto err_matches;
 
 	if (regexec(&regex, text, num_matches, matches, 0))
 		goto err_regex;
@@ -54,10 +54,12 @@ bool regex_ext_match_grp(const char *text, const char *exp, struct stack *out)
 err_stack:
 	free(match);
 err_regex:
-	stack_free(out);
-	regfree(&regex);
+	/* the stack itself belongs to the caller */
+	while (!stack_empty(out))
+		free(stack_pop(out));
 	free(matches);
-err:
+err_matches:
+	regfree(&regex);
 	return false;
 
 }
-- 
2.43.0


From 93d6b6b2490cff55bf845fc84f6c5d7f39f53eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:08 +0000
Subject: [PATCH 43/73] fix: a floating-point literal that is too large for a
 double is not a valid token

---
 src/parser/midorisql.l | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index ed6f0d4..6a9045d 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -2,6 +2,7 @@
 
 %{
 #include <errno.h>
+#include <math.h>
 #include "midorisql.tab.h"
 void yyerror(void*, void*, char *s, ...);
 static char* quoted_literal(const char *text, int len);
@@ -94,7 +95,8 @@ XOR	{ return XOR; }
 -?[0-9]+E[-+]?[0-9]+	|
 -?[0-9]+"."[0-9]*E[-+]?[0-9]+ |
 -?"."[0-9]*E[-+]?[0-9]+	{ yylval->floatval = atof(yytext) ;
-                                  return APPROXNUM; }
+                                  /* neither is one that is too large for a double */
+                                  return isinf(yylval->floatval) ? YYUNDEF : APPROXNUM; }
     /* booleans */
 TRUE	{ yylval->intval = 1; return BOOL; }
 UNKNOWN	{ yylval->intval = -1; return BOOL; }
-- 
2.43.0


From e5cccace67671d29ca92573bb91214e20242b347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:17 +0000
Subject: [PATCH 44/73] fix: a column definition that cannot be built must
 release its text

---
 src/parser/ast_create.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/ast_create.c b/src/parser/ast_create.c
index dc82823..8215513 100644
--- a/src/parser/ast_create.c
+++ b/src/parser/ast_create.c
@@ -114,7 +114,7 @@ static struct ast_crt_column_def_node* __must_check build_columndef_node(struct
 err_regex:
 	stack_free(&tmp_st);
 err_stack_init:
-	if (!str)
+	if (str)
 		free(str);
 	free(node->node_children_head);
 err_head:
-- 
2.43.0


From 5b917edd712ff3defc5bc5e11c007cd44c0da86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:10 +0000
Subject: [PATCH 45/73] fix: reading a TINYINT column through the cursor must
 return only its own value

---
 src/engine/query.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/engine/query.c b/src/engine/query.c
index 3038e66..230810a 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -175,7 +175,12 @@ int64_t query_column_int64(struct result_set *res, int col_idx)
 	for (int i = 0; i < col_idx; i++)
 		offset += table_calc_column_space(&res->table->columns[i]);
 
-	ret = *(int64_t*)(row->data + offset);
+	/* don't read past the value of columns that are narrower than 64 bits */
+	if (res->table->columns[col_idx].type == CT_TINYINT)
+		ret = *(int8_t*)(row->data + offset);
+	else
+		ret = *(int64_t*)(row->data + offset);
+
 	return ret;
 }
 
-- 
2.43.0


From 2672842a27a4377efebd4f94cf04df2162232f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:30 +0000
Subject: [PATCH 46/73] fix: a syntax error message must not be used as a
 printf format

---
 src/parser/midorisql.l | 14 +++++++-------
 src/parser/midorisql.y | 21 ++++++++++++++-------
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index 6a9045d..d17c928 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -4,11 +4,11 @@
 #include <errno.h>
 #include <math.h>
 #include "midorisql.tab.h"
-void yyerror(void*, void*, char *s, ...);
+void report_error(void*, void*, const char *s, ...);
 static char* quoted_literal(const char *text, int len);
 int oldstate;
 
-#define YY_FATAL_ERROR(msg) yyerror(NULL, yyscanner, msg)
+#define YY_FATAL_ERROR(msg) report_error(NULL, yyscanner, "%s", msg)
 %}
 
 %x COMMENT
@@ -107,8 +107,8 @@ FALSE	{ yylval->intval = 0; return BOOL; }
 '(\\.|''|[^'\n])*'	|
 \"(\\.|\"\"|[^"\n])*\"  { yylval->strval = quoted_literal(yytext, yyleng); return STRING; }
 
-'(\\.|[^'\n])*$	        { yyerror(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
-\"(\\.|[^"\n])*$	{ yyerror(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
+'(\\.|[^'\n])*$	        { report_error(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
+\"(\\.|[^"\n])*$	{ report_error(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
 
    /* hex strings */
 X'[0-9A-F]+' |  
@@ -154,7 +154,7 @@ COUNT    { int c = input(yyscanner); unput(c);
                           yylval->strval[yyleng-2] = 0;
                           return NAME; }
 
-`[^`\n]*$               { yyerror(NULL, yyscanner, "unterminated quoted name %s", yytext); return YYUNDEF; }
+`[^`\n]*$               { report_error(NULL, yyscanner, "unterminated quoted name %s", yytext); return YYUNDEF; }
 
 
 	/* comments */   
@@ -164,11 +164,11 @@ COUNT    { int c = input(yyscanner); unput(c);
 "/*"            { oldstate = YY_START; BEGIN COMMENT; }
 <COMMENT>"*/"   { BEGIN oldstate; }
 <COMMENT>.|\n   ;
-<COMMENT><<EOF>> { yyerror(NULL, yyscanner, "unclosed comment"); }
+<COMMENT><<EOF>> { report_error(NULL, yyscanner, "unclosed comment"); }
 
 	/* everything else */
 [ \t\r\n]       /* white space */
-.               { yyerror(NULL, yyscanner, "mystery character '%c'", *yytext); return YYUNDEF; }
+.               { report_error(NULL, yyscanner, "mystery character '%c'", *yytext); return YYUNDEF; }
 
 %%
 
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 42b186f..b6da1d2 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -7,7 +7,8 @@
 %{
 #include <datastructure/queue.h>
 
-void yyerror(struct queue*, void*, const char *, ...);
+void yyerror(struct queue*, void*, const char *);
+void report_error(struct queue*, void*, const char *, ...);
 bool emit(struct queue *q, char *s, ...);
 bool emit_float(struct queue *q, double val);
 int yylex(void*, void*);
@@ -203,7 +204,7 @@ column_list: NAME { emit(result, "COLUMN %s", $1); free($1); $$ = 1; }
   ;
 
 select_opts:                          { $$ = 0; }
-   | select_opts DISTINCT            { if($$ & 02) { yyerror(result, scanner, "duplicate DISTINCT option"); YYERROR; } $$ = $1 | 02; }
+   | select_opts DISTINCT            { if($$ & 02) { report_error(result, scanner, "duplicate DISTINCT option"); YYERROR; } $$ = $1 | 02; }
    ;
 
 select_expr_list: select_expr { $$ = 1; }
@@ -404,10 +405,10 @@ update_stmt: UPDATE NAME
 
 update_asgn_list:
      NAME COMPARISON update_expr 
-       { if ($2 != 4) { yyerror(result, scanner, "bad insert assignment to %s", $1); free($1); YYERROR; }
+       { if ($2 != 4) { report_error(result, scanner, "bad insert assignment to %s", $1); free($1); YYERROR; }
 	 emit(result, "ASSIGN %s", $1); free($1); $$ = 1; }   
    | update_asgn_list ',' NAME COMPARISON update_expr
-       { if ($4 != 4) { yyerror(result, scanner, "bad insert assignment to %s", $3); free($3); YYERROR; }
+       { if ($4 != 4) { report_error(result, scanner, "bad insert assignment to %s", $3); free($3); YYERROR; }
 	 emit(result, "ASSIGN %s", $3); free($3); $$ = $1 + 1; }   
    ;
 
@@ -444,7 +445,7 @@ update_val_list: update_expr				{ $$ = 1; }
    /** create table **/
 
 opt_if_not_exists:  /* nil */ { $$ = 0; }
-   | IF EXISTS           { if(!$2) { yyerror(result, scanner, "IF EXISTS doesn't exist"); YYERROR; }
+   | IF EXISTS           { if(!$2) { report_error(result, scanner, "IF EXISTS doesn't exist"); YYERROR; }
                         $$ = $2; /* NOT EXISTS hack */ }
    ;
 
@@ -482,14 +483,20 @@ data_type:
    | DOUBLE { $$ = 80000; }
    | DATE { $$ = 100000; }
    | DATETIME { $$ = 110000; }
-   | VARCHAR '(' INTNUM ')' { if ($3 < 1 || $3 > 65535) { yyerror(result, scanner, "VARCHAR length must be between 1 and 65535"); YYERROR; }
+   | VARCHAR '(' INTNUM ')' { if ($3 < 1 || $3 > 65535) { report_error(result, scanner, "VARCHAR length must be between 1 and 65535"); YYERROR; }
 			      $$ = 130000 + $3; }
    ;
 
 
 %%
 
-void yyerror(struct queue *q, void* scanner, const char *s, ...)
+/* bison's messages quote the unexpected token, which may well be a '%', so they can't be used as a format */
+void yyerror(struct queue *q, void* scanner, const char *msg)
+{
+	report_error(q, scanner, "%s", msg);
+}
+
+void report_error(struct queue *q, void* scanner, const char *s, ...)
 {
 	(void)scanner;
 	char buf[256];
-- 
2.43.0


From 9c5beb5b8d1b8bc334c0b3eb4e771de3343c15f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:21 +0000
Subject: [PATCH 47/73] fix: a name COUNT that is not a function call must be
 read as just that name

---
 src/parser/midorisql.l | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index d17c928..5a2506d 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -143,10 +143,7 @@ B'[01]+'     { yylval->strval = strdup(yytext); return STRING; }
 	/* 
          * peek ahead and return function if name(
          */
-COUNT    { int c = input(yyscanner); unput(c);
-           if(c == '(') {return FCOUNT;}
-           yylval->strval = strdup(yytext);
-           return NAME; }
+COUNT/"("  { return FCOUNT; }
 
 [A-Za-z][A-Za-z0-9_]*	{ yylval->strval = strdup(yytext);
                           return NAME; }
-- 
2.43.0


From 33404c9fecb7b4873f112c3ca74960e04ee9731f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:23 +0000
Subject: [PATCH 48/73] fix: an unclosed comment must be a syntax error rather
 than an endless loop

---
 src/parser/midorisql.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index 5a2506d..c449109 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -161,7 +161,7 @@ COUNT/"("  { return FCOUNT; }
 "/*"            { oldstate = YY_START; BEGIN COMMENT; }
 <COMMENT>"*/"   { BEGIN oldstate; }
 <COMMENT>.|\n   ;
-<COMMENT><<EOF>> { report_error(NULL, yyscanner, "unclosed comment"); }
+<COMMENT><<EOF>> { report_error(NULL, yyscanner, "unclosed comment"); return YYUNDEF; }
 
 	/* everything else */
 [ \t\r\n]       /* white space */
-- 
2.43.0


From 46a519e0555790091e3665153303fb3fa9c12e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:08 +0000
Subject: [PATCH 49/73] fix: quoted names must be taken whole rather than up to
 their first unusual character

---
 src/parser/ast_create.c | 6 +++---
 src/parser/ast_delete.c | 2 +-
 src/parser/ast_insert.c | 4 ++--
 src/parser/ast_select.c | 6 +++---
 src/parser/ast_update.c | 4 ++--
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/parser/ast_create.c b/src/parser/ast_create.c
index 8215513..22cbd78 100644
--- a/src/parser/ast_create.c
+++ b/src/parser/ast_create.c
@@ -95,7 +95,7 @@ static struct ast_crt_column_def_node* __must_check build_columndef_node(struct
 			if (!stack_init(&tmp_st))
 				goto err_stack_init;
 
-			if (!regex_ext_match_grp(str, "COLUMNDEF ([0-9]+) ([A-Za-z0-9_]*)", &tmp_st))
+			if (!regex_ext_match_grp(str, "COLUMNDEF ([0-9]+) (.+)", &tmp_st))
 				goto err_regex;
 
 			parse_bison_data_type((char*)stack_peek_pos(&tmp_st, 0), node);
@@ -147,7 +147,7 @@ static struct ast_crt_create_node* __must_check build_table_node(struct queue *p
 
 	str = (char*)queue_poll(parser);
 
-	if (!regex_ext_match_grp(str, "CREATE ([0-9]+) ([0-9]+) ([A-Za-z0-9_]*)", &reg_pars))
+	if (!regex_ext_match_grp(str, "CREATE ([0-9]+) ([0-9]+) (.+)", &reg_pars))
 		goto err_regex;
 
 	node->if_not_exists = atoi((char*)stack_peek_pos(&reg_pars, 0));
@@ -198,7 +198,7 @@ static struct ast_crt_index_column_node* __must_check build_indexcol_node(struct
 
 	str = (char*)queue_poll(parser);
 
-	if (!regex_ext_match_grp(str, "COLUMN ([A-Za-z0-9_]*)", &reg_pars))
+	if (!regex_ext_match_grp(str, "COLUMN (.+)", &reg_pars))
 		goto err_regex;
 
 	strncpy(node->name, (char*)stack_peek_pos(&reg_pars, 0), sizeof(node->name) - 1 /* NUL-char */);
diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index f34749d..aae3fc6 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -317,7 +317,7 @@ static struct ast_del_deleteone_node* build_deleteone_node(struct queue *parser,
 
 	str = (char*)queue_poll(parser);
 
-	if (!regex_ext_match_grp(str, "DELETEONE ([A-Za-z0-9_]*)", &reg_pars))
+	if (!regex_ext_match_grp(str, "DELETEONE (.+)", &reg_pars))
 		goto err_regex;
 
 	strncpy(node->table_name, (char*)stack_peek_pos(&reg_pars, 0), sizeof(node->table_name) - 1 /* NUL-char */);
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index 37c1ee5..b97d7ce 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -41,7 +41,7 @@ static struct ast_ins_column_node* build_col_node(struct queue *parser)
 
 	str = (char*)queue_poll(parser);
 
-	if (!regex_ext_match_grp(str, "COLUMN ([A-Za-z0-9_]+)", &reg_pars))
+	if (!regex_ext_match_grp(str, "COLUMN (.+)", &reg_pars))
 		goto err_regex;
 
 	strncpy(node->name, (char*)stack_peek_pos(&reg_pars, 0), sizeof(node->name) - 1 /* NUL-char */);
@@ -355,7 +355,7 @@ static struct ast_ins_insvals_node* build_insvals_node(struct queue *parser, str
 
 	str = (char*)queue_poll(parser);
 
-	if (!regex_ext_match_grp(str, "INSERTVALS ([0-9]+) ([0-9]+) ([A-Za-z0-9_]*)", &reg_pars))
+	if (!regex_ext_match_grp(str, "INSERTVALS ([0-9]+) ([0-9]+) (.+)", &reg_pars))
 		goto err_regex;
 
 	node->opt_column_list = atoi((char*)stack_peek_pos(&reg_pars, 0));
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index eee955b..a79a184 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -217,7 +217,7 @@ static struct ast_sel_alias_node* build_alias_node(struct queue *parser, struct
 
 	str = (char*)queue_poll(parser);
 
-	if (!regex_ext_match_grp(str, "ALIAS ([A-Za-z0-9_]+)", &reg_pars))
+	if (!regex_ext_match_grp(str, "ALIAS (.+)", &reg_pars))
 		goto err_regex;
 
 	strncpy(node->alias_value, (char*)stack_peek_pos(&reg_pars, 0), sizeof(node->alias_value) - 1);
@@ -265,7 +265,7 @@ static struct ast_sel_fieldname_node* build_fieldname_node(struct queue *parser)
 
 	str = (char*)queue_poll(parser);
 
-	if (!regex_ext_match_grp(str, "FIELDNAME ([A-Za-z0-9_]+)\\.([A-Za-z0-9_]+)", &reg_pars))
+	if (!regex_ext_match_grp(str, "FIELDNAME ([^.]+)\\.(.+)", &reg_pars))
 		goto err_regex;
 
 	strncpy(node->table_name, (char*)stack_peek_pos(&reg_pars, 0), sizeof(node->table_name) - 1);
@@ -337,7 +337,7 @@ static struct ast_sel_table_node* build_table_node(struct queue *parser)
 
 	str = (char*)queue_poll(parser);
 
-	if (!regex_ext_match_grp(str, "TABLE ([A-Za-z0-9_]+)", &reg_pars))
+	if (!regex_ext_match_grp(str, "TABLE (.+)", &reg_pars))
 		goto err_regex;
 
 	strncpy(node->table_name, (char*)stack_peek_pos(&reg_pars, 0), sizeof(node->table_name) - 1);
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index b895503..1ab9ce0 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -43,7 +43,7 @@ static struct ast_upd_assign_node* build_assign_node(struct queue *parser, struc
 
 	str = (char*)queue_poll(parser);
 
-	if (!regex_ext_match_grp(str, "ASSIGN ([A-Za-z0-9_]+)", &reg_pars))
+	if (!regex_ext_match_grp(str, "ASSIGN (.+)", &reg_pars))
 		goto err_regex;
 
 	strncpy(node->field_name, (char*)stack_peek_pos(&reg_pars, 0), sizeof(node->field_name) - 1);
@@ -369,7 +369,7 @@ static struct ast_upd_update_node* build_update_node(struct queue *parser, struc
 
 	str = (char*)queue_poll(parser);
 
-	if (!regex_ext_match_grp(str, "UPDATE ([A-Za-z0-9_]*) ([0-9]+) ([0-1]+)", &reg_pars))
+	if (!regex_ext_match_grp(str, "UPDATE (.+) ([0-9]+) ([0-1]+)", &reg_pars))
 		goto err_regex;
 
 	strncpy(node->table_name, (char*)stack_peek_pos(&reg_pars, 0), sizeof(node->table_name) - 1 /* NUL-char */);
-- 
2.43.0


From a28b059477062a78feb4f48dcf6281621af25a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:27 +0000
Subject: [PATCH 50/73] fix: DELETE and UPDATE must say which column doesn't
 exist

---
 src/parser/semantic_delete.c |  5 ++++-
 src/parser/semantic_update.c | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parser/semantic_delete.c b/src/parser/semantic_delete.c
index 2af106c..9533a44 100644
--- a/src/parser/semantic_delete.c
+++ b/src/parser/semantic_delete.c
@@ -65,7 +65,10 @@ static bool __check_column_exists(struct database *db, struct ast_del_deleteone_
 		val_node = (typeof(val_node))node;
 
 		if (val_node->value_type.is_name) {
-			return column_exists(db, root, val_node);
+			if (!column_exists(db, root, val_node)) {
+				snprintf(out_err, out_err_len, "no such column: '%.128s'\n", val_node->name_val);
+				return false;
+			}
 		}
 	} else {
 		list_for_each(pos, node->node_children_head)
diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 8b8534f..eb7c744 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -65,12 +65,18 @@ static bool __check_column_exists(struct database *db, struct ast_upd_update_nod
 		val_node = (typeof(val_node))node;
 
 		if (val_node->value_type.is_name) {
-			return column_exists(db, root, val_node->name_val, sizeof(val_node->name_val));
+			if (!column_exists(db, root, val_node->name_val, sizeof(val_node->name_val))) {
+				snprintf(out_err, out_err_len, "no such column: '%.128s'\n", val_node->name_val);
+				return false;
+			}
 		}
 	} else if (node->node_type == AST_TYPE_UPD_ASSIGN) {
 		assign_node = (typeof(assign_node))node;
 
-		return column_exists(db, root, assign_node->field_name, sizeof(assign_node->field_name));
+		if (!column_exists(db, root, assign_node->field_name, sizeof(assign_node->field_name))) {
+			snprintf(out_err, out_err_len, "no such column: '%.128s'\n", assign_node->field_name);
+			return false;
+		}
 	} else {
 		list_for_each(pos, node->node_children_head)
 		{
-- 
2.43.0


From e88a3ee7d4b432e5017bedb1ee893fc4af8739e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:39 +0000
Subject: [PATCH 51/73] fix: DELETE and UPDATE conditions that can't be
 evaluated must be rejected

---
 src/parser/semantic_delete.c | 40 ++++++++++++++++++++++++++++++++
 src/parser/semantic_update.c | 44 ++++++++++++++++++++++++++++++++++++
 2 files changed, 84 insertions(+)

diff --git a/src/parser/semantic_delete.c b/src/parser/semantic_delete.c
index 9533a44..c8d9df9 100644
--- a/src/parser/semantic_delete.c
+++ b/src/parser/semantic_delete.c
@@ -87,6 +87,34 @@ static bool check_column_exists(struct database *db, struct ast_del_deleteone_no
 	return __check_column_exists(db, root, (struct ast_node*)root, out_err, out_err_len);
 }
 
+/* what WHERE (and the operands of AND, OR, XOR) holds must be conditions, whose operands must be fields or raw values */
+static bool check_conditions(struct ast_node *root, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+
+	list_for_each(pos, root->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (root->node_type == AST_TYPE_DEL_DELETEONE || root->node_type == AST_TYPE_DEL_LOGOP) {
+			if (tmp_entry->node_type == AST_TYPE_DEL_EXPRVAL) {
+				snprintf(out_err, out_err_len,
+						"expressions in where clause must be a type of comparison\n");
+				return false;
+			}
+		} else if (tmp_entry->node_type != AST_TYPE_DEL_EXPRVAL) {
+			snprintf(out_err, out_err_len, "conditions can only have fields and raw values\n");
+			return false;
+		}
+
+		if (!check_conditions(tmp_entry, out_err, out_err_len))
+			return false;
+	}
+
+	return true;
+}
+
 static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out_err_len)
 {
 	struct list_head *pos;
@@ -114,6 +142,11 @@ static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out
 				field_count++;
 			}
 
+			if (field_count == 0) {
+				snprintf(out_err, out_err_len, "field expected before IN-clause\n");
+				return false;
+			}
+
 			/*
 			 * ast_del_isxin_node holds the field which is part of the expression in the
 			 * linked-list. So it's expected to have 1 field but no more than that.
@@ -493,6 +526,13 @@ bool semantic_analyse_delete_stmt(struct database *db, struct ast_node *node, ch
 	if (!check_column_exists(db, deleteone_node, out_err, out_err_len))
 		return false;
 
+	/*
+	 * expr grammar rule is too generic so check that "WHERE 1", "WHERE f1", "WHERE (f1 = 1) = 1" and similar ones,
+	 * which are syntactically valid, are not used
+	 */
+	if (!check_conditions((struct ast_node*)deleteone_node, out_err, out_err_len))
+		return false;
+
 	/* are all values in the "field IN (xxxxx)" raw values? We can't have fields in there */
 	if (!check_isxin_entries((struct ast_node*)deleteone_node, out_err, out_err_len))
 		return false;
diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index eb7c744..9fd8546 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -94,6 +94,38 @@ static bool check_column_exists(struct database *db, struct ast_upd_update_node
 	return __check_column_exists(db, root, (struct ast_node*)root, out_err, out_err_len);
 }
 
+/* what WHERE (and the operands of AND, OR, XOR) holds must be conditions, whose operands must be fields or raw values */
+static bool check_conditions(struct ast_node *root, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+
+	list_for_each(pos, root->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		/* what is assigned isn't a condition */
+		if (tmp_entry->node_type == AST_TYPE_UPD_ASSIGN)
+			continue;
+
+		if (root->node_type == AST_TYPE_UPD_UPDATE || root->node_type == AST_TYPE_UPD_LOGOP) {
+			if (tmp_entry->node_type == AST_TYPE_UPD_EXPRVAL) {
+				snprintf(out_err, out_err_len,
+						"expressions in where clause must be a type of comparison\n");
+				return false;
+			}
+		} else if (tmp_entry->node_type != AST_TYPE_UPD_EXPRVAL) {
+			snprintf(out_err, out_err_len, "conditions can only have fields and raw values\n");
+			return false;
+		}
+
+		if (!check_conditions(tmp_entry, out_err, out_err_len))
+			return false;
+	}
+
+	return true;
+}
+
 static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out_err_len)
 {
 	struct list_head *pos;
@@ -121,6 +153,11 @@ static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out
 				field_count++;
 			}
 
+			if (field_count == 0) {
+				snprintf(out_err, out_err_len, "field expected before IN-clause\n");
+				return false;
+			}
+
 			/*
 			 * ast_upd_isxin_node holds the field which is part of the expression in the
 			 * linked-list. So it's expected to have 1 field but no more than that.
@@ -532,6 +569,13 @@ bool semantic_analyse_update_stmt(struct database *db, struct ast_node *node, ch
 	if (!check_column_exists(db, update_node, out_err, out_err_len))
 		return false;
 
+	/*
+	 * expr grammar rule is too generic so check that "WHERE 1", "WHERE f1", "WHERE (f1 = 1) = 1" and similar ones,
+	 * which are syntactically valid, are not used
+	 */
+	if (!check_conditions((struct ast_node*)update_node, out_err, out_err_len))
+		return false;
+
 	/* are all values in the "field IN (xxxxx)" raw values? We can't have fields in there */
 	if (!check_isxin_entries((struct ast_node*)update_node, out_err, out_err_len))
 		return false;
-- 
2.43.0


From d275148a82fdbed6aa377a262c1690ccf93ab78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:02 +0000
Subject: [PATCH 52/73] fix: UPDATE must reject assignments of anything but raw
 values

---
 src/parser/semantic_update.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 9fd8546..56619f3 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -496,6 +496,34 @@ static bool check_values_for_assign(struct ast_upd_assign_node *assign_node, str
 	return true;
 }
 
+/* what is assigned to a field must be a raw value - neither a field nor an expression can be evaluated */
+static bool check_assign_entries(struct ast_node *root, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos1, *pos2;
+	struct ast_upd_exprval_node *val_node;
+	struct ast_node *tmp_entry1, *tmp_entry2;
+
+	list_for_each(pos1, root->node_children_head)
+	{
+		tmp_entry1 = list_entry(pos1, typeof(*tmp_entry1), head);
+		if (tmp_entry1->node_type != AST_TYPE_UPD_ASSIGN)
+			continue;
+
+		list_for_each(pos2, tmp_entry1->node_children_head)
+		{
+			tmp_entry2 = list_entry(pos2, typeof(*tmp_entry2), head);
+			val_node = (typeof(val_node))tmp_entry2;
+
+			if (tmp_entry2->node_type != AST_TYPE_UPD_EXPRVAL || val_node->value_type.is_name) {
+				snprintf(out_err, out_err_len, "only raw values can be assigned to fields\n");
+				return false;
+			}
+		}
+	}
+
+	return true;
+}
+
 static bool __check_value_types(struct ast_node *root, struct hashtable *ht, char *out_err, size_t out_err_len)
 {
 
@@ -576,6 +604,10 @@ bool semantic_analyse_update_stmt(struct database *db, struct ast_node *node, ch
 	if (!check_conditions((struct ast_node*)update_node, out_err, out_err_len))
 		return false;
 
+	/* are all assigned values raw values? "SET f1 = f2" and "SET f1 = (f2 = 1)" are syntactically valid */
+	if (!check_assign_entries((struct ast_node*)update_node, out_err, out_err_len))
+		return false;
+
 	/* are all values in the "field IN (xxxxx)" raw values? We can't have fields in there */
 	if (!check_isxin_entries((struct ast_node*)update_node, out_err, out_err_len))
 		return false;
-- 
2.43.0


From e59692e1aa939d21b1b4c008420bacb4f44fa956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:30 +0000
Subject: [PATCH 53/73] fix: UPDATE must respect NOT NULL and VARCHAR length
 constraints

---
 src/parser/semantic_update.c | 61 ++++++++++++++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 56619f3..babffc6 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -524,6 +524,63 @@ static bool check_assign_entries(struct ast_node *root, char *out_err, size_t ou
 	return true;
 }
 
+/* assigned values have to respect the constraints of the columns just like the inserted ones do */
+static bool check_assign_constraints(struct database *db, struct ast_upd_update_node *root, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos1, *pos2;
+	struct ast_upd_assign_node *assign_node;
+	struct ast_upd_exprval_node *val_node;
+	struct ast_node *tmp_entry;
+	struct table *table;
+	struct column *column;
+	size_t len;
+
+	table = database_table_get(db, root->table_name);
+
+	list_for_each(pos1, root->node_children_head)
+	{
+		tmp_entry = list_entry(pos1, typeof(*tmp_entry), head);
+		if (tmp_entry->node_type != AST_TYPE_UPD_ASSIGN)
+			continue;
+
+		assign_node = (typeof(assign_node))tmp_entry;
+		column = NULL;
+
+		for (int i = 0; i < table->column_count; i++) {
+			if (strcmp(table->columns[i].name, assign_node->field_name) == 0) {
+				column = &table->columns[i];
+				break;
+			}
+		}
+
+		BUG_ON(!column);
+
+		list_for_each(pos2, assign_node->node_children_head)
+		{
+			val_node = list_entry(pos2, typeof(*val_node), head);
+
+			if (val_node->value_type.is_null && !column->nullable) {
+				snprintf(out_err, out_err_len, "NOT NULL constraint failed: %s.%s\n", table->name,
+						column->name);
+				return false;
+			}
+
+			if (val_node->value_type.is_str && column->type == CT_VARCHAR) {
+				len = strlen(val_node->str_val) + 1;
+				if (len > (size_t)column->precision) {
+					snprintf(out_err, out_err_len,
+							"column: '%s' supports up to %d ASCII chars, "
+							"value contains %lu\n",
+							column->name, column->precision, len);
+					return false;
+				}
+			}
+		}
+	}
+
+	return true;
+}
+
 static bool __check_value_types(struct ast_node *root, struct hashtable *ht, char *out_err, size_t out_err_len)
 {
 
@@ -624,5 +681,9 @@ bool semantic_analyse_update_stmt(struct database *db, struct ast_node *node, ch
 	if (!(check_value_types(db, update_node, out_err, out_err_len)))
 		return false;
 
+	/* are constraints respected? NOT NULL columns can't be set to NULL nor VARCHAR ones to values they can't hold */
+	if (!check_assign_constraints(db, update_node, out_err, out_err_len))
+		return false;
+
 	return true;
 }
-- 
2.43.0


From df868fdf82ef072c3111c11802d8b0683d971289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:59 +0000
Subject: [PATCH 54/73] fix: SELECT must reject IN and IS NULL conditions
 without a field

---
 src/parser/semantic_select.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 337129e..4f00af7 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2063,6 +2063,11 @@ static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out
 				return false;
 			}
 
+			if (field_count == 0) {
+				snprintf(out_err, out_err_len, "field expected before IN-clause\n");
+				return false;
+			}
+
 			/*
 			 * ast_sel_isxin_node holds the field which is part of the expression in the
 			 * linked-list. So it's expected to have 1 field but no more than that.
@@ -2108,8 +2113,9 @@ static bool check_isxnull_entries(struct ast_node *root, char *out_err, size_t o
 					return false;
 				}
 			} else if (tmp_entry->node_type != AST_TYPE_SEL_FIELDNAME) {
-				/* something I haven't foreseen */
-				BUG_GENERIC();
+				/* syntactically valid but there is no field in there: (f1 + 1) IS NULL */
+				snprintf(out_err, out_err_len, "only fields are allowed in IS NULL|IS NOT NULL\n");
+				return false;
 			}
 
 		}
-- 
2.43.0


From 0187216974b321e907306a4f69e35817ce0630b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:02 +0000
Subject: [PATCH 55/73] fix: SELECT expressions with a single operand must not
 abort the process

---
 src/parser/semantic_select.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 4f00af7..c55d526 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2243,8 +2243,8 @@ static struct sem_check_val_types check_value_types_exprop(struct ast_sel_exprop
 	struct ast_node *tmp_entry = NULL;
 	struct list_head *pos;
 
-	/* sanity check */
-	BUG_ON(list_length(node->node_children_head) != 2);
+	/* sanity check - negations (-f1, NOT f1) have a single operand */
+	BUG_ON(list_length(node->node_children_head) != 2 && list_length(node->node_children_head) != 1);
 
 	list_for_each(pos, node->node_children_head)
 	{
@@ -2258,6 +2258,9 @@ static struct sem_check_val_types check_value_types_exprop(struct ast_sel_exprop
 		i++;
 	}
 
+	if (i == 1)
+		right = left;
+
 	if (left.invalid || right.invalid) {
 		/* out_err has been set already */
 		ret.invalid = true;
@@ -2280,8 +2283,8 @@ static struct sem_check_val_types check_value_types_logop(struct ast_sel_logop_n
 	struct ast_node *tmp_entry = NULL;
 	struct list_head *pos;
 
-	/* sanity check */
-	BUG_ON(list_length(node->node_children_head) != 2);
+	/* sanity check - negations (-f1, NOT f1) have a single operand */
+	BUG_ON(list_length(node->node_children_head) != 2 && list_length(node->node_children_head) != 1);
 
 	list_for_each(pos, node->node_children_head)
 	{
@@ -2295,6 +2298,9 @@ static struct sem_check_val_types check_value_types_logop(struct ast_sel_logop_n
 		i++;
 	}
 
+	if (i == 1)
+		right = left;
+
 	if (left.invalid || right.invalid) {
 		/* out_err has been set already */
 		ret.invalid = true;
-- 
2.43.0


From 6e2589f24e6a31ac69e7975f0704998dd839658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:05 +0000
Subject: [PATCH 56/73] fix: fields missing from the group-by clause must be
 reported with a message

---
 src/parser/semantic_select.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index c55d526..d434ccd 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -1589,7 +1589,12 @@ static bool check_groupby_clause_inselect(struct ast_node *root, struct ast_node
 	}
 	else if (root->node_type == AST_TYPE_SEL_EXPRVAL
 			|| root->node_type == AST_TYPE_SEL_FIELDNAME) {
-		return is_node_in_groupby_clause(root, groupby_node);
+		if (!is_node_in_groupby_clause(root, groupby_node)) {
+			snprintf(out_err, out_err_len, "fields in the select list must be in the group-by clause\n");
+			return false;
+		}
+
+		return true;
 	}
 	else if (root->node_type == AST_TYPE_SEL_ALIAS) {
 		alias_node = (typeof(alias_node))root;
@@ -1607,7 +1612,13 @@ static bool check_groupby_clause_inselect(struct ast_node *root, struct ast_node
 				return true;
 		}
 
-		return is_node_in_groupby_clause(root, groupby_node);
+		if (!is_node_in_groupby_clause(root, groupby_node)) {
+			snprintf(out_err, out_err_len, "alias '%.128s' must be in the group-by clause\n",
+					alias_node->alias_value);
+			return false;
+		}
+
+		return true;
 	}
 	/* recursion */
 	else {
@@ -1710,8 +1721,11 @@ static bool check_groupby_clause(struct ast_node *root, char *out_err, size_t ou
 		 * 	SELECT f1, COUNT(f2) FROM B;  (should fail as f1 must be in the group-by clause)
 		 */
 		check_aggr_inselect_nogroupby(root, out_err, out_err_len, column_alias, &out_stats);
-		if (out_stats.no_count_fnc > 0 && out_stats.no_raw_fields > 0)
+		if (out_stats.no_count_fnc > 0 && out_stats.no_raw_fields > 0) {
+			snprintf(out_err, out_err_len,
+					"fields alongside COUNT function must be in the group-by clause\n");
 			return false;
+		}
 
 	}
 
-- 
2.43.0


From ade2347cccefa0fb703a82f88fd99c576dee9853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:27 +0000
Subject: [PATCH 57/73] fix: aliases of what has no type must be rejected
 rather than abort the process

---
 src/parser/semantic_select.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index d434ccd..b7b8b33 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -271,8 +271,11 @@ static bool check_column_alias(struct database *db, struct ast_node *root, char
 				/* table nodes are not used in this validation, so just move on */
 				continue;
 			} else {
-				/* is there an edge case that I haven't foreseen */
-				BUG_GENERIC();
+				/* syntactically valid but semantically wrong: SELECT f1 = 2 as val FROM A; */
+				snprintf(out_err, out_err_len,
+						"alias '%.128s' can only refer to fields, values, expressions and COUNT\n",
+						key);
+				return false;
 			}
 
 			/* is the name valid? column aliases follow table nomenclature rules */
@@ -2575,7 +2578,8 @@ static bool build_column_value_types_ht(struct database *db, struct ast_node *no
 	return true;
 }
 
-static enum COLUMN_TYPE extract_alias_types(struct ast_node *node, struct ast_sel_alias_node *alias_node, struct hashtable *ht, char *out_err, size_t out_err_len)
+static bool extract_alias_types(struct ast_node *node, struct ast_sel_alias_node *alias_node, struct hashtable *ht, char *out_err, size_t out_err_len,
+		enum COLUMN_TYPE *out_type)
 {
 	struct list_head *pos;
 	struct ast_node *tmp_entry;
@@ -2602,8 +2606,8 @@ static enum COLUMN_TYPE extract_alias_types(struct ast_node *node, struct ast_se
 
 			col_type = *(enum COLUMN_TYPE*)ht_value->content;
 		} else {
-			// most likely a new column type has been added
-			BUG_GENERIC();
+			/* there is no way to tell the type of NULL */
+			goto err;
 		}
 
 	} else if (node->node_type == AST_TYPE_SEL_EXPROP) {
@@ -2612,8 +2616,8 @@ static enum COLUMN_TYPE extract_alias_types(struct ast_node *node, struct ast_se
 		{
 			tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
-			col_type = extract_alias_types(tmp_entry, alias_node, ht, out_err, out_err_len);
-			break; /* single instance is fine as they are supposed to match type-wise */
+			/* single instance is fine as they are supposed to match type-wise */
+			return extract_alias_types(tmp_entry, alias_node, ht, out_err, out_err_len, out_type);
 		}
 
 	} else if (node->node_type == AST_TYPE_SEL_COUNT) {
@@ -2632,12 +2636,17 @@ static enum COLUMN_TYPE extract_alias_types(struct ast_node *node, struct ast_se
 		col_type = *(enum COLUMN_TYPE*)ht_value->content;
 
 	} else {
-		/* is there an edge case that I haven't foreseen */
-		BUG_GENERIC();
+		/* syntactically valid but semantically wrong: SELECT (f1 = 2) + 1 as val FROM A; */
+		goto err;
 	}
 
-	return col_type;
+	*out_type = col_type;
+	return true;
 
+err:
+	snprintf(out_err, out_err_len, "alias '%.128s' can only refer to fields, values, expressions and COUNT\n",
+			alias_node->alias_value);
+	return false;
 }
 
 static bool build_alias_value_types_ht(struct ast_node *node, struct hashtable *ht, char *out_err, size_t out_err_len)
@@ -2661,7 +2670,8 @@ static bool build_alias_value_types_ht(struct ast_node *node, struct hashtable *
 			}
 
 			strcpy(key, alias_node->alias_value);
-			col_type = extract_alias_types(tmp_entry, alias_node, ht, out_err, out_err_len);
+			if (!extract_alias_types(tmp_entry, alias_node, ht, out_err, out_err_len, &col_type))
+				return false;
 
 			if (!hashtable_put(ht, key, strlen(key) + 1, &col_type, sizeof(col_type))) {
 				snprintf(out_err, out_err_len, "semantic phase: internal error\n");
-- 
2.43.0


From af22c5e2d68a9514811fd3df2b5abf6fa0a2ed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:36 +0000
Subject: [PATCH 58/73] fix: SELECT statements that can't be executed must be
 rejected rather than abort the process

---
 src/engine/executor_select.c | 132 +++++++++++++++++++++++++++++++++++
 1 file changed, 132 insertions(+)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index b87175b..8c2352e 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1752,6 +1752,133 @@ static int handle_countonly_case(struct table *table)
 	return ret;
 }
 
+static bool is_supported_operand(struct ast_node *node)
+{
+	return node->node_type == AST_TYPE_SEL_FIELDNAME
+			|| (node->node_type == AST_TYPE_SEL_EXPRVAL
+					&& !((struct ast_sel_exprval_node*)node)->value_type.is_name);
+}
+
+/* aliases, recursive expressions and bare fields are syntactically valid but eval_row_cond can't evaluate them */
+static bool is_supported_cond(struct ast_node *node)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	bool first = true;
+	bool supported;
+
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		switch (node->node_type) {
+		case AST_TYPE_SEL_CMP:
+			supported = is_supported_operand(tmp_entry);
+			break;
+		case AST_TYPE_SEL_EXPRISXNULL:
+			supported = tmp_entry->node_type == AST_TYPE_SEL_FIELDNAME;
+			break;
+		case AST_TYPE_SEL_EXPRISXIN:
+			supported = is_supported_operand(tmp_entry)
+					&& (tmp_entry->node_type == AST_TYPE_SEL_FIELDNAME) == first;
+			break;
+		case AST_TYPE_SEL_LIKE:
+			supported = true;
+			break;
+		default:
+			/* what WHERE, ON and the logical operators hold must be conditions */
+			supported = !is_supported_operand(tmp_entry)
+					&& tmp_entry->node_type != AST_TYPE_SEL_EXPROP
+					&& is_supported_cond(tmp_entry);
+			break;
+		}
+
+		if (!supported)
+			return false;
+
+		first = false;
+	}
+
+	return true;
+}
+
+static bool is_supported_join(struct ast_sel_join_node *join_node)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	int nested_joins = 0;
+
+	if (join_node->join_type != AST_SEL_JOIN_INNER)
+		return false;
+
+	list_for_each(pos, join_node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (tmp_entry->node_type == AST_TYPE_SEL_JOIN) {
+			nested_joins++;
+
+			if (!is_supported_join((struct ast_sel_join_node*)tmp_entry))
+				return false;
+		} else if (tmp_entry->node_type == AST_TYPE_SEL_ONEXPR) {
+			if (!is_supported_cond(tmp_entry))
+				return false;
+		}
+	}
+
+	return nested_joins < 2;
+}
+
+/* not everything that is semantically valid can be executed (yet) */
+static bool check_supported(struct ast_sel_select_node *select_node, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos1, *pos2;
+	struct ast_node *tmp_entry1, *tmp_entry2;
+
+	list_for_each(pos1, select_node->node_children_head)
+	{
+		tmp_entry1 = list_entry(pos1, typeof(*tmp_entry1), head);
+
+		switch (tmp_entry1->node_type) {
+		case AST_TYPE_SEL_EXPRVAL:
+		case AST_TYPE_SEL_EXPROP:
+		case AST_TYPE_SEL_ALIAS:
+			snprintf(out_err, out_err_len,
+					"execution phase: only fields and COUNT are supported in the SELECT list\n");
+			return false;
+		case AST_TYPE_SEL_JOIN:
+			if (!is_supported_join((struct ast_sel_join_node*)tmp_entry1)) {
+				snprintf(out_err, out_err_len, "execution phase: JOIN not supported\n");
+				return false;
+			}
+			break;
+		case AST_TYPE_SEL_WHERE:
+			if (!is_supported_cond(tmp_entry1)) {
+				snprintf(out_err, out_err_len,
+						"execution phase: only comparisons among fields and raw values are supported in the WHERE-clause\n");
+				return false;
+			}
+			break;
+		case AST_TYPE_SEL_GROUPBY:
+			list_for_each(pos2, tmp_entry1->node_children_head)
+			{
+				tmp_entry2 = list_entry(pos2, typeof(*tmp_entry2), head);
+
+				if (tmp_entry2->node_type != AST_TYPE_SEL_FIELDNAME) {
+					snprintf(out_err, out_err_len,
+							"execution phase: only fields are supported in the GROUPBY-clause\n");
+					return false;
+				}
+			}
+			break;
+		default:
+			break;
+		}
+	}
+
+	return true;
+}
+
 int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *select_node, struct query_output *output)
 {
 	struct hashtable cols_ht = {0};
@@ -1759,6 +1886,11 @@ int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *se
 	struct ast_node *where_node, *groupby_node;
 	int ret = MIDORIDB_OK;
 
+	if (!check_supported(select_node, output->error.message, sizeof(output->error.message))) {
+		ret = -MIDORIDB_INTERNAL;
+		goto err;
+	}
+
 	if (!hashtable_init(&cols_ht, &hashtable_str_compare, &hashtable_str_hash)) {
 		snprintf(output->error.message, sizeof(output->error.message), "execution phase: internal error\n");
 		ret = -MIDORIDB_INTERNAL;
-- 
2.43.0


From 37959c44822e001d7b3313599a4a8724876e51ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:39 +0000
Subject: [PATCH 59/73] fix: a syntax error after a table name must not release
 the name twice

---
 src/parser/midorisql.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index b6da1d2..d2380f4 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -222,7 +222,7 @@ table_reference:  table_factor
   | join_table
   ;
 
-table_factor: NAME { emit(result, "TABLE %s", $1); free($1); } opt_as_alias  
+table_factor: NAME { emit(result, "TABLE %s", $1); } opt_as_alias { free($1); }
 	    ;
 
 opt_as_alias: AS NAME { emit (result, "ALIAS %s", $2); free($2); }
-- 
2.43.0


From e21cf695d2c22d236ccf863a7b46144295258478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:46 +0000
Subject: [PATCH 60/73] fix: LIMIT must reject anything but integers rather
 than abort the process

---
 src/parser/semantic_select.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index b7b8b33..8b77c4c 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2051,6 +2051,34 @@ static bool check_having_clause(struct ast_node *root, char *out_err, size_t out
 	return true;
 }
 
+static bool check_limit_clause(struct ast_node *root, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct ast_node *limit_node;
+	struct ast_sel_exprval_node *val_node;
+
+	limit_node = find_node(root, AST_TYPE_SEL_LIMIT);
+
+	if (limit_node) {
+		/*
+		 *	SELECT f1 FROM A LIMIT 10; (okay)
+		 *	SELECT f1 FROM A LIMIT f1; (only raw values are supported)
+		 *	SELECT f1 FROM A LIMIT 10 + 2; (only raw values are supported)
+		 */
+		list_for_each(pos, limit_node->node_children_head)
+		{
+			val_node = list_entry(pos, typeof(*val_node), head);
+
+			if (val_node->node_type != AST_TYPE_SEL_EXPRVAL || !val_node->value_type.is_intnum) {
+				snprintf(out_err, out_err_len, "only integer values are valid in limit clause\n");
+				return false;
+			}
+		}
+	}
+
+	return true;
+}
+
 static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out_err_len)
 {
 	struct list_head *pos;
@@ -2835,6 +2863,10 @@ bool semantic_analyse_select_stmt(struct database *db, struct ast_node *node, ch
 	if (!check_having_clause(node, out_err, out_err_len, &column_alias))
 		goto cleanup_tbl_ht;
 
+	/* check if limit-clause contains only integers */
+	if (!check_limit_clause(node, out_err, out_err_len))
+		goto cleanup_tbl_ht;
+
 	/* are all values in the "field IN (xxxxx)" raw values? We can't have fields in there */
 	if (!check_isxin_entries(node, out_err, out_err_len))
 		goto cleanup_tbl_ht;
-- 
2.43.0


From dfb5c5883b6202d46e724dd832d326ad2f7880aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:44 +0000
Subject: [PATCH 61/73] fix: a table that has an alias can only be referred to
 by its alias

---
 src/parser/semantic_select.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 8b77c4c..3a19c70 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -372,7 +372,8 @@ static bool check_fqfield_table(struct database *db, struct ast_node *root, stru
 			}
 		}
 
-	} else {
+	} else if (root->node_type != AST_TYPE_SEL_ALIAS) {
+		/* a table that has an alias can only be referred to by its alias */
 		list_for_each(pos, root->node_children_head)
 		{
 			tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
-- 
2.43.0


From 3ffebf48724304c3859c51dc19c85c86a63a0946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:19 +0000
Subject: [PATCH 62/73] fix: unqualified fields in JOIN ON expressions must be
 looked up in aliased tables too

---
 src/parser/semantic_select.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 3a19c70..dcfcbfb 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -1318,15 +1318,16 @@ static bool check_join_on_count(struct ast_node *node, char *out_err, size_t out
 static int check_join_on_fields_exprname(struct database *db, struct ast_sel_exprval_node *val_node,
 		struct ast_sel_join_node *join_node, char *out_err, size_t out_err_len)
 {
-	struct list_head *pos;
+	struct list_head *pos1, *pos2;
 	struct ast_node *tmp_entry;
 	struct ast_sel_join_node *new_join_node;
 	struct ast_sel_table_node *table_node;
+	struct ast_sel_alias_node *alias_node;
 	int count = 0;
 
-	list_for_each(pos, join_node->node_children_head)
+	list_for_each(pos1, join_node->node_children_head)
 	{
-		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+		tmp_entry = list_entry(pos1, typeof(*tmp_entry), head);
 
 		if (tmp_entry->node_type == AST_TYPE_SEL_TABLE) {
 			table_node = (typeof(table_node))tmp_entry;
@@ -1334,6 +1335,17 @@ static int check_join_on_fields_exprname(struct database *db, struct ast_sel_exp
 			if (column_exists(db, table_node, val_node->name_val))
 				count++;
 
+		} else if (tmp_entry->node_type == AST_TYPE_SEL_ALIAS) {
+			alias_node = (typeof(alias_node))tmp_entry;
+
+			list_for_each(pos2, alias_node->node_children_head)
+			{
+				table_node = list_entry(pos2, typeof(*table_node), head);
+
+				if (column_exists(db, table_node, val_node->name_val))
+					count++;
+			}
+
 		} else if (tmp_entry->node_type == AST_TYPE_SEL_JOIN) {
 			new_join_node = (typeof(new_join_node))tmp_entry;
 			count += check_join_on_fields_exprname(db, val_node, new_join_node, out_err, out_err_len);
-- 
2.43.0


From 29b3a87b9052dfae7e059098b7a4ba88bf0c66e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:49 +0000
Subject: [PATCH 63/73] fix: keys declared before their columns, or over
 indexed columns, must not be lost

---
 src/engine/executor_create.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_create.c b/src/engine/executor_create.c
index da4ad76..2d47cff 100644
--- a/src/engine/executor_create.c
+++ b/src/engine/executor_create.c
@@ -23,7 +23,8 @@ static void add_index(struct ast_crt_index_def_node *idx_def_node, struct table
 			col = &table->columns[i];
 
 			if (strncmp(col->name, entry->name, sizeof(col->name)) == 0) {
-				col->indexed = idx_def_node->is_index;
+				if (idx_def_node->is_index)
+					col->indexed = true;
 
 				/*
 				 * When primary key is defined after the column definition,
@@ -91,11 +92,18 @@ int executor_run_create_stmt(struct database *db, struct ast_crt_create_node *cr
 		if (entry->node_type == AST_TYPE_CRT_COLUMNDEF) {
 			if ((rc = add_column((struct ast_crt_column_def_node*)entry, table)))
 				goto err_add_col;
-		} else if (entry->node_type == AST_TYPE_CRT_INDEXDEF) {
-			add_index((struct ast_crt_index_def_node*)entry, table);
 		}
 	}
 
+	/* keys can be declared before the columns that they refer to */
+	list_for_each(pos, create_node->node_children_head)
+	{
+		entry = list_entry(pos, typeof(*entry), head);
+
+		if (entry->node_type == AST_TYPE_CRT_INDEXDEF)
+			add_index((struct ast_crt_index_def_node*)entry, table);
+	}
+
 	rc = database_table_add(db, table);
 
 early_ret:
-- 
2.43.0


From 956fa522dea06cacdfd951146d6557a626528481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:50 +0000
Subject: [PATCH 64/73] fix: CREATE TABLE that fails must release the whole
 table

---
 src/engine/executor_create.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_create.c b/src/engine/executor_create.c
index 2d47cff..8619665 100644
--- a/src/engine/executor_create.c
+++ b/src/engine/executor_create.c
@@ -104,7 +104,8 @@ int executor_run_create_stmt(struct database *db, struct ast_crt_create_node *cr
 			add_index((struct ast_crt_index_def_node*)entry, table);
 	}
 
-	rc = database_table_add(db, table);
+	if ((rc = database_table_add(db, table)))
+		goto err_add_table;
 
 early_ret:
 	output->n_rows_aff = 0;
@@ -112,9 +113,9 @@ early_ret:
 
 	return rc;
 
+err_add_table:
 err_add_col:
-	//TODO free columns added so far
-	free(table);
+	table_destroy(&table);
 err_tbl_init:
 	database_unlock(db);
 err:
-- 
2.43.0


From 82dd9300239d2a79d1801dd5fdccb511682f245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:45 +0000
Subject: [PATCH 65/73] fix: anything that separates tokens may stand between
 NOT and EXISTS

---
 src/parser/midorisql.y | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index d2380f4..a2d05fa 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -447,6 +447,8 @@ update_val_list: update_expr				{ $$ = 1; }
 opt_if_not_exists:  /* nil */ { $$ = 0; }
    | IF EXISTS           { if(!$2) { report_error(result, scanner, "IF EXISTS doesn't exist"); YYERROR; }
                         $$ = $2; /* NOT EXISTS hack */ }
+   | IF NOT EXISTS       { if($3) { report_error(result, scanner, "IF NOT NOT EXISTS doesn't exist"); YYERROR; }
+                        $$ = 1; /* anything but plain blanks between NOT and EXISTS */ }
    ;
 
 stmt: create_table_stmt { emit(result, "STMT"); }
-- 
2.43.0


From 61150da043255105f9d6a17cc609cc9b484f73af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:34 +0000
Subject: [PATCH 66/73] fix: dates that don't exist and text after a date must
 be rejected

---
 src/parser/semantic_delete.c | 12 +++++++++++-
 src/parser/semantic_insert.c | 12 +++++++++++-
 src/parser/semantic_select.c | 12 +++++++++++-
 src/parser/semantic_update.c | 12 +++++++++++-
 4 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/parser/semantic_delete.c b/src/parser/semantic_delete.c
index c8d9df9..22ebcb6 100644
--- a/src/parser/semantic_delete.c
+++ b/src/parser/semantic_delete.c
@@ -204,6 +204,8 @@ static bool check_isxnull_entries(struct ast_node *root, char *out_err, size_t o
 static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 {
 	struct tm time_struct = {0};
+	struct tm normalised;
+	char *end;
 	const char *fmt;
 	time_t time_out;
 
@@ -213,7 +215,15 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 		fmt = COLUMN_CTDATETIME_FMT;
 
 	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
+	end = strptime(str, fmt, &time_struct);
+	if (end == NULL || *end != '\0')
+		return false;
+
+	// Days that a month doesn't have would become days of the following one
+	normalised = time_struct;
+	normalised.tm_hour = 12;
+	mktime(&normalised);
+	if (normalised.tm_mday != time_struct.tm_mday)
 		return false;
 
 	// Convert the time structure to a time_t value
diff --git a/src/parser/semantic_insert.c b/src/parser/semantic_insert.c
index 1ecb77f..dd8efdc 100644
--- a/src/parser/semantic_insert.c
+++ b/src/parser/semantic_insert.c
@@ -204,6 +204,8 @@ static bool validate_number_terms(struct database *db, struct ast_ins_insvals_no
 static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 {
 	struct tm time_struct = {0};
+	struct tm normalised;
+	char *end;
 	const char *fmt;
 	time_t time_out;
 
@@ -213,7 +215,15 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 		fmt = COLUMN_CTDATETIME_FMT;
 
 	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
+	end = strptime(str, fmt, &time_struct);
+	if (end == NULL || *end != '\0')
+		return false;
+
+	// Days that a month doesn't have would become days of the following one
+	normalised = time_struct;
+	normalised.tm_hour = 12;
+	mktime(&normalised);
+	if (normalised.tm_mday != time_struct.tm_mday)
 		return false;
 
 	// Convert the time structure to a time_t value
diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index dcfcbfb..1a552a1 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -58,6 +58,8 @@ static void free_hashmap_entries(struct hashtable *hashtable, const void *key, s
 static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 {
 	struct tm time_struct = {0};
+	struct tm normalised;
+	char *end;
 	const char *fmt;
 	time_t time_out;
 
@@ -67,7 +69,15 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 		fmt = COLUMN_CTDATETIME_FMT;
 
 	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
+	end = strptime(str, fmt, &time_struct);
+	if (end == NULL || *end != '\0')
+		return false;
+
+	// Days that a month doesn't have would become days of the following one
+	normalised = time_struct;
+	normalised.tm_hour = 12;
+	mktime(&normalised);
+	if (normalised.tm_mday != time_struct.tm_mday)
 		return false;
 
 	// Convert the time structure to a time_t value
diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index babffc6..eae18fb 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -214,6 +214,8 @@ static bool check_isxnull_entries(struct ast_node *root, char *out_err, size_t o
 static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 {
 	struct tm time_struct = {0};
+	struct tm normalised;
+	char *end;
 	const char *fmt;
 	time_t time_out;
 
@@ -223,7 +225,15 @@ static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 		fmt = COLUMN_CTDATETIME_FMT;
 
 	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
+	end = strptime(str, fmt, &time_struct);
+	if (end == NULL || *end != '\0')
+		return false;
+
+	// Days that a month doesn't have would become days of the following one
+	normalised = time_struct;
+	normalised.tm_hour = 12;
+	mktime(&normalised);
+	if (normalised.tm_mday != time_struct.tm_mday)
 		return false;
 
 	// Convert the time structure to a time_t value
-- 
2.43.0


From c57c68bbd6d20d048e2f2e0c46358b9fd4c00fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:34 +0000
Subject: [PATCH 67/73] fix: a vector that fails to grow must keep its content

---
 src/datastructure/vector.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/datastructure/vector.c b/src/datastructure/vector.c
index d8ae49e..153a312 100644
--- a/src/datastructure/vector.c
+++ b/src/datastructure/vector.c
@@ -26,6 +26,7 @@ bool vector_init(struct vector *vec)
 bool vector_push(struct vector *vec, void *data, size_t len)
 {
 	size_t new_cap;
+	char *new_data;
 
 	/* sanity checks */
 	if (!vec || !data || len == 0)
@@ -34,12 +35,14 @@ bool vector_push(struct vector *vec, void *data, size_t len)
 	/* does the vector need to grow? */
 	if (vec->len + len > vec->capacity / 2) {
 		new_cap = (vec->len + len) * 3;
-		vec->data = realloc(vec->data, new_cap);
-		memzero(vec->data + vec->len, new_cap - vec->len);
+		new_data = realloc(vec->data, new_cap);
 
-		if (!vec->data)
+		/* what has been stored so far must not be lost */
+		if (!new_data)
 			return false;
 
+		memzero(new_data + vec->len, new_cap - vec->len);
+		vec->data = new_data;
 		vec->capacity = new_cap;
 	}
 
-- 
2.43.0


From 15466a3eeb5564a4c518f34b894253f4556991b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:35 +0000
Subject: [PATCH 68/73] fix: a row that runs out of memory must release exactly
 its own content

---
 src/primitive/row.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primitive/row.c b/src/primitive/row.c
index 1708f9a..94664e0 100644
--- a/src/primitive/row.c
+++ b/src/primitive/row.c
@@ -108,7 +108,7 @@ err:
 	 */
 	pos = 0;
 	for (int i = 0; i < column_idx; i++) {
-		struct column *column = &table->columns[column_idx];
+		struct column *column = &table->columns[i];
 		if (table_check_var_column(column)) {
 			void **col_idx_ptr = (void**)&new_row->data[pos];
 			free(*col_idx_ptr);
@@ -116,7 +116,7 @@ err:
 		pos += table_calc_column_space(column);
 	}
 
-	memzero(new_row->data, table_calc_row_size(table));
+	memzero(new_row->data, table_calc_row_data_size(table));
 	new_row->flags.empty = true;
 	new_row->flags.deleted = false;
 
-- 
2.43.0


From 22182f58eeea5ed896476e5715a1eba2e85805c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:36 +0000
Subject: [PATCH 69/73] fix: a comma list of tables that runs out of memory
 must release what it had built

---
 src/engine/optimiser_select.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/engine/optimiser_select.c b/src/engine/optimiser_select.c
index ad4eaaa..3af1698 100644
--- a/src/engine/optimiser_select.c
+++ b/src/engine/optimiser_select.c
@@ -448,18 +448,18 @@ int wrap_on_join_node(struct ast_node *left, struct ast_node *right)
 err_head:
 	free(join_node);
 err_node:
-err_onexpr:
 	/*ast_node is recursive so it will take care of cmp_node */
 	ast_free((struct ast_node*)onexpr_node);
 	return -MIDORIDB_INTERNAL;
-err_cmp:
+err_onexpr:
 	/*ast_node is recursive so it will take care of exprval */
 	ast_free((struct ast_node*)cmp_node);
 	return -MIDORIDB_INTERNAL;
-err_val_2:
+err_cmp:
 	ast_free((struct ast_node*)val_node_2);
-err_val_1:
+err_val_2:
 	ast_free((struct ast_node*)val_node_1);
+err_val_1:
 	return -MIDORIDB_INTERNAL;
 }
 
-- 
2.43.0


From 40351480e598bea7c47c4c2c0030ac671588e33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:15 +0000
Subject: [PATCH 70/73] fix: a statement whose tokens could not all be stored
 must be rejected

---
 src/parser/midorisql.l | 11 ++++++-----
 src/parser/midorisql.y | 11 ++++++++---
 src/parser/syntax.c    |  6 ++++++
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index c449109..18334d9 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -105,19 +105,19 @@ FALSE	{ yylval->intval = 0; return BOOL; }
    /* strings */
 
 '(\\.|''|[^'\n])*'	|
-\"(\\.|\"\"|[^"\n])*\"  { yylval->strval = quoted_literal(yytext, yyleng); return STRING; }
+\"(\\.|\"\"|[^"\n])*\"  { yylval->strval = quoted_literal(yytext, yyleng); return yylval->strval ? STRING : YYUNDEF; }
 
 '(\\.|[^'\n])*$	        { report_error(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
 \"(\\.|[^"\n])*$	{ report_error(NULL, yyscanner, "Unterminated string %s", yytext); return YYUNDEF; }
 
    /* hex strings */
 X'[0-9A-F]+' |  
-0X[0-9A-F]+  { yylval->strval = strdup(yytext); return STRING; }
+0X[0-9A-F]+  { yylval->strval = strdup(yytext); return yylval->strval ? STRING : YYUNDEF; }
 
    /* bit strings */
 
 0B[01]+      |
-B'[01]+'     { yylval->strval = strdup(yytext); return STRING; }
+B'[01]+'     { yylval->strval = strdup(yytext); return yylval->strval ? STRING : YYUNDEF; }
 
 
    /* operators */
@@ -146,8 +146,9 @@ B'[01]+'     { yylval->strval = strdup(yytext); return STRING; }
 COUNT/"("  { return FCOUNT; }
 
 [A-Za-z][A-Za-z0-9_]*	{ yylval->strval = strdup(yytext);
-                          return NAME; }
-`[^`/\\.\n]+`           { yylval->strval = strdup(yytext+1);
+                          return yylval->strval ? NAME : YYUNDEF; }
+`[^`/\\.\n]+`           { if (!(yylval->strval = strdup(yytext+1)))
+                            return YYUNDEF;
                           yylval->strval[yyleng-2] = 0;
                           return NAME; }
 
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index a2d05fa..9aa43ca 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -12,6 +12,11 @@ void report_error(struct queue*, void*, const char *, ...);
 bool emit(struct queue *q, char *s, ...);
 bool emit_float(struct queue *q, double val);
 int yylex(void*, void*);
+void yyset_extra(void*, void*);
+
+/* an entry that is lost would change the meaning of the statement, so let the caller of the parser know about it */
+#define emit(...)		do { if (!emit(__VA_ARGS__)) yyset_extra(scanner, scanner); } while (0)
+#define emit_float(...)		do { if (!emit_float(__VA_ARGS__)) yyset_extra(scanner, scanner); } while (0)
 %}
 
 %code requires { 
@@ -519,7 +524,7 @@ void report_error(struct queue *q, void* scanner, const char *s, ...)
 		fprintf(stderr, "%s\n", buf);
 }
 
-bool emit(struct queue *q, char *s, ...)
+bool (emit)(struct queue *q, char *s, ...)
 {
 	char *buf;
 	int len;
@@ -544,7 +549,7 @@ bool emit(struct queue *q, char *s, ...)
 	return ret;
 }
 
-bool emit_float(struct queue *q, double val)
+bool (emit_float)(struct queue *q, double val)
 {
 	char buf[64];
 
@@ -555,5 +560,5 @@ bool emit_float(struct queue *q, double val)
 			break;
 	}
 
-	return emit(q, "FLOAT %s", buf);
+	return (emit)(q, "FLOAT %s", buf);
 }
diff --git a/src/parser/syntax.c b/src/parser/syntax.c
index d9cedb6..8ee3057 100644
--- a/src/parser/syntax.c
+++ b/src/parser/syntax.c
@@ -28,6 +28,12 @@ int syntax_parse(char *in, struct queue *out)
 
 	bs = yy_scan_string(in, sc);
 	res = yyparse(out, sc);
+	if (!res && yyget_extra(sc)) {
+		/* the parser couldn't tell everything it found */
+		res = ENOMEM;
+		if (!queue_offer(out, strerror(res), strlen(strerror(res)) + 1))
+			fprintf(stderr, "error while gathering parser error \n");
+	}
 	yy_delete_buffer(bs, sc);
 	yylex_destroy(sc);
 
-- 
2.43.0


From 589c80e328a52321182d5b11a806ae28e6409d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:27 +0000
Subject: [PATCH 71/73] fix: INSERT that fails must insert nothing and tell why

---
 src/engine/executor_insert.c | 40 +++++++++++++++++++++++++++++++++++-
 src/engine/query.c           |  4 ++++
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/engine/executor_insert.c b/src/engine/executor_insert.c
index 63fe8a6..5aba05d 100644
--- a/src/engine/executor_insert.c
+++ b/src/engine/executor_insert.c
@@ -226,6 +226,36 @@ static int check_not_null_columns(struct table *table, struct ast_ins_insvals_no
 	return MIDORIDB_OK;
 }
 
+/* nothing is inserted if one of the rows can't be, so take the table back to where it was before the first row */
+static void undo_insert(struct table *table, struct list_head *last_blk, size_t free_offset)
+{
+	struct list_head *pos, *tmp_pos;
+	struct datablock *block;
+	size_t row_size = table_calc_row_size(table);
+	bool is_new = last_blk == table->datablock_head;
+
+	list_for_each_safe(pos, tmp_pos, table->datablock_head)
+	{
+		block = list_entry(pos, typeof(*block), head);
+
+		if (is_new || pos == last_blk) {
+			size_t first = is_new ? 0 : free_offset / row_size;
+
+			for (size_t i = first; i < DATABLOCK_PAGE_SIZE / row_size; i++)
+				table_free_row_content(table, (struct row*)&block->data[i * row_size]);
+
+			if (is_new)
+				datablock_free(block);
+			else
+				table_datablock_init(block, free_offset, row_size);
+
+			is_new = true;
+		}
+	}
+
+	table->free_dtbkl_offset = free_offset;
+}
+
 int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_node *ins_node,
 		struct query_output *output)
 {
@@ -233,6 +263,8 @@ int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_nod
 	struct ast_node *entry;
 	struct table *table;
 	struct row *row;
+	struct list_head *last_blk;
+	size_t free_offset;
 	int column_order[TABLE_MAX_COLUMNS];
 	int rc = MIDORIDB_OK;
 
@@ -248,6 +280,9 @@ int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_nod
 	/* columns can be specified in an order that's different from the order defined in the CREATE stmt */
 	build_column_order(table, ins_node, column_order, ARR_SIZE(column_order));
 
+	last_blk = table->datablock_head->prev;
+	free_offset = table->free_dtbkl_offset;
+
 	/* nothing is inserted unless every row is valid */
 	if ((rc = check_not_null_columns(table, ins_node, column_order, output)))
 		goto err;
@@ -260,8 +295,10 @@ int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_nod
 
 			row = zalloc(table_calc_row_size(table));
 
-			if (!row)
+			if (!row) {
+				rc = -MIDORIDB_NOMEM;
 				goto err_row_alloc;
+			}
 
 			if ((rc = build_row(table, (struct ast_ins_values_node*)entry, column_order, row, output)))
 				goto err_build_row;
@@ -283,6 +320,7 @@ err_ins_row:
 err_build_row:
 	free(row);
 err_row_alloc:
+	undo_insert(table, last_blk, free_offset);
 err:
 	return rc;
 }
diff --git a/src/engine/query.c b/src/engine/query.c
index 230810a..b16ee2d 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -105,6 +105,10 @@ err_syntax_parser:
 	queue_free(&queue);
 err_init_queue:
 	output->status = ST_ERROR;
+	/* not every phase can tell what went wrong */
+	if (!output->error.message[0])
+		snprintf(output->error.message, sizeof(output->error.message) - 1,
+				"internal error while running query\n");
 err:
 	return output;
 }
-- 
2.43.0


From 277c2f42c93a7b459a40b44bec56564e71488905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:43 +0000
Subject: [PATCH 72/73] fix: removing a B-tree key must not need memory that
 can run out

---
 src/datastructure/btree.c | 48 +++++----------------------------------
 1 file changed, 6 insertions(+), 42 deletions(-)

diff --git a/src/datastructure/btree.c b/src/datastructure/btree.c
index 0896e8f..bc7c51d 100644
--- a/src/datastructure/btree.c
+++ b/src/datastructure/btree.c
@@ -146,40 +146,6 @@ err_node:
 	return NULL;
 }
 
-static int __must_check btree_node_copy(struct btree_head *head, struct btree_node *dst, struct btree_node *src)
-{
-
-	int max_degree = btree_max_degree(head) + 1 /* sentinel node */;
-
-	dst->is_leaf = src->is_leaf;
-	dst->key_count = src->key_count;
-
-	if (!(dst->keys = calloc(max_degree, sizeof(struct btree_node_tuple))))
-		goto err;
-
-	memcpy(dst->keys, src->keys, max_degree * sizeof(struct btree_node_tuple));
-
-	if (!(dst->children = calloc(max_degree, sizeof(struct btree_node))))
-		goto err_children;
-
-	if (!src->is_leaf) {
-		for (int i = 0; i <= src->key_count; i++) {
-			if (btree_node_copy(head, &dst->children[i], &src->children[i]) != 0)
-				goto err_recur;
-		}
-	}
-
-	return 0;
-
-err_recur:
-	free(dst->children);
-err_children:
-	free(dst->keys);
-err:
-	printf("error while allocating mem");
-	return -MIDORIDB_NOMEM;
-}
-
 static int __must_check btree_split_child(struct btree_head *head, struct btree_node *x, int i)
 {
 	struct btree_node *y;
@@ -373,20 +339,18 @@ static int __must_check btree_node_merge(struct btree_head *head, struct btree_n
 		memzero(&sibling->keys[i], sizeof(struct btree_node_tuple));
 	}
 
-	// Copying the child pointers from C[idx+1] to C[idx]
+	// Moving the child pointers from C[idx+1] to C[idx]
 	if (!child->is_leaf) {
-		for (int i = 0; i <= sibling->key_count; ++i) {
-			if ((ret = btree_node_copy(head, &child->children[i + head->min_degree], &sibling->children[i]))
-					!= 0)
-				return ret;
-		}
+		for (int i = 0; i <= sibling->key_count; ++i)
+			child->children[i + head->min_degree] = sibling->children[i];
 	}
 
 	// Updating the key count of child and the current node
 	child->key_count += sibling->key_count + 1;
 
-	// Freeing the memory occupied by sibling
-	__btree_destroy(head, sibling);
+	// Freeing the memory occupied by sibling (its children belong to child now)
+	free(sibling->children);
+	free(sibling->keys);
 
 	// Moving all keys after idx in the current node one step before -
 	// to fill the gap created by moving keys[idx] to C[idx]
-- 
2.43.0


From 3d7d6c6daa8cc21e6a184edcc368326dc0afcb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:33 +0000
Subject: [PATCH 73/73] fix: too many chained operators must be rejected, not
 exhaust the stack

---
 src/parser/ast.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/parser/ast.c b/src/parser/ast.c
index 1196b52..e3a0359 100644
--- a/src/parser/ast.c
+++ b/src/parser/ast.c
@@ -8,10 +8,29 @@
 #include <parser/ast.h>
 #include <lib/string.h>
 
+/*
+ * Expressions are walked recursively. The parser limits how deep they can be nested but not how many operators can be
+ * chained, and each link of a chain (left-associative) makes the tree one level deeper.
+ */
+#define AST_MAX_CHAINED_OPS	10000
+
+static bool is_binary_operator(char *str)
+{
+	static const char *operators[] = {"AND", "OR", "XOR", "ADD", "SUB", "MUL", "DIV", "MOD"};
+
+	for (size_t i = 0; i < ARR_SIZE(operators); i++) {
+		if (strcmp(str, operators[i]) == 0)
+			return true;
+	}
+
+	return false;
+}
+
 struct ast_node* ast_build_tree(struct queue *parser)
 {
 	char *str = NULL;
 	size_t pos = 0;
+	size_t ops = 0;
 	bool found = false;
 
 	/* sanity checks */
@@ -19,10 +38,19 @@ struct ast_node* ast_build_tree(struct queue *parser)
 
 	/* walk to STMT */
 	while (pos < queue_length(parser)) {
-		if (strstarts((char*)queue_peek_pos(parser, pos), "STMT")) {
+		str = (char*)queue_peek_pos(parser, pos);
+		if (strstarts(str, "STMT")) {
 			found = true;
 			break;
 		}
+
+		if (is_binary_operator(str)) {
+			if (++ops > AST_MAX_CHAINED_OPS)
+				return NULL;
+		} else if (strstarts(str, "VALUES")) {
+			/* each row of an INSERT stmt has expressions of its own */
+			ops = 0;
+		}
 		pos++;
 	}
 
-- 
2.43.0

